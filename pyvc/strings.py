"""Strings whose characters are symbolic (used where a contract sets eng.strings).

A Str is a tuple of items: a character code (int or z3 Int, ASCII) or a Tok, the decimal text of a rational number
(a nonempty run of digits, possibly with a leading '-' and one '/', ending with a digit).
"""
from fractions import Fraction
import z3
from .vals import *
from .vals import Str, Tok
from .engine import zval, simp, And, Or, Not, PyRaise, IntS


def mk(items):
    items = tuple(conc1(x) for x in items)
    if all(isinstance(x, int) for x in items):
        return ''.join(map(chr, items))
    return Str(items)


def conc1(x):
    if is_z3(x):
        x = z3.simplify(x)
        if z3.is_int_value(x):
            return x.as_long()
    return x


def items(v):
    if isinstance(v, str):
        return tuple(ord(c) for c in v)
    if isinstance(v, Str):
        return v.items
    raise Unsupported('text')


def is_text(v):
    return isinstance(v, (str, Str))


def eq(eng, a, b):
    if not (is_text(a) and is_text(b)):
        return False
    x, y = items(a), items(b)
    if any(isinstance(t, Tok) for t in x + y):
        raise Unsupported('comparing texts with numbers')
    if len(x) != len(y):
        return False
    return And(*[simp(zval(p) == zval(q)) for p, q in zip(x, y)])


def ite(eng, c, a, b):
    x, y = items(a), items(b)
    if len(x) != len(y) or any(isinstance(t, Tok) for t in x + y):
        raise Unsupported('texts of different length')
    return mk(z3.If(zval(c), zval(p), zval(q)) for p, q in zip(x, y))


def subst(eng, v, pairs):
    return mk(Tok(eng.subst(t.v, pairs)) if isinstance(t, Tok) else eng.subst(t, pairs) for t in v.items)


def between(c, lo, hi):
    return z3.And(zval(c) >= ord(lo), zval(c) <= ord(hi))


def text_of(eng, v):
    """str(v)"""
    if is_text(v):
        return v
    if isinstance(v, bool) or v is None:
        return str(v)
    if isinstance(v, int):
        return str(v)
    if is_z3(v) and v.sort() == IntS and eng.known(z3.And(v >= 0, v <= 9)):
        return mk([v + 48])
    if is_z3(v) and z3.is_arith(v) or isinstance(v, Fraction):
        return Str((Tok(v),))
    if isinstance(v, Obj):
        m = eng.find_method(v.cls, '__str__')
        if m is not None:
            return eng.call_function(m, [v], {})
    if isinstance(v, UObj) and '__str__' in v.attrs:
        return v.attrs['__str__'](v)
    raise Unsupported('text of %s' % type(v).__name__)


def concat(*vs):
    return mk(sum((items(v) for v in vs), ()))


def fmt(eng, s, args):
    """'..{}..'.format(args) with plain fields"""
    parts = s.split('{}')
    if any('{' in p or '}' in p for p in parts) or len(parts) != len(args) + 1:
        raise Unsupported('format string')
    out = [parts[0]]
    for a, p in zip(args, parts[1:]):
        out += [text_of(eng, a), p]
    return concat(*out)


def percent(eng, s, args):
    import re
    args = args if isinstance(args, tuple) else (args,)
    parts = re.split('%[sd]', s)
    if any('%' in p for p in parts) or len(parts) != len(args) + 1:
        raise Unsupported('format string')
    out = [parts[0]]
    for a, p in zip(args, parts[1:]):
        out += [text_of(eng, a), p]
    return concat(*out)


def join(eng, sep, seq):
    xs = eng.concrete_items(seq)
    out = []
    for n, x in enumerate(xs):
        if isinstance(x, Opt):
            if eng.branch(x.isnone):
                raise PyRaise('TypeError', ('join',))
            x = x.val
        if not is_text(x):
            raise PyRaise('TypeError', ('join',))
        out += [sep, x] if n else [x]
    return concat(*out)


def find(eng, v, sep):
    """position of the first occurrence of the constant text sep, or None"""
    its, w = items(v), items(sep)
    for k in range(len(its) - len(w) + 1):
        part = its[k:k + len(w)]
        if any(isinstance(t, Tok) for t in part):
            continue        # the texts of numbers are followed by sep only as a whole: sep does not start inside them
        if eng.branch(And(*[simp(zval(p) == q) for p, q in zip(part, w)])):
            return k
    return None


def split(eng, v, sep):
    if not isinstance(sep, str) or not sep or sep[0] in '0123456789/' or sep == '-':
        raise Unsupported('split')
    out, rest = [], items(v)
    while True:
        k = find(eng, mk(rest), sep)
        if k is None:
            out.append(mk(rest))
            return eng.mklist(out)
        out.append(mk(rest[:k]))
        rest = rest[k + len(sep):]


def strip(eng, v, chars, left=True, right=True):
    its = list(items(v))
    codes = [ord(c) for c in (chars if chars is not None else ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0')]
    if any(chr(c) in '0123456789-/' for c in codes):
        raise Unsupported('strip')
    hit = lambda t: not isinstance(t, Tok) and eng.branch(simp(Or(*[simp(zval(t) == c) for c in codes])))
    while right and its and hit(its[-1]):
        its.pop()
    while left and its and hit(its[0]):
        its.pop(0)
    return mk(its)


def method(eng, s, name, args, kwargs):
    if kwargs:
        raise Unsupported('str.%s' % name)
    if name == 'join':
        return join(eng, s, args[0])
    if name == 'format' and isinstance(s, str):
        return fmt(eng, s, args)
    if name in ('strip', 'lstrip', 'rstrip'):
        return strip(eng, s, args[0] if args else None, name != 'rstrip', name != 'lstrip')
    if name == 'split' and len(args) == 1:
        return split(eng, s, args[0])
    its = items(s)
    if name in ('startswith', 'endswith') and len(args) == 1 and isinstance(args[0], str):
        n = len(args[0])
        part = its[:n] if name == 'startswith' else its[len(its) - n:] if n else ()
        if len(its) < n:
            return False
        if any(isinstance(t, Tok) for t in part):
            raise Unsupported('str.' + name)
        return eq(eng, mk(part), args[0])
    if name == 'partition' and len(args) == 1 and isinstance(args[0], str):
        k = find(eng, s, args[0])
        if k is None:
            return (s, '', '')
        return (mk(its[:k]), args[0], mk(its[k + len(args[0]):]))
    if any(isinstance(t, Tok) for t in its):
        raise Unsupported('str.%s of a text with numbers' % name)
    up = [between(c, 'A', 'Z') for c in its]
    lo = [between(c, 'a', 'z') for c in its]
    if name == 'lower':
        return mk(z3.If(u, zval(c) + 32, zval(c)) for c, u in zip(its, up))
    if name == 'upper':
        return mk(z3.If(u, zval(c) - 32, zval(c)) for c, u in zip(its, lo))
    if name == 'swapcase':
        return mk(z3.If(u, zval(c) + 32, z3.If(l, zval(c) - 32, zval(c))) for c, u, l in zip(its, up, lo))
    if name == 'isdigit' or name == 'isdecimal' or name == 'isnumeric':
        return And(len(its) > 0, *[between(c, '0', '9') for c in its])
    if name == 'isupper':
        return And(Or(*up), *[Not(x) for x in lo])
    if name == 'islower':
        return And(Or(*lo), *[Not(x) for x in up])
    if name == 'isalpha':
        return And(len(its) > 0, *[Or(u, l) for u, l in zip(up, lo)])
    raise Unsupported('str.%s' % name)


def index(eng, s, k):
    its = items(s)
    if isinstance(k, Slice):
        b = [x if x is None or isinstance(x, int) else simp(x) for x in (k.lo, k.hi, k.step)]
        if any(x is not None and not isinstance(x, int) for x in b):
            raise Unsupported('slice of a text')
        if any(isinstance(t, Tok) for t in its):
            raise Unsupported('slice of a text with numbers')
        return mk(its[b[0]:b[1]:b[2]])
    k = simp(k)
    if any(isinstance(t, Tok) for t in its):
        if k in (0, -1) and its and not isinstance(its[k], Tok):
            return mk([its[k]])
        raise Unsupported('index into a text with numbers')
    if isinstance(k, int):
        if not -len(its) <= k < len(its):
            raise PyRaise('IndexError', ('string',))
        return mk([its[k]])
    if not eng.branch(z3.And(k >= 0, k < len(its))):
        raise Unsupported('index into a text')
    r = zval(its[-1])
    for j in reversed(range(len(its) - 1)):
        r = z3.If(k == j, zval(its[j]), r)
    return mk([r])


def number(eng, v):
    """int(text)"""
    its = items(v)
    if not its or any(isinstance(t, Tok) for t in its):
        raise Unsupported('int of a text')
    if not eng.branch(And(*[between(c, '0', '9') for c in its])):
        raise Unsupported('int of a text')
    r = z3.IntVal(0)
    for c in its:
        r = r * 10 + zval(c) - 48
    return simp(r)


def rational(eng, v):
    its = items(strip(eng, v, None))
    if len(its) == 1 and isinstance(its[0], Tok):
        return its[0].v
    if any(isinstance(t, Tok) for t in its):
        raise PyRaise('ValueError', ('Fraction of a text',))
    return number(eng, mk(its))


def contains(eng, s, x):
    if isinstance(x, str) and len(x) != 1 or isinstance(x, Str) and len(x.items) != 1:
        raise Unsupported('search in a text')
    return Or(*[eq(eng, mk([t]), x) for t in items(s) if not isinstance(t, Tok)])
