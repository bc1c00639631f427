"""Builtins, itertools, collections: models assumed by the generator (listed as trusted in the evidence)."""
import ast
from fractions import Fraction

import z3

from .vals import *
from . import engine as E
from . import strings
from .engine import (Engine, Env, PyRaise, Poison, GenIter, NumOf, DenOf, DictView, ExtType, NOTIMPL, FlatSeq,
                     zval, conc, simp, toreal, And, Or, Not, Implies, ForAll, Exists, occurs, IntS, RealS, BoolS)
from .interp import StarArg, NeedState


EXC = ('ValueError', 'KeyError', 'IndexError', 'TypeError', 'Exception', 'NotImplementedError', 'RuntimeError',
       'AssertionError', 'StopIteration', 'AttributeError', 'ZeroDivisionError', 'LookupError')


def lookup(eng, name):
    if name in ('tuple', 'list', 'dict', 'set', 'frozenset', 'int', 'bool', 'str', 'object', 'float', 'type', 'range', 'property') + EXC:
        return ExtType(name)
    f = BUILTINS.get(name)
    if f is not None:
        return Builtin(name, lambda *a, **k: f(eng, *a, **k))
    if name == 'NotImplemented':
        return NOTIMPL
    if name == '__name__':
        return 'module'
    return None


def ext(eng, mod, name):
    top = (mod or '').split('.')[0]
    if name == 'Fraction':
        return ExtType('Fraction')
    if top in ('typing', 'collections.abc') or mod in ('collections.abc', 'numbers'):
        return ExtType(name)
    if mod in ('collections',):
        if name == 'namedtuple':
            return Builtin('namedtuple', lambda tn, fields, **k: NTClass(tn, [x for x in eng.concrete_items(fields)] if not isinstance(fields, str) else fields.replace(',', ' ').split()))
        return ExtType(name)
    if mod == 'itertools':
        if name == 'chain':
            return ExtType('chain')
        f = ITER.get(name)
        if f is None:
            raise Unsupported('itertools.' + name)
        return Builtin(name, lambda *a, **k: f(eng, *a, **k))
    if mod == 'heapq':
        f = HEAPQ.get(name)
        if f is None:
            raise Unsupported('heapq.' + name)
        return Builtin(name, lambda *a, **k: f(eng, *a, **k))
    if mod == 'dataclasses':
        return Builtin(name, lambda *a, **k: Poison('dataclasses.' + name))
    if mod == 'functools':
        if name in ('lru_cache', 'cache'):
            return Builtin(name, lambda *a, **k: a[0] if a and isinstance(a[0], (FuncInfo, BoundMethod)) else Builtin('deco', lambda f: f))
        if name == 'reduce':
            raise Unsupported('reduce')
    if mod == 'math':
        if name == 'gcd':
            return Builtin('gcd', lambda a, b: gcd(eng, a, b))
    if mod == 'logging':
        return Builtin(name, lambda *a, **k: Poison('logging'))
    if mod == 'operator':
        return Builtin(name, {'mul': lambda a, b: eng.binop(ast.Mult(), a, b), 'add': lambda a, b: eng.binop(ast.Add(), a, b),
                              'sub': lambda a, b: eng.binop(ast.Sub(), a, b), 'xor': lambda a, b: eng.binop(ast.BitXor(), a, b),
                              'neg': lambda a: eng.arith(ast.Sub, 0, a), 'itemgetter': lambda k: Builtin('get', lambda o: eng.getitem(o, k)),
                              'attrgetter': lambda k: Builtin('get', lambda o: eng.getattr(o, k))}.get(name) or _uns('operator.' + name))
    if mod and mod.startswith('pysat'):
        return ExtType(name)
    raise Unsupported('%s.%s' % (mod, name))


def _uns(what):
    def f(*a, **k):
        raise Unsupported(what)
    return f


def gcd(eng, a, b):
    if isinstance(a, int) and isinstance(b, int):
        import math
        return math.gcd(a, b)
    raise Unsupported('gcd')


def call_type(eng, t, args, kwargs):
    n = t.name
    if n in ('tuple',):
        if not args:
            return ()
        v = args[0]
        if isinstance(v, LSet):
            raise Unsupported('tuple of a set')
        s = eng.iter_of(v)
        if isinstance(s, Bag):
            if len(s.events) <= 5 and all(not e.binders for e in s.events) and not eng.binders:
                return tuple(e.value for e in s.events if eng.branch(e.cond))
            return BagTuple(s)
        return s
    if n == 'list':
        if not args:
            return eng.mklist([])
        v = args[0]
        if isinstance(v, LDict):
            v = DictView(v, 'keys')
        s = eng.iter_of(v)
        return eng.mklist(list(s) if isinstance(s, tuple) else s)
    if n in ('set', 'frozenset'):
        s = LSet()
        s.birth = eng.new_birth()
        if args:
            if isinstance(args[0], LSet):
                s.puts, s.base = list(args[0].puts), args[0].base
                return s
            it = eng.iter_of(args[0])
            if isinstance(it, tuple):
                s.puts = list(it)
            else:
                s.base = eng.bag_of(it)
        return s
    if n == 'dict':
        d = LDict()
        d.birth = eng.new_birth()
        if args:
            if isinstance(args[0], LDict):
                src = args[0]
                d.puts, d.base = list(src.puts), src.base
                if getattr(src, 'comp', None):
                    d.comp = src.comp
                return d
            d = eng.dict_from_pairs(eng.iter_of(args[0]))
        for k, v in kwargs.items():
            eng.dict_put(d, k, v)
        return d
    if n == 'defaultdict':
        d = LDict()
        d.birth = eng.new_birth()
        d.default = args[0] if args else None
        return d
    if n == 'Counter':
        d = LDict()
        d.birth = eng.new_birth()
        d.default = Builtin('zero', lambda: 0)
        if args:
            for x in eng.concrete_items(args[0]):
                eng.dict_put(d, x, simp(eng.dict_get(d, x) + 1))
        return d
    if n == 'int':
        v = args[0]
        if isinstance(v, Str):
            return strings.number(eng, v)
        if isinstance(v, (int, str, Fraction)):
            return int(v)
        if is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if v.sort() == IntS:
            return v
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
    if n == 'bool':
        return eng.truth(args[0]) if args else False
    if n == 'str':
        if args and isinstance(args[0], str):
            return args[0]
        if args and isinstance(args[0], int):
            return str(args[0])
        if args and eng.strings:
            return strings.text_of(eng, args[0])
        return Poison('string')
    if n == 'float':
        return toreal(args[0]) if is_z3(args[0]) else Fraction(args[0])
    if n == 'Fraction':
        return mkfraction(eng, *args)
    if n == 'range':
        return BUILTINS['range'](eng, *args)
    if n == 'type':
        v = args[0]
        if isinstance(v, Obj):
            return v.cls
        raise Unsupported('type()')
    if n == 'chain':
        return eng.chain(*args)
    if n == 'object':
        raise Unsupported('object()')
    if n == 'deque':
        return call_type(eng, ExtType('list'), args, {})
    if n in eng.ext_ctors:
        return eng.ext_ctors[n](*args, **kwargs)
    raise Unsupported('constructor %s' % n)


class BagTuple(Seq):
    """tuple of a filtered collection: only membership / iteration are meaningful"""
    __slots__ = ('bag',)

    def __init__(self, bag):
        super().__init__(None, None)
        self.bag = bag


def mkfraction(eng, *args):
    if len(args) == 0:
        return Fraction(0)
    a = args[0]
    if isinstance(a, Opt):
        if eng.branch(a.isnone):
            raise PyRaise('TypeError', ('Fraction(None)',))
        a = a.val
    if isinstance(a, str):
        return Fraction(a)
    if isinstance(a, Str) and len(args) == 1:
        return strings.rational(eng, a)
    if not (is_num(a) or is_bool(a)):
        raise PyRaise('TypeError', ('Fraction of %r' % (a,),))
    if len(args) == 1:
        if is_z3(a):
            return toreal(a)
        return Fraction(a)
    b = args[1]
    if isinstance(b, Opt):
        if eng.branch(b.isnone):
            raise PyRaise('TypeError', ('Fraction(.., None)',))
        b = b.val
    if not (is_num(b) or is_bool(b)):
        raise PyRaise('TypeError', ('Fraction(.., %r)' % (b,),))
    if not is_z3(b):
        if b == 0:
            raise PyRaise('ZeroDivisionError')
    elif not eng.known(b != 0):
        if not eng.branch(b != 0):
            raise PyRaise('ZeroDivisionError')
    if not is_z3(a) and not is_z3(b):
        return Fraction(a) / Fraction(b)
    return toreal(a) / toreal(b)


# ------------------------------------------------------------------ builtin functions
def b_range(eng, *a):
    a = [simp(x) for x in a]
    for x in a:
        if x is None or not (is_num(x) or is_bool(x)):
            raise PyRaise('TypeError', ('range',))
    if all(isinstance(x, int) for x in a):
        return tuple(range(*a))
    if len(a) == 3:
        if isinstance(a[2], int) and a[2] == -1:
            lo, hi = a[0], a[1]
            n = simp(lo - hi)
            n = n if eng.known(n >= 0) else z3.If(n >= 0, n, z3.IntVal(0))
            return Seq(n, lambda i: simp(lo - i), 'range')
        if not (isinstance(a[2], int) and a[2] == 1):
            raise Unsupported('range step')
    lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
    n = simp(zval(hi) - zval(lo))
    if is_z3(n) and not eng.known(n >= 0):
        n = z3.If(n >= 0, n, z3.IntVal(0))
    return Seq(n, lambda i: simp(zval(i) + zval(lo)) if not (isinstance(lo, int) and lo == 0) else i, 'range')


def b_len(eng, v):
    if isinstance(v, LList):
        eng.check_read(v)
    return eng.length(v)


def b_enumerate(eng, v, start=0):
    it = eng.iter_of(v)
    if isinstance(it, tuple):
        return GenIter(tuple((k + start, x) for k, x in enumerate(it)))
    if isinstance(it, Bag):
        # positions: some number for every member, nothing more is known
        eng.abstracted = True
        out = []
        for ev in it.events:
            bs, c, x = eng.rename_event(ev)
            pos = eng.fresh_fun('position', *[b.sort() for b in bs], IntS)(*bs) if bs else eng.fresh('position', IntS)
            out.append(Event(bs, And(c, pos >= 0), (simp(pos + start), x)))
            if bs:
                eng.assume(ForAll(bs, Implies(c, pos >= 0)))
            else:
                eng.assume(pos >= 0)
            out[-1].cond = c
        return GenIter(eng.mklist(Bag(out, it.ordered)))
    return GenIter(Seq(it.n, lambda i: (simp(i + start), it.get(i))))


def b_zip(eng, *vs, strict=False):
    its = []
    for v in vs:
        if isinstance(v, StarArg):
            raise Unsupported('zip(*..)')
        its.append(eng.iter_of(v))
    if any(isinstance(i, Bag) for i in its):
        raise Unsupported('zip of filtered collections')
    if all(isinstance(i, tuple) for i in its):
        return GenIter(tuple(zip(*its)))
    ns = [len(i) if isinstance(i, tuple) else i.n for i in its]
    n = ns[0]
    for m in ns[1:]:
        if isinstance(n, int) and isinstance(m, int):
            n = min(n, m)
        elif not is_z3(eng.eq(n, m)) and eng.eq(n, m) is True:
            pass
        elif eng.known(zval(n) == zval(m)):
            n = n if isinstance(n, int) else m
        elif eng.known(zval(n) <= zval(m)):
            pass
        elif eng.known(zval(m) <= zval(n)):
            n = m
        else:
            n = z3.If(zval(n) <= zval(m), zval(n), zval(m))
    seqs = [eng.as_seq(i) for i in its]
    if isinstance(n, int):
        return GenIter(tuple(tuple(s.get(i) for s in seqs) for i in range(n)))
    return GenIter(Seq(n, lambda i: tuple(s.get(i) for s in seqs)))


def b_reversed(eng, v):
    if isinstance(v, LList):
        eng.check_read(v)
    if isinstance(v, GenIter):
        raise PyRaise('TypeError', ('generator is not reversible',))
    return GenIter(eng.reverse(v))


def b_isinstance(eng, v, t):
    if isinstance(t, tuple):
        return Or([b_isinstance(eng, v, x) for x in t])
    if isinstance(v, Opt):
        return And(Not(v.isnone), b_isinstance(eng, v.val, t))
    if v is None:
        return False
    if isinstance(v, Obj):
        if isinstance(v.cls, ClassInfo):
            if isinstance(t, ClassInfo):
                return eng.is_subclass(v.cls, t)
            if isinstance(t, ExtType):
                if t.name in ('tuple',):
                    return v.payload is not None
                if t.name in ('str', 'int', 'list', 'dict', 'Fraction', 'bool', 'set', 'Mapping'):
                    return False
                if t.name in ('Iterable', 'Sequence', 'Sized', 'Hashable') and v.payload is not None:
                    return True
        raise Unsupported('isinstance')
    if isinstance(v, UObj):
        if isinstance(t, ClassInfo):
            return t.name in v.attrs.get('__classes__', (v.tag,))
        return False
    if isinstance(t, ClassInfo):
        return False
    if isinstance(t, ExtType):
        n = t.name
        if isinstance(v, (str, Str)):
            return n in ('str', 'Iterable', 'Sequence', 'Sized', 'Hashable')
        if is_bool(v):
            return n in ('bool', 'int', 'Number')
        if is_num(v):
            isint = isinstance(v, int) or (is_z3(v) and v.sort() == IntS)
            if n == 'int':
                return isint
            if n == 'Fraction':
                if isint:
                    return False
                return True
            return n == 'Number'
        if isinstance(v, (tuple, Seq, NTVal)):
            return n in ('tuple', 'Iterable', 'Sequence', 'Sized', 'Hashable')
        if isinstance(v, LList):
            return n in ('list', 'Iterable', 'Sequence', 'Sized')
        if isinstance(v, LDict):
            return n in ('dict', 'Mapping', 'Iterable', 'Sized', 'defaultdict')
        if isinstance(v, GenIter):
            return n in ('Iterable', 'Iterator', 'Generator')
    raise Unsupported('isinstance of %r' % (v,))


def b_hash(eng, v):
    if isinstance(v, Obj):
        m = eng.find_method(v.cls, '__hash__')
        if m is not None:
            return eng.call_function(m, [v], {})
    if isinstance(v, (LList, LDict, LSet)) and not isinstance(v, LSet):
        raise PyRaise('TypeError', ('unhashable',))
    return HashVal(v)


def b_abs(eng, v):
    if isinstance(v, Opt):
        raise Unsupported('abs(optional)')
    if not is_z3(v):
        return abs(v)
    return z3.If(v >= 0, v, -v)


def b_minmax(name):
    less = ast.Lt if name == 'min' else ast.Gt

    def f(eng, *args, key=None, default=None):
        if len(args) > 1:
            items = tuple(args)
        else:
            items = eng.iter_of(args[0])
        if isinstance(items, tuple):
            if not items:
                if default is not None:
                    return default
                raise PyRaise('ValueError', (name,))
            k = (lambda x: eng.call(key, [x])) if key is not None else (lambda x: x)
            best = items[0]
            for x in items[1:]:
                c = eng.order(less, k(x), k(best))
                best = eng.ite(c, x, best)
            return best
        if key is not None:
            raise Unsupported('min/max with key')
        return eng.minmax_symbolic(name, items, default)
    return f


def minmax_symbolic(eng, name, items, default):
    bag = eng.bag_of(items) if not isinstance(items, Bag) else items
    ne = eng.bag_nonempty(bag)
    if isinstance(items, Seq) and not isinstance(items, Bag):
        ne = zval(items.n) > 0
    if not eng.branch(ne):
        if default is not None:
            return default
        raise PyRaise('ValueError', (name,))
    vals = [ev.value for ev in bag.events]
    if not all(is_num(v) for v in vals):
        h = getattr(eng, 'minmax_hook', None)
        if h is not None:
            return h(eng, name, bag)
        raise Unsupported('%s of non-numbers' % name)
    sort = RealS if any((is_z3(v) and v.sort() == RealS) or isinstance(v, Fraction) for v in vals) else IntS
    r = eng.fresh(name, sort)
    some = []
    for ev in bag.events:
        v = zval(ev.value)
        if v.sort() != sort:
            v = toreal(v)
        bound = (r <= v) if name == 'min' else (r >= v)
        eng.assume(ForAll(ev.binders, Implies(ev.cond, bound)))
        some.append(Exists(ev.binders, And(ev.cond, r == v)) if ev.binders else And(ev.cond, r == v))
    eng.assume(Or(some))
    eng.add_reduction(name, r, items)
    return r


def add_reduction(eng, kind, r, items):
    if isinstance(items, (Seq, tuple)) and not isinstance(items, FlatSeq):
        eng.reductions.append((kind, r, items))
        for k2, r2, it2 in eng.reductions[:-1]:
            if k2 == kind and isinstance(it2, (Seq, tuple)) and r2.sort() == r.sort():
                try:
                    e = eng.eq_seq(items, it2)
                except Unsupported:
                    continue
                eng.assume(Implies(e, r == r2))


def b_sum(eng, v, start=0):
    it = eng.iter_of(v)
    if isinstance(it, tuple):
        r = start
        for x in it:
            r = eng.binop(ast.Add(), r, x)
        return r
    if isinstance(it, Bag):
        h = getattr(eng, 'bag_len', None)
        cs = {ev.value for ev in it.events if isinstance(ev.value, int)}
        if h is not None and len(cs) == 1 and all(isinstance(ev.value, int) for ev in it.events):
            return eng.binop(ast.Add(), start, eng.binop(ast.Mult(), h(it), cs.pop()))
        raise Unsupported('sum of a filtered collection')
    i = eng.index_var('s')
    probe = it.get(i)
    if isinstance(simp(probe), int) and not isinstance(probe, bool):      # a constant, n times
        return eng.binop(ast.Add(), start, eng.binop(ast.Mult(), it.n, simp(probe)))
    if is_bool(probe):
        g = it.get
        it = Seq(it.n, lambda j: z3.If(zval(g(j)), z3.IntVal(1), z3.IntVal(0)))
        probe = it.get(i)
    if not is_num(probe):
        raise Unsupported('sum of non-numbers')
    sort = zval(probe).sort()
    r = eng.fresh('sum', sort)
    eng.abstracted = True       # no more is known of it than equal sums of equal sequences
    eng.add_reduction('sum', r, it)
    if start != 0:
        return r + start
    return r


def b_anyall(name):
    def f(eng, v):
        it = eng.iter_of(v)
        if isinstance(it, tuple):
            bs = [eng.truth(x) for x in it]
            return Or(bs) if name == 'any' else And(bs)
        bag = eng.bag_of(it)
        out = []
        for ev in bag.events:
            t = eng.truth(ev.value)
            if name == 'any':
                out.append(Exists(ev.binders, And(ev.cond, t)) if ev.binders else And(ev.cond, t))
            else:
                out.append(ForAll(ev.binders, Implies(ev.cond, t)))
        return Or(out) if name == 'any' else And(out)
    return f


def b_sorted(eng, v, key=None, reverse=False):
    it = eng.iter_of(v)
    if isinstance(it, tuple) and all(not is_z3(x) and is_num(x) for x in it) and key is None:
        return eng.mklist(sorted(it, reverse=bool(reverse)))
    h = getattr(eng, 'sorted_hook', None)
    if h is not None:
        return h(eng, it, key, reverse)
    if key is None and reverse is False and isinstance(it, tuple):
        return eng.mklist(sort_numbers(eng, it))
    raise Unsupported('sorted')


def sort_numbers(eng, it):
    """a few numbers in increasing order (compare and exchange)"""
    if len(it) > 4 or not all(is_num(x) for x in it):
        raise Unsupported('sorted')
    l = list(it)
    for a in range(len(l)):
        for b in range(len(l) - 1 - a):
            x, y = l[b], l[b + 1]
            le = eng.compare(ast.LtE(), x, y)
            l[b], l[b + 1] = eng.ite(le, x, y), eng.ite(le, y, x)
    return l


def b_next(eng, it, *default):
    if not isinstance(it, GenIter):
        raise Unsupported('next of %r' % (it,))
    c = it.coll
    content = c.content if isinstance(c, LList) else c
    if isinstance(content, (tuple, list)):
        items = list(content)
        if not items:
            if default:
                return default[0]
            raise PyRaise('StopIteration')
        it.coll = eng.mklist(items[1:])
        return items[0]
    if isinstance(content, Seq):
        if eng.branch(zval(content.n) > 0):
            it.coll = Poison('rest of iterator')
            return content.get(0)
        if default:
            return default[0]
        raise PyRaise('StopIteration')
    # first element of a filtered collection: some member (which one is not modelled)
    bag = eng.bag_of(c)
    if not eng.branch(eng.bag_nonempty(bag)):
        if default:
            return default[0]
        raise PyRaise('StopIteration')
    return eng.choose(bag)


def choose(eng, bag):
    """Arbitrary member of a nonempty bag."""
    evs = list(bag.events)
    while len(evs) > 1:
        ev = evs.pop(0)
        if ev.binders:
            raise Unsupported('choice among several events')
        if eng.branch(And(eng.fresh('take', BoolS), ev.cond)):
            return ev.value
    ev = evs[0]
    consts = [eng.fresh('pick', b.sort()) for b in ev.binders]
    pairs = list(zip(ev.binders, consts))
    eng.assume(eng.subst(ev.cond, pairs) if pairs else ev.cond)
    return eng.subst(ev.value, pairs) if pairs else ev.value


def b_map(eng, f, *its):
    if len(its) != 1:
        z = b_zip(eng, *its)
        it = eng.iter_of(z)
        fn = lambda x: eng.call(f, list(x))
    else:
        it = eng.iter_of(its[0])
        fn = lambda x: eng.call(f, [x])
    if isinstance(it, tuple):
        return GenIter(tuple(fn(x) for x in it))
    if isinstance(it, Seq):
        return GenIter(eng.gen_seq(it.n, lambda i: fn(it.get(i))))
    raise Unsupported('map over a filtered collection')


def b_callable(eng, v):
    return isinstance(v, (FuncInfo, BoundMethod, Builtin, ClassInfo))


def b_hasattr(eng, o, name):
    if isinstance(o, Obj):
        if name in o.f:
            return True
        found, _, _ = eng.class_attr(o.cls, name)
        return found
    if isinstance(o, UObj):
        return name in o.attrs
    raise Unsupported('hasattr')


def b_getattr(eng, o, name, *default):
    try:
        return eng.getattr(o, name)
    except PyRaise as e:
        if e.exc == 'AttributeError' and default:
            return default[0]
        raise


def b_setattr(eng, o, name, v):
    eng.setattr(o, name, v)


def b_iter(eng, v):
    it = eng.iter_of(v)
    return GenIter(it if isinstance(it, (tuple, Seq)) else eng.mklist(it))


def b_divmod(eng, a, b):
    return (eng.arith(ast.FloorDiv, a, b), eng.arith(ast.Mod, a, b))


def b_pow(eng, a, b):
    return eng.binop(ast.Pow(), a, b)


BUILTINS = {
    'range': b_range, 'len': b_len, 'enumerate': b_enumerate, 'zip': b_zip, 'reversed': b_reversed,
    'isinstance': b_isinstance, 'hash': b_hash, 'abs': b_abs, 'min': b_minmax('min'), 'max': b_minmax('max'),
    'sum': b_sum, 'any': b_anyall('any'), 'all': b_anyall('all'), 'sorted': b_sorted, 'next': b_next,
    'map': b_map, 'callable': b_callable, 'hasattr': b_hasattr, 'getattr': b_getattr, 'setattr': b_setattr,
    'iter': b_iter, 'divmod': b_divmod, 'pow': b_pow,
}


# ------------------------------------------------------------------ itertools
def it_product(eng, *its, repeat=1):
    if any(isinstance(x, StarArg) for x in its):
        h = getattr(eng, 'product_hook', None)
        if h is not None and len(its) == 1:
            return h(eng, its[0].seq)
        raise Unsupported('product(*..)')
    pools = [eng.iter_of(i) for i in its]
    repeat = simp(repeat)
    if not isinstance(repeat, int):
        h = getattr(eng, 'product_repeat_hook', None)
        if h is not None and len(pools) == 1:
            return h(eng, pools[0], repeat)
        raise Unsupported('product with symbolic repeat')
    pools = pools * repeat
    if all(isinstance(p, tuple) for p in pools):
        import itertools
        n = 1
        for p in pools:
            n *= len(p)
        if n > 5000:
            raise Unsupported('large product')
        return GenIter(tuple(itertools.product(*pools)))
    evs = [Event((), True, ())]
    for p in pools:
        new = []
        for e1 in evs:
            for e2 in eng.bag_of(p).events:
                bs, c, v = eng.rename_event(e2)
                new.append(Event(tuple(e1.binders) + tuple(bs), And(e1.cond, c), e1.value + (v,)))
        evs = new
    return GenIter(eng.mklist(Bag(evs)))


def it_combinations(eng, it, r):
    p = eng.iter_of(it)
    if isinstance(p, tuple) and isinstance(r, int):
        import itertools
        return GenIter(tuple(itertools.combinations(p, r)))
    if isinstance(p, Seq) and r == 2:
        i, j = eng.index_var('i'), eng.index_var('j')
        return GenIter(eng.mklist(Bag([Event((i, j), z3.And(i >= 0, i < j, j < p.n), (p.get(i), p.get(j)))])))
    raise Unsupported('combinations')


def it_cwr(eng, it, r):
    p = eng.iter_of(it)
    if isinstance(p, tuple) and isinstance(r, int):
        import itertools
        return GenIter(tuple(itertools.combinations_with_replacement(p, r)))
    if isinstance(p, Seq) and isinstance(r, int) and 0 < r <= 4 and not hasattr(p, 'bag'):
        ix = [eng.index_var('i') for _ in range(r)]
        c = And(ix[0] >= 0, *[a <= b for a, b in zip(ix, ix[1:])], ix[-1] < zval(p.n))
        return GenIter(eng.mklist(Bag([Event(tuple(ix), c, tuple(p.get(i) for i in ix))])))
    raise Unsupported('combinations_with_replacement')


def it_permutations(eng, it, r=None):
    p = eng.iter_of(it)
    if isinstance(p, tuple) and r is None and len(p) <= 6:
        import itertools
        return GenIter(tuple(itertools.permutations(p)))
    h = getattr(eng, 'permutations_hook', None)
    if h is not None and r is None:
        return h(eng, p)
    raise Unsupported('permutations')


def it_islice(eng, it, *a):
    s = eng.plain_seq(it) if not isinstance(it, GenIter) else eng.iter_of(it)
    if isinstance(s, Bag):
        raise Unsupported('islice')
    if len(a) == 1:
        return GenIter(eng.slice(s, Slice(None, a[0], None)))
    return GenIter(eng.slice(s, Slice(*(list(a) + [None])[:3])))


def it_count(eng, *a):
    raise Unsupported('itertools.count')


def it_repeat(eng, v, n=None):
    if n is None:
        raise Unsupported('repeat')
    return GenIter((v,) * n if isinstance(n, int) else Seq(n, lambda i: v))


def it_accumulate(eng, *a, **k):
    raise Unsupported('accumulate')


def it_starmap(eng, f, it):
    p = eng.iter_of(it)
    if isinstance(p, tuple):
        return GenIter(tuple(eng.call(f, list(eng.plain_seq(x))) for x in p))
    if isinstance(p, Seq):
        return GenIter(eng.gen_seq(p.n, lambda i: eng.call(f, list(eng.plain_seq(p.get(i))))))
    raise Unsupported('starmap')


def it_pairwise(eng, it):
    s = eng.iter_of(it)
    if isinstance(s, tuple):
        return GenIter(tuple(zip(s, s[1:])))
    if isinstance(s, Seq):
        return b_zip(eng, s, eng.slice(s, Slice(1, None, None)))
    raise Unsupported('pairwise')


def it_chain(eng, *its):
    return eng.chain(*its)


ITER = {'product': it_product, 'combinations': it_combinations, 'permutations': it_permutations, 'islice': it_islice,
        'combinations_with_replacement': it_cwr, 'repeat': it_repeat, 'starmap': it_starmap, 'pairwise': it_pairwise}


def chain(eng, *its):
    r = None
    for x in its:
        s = eng.iter_of(x)
        if r is None:
            r = s
        elif isinstance(r, Bag) or isinstance(s, Bag):
            r = Bag(eng.bag_of(r).events + eng.bag_of(s).events)
        else:
            r = eng.concat(r, s)
    if r is None:
        r = ()
    return GenIter(r if isinstance(r, (tuple, Seq)) else eng.mklist(r))


def heap_push(eng, l, node):
    """heapq.heappush by contract: a valid heap stays one and gains the node (content: a model given by the contract)"""
    eng.touched.append(l)
    h = getattr(eng, 'heap_model', None)
    if h is None:
        raise Unsupported('heapq')
    h.push(eng, l, node)


def heap_pop(eng, l):
    eng.touched.append(l)
    h = getattr(eng, 'heap_model', None)
    if h is None:
        raise Unsupported('heapq')
    return h.pop(eng, l)


HEAPQ = {'heappush': heap_push, 'heappop': heap_pop}


# ------------------------------------------------------------------ dictionaries
def dict_from(eng, items):
    d = LDict()
    d.birth = eng.new_birth()
    for k, v in items:
        eng.dict_put(d, k, v)
    return d


def dict_put(eng, d, k, v):
    if d.memo:
        eng.effects.append(('dict', d.memo, None, k, v))
        if d.memo[0] == 'class':
            d.puts.append((k, v))     # visible to later lookups of this run
        else:
            d.puts.append((k, v))
        return
    if eng.journal is not None and getattr(d, 'birth', 0) <= eng.journal.birth:
        eng.journal.add(('put', d, k, v))
        return
    eng.touched.append(d)
    if hasattr(d.base, 'put'):
        d.base = d.base.put(eng, k, v)
        return
    if isinstance(k, str) or all(isinstance(kk, str) for kk, _ in d.puts):
        for n, (kk, _) in enumerate(d.puts):
            if isinstance(kk, str) and isinstance(k, str) and kk == k:
                d.puts[n] = (k, v)
                return
    d.puts.append((k, v))


def dict_items(eng, d):
    """Concrete items (keys known distinct)."""
    if d.base is not None or d.memo or getattr(d, 'comp', None):
        raise Unsupported('items of a symbolic dict')
    out = []
    for k, v in d.puts:
        for n, (kk, _) in enumerate(out):
            e = simp(eng.eq(kk, k))
            if not isinstance(e, bool):
                if eng.known(Not(e)):
                    e = False
                elif eng.known(e):
                    e = True
                else:
                    e = eng.branch(e)
            if e:
                out[n] = (kk, v)
                break
        else:
            out.append((k, v))
    return out


def dict_len(eng, d):
    if getattr(d, 'comp', None):
        raise Unsupported('len of a dict comprehension')
    if hasattr(d.base, 'size') and not d.puts:
        return d.base.size(eng)
    return len(eng.dict_items(d))


def lookup_ite(eng, d, k):
    """value under a key known to be present, as one term"""
    es = [simp(eng.eq(kk, k)) for kk, _ in d.puts]
    if any(isinstance(e, bool) and e for e in es) or not eng.known(Or(es)):
        return None
    try:
        r = None
        for e, (_, v) in zip(es, d.puts):
            if e is False:
                continue
            r = v if r is None else eng.ite(e, v, r)
        return r
    except Unsupported:
        return None


def dict_find(eng, d, k):
    """(True, value) / (False, None); forks when the key may or may not be present."""
    if eng.strings and len(d.puts) > 1 and d.base is None and not d.memo and getattr(d, 'comp', None) is None:
        r = lookup_ite(eng, d, k)
        if r is not None:
            return True, r
    for kk, v in reversed(d.puts):
        e = simp(eng.eq(kk, k))
        if e is True or (e is not False and eng.branch(e)):
            return True, v
    if d.memo:
        for (kind, owner, _, key, val) in eng.priors:
            if kind == 'dict' and eng.memo_match(owner, d.memo):
                own = True
                if owner[0] == 'obj':
                    own = eng.same_object(owner[1], d.memo[1])
                if own is False:
                    continue
                c = And(own, eng.eq(key, k))
                if eng.branch(c):
                    return True, val
        return False, None
    if getattr(d, 'comp', None) is not None:
        n, kf, vf = d.comp
        if getattr(d, 'idx', None) is not None:      # keys are distinct, with a known position
            j = d.idx(k)
            if eng.branch(And(z3.And(j >= 0, j < zval(n)), eng.eq(kf(j), k))):
                return True, vf(j)
            return False, None
        i = eng.index_var('k')
        ex = Exists([i], And(z3.And(i >= 0, i < n), eng.eq(kf(i), k)))
        if eng.branch(ex):
            j = eng.fresh('kidx', IntS)
            eng.assume(And(z3.And(j >= 0, j < n), eng.eq(kf(j), k)))
            # later entries win
            eng.assume(ForAll([i], Implies(And(z3.And(i > j, i < n)), Not(eng.eq(kf(i), k)))))
            return True, vf(j)
        return False, None
    if d.base is not None:
        return d.base.find(eng, k)
    return False, None


def memo_match(eng, a, b):
    if a[0] != b[0] or a[2] != b[2]:
        return False
    if a[0] == 'class':
        return a[1] is b[1]
    return True


class GroupBase:
    """dictionary of lists filled by a loop: the list under k has the values of all events with key k"""
    def __init__(self, events):
        self.events = events            # [Event(binders, cond, (key, value))]

    def parts(self, eng, k):
        ex, evs = [], []
        for ev in self.events:
            bs, c, (kk, v) = eng.rename_event(ev)
            e = And(c, eng.eq(kk, k))
            ex.append(Exists(bs, e) if bs else e)
            evs.append(Event(bs, e, v))
        return Or(ex), eng.mklist(Bag(evs))

    def find(self, eng, k):
        ex, l = self.parts(eng, k)
        if eng.branch(ex):
            return True, l
        return False, None

    def view(self, eng, what):
        kk = self.events[0].value[0]
        if isinstance(kk, UObj):
            b = z3.FreshConst(kk.term.sort(), 'key')
            key = UObj(b, kk.tag, kk.attrs)
        elif is_z3(kk):
            b = key = z3.FreshConst(kk.sort(), 'key')
        else:
            raise Unsupported('keys of a dictionary of lists')
        ex, l = self.parts(eng, key)
        return Bag([Event((b,), ex, {'keys': key, 'values': l, 'items': (key, l)}[what])])

    def size(self, eng):
        n = eng.fresh('keys', IntS)
        eng.assume(n >= 0)
        return n


def group_ref(eng, d, k):
    """list under k while a generic iteration fills the dictionary; None when this is not such a dictionary"""
    if eng.journal is not None and getattr(d, 'birth', 0) <= eng.journal.birth and not d.puts and not d.memo and getattr(d, 'comp', None) is None \
            and (d.base is None or isinstance(d.base, GroupBase)):
        return GroupRef(d, k)
    return None


def dict_get(eng, d, k):
    if isinstance(d.default, ExtType) and d.default.name == 'list':
        g = group_ref(eng, d, k)
        if g is not None:
            return g
    if isinstance(d.base, GroupBase) and d.default is not None and not d.puts:
        return d.base.parts(eng, k)[1]
    found, v = eng.dict_find(d, k)
    if found:
        return v
    if d.default is not None:
        v = eng.call(d.default, [])
        eng.dict_put(d, k, v)
        return v
    raise PyRaise('KeyError', (str(k),))


def dict_view(eng, v):
    d = v.d
    if getattr(d, 'comp', None) is not None and not d.puts:
        n, kf, vf = d.comp
        f = {'keys': kf, 'values': vf, 'items': lambda i: (kf(i), vf(i))}[v.what]
        eng.assumptions.add('dict views list entries in insertion order; keys of a symbolic dict are distinct')
        return Seq(n, f)
    if d.base is not None and hasattr(d.base, 'view'):
        return d.base.view(eng, v.what)
    items = eng.dict_items(d)
    return tuple({'keys': lambda kv: kv[0], 'values': lambda kv: kv[1], 'items': lambda kv: kv}[v.what](kv) for kv in items)


def contains(eng, coll, x):
    if isinstance(coll, LDict):
        if coll.memo or coll.puts or getattr(coll, 'comp', None) or coll.base is not None:
            found, _ = eng.dict_find(coll, x)
            return found
        return False
    if isinstance(coll, LSet):
        r = [eng.eq(p, x) for p in coll.puts]
        if coll.base is not None:
            if callable(coll.base):
                r.append(coll.base(x))
            else:
                for ev in coll.base.events:
                    bs, c, v = eng.rename_event(ev)
                    e = And(c, eng.eq(v, x))
                    r.append(Exists(bs, e) if bs else e)
        return Or(r)
    if isinstance(coll, str) and isinstance(x, str):
        return x in coll
    if isinstance(coll, (str, Str)) and isinstance(x, (str, Str)):
        return strings.contains(eng, coll, x)
    if isinstance(coll, GenIter) or isinstance(coll, (tuple, Seq, LList, NTVal)) or (isinstance(coll, Obj) and coll.payload is not None):
        if isinstance(coll, LList):
            eng.check_read(coll)
        it = eng.iter_of(coll)
        if isinstance(it, tuple):
            return Or([eng.eq(y, x) for y in it])
        r = []
        for ev in eng.bag_of(it).events:
            bs, c, v = eng.rename_event(ev)
            e = And(c, eng.eq(v, x))
            r.append(Exists(bs, e) if bs else e)
        return Or(r)
    if isinstance(coll, DictView):
        if coll.what == 'keys':
            return eng.contains(coll.d, x)
    if isinstance(coll, Obj):
        m = eng.find_method(coll.cls, '__contains__')
        if m is not None:
            return eng.truth(eng.call_function(m, [coll, x], {}))
    raise Unsupported('membership in %r' % (coll,))


def set_op(eng, op, a, b):
    if not (isinstance(a, LSet) and isinstance(b, LSet)):
        raise Unsupported('set operator')
    pa = lambda x: eng.contains(a, x)
    pb = lambda x: eng.contains(b, x)
    r = LSet()
    r.birth = eng.new_birth()
    if isinstance(op, ast.BitOr):
        r.base = lambda x: Or(pa(x), pb(x))
    elif isinstance(op, ast.BitAnd):
        r.base = lambda x: And(pa(x), pb(x))
    elif isinstance(op, ast.Sub):
        r.base = lambda x: And(pa(x), Not(pb(x)))
    else:
        raise Unsupported('set operator')
    return r


# ------------------------------------------------------------------ methods of collections
MUTATORS = {'append', 'extend', 'add', 'remove', 'discard', 'pop', 'popleft', 'reverse', 'sort', 'insert', 'clear', 'update', 'setdefault', 'popitem', 'appendleft'}


def coll_method(eng, o, name, args, kwargs):
    if isinstance(o, GroupRef):
        if name != 'append' or eng.journal is None or getattr(o.d, 'birth', 0) > eng.journal.birth:
            raise Unsupported('list.%s in a dictionary of lists' % name)
        eng.touched.append(o.d)
        eng.journal.add(('group', o.d, (o.key, args[0])))
        return None
    if name in MUTATORS:
        eng.touched.append(o)
    if isinstance(o, Str):
        return strings.method(eng, o, name, args, kwargs)
    if isinstance(o, str):
        return str_method(eng, o, name, args, kwargs)
    if isinstance(o, LDict):
        return dict_method(eng, o, name, args, kwargs)
    if isinstance(o, LSet):
        if name in ('add',):
            if eng.journal is not None and getattr(o, 'birth', 0) <= eng.journal.birth:
                eng.journal.add(('add', o, args[0]))
                return None
            o.puts.append(args[0])
            return None
        if name == 'copy':
            s = LSet(list(o.puts), o.base)
            s.birth = eng.new_birth()
            return s
        if name in ('remove', 'discard'):
            eng.note_mut_plain(o)
            if name == 'remove' and not eng.branch(eng.contains(o, args[0])):
                raise PyRaise('KeyError')
            old = LSet(list(o.puts), o.base)
            x = args[0]
            o.puts = []
            o.base = lambda y: And(eng.contains(old, y), Not(eng.eq(x, y)))
            return None
        if name in ('union', 'intersection', 'difference') and len(args) == 1:
            b = args[0] if isinstance(args[0], LSet) else call_type(eng, ExtType('set'), args, {})
            return eng.set_op({'union': ast.BitOr(), 'intersection': ast.BitAnd(), 'difference': ast.Sub()}[name], o, b)
        if name in ('isdisjoint', 'issubset', 'issuperset') and len(args) == 1:
            b = args[0] if isinstance(args[0], LSet) else call_type(eng, ExtType('set'), args, {})
            if name == 'isdisjoint':
                return Not(eng.truth(eng.set_op(ast.BitAnd(), o, b)))
            return Not(eng.truth(eng.set_op(ast.Sub(), o, b) if name == 'issubset' else eng.set_op(ast.Sub(), b, o)))
        raise Unsupported('set.%s' % name)
    if isinstance(o, LList):
        return list_method(eng, o, name, args, kwargs)
    return seq_method(eng, o, name, args, kwargs)


def seq_method(eng, o, name, args, kwargs):
    s = eng.plain_seq(o)
    if name == 'index' and isinstance(s, tuple):
        for k, x in enumerate(s):
            if eng.branch(eng.eq(x, args[0])):
                return k
        raise PyRaise('ValueError')
    raise Unsupported('tuple.%s' % name)


def list_method(eng, o, name, args, kwargs):
    j = eng.journal is not None and getattr(o, 'birth', 0) <= eng.journal.birth
    if name == 'append':
        if j:
            eng.journal.add(('append', o, args[0]))
            return None
        c = o.content
        if hasattr(c, 'm_append'):
            o.content = c.m_append(eng, args[0])
        elif isinstance(c, list):
            c.append(args[0])
        elif isinstance(c, Bag):
            o.content = Bag(c.events + [Event((), True, args[0])])
        else:
            o.content = eng.concat(c, (args[0],))
        return None
    if name == 'extend':
        it = eng.iter_of(args[0])
        if j:
            eng.journal.add(('extend', o, it))
            return None
        c = o.content
        if isinstance(c, list) and isinstance(it, tuple):
            c.extend(it)
        elif isinstance(c, Bag) or isinstance(it, Bag):
            o.content = Bag(eng.bag_of(o).events + eng.bag_of(it).events)
        else:
            r = eng.concat(tuple(c) if isinstance(c, list) else c, it)
            o.content = list(r) if isinstance(r, tuple) else r
        return None
    if name in ('copy',):
        c = o.content
        return eng.mklist(list(c) if isinstance(c, list) else c)
    if name == 'pop':
        eng.check_read(o)
        if j:
            eng.journal.add(('content', o, None))
            raise Unsupported('pop in a generic iteration')
        c = o.content
        if hasattr(c, 'm_pop'):
            v, o.content = c.m_pop(eng, *args)
            return v
        if isinstance(c, list):
            k = args[0] if args else -1
            if not c:
                raise PyRaise('IndexError')
            if isinstance(k, int):
                return c.pop(k)
            raise Unsupported('pop')
        if isinstance(c, Seq):
            if not eng.branch(zval(c.n) > 0):
                raise PyRaise('IndexError')
            k = args[0] if args else -1
            if isinstance(k, int) and k in (0, -1):
                n = c.n
                if k == 0:
                    v = c.get(0)
                    o.content = Seq(simp(n - 1), lambda i: c.get(simp(i + 1)))
                else:
                    v = c.get(simp(n - 1))
                    o.content = Seq(simp(n - 1), c.get)
                return v
        raise Unsupported('list.pop')
    if name == 'reverse':
        eng.note_mut_plain(o)
        r = eng.reverse(o)
        o.content = list(r) if isinstance(r, tuple) else r
        return None
    if name == 'sort':
        h = getattr(eng, 'sort_hook', None)
        if h is not None:
            return h(eng, o)
        if isinstance(o.content, list) and not args and not kwargs:
            eng.note_mut_plain(o)
            o.content = sort_numbers(eng, tuple(o.content))
            return None
        raise Unsupported('list.sort')
    if name == 'insert' and isinstance(o.content, list) and isinstance(args[0], int):
        eng.note_mut_plain(o)
        o.content.insert(args[0], args[1])
        return None
    if name == 'clear':
        eng.note_mut_plain(o)
        o.content = []
        return None
    if name == 'index':
        return seq_method(eng, o, name, args, kwargs)
    if name == 'popleft':
        return list_method(eng, o, 'pop', (0,), {})
    raise Unsupported('list.%s' % name)


def dict_method(eng, d, name, args, kwargs):
    empty = len(args) > 1 and (args[1] == () or isinstance(args[1], LList) and args[1].content == [])
    if name == 'get' and isinstance(d.base, GroupBase) and not d.puts and empty:
        return d.base.parts(eng, args[0])[1]
    if name == 'setdefault' and empty and isinstance(args[1], LList):
        g = group_ref(eng, d, args[0])
        if g is not None:
            return g
    if name == 'get':
        found, v = eng.dict_find(d, args[0])
        return v if found else (args[1] if len(args) > 1 else None)
    if name == 'setdefault':
        found, v = eng.dict_find(d, args[0])
        if found:
            return v
        v = args[1] if len(args) > 1 else None
        eng.dict_put(d, args[0], v)
        return v
    if name in ('items', 'keys', 'values'):
        return DictView(d, name)
    if name == 'copy':
        n = LDict(list(d.puts), d.base, d.default)
        n.birth = eng.new_birth()
        if getattr(d, 'comp', None):
            n.comp = d.comp
        return n
    if name == 'update':
        if args:
            for k, v in eng.dict_items(args[0]):
                eng.dict_put(d, k, v)
        for k, v in kwargs.items():
            eng.dict_put(d, k, v)
        return None
    if name == 'pop':
        for n, (kk, v) in enumerate(d.puts):
            e = simp(eng.eq(kk, args[0]))
            if e is True:
                del d.puts[n]
                return v
        if len(args) > 1:
            return args[1]
        raise Unsupported('dict.pop')
    raise Unsupported('dict.%s' % name)


def str_method(eng, s, name, args, kwargs):
    if all(isinstance(a, (str, int)) for a in args) and not kwargs and hasattr(s, name):
        r = getattr(s, name)(*args)
        return eng.mklist(r) if isinstance(r, list) else r
    if name == 'join':
        if eng.strings:
            return strings.join(eng, s, args[0])
        try:
            items = eng.concrete_items(args[0])
            if all(isinstance(x, str) for x in items):
                return s.join(items)
        except Unsupported:
            pass
        return Poison('joined string')
    if name == 'format':
        if eng.strings:
            return strings.method(eng, s, name, args, kwargs)
        return Poison('formatted string')
    raise Unsupported('str.%s' % name)


for _f in (dict_from, dict_put, dict_items, dict_len, dict_find, memo_match, dict_get, dict_view, contains, set_op,
           coll_method, seq_method, minmax_symbolic, add_reduction, choose, chain):
    setattr(Engine, _f.__name__, _f)
