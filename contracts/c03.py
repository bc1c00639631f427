"""C03: text notations.

Texts are sequences of symbolic characters (pyvc/strings.py); the text of a rational number is an opaque token and
Fraction(str(x)) == x is the contract of the library.  The notation of base maps has six letters, so dimensions 1-6 are all there is.
"""
import ast
from contracts.common import *
from contracts.abstract import *
from pyvc.vals import Str, Tok
from pyvc import strings
from pyvc.builtins_ import GenIter

Q = 'base_maps.'
LET = 'ijklmn'


def setup(eng):
    eng.strings = True
    eng.contracts[BM] = miss_mode(BM)


def setup_spec(eng):
    eng.strings = True


def codes(v):
    its = strings.items(v)
    return [zval(x) for x in its]


def letter(i, neg):
    """character of the i-th basis vector, upper case when negated"""
    return zval(i) + ord('i') - z3.If(zval(neg), 32, 0)


def h_print(eng, P):
    d = P['dim']
    a = sym_bm(eng, 'A', d)
    eng.cover('inputs')
    s = strings.text_of(eng, a)
    cs = [tuple(x) for x in eng.plain_seq(eng.getattr(a, 'coords'))]
    tr = zval(eng.truth(eng.getattr(a, 'time_rev')))
    c = codes(s)
    eng.prove('one letter for every basis vector, then a tilde exactly when time is reversed', And(Implies(tr, len(c) == d + 1), Implies(Not(tr), len(c) == d)))
    if len(c) < d or len(c) > d + 1:
        return
    if len(c) == d + 1:
        eng.prove('the last character of a time-reversing map is a tilde', c[d] == ord('~'))
    for i, (k, b) in enumerate(cs):
        for j in range(d):
            eng.prove('the j-th letter is the image of the j-th basis vector', Implies(zval(k) == j, c[j] == letter(i, b)))


def h_parse(eng, P):
    d, tilde = P['dim'], P['tilde']
    q = [eng.fresh('q%d' % k, IntS) for k in range(d)]
    neg = [eng.fresh('neg%d' % k, BoolS) for k in range(d)]
    for k in range(d):
        eng.assume(And(q[k] >= 0, q[k] < d, *[q[k] != q[j] for j in range(k)]))
    text = Str([letter(q[k], neg[k]) for k in range(d)] + ([ord('~')] if tilde else []))
    pad = P.get('pad')
    if pad:
        text = strings.concat(' ' * pad[0], text, ' ' * pad[1])
    eng.cover('inputs')
    R = eng.call(eng.getattr(cls_of(eng, BM), 'parse'), [text])
    cs = [tuple(eng.plain_seq(x)) for x in eng.plain_seq(eng.getattr(R, 'coords'))]
    eng.prove('dimension is the number of letters', And(len(cs) == d, eng.eq(eng.getattr(R, 'dim'), d)))
    eng.prove('a tilde means time reversal', eng.eq(eng.getattr(R, 'time_rev'), tilde))
    if len(cs) != d:
        return
    for i, (k, b) in enumerate(cs):
        for j in range(d):
            eng.prove('e_j goes to the basis vector of its letter, negated for upper case', Implies(q[j] == i, And(eng.eq(k, j), eng.eq(b, neg[j]))))


def h_spec_print(eng, P):
    n = eng.fresh('n', IntS)
    eng.assume(And(n >= 0, n <= 9))
    L = P['len']
    tx = [eng.fresh('t%d' % i, IntS) for i in range(L)]
    BMS = z3.DeclareSort('PrintedMap')
    bm = UObj(eng.fresh('bm', BMS), 'BaseMap', {'__str__': lambda s: Str(tx)})
    o = new_obj(eng, cls_of(eng, SPEC), base_map=bm, pnum=n, _key=(bm, n), _hash=HashVal((bm, n)))
    c = codes(strings.text_of(eng, o))
    eng.prove('digit of the pattern and text of the map', And(len(c) == L + 1, *([c[0] == n + 48] + [x == y for x, y in zip(c[1:], tx)])))


def h_spec_parse(eng, P):
    L, dig = P['len'], P['digit']
    n = eng.fresh('n', IntS)
    eng.assume(And(n >= 0, n <= 9))
    tx = [eng.fresh('t%d' % i, IntS) for i in range(L)]
    for t in tx[:1]:
        eng.assume(Or(And(t >= 65, t <= 90), And(t >= 97, t <= 122)))
    for t in tx[1:]:
        eng.assume(And(t >= 32, t <= 126))
    BMS = z3.DeclareSort('PrintedMap')
    got = []
    bm = UObj(eng.fresh('bm', BMS), 'BaseMap', {'_key': lambda s: s, '_eqkey': lambda s: s.term, '__classes__': ('BaseMap',)})

    def contract(e, A):
        got.append(A['text'])
        return bm
    eng.contracts[BM + '.parse'] = contract
    R = eng.call(eng.getattr(cls_of(eng, SPEC), 'parse'), [Str(([n + 48] if dig else []) + tx)])
    eng.prove('one base map is parsed', len(got) == 1)
    if len(got) == 1:
        c = codes(got[0])
        eng.prove('the rest of the text is the base map', And(len(c) == L, *[x == y for x, y in zip(c, tx)]))
    eng.prove('the map parsed is the map of the spec', eng.getattr(R, 'base_map').term == bm.term)
    eng.prove('the leading digit is the pattern (none: pattern 0)', eng.eq(eng.getattr(R, 'pnum'), n if dig else 0))


def point_text(xs, loose=False):
    out = [strings.mk([ord('(')])]
    for i, x in enumerate(xs):
        out += ([','] if i else []) + [Str((Tok(x),))]
    return strings.concat(*out, ')')


def same_point(eng, R, xs):
    v = eng.plain_seq(R)
    return And(len(v) == len(xs), *[eng.eq(a, b) for a, b in zip(v, xs)]) if isinstance(v, tuple) else False


def h_point(eng, P):
    d = P['dim']
    xs = tuple(eng.fresh('x%d' % i, RealS) for i in range(d))
    cls = cls_of(eng, 'subsets.Point')
    p = eng.call(cls, [xs])
    s = strings.text_of(eng, p)
    R = eng.call(eng.getattr(cls, 'parse'), [s])
    eng.prove('a point printed and parsed is the point', same_point(eng, R, xs))
    R = eng.call(eng.getattr(cls, 'parse'), [point_text(xs)])
    eng.prove('(x_1,..,x_d) means this point', same_point(eng, R, xs))
    R = eng.call(eng.getattr(cls, 'parse'), [strings.concat(' ', point_text(xs), ' ')])
    eng.prove('spaces around do not matter', same_point(eng, R, xs))


def h_gates(eng, P):
    d = P['dim']
    xs = tuple(eng.fresh('x%d' % i, RealS) for i in range(d))
    ys = tuple(eng.fresh('y%d' % i, RealS) for i in range(d))
    pc, lc = cls_of(eng, 'subsets.Point'), cls_of(eng, 'subsets.Link')
    l = eng.call(lc, [eng.call(pc, [xs]), eng.call(pc, [ys])])
    for what, s in (('a gate pair printed and parsed is the pair', strings.text_of(eng, l)),
                    ('entrance->exit means this gate pair', strings.concat(point_text(xs), '->', point_text(ys)))):
        R = eng.call(eng.getattr(lc, 'parse_gates'), [s])
        eng.prove(what, And(same_point(eng, eng.getattr(R, 'entrance'), xs), same_point(eng, eng.getattr(R, 'exit'), ys)))


def total(h):
    """the notations are total on the stated texts: an exception of these kinds is a violation"""
    def f(eng, P):
        try:
            h(eng, P)
        except PyRaise as ex:
            if any(k in str(ex.exc) for k in ('AssertionError', 'KeyError', 'IndexError')):
                eng.prove('no exception on a valid text', False)
            else:
                raise
    return f


h_print, h_parse, h_spec_print, h_spec_parse, h_point, h_gates = [total(h) for h in (h_print, h_parse, h_spec_print, h_spec_parse, h_point, h_gates)]
CONTRACTS = [
    Contract('BaseMap.__str__ (dim %d)' % d, h_print, [Q + 'BaseMap.__str__'], setup, params={'dim': d}, timeout=20.0) for d in range(1, 7)
] + [
    Contract('BaseMap.parse (dim %d%s)' % (d, ', tilde' if t else ''), h_parse, [Q + 'BaseMap.parse'], setup, params={'dim': d, 'tilde': t}, timeout=20.0) for d in range(1, 7) for t in (False, True)
] + [
    Contract('BaseMap.parse with spaces around', h_parse, [Q + 'BaseMap.parse'], setup, params={'dim': 3, 'tilde': True, 'pad': (1, 2)}, timeout=20.0),
] + [
    Contract('Spec.__str__ (%d characters)' % n, h_spec_print, [Q + 'Spec.__str__'], setup_spec, params={'len': n}) for n in range(1, 8)
] + [
    Contract('Spec.parse (%s%d characters)' % ('digit and ' if g else '', n), h_spec_parse, [Q + 'Spec.parse'], setup_spec, params={'len': n, 'digit': g}) for n in range(1, 8) for g in (True, False)
] + [
    Contract('Point.__str__ and Point.parse (dim %d)' % d, h_point, ['subsets.Point.__str__', 'subsets.Point.parse'], setup_spec, params={'dim': d}) for d in range(1, 7)
] + [
    Contract('Link.__str__ and Link.parse_gates (dim %d)' % d, h_gates, ['subsets.Link.__str__', 'subsets.Link.parse_gates', 'subsets.Point.parse'], setup_spec, params={'dim': d}) for d in range(1, 5)
]
