"""Value domain of the verification-condition generator.

Scalars are z3 expressions (Int, Real, Bool, uninterpreted sorts) or plain Python constants.
Tuples of known length are Python tuples; everything else is one of the classes below.
"""
import z3


class Unsupported(Exception):
    """The construct is outside the generator's subset (never reported as a violation)."""


class Seq:
    """Immutable sequence of symbolic length n; get(i) gives element i (0 <= i < n)."""
    __slots__ = ('n', 'get', 'kind')

    def __init__(self, n, get, kind='tuple'):
        self.n, self.get, self.kind = n, get, kind


class LList:
    """Mutable list: content is a Python list of values, a Seq or a Bag."""
    def __init__(self, content):
        self.content = content


class Event:
    """'for all binders satisfying cond: value' -- one generic member of a Bag."""
    __slots__ = ('binders', 'cond', 'value')

    def __init__(self, binders, cond, value):
        self.binders, self.cond, self.value = tuple(binders), cond, value


class Bag:
    """Finite collection given by events; order is not represented."""
    def __init__(self, events, ordered=False, distinct=False):
        self.events = list(events)
        self.ordered = ordered


class LDict:
    """Dictionary: list of explicit (key, value) puts over a base (None, 'memo' or a DictBase)."""
    def __init__(self, puts=(), base=None, default=None):
        self.puts = list(puts)
        self.base = base
        self.default = default   # defaultdict factory (callable value) or None
        self.memo = None         # (owner, attribute name) when contents come from earlier calls


class GroupRef:
    """the list under one key of a dictionary of lists that a generic iteration is filling"""
    def __init__(self, d, key):
        self.d, self.key = d, key


class LSet:
    """Set: puts over a base predicate."""
    def __init__(self, puts=(), base=None):
        self.puts = list(puts)
        self.base = base         # None or callable value -> z3 Bool


class Opt:
    """None (when isnone) or val."""
    __slots__ = ('isnone', 'val')

    def __init__(self, isnone, val):
        self.isnone, self.val = isnone, val


class Obj:
    """Instance of a repository class (or of a modelled class)."""
    def __init__(self, cls, f=None, payload=None):
        self.cls = cls
        self.f = f if f is not None else {}
        self.payload = payload   # tuple contents for tuple subclasses
        self.frozen = False
        self.ghost = {}

    def __repr__(self):
        return '<Obj %s>' % (self.cls.name if hasattr(self.cls, 'name') else self.cls)


class UObj:
    """Element of an uninterpreted sort; attributes are functions of the element."""
    __slots__ = ('term', 'tag', 'attrs')

    def __init__(self, term, tag, attrs):
        self.term, self.tag, self.attrs = term, tag, attrs

    def __repr__(self):
        return '<%s %s>' % (self.tag, self.term)


class Tok:
    """text of a rational number inside a Str"""
    def __init__(self, v):
        self.v = v


class Str:
    """text with symbolic characters, see strings.py"""
    def __init__(self, items):
        self.items = tuple(items)


class HashVal:
    """hash(x); two hashes are known equal when the hashed values are."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class FuncInfo:
    def __init__(self, node, module, cls=None, closure=None):
        self.node, self.module, self.cls, self.closure = node, module, cls, closure
        self.name = getattr(node, 'name', '<lambda>')
        self.kind = 'function'
        for dec in getattr(node, 'decorator_list', []):
            t = dec
            if hasattr(t, 'func'):
                t = t.func
            n = getattr(t, 'id', getattr(t, 'attr', ''))
            if n in ('classmethod', 'staticmethod', 'property'):
                self.kind = n
            elif n in ('lru_cache', 'cache'):
                self.memo = True

    @property
    def qual(self):
        return self.module.name + '.' + (self.cls.name + '.' if self.cls else '') + self.name


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.methods = {}
        self.attrs = {}        # class attribute name -> ast expression
        self.annots = []       # annotated field names in order
        self.bases = []        # resolved lazily
        self.dataclass = None  # None or dict of options
        self.attr_vals = {}

    def __repr__(self):
        return '<class %s>' % self.name


class NTClass:
    """namedtuple class"""
    def __init__(self, name, fields):
        self.name, self.fields = name, tuple(fields)


class NTVal:
    """namedtuple value"""
    __slots__ = ('cls', 'items')

    def __init__(self, cls, items):
        self.cls, self.items = cls, tuple(items)


class ModuleInfo:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.globals = {}


class BoundMethod:
    __slots__ = ('func', 'self_val')

    def __init__(self, func, self_val):
        self.func, self.self_val = func, self_val


class Builtin:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class ExtModule:
    def __init__(self, name):
        self.name = name


class SuperProxy:
    def __init__(self, cls, self_val):
        self.cls, self.self_val = cls, self_val


class Slice:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_bool(v):
    return isinstance(v, bool) or (is_z3(v) and z3.is_bool(v))


def is_num(v):
    from fractions import Fraction
    return (isinstance(v, (int, Fraction)) and not isinstance(v, bool)) or (is_z3(v) and z3.is_arith(v))
