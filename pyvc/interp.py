"""Evaluation of statements and expressions (methods added to Engine)."""
import ast
from fractions import Fraction

import z3

from .vals import *
from . import engine as E
from . import strings
from .engine import (Engine, Env, PyRaise, Infeasible, _Return, _Break, _Continue, Poison, Journal, GenIter,
                     NumOf, DenOf, DictView, ExtType, NOTIMPL, FlatSeq, zval, zsort, conc, simp, toreal,
                     And, Or, Not, Implies, ForAll, Exists, occurs, IntS, RealS, BoolS)

MAXDEPTH = 40


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def stored_names(nodes):
    out = []
    todo = list(nodes)
    while todo:
        n = todo.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name not in out:
                out.append(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if n.id not in out:
                out.append(n.id)
        todo.extend(ast.iter_child_nodes(n))
    return out


class NeedState(Exception):
    """A generic iteration reads state written by other iterations."""
    def __init__(self, cell):
        self.cell = cell


# ------------------------------------------------------------------------------- calls
def call(self, f, args, kwargs=None):
    kwargs = kwargs or {}
    if isinstance(f, Opt):
        if self.branch(f.isnone):
            raise PyRaise('TypeError', ('None is not callable',))
        return self.call(f.val, args, kwargs)
    if isinstance(f, BoundMethod):
        return self.call_function(f.func, [f.self_val] + list(args), kwargs)
    if isinstance(f, FuncInfo):
        return self.call_function(f, list(args), kwargs)
    if isinstance(f, ClassInfo):
        return self.instantiate(f, list(args), kwargs)
    if isinstance(f, NTClass):
        vals = list(args)
        for n in f.fields[len(vals):]:
            vals.append(kwargs[n])
        return NTVal(f, vals)
    if isinstance(f, Builtin):
        return f.fn(*args, **kwargs)
    if isinstance(f, ExtType):
        from . import builtins_ as B
        return B.call_type(self, f, args, kwargs)
    if isinstance(f, Obj):
        m = self.find_method(f.cls, '__call__')
        if m is not None:
            return self.call_function(m, [f] + list(args), kwargs)
    raise Unsupported('call of %r' % (f,))


def call_function(self, fi, args, kwargs):
    q = fi.qual
    if fi.cls is None and fi.closure is not None:
        q = None
    if q in self.contracts and q not in self.inline_only:
        self.contract_calls.add(q)
        a = self.bind_args(fi, args, kwargs)
        return self.contracts[q](self, a)
    return self.run_body(fi, args, kwargs)


def bind_args(self, fi, args, kwargs):
    """argument name -> value (defaults filled in)"""
    return self.bind(fi, args, kwargs, Env(fi.module, fi.closure)).vars


def bind(self, fi, args, kwargs, env):
    a = fi.node.args
    params = [p.arg for p in a.posonlyargs + a.args]
    vals = list(args)
    kw = dict(kwargs)
    if len(vals) > len(params):
        if a.vararg is None:
            raise PyRaise('TypeError', ('too many arguments for %s' % fi.name,))
        env.vars[a.vararg.arg] = tuple(vals[len(params):])
        vals = vals[:len(params)]
    elif a.vararg is not None:
        env.vars[a.vararg.arg] = ()
    for p, v in zip(params, vals):
        env.vars[p] = v
    ndef = len(a.defaults)
    for k, p in enumerate(params):
        if k < len(vals):
            if p in kw:
                raise PyRaise('TypeError', ('duplicate argument ' + p,))
            continue
        if p in kw:
            env.vars[p] = kw.pop(p)
        else:
            d = k - (len(params) - ndef)
            if d < 0:
                raise PyRaise('TypeError', ('missing argument %s of %s' % (p, fi.name),))
            env.vars[p] = self.eval(a.defaults[d], Env(fi.module, fi.closure))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if p.arg in kw:
            env.vars[p.arg] = kw.pop(p.arg)
        elif d is not None:
            env.vars[p.arg] = self.eval(d, Env(fi.module, fi.closure))
        else:
            raise PyRaise('TypeError', ('missing argument ' + p.arg,))
    if a.kwarg is not None:
        d = self.dict_from(list(kw.items()))
        env.vars[a.kwarg.arg] = d
    elif kw:
        raise PyRaise('TypeError', ('unexpected argument %s for %s' % (sorted(kw)[0], fi.name),))
    return env


def run_body(self, fi, args, kwargs):
    if self.depth > MAXDEPTH:
        raise Unsupported('call depth')
    if isinstance(fi.node, ast.Lambda):
        env = Env(fi.module, fi.closure)
        self.bind(fi, args, kwargs, env)
        self.depth += 1
        try:
            return self.eval(fi.node.body, env)
        finally:
            self.depth -= 1
    env = Env(fi.module, fi.closure)
    env.func = fi
    env.cls = fi.cls
    self.bind(fi, args, kwargs, env)
    if args and fi.cls is not None:
        env.self_val = args[0]
    elif fi.cls is not None:
        env.self_val = env.vars.get('self')
    gen = is_generator(fi.node)
    if gen:
        env.out = self.mklist([])
    self.calls.add(fi.qual)
    self.depth += 1
    try:
        try:
            self.exec_block(fi.node.body, env)
            res = None
        except _Return as r:
            res = r.value
    finally:
        self.depth -= 1
    if gen:
        return GenIter(env.out)
    return res


# ------------------------------------------------------------------------------- statements
def exec_block(self, stmts, env):
    for s in stmts:
        self.exec(s, env)


def exec_(self, s, env):
    m = getattr(self, 'st_' + type(s).__name__, None)
    if m is None:
        raise Unsupported('statement %s' % type(s).__name__)
    m(s, env)


def st_Expr(self, s, env):
    if isinstance(s.value, ast.Constant):
        return
    if isinstance(s.value, ast.Call) and self.is_logging(s.value, env):
        return
    self.eval(s.value, env)


def is_logging(self, c, env):
    f = c.func
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.attr in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log'):
        n = f.value.id
        if n in ('logging', 'logger', 'log', '_logger', 'LOGGER'):
            return True
    if isinstance(f, ast.Name) and f.id == 'print':
        return True
    return False


def st_Pass(self, s, env):
    pass


def st_Import(self, s, env):
    for a in s.names:
        env.vars[(a.asname or a.name).split('.')[0]] = ExtModule(a.name)


def st_ImportFrom(self, s, env):
    for a in s.names:
        base = (s.module or '').split('.')[-1]
        if base in self.prog.modules:
            env.vars[a.asname or a.name] = self.module_global(self.prog.modules[base], a.name)
        else:
            env.vars[a.asname or a.name] = self.ext_attr(ExtModule(s.module), a.name)


def st_Nonlocal(self, s, env):
    env.nonlocals |= set(s.names)


def st_Global(self, s, env):
    raise Unsupported('global statement')


def st_Return(self, s, env):
    raise _Return(self.eval(s.value, env) if s.value is not None else None)


def st_Break(self, s, env):
    raise _Break()


def st_Continue(self, s, env):
    raise _Continue()


def st_Assert(self, s, env):
    if not self.branch(self.truth(self.eval(s.test, env))):
        raise PyRaise('AssertionError', (ast.unparse(s.test),))


def st_Raise(self, s, env):
    name = 'Exception'
    if s.exc is not None:
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        name = e.attr if isinstance(e, ast.Attribute) else getattr(e, 'id', 'Exception')
    raise PyRaise(name, (ast.unparse(s.exc) if s.exc is not None else '',))


def st_FunctionDef(self, s, env):
    f = FuncInfo(s, env.module, None, env)
    if s.decorator_list:
        raise Unsupported('decorated local function')
    self.assign_name(s.name, f, env)


def st_ClassDef(self, s, env):
    raise Unsupported('local class')


def st_TypeAlias(self, s, env):
    pass


def assign_name(self, name, v, env):
    if name in env.nonlocals:
        e = env.parent
        while e is not None:
            if name in e.vars:
                e.vars[name] = v
                return
            e = e.parent
    env.vars[name] = v


def assign(self, t, v, env):
    if isinstance(t, ast.Name):
        self.assign_name(t.id, v, env)
    elif isinstance(t, (ast.Tuple, ast.List)):
        self.unpack(t, v, env)
    elif isinstance(t, ast.Attribute):
        self.setattr(self.eval(t.value, env), t.attr, v)
    elif isinstance(t, ast.Subscript):
        o = self.eval(t.value, env)
        self.setitem(o, self.eval_index(t.slice, env), v)
    elif isinstance(t, ast.Starred):
        raise Unsupported('starred target')
    else:
        raise Unsupported('assignment target')


def unpack(self, t, v, env):
    if isinstance(v, Opt):
        if self.branch(v.isnone):
            raise PyRaise('TypeError', ('cannot unpack None',))
        v = v.val
    if v is None:
        raise PyRaise('TypeError', ('cannot unpack None',))
    v = self.plain_seq(v)
    if any(isinstance(x, ast.Starred) for x in t.elts):
        if not isinstance(v, tuple):
            raise Unsupported('starred unpacking')
        k = [isinstance(x, ast.Starred) for x in t.elts].index(True)
        after = len(t.elts) - k - 1
        for tt, x in zip(t.elts[:k], v[:k]):
            self.assign(tt, x, env)
        self.assign(t.elts[k].value, self.mklist(list(v[k:len(v) - after])), env)
        for tt, x in zip(t.elts[k + 1:], v[len(v) - after:]):
            self.assign(tt, x, env)
        return
    if isinstance(v, Seq):
        if not self.branch(self.eq(v.n, len(t.elts))):
            raise PyRaise('ValueError', ('unpack',))
        v = tuple(v.get(i) for i in range(len(t.elts)))
    if len(v) != len(t.elts):
        raise PyRaise('ValueError', ('unpack',))
    for tt, x in zip(t.elts, v):
        self.assign(tt, x, env)


def st_Assign(self, s, env):
    v = self.eval(s.value, env)
    for t in s.targets:
        self.assign(t, v, env)


def st_AnnAssign(self, s, env):
    if s.value is not None:
        self.assign(s.target, self.eval(s.value, env), env)


def st_AugAssign(self, s, env):
    t = s.target
    if isinstance(t, ast.Name):
        if self.log_only(env, t.id) and isinstance(s.value, ast.Constant):
            return
        cur = self.lookup(env, t.id)
        if isinstance(cur, Poison) and cur.why.startswith('carried:'):
            raise NeedState(('var', cur.why[8:]))
        self.assign_name(t.id, self.augop(s.op, cur, self.eval(s.value, env)), env)
    elif isinstance(t, ast.Attribute):
        o = self.eval(t.value, env)
        if self.is_stat(t, o):
            return
        self.setattr(o, t.attr, self.augop(s.op, self.getattr(o, t.attr), self.eval(s.value, env)))
    elif isinstance(t, ast.Subscript):
        o = self.eval(t.value, env)
        if isinstance(o, Poison) and getattr(o, 'stat', False):
            return
        k = self.eval_index(t.slice, env)
        self.setitem(o, k, self.augop(s.op, self.getitem(o, k), self.eval(s.value, env)))
    else:
        raise Unsupported('augmented assignment')


def log_only(self, env, name):
    """a local counter that is never read but in log messages"""
    fi = env.func
    if fi is None or name not in env.vars:
        return False
    key = (id(fi.node), name)
    cache = self.__dict__.setdefault('_log_only', {})
    if key not in cache:
        skip = set()
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and self.is_logging(n.value, env):
                skip.update(id(m) for a in list(n.value.args) + [k.value for k in n.value.keywords] for m in ast.walk(a))
        cache[key] = not any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and id(n) not in skip for n in ast.walk(fi.node)) \
            and not any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fi.node))
    return cache[key]


def is_stat(self, t, o):
    return isinstance(o, Poison) and getattr(o, 'stat', False)


def augop(self, op, cur, v):
    if isinstance(op, ast.Add) and isinstance(cur, LList):
        self.coll_method(cur, 'extend', (v,), {})
        return cur
    if isinstance(cur, Obj) and isinstance(op, (ast.Add,)) and self.find_method(cur.cls, '__iadd__'):
        return self.call_function(self.find_method(cur.cls, '__iadd__'), [cur, v], {})
    return self.binop(op, cur, v)


def st_Delete(self, s, env):
    for t in s.targets:
        if isinstance(t, ast.Name):
            env.vars.pop(t.id, None)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.delitem(o, self.eval_index(t.slice, env))
        else:
            raise Unsupported('del')


def st_If(self, s, env):
    if self.branch(self.truth(self.eval(s.test, env))):
        self.exec_block(s.body, env)
    else:
        self.exec_block(s.orelse, env)


def st_With(self, s, env):
    raise Unsupported('with')


def st_Try(self, s, env):
    try:
        self.exec_block(s.body, env)
    except PyRaise as e:
        for h in s.handlers:
            names = []
            if h.type is None:
                names = None
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names = [t.attr if isinstance(t, ast.Attribute) else t.id for t in ts]
            hier = {'KeyError': ('LookupError',), 'IndexError': ('LookupError',)}
            if names is None or e.exc in names or 'Exception' in names or 'BaseException' in names or any(x in names for x in hier.get(e.exc, ())):
                if h.name:
                    env.vars[h.name] = Poison('exception object')
                self.exec_block(h.body, env)
                break
        else:
            raise
    else:
        self.exec_block(s.orelse, env)
    finally:
        pass
    self.exec_block(s.finalbody, env)


def st_Match(self, s, env):
    raise Unsupported('match')


# ------------------------------------------------------------------------------- loops
def iter_of(self, v):
    """Normalised iterable: tuple, Seq or Bag."""
    if isinstance(v, GenIter):
        if v.used and isinstance(v.coll, LList) and v.coll.content != []:
            return ()
        v.used = True
        return self.iter_of(v.coll)
    if isinstance(v, LList) and isinstance(v.content, Bag):
        return v.content
    if isinstance(v, Bag):
        return v
    if isinstance(v, Seq) and hasattr(v, 'bag'):
        return v.bag
    if isinstance(v, LSet):
        h = getattr(self, 'set_as_bag', None)
        if h is not None:
            return h(v)         # for statements about membership only: repeated elements may appear repeatedly
        if v.base is None and self.journal is None:
            # distinct elements, in every order
            rest = []
            for x in v.puts:
                if not any(self.branch(e) if not isinstance(e, bool) else e for e in (simp(self.eq(x, y)) for y in rest)):
                    rest.append(x)
            if len(rest) <= 3:
                out = []
                while len(rest) > 1:
                    k = 0
                    while k < len(rest) - 1 and not self.branch(self.fresh('order', BoolS)):
                        k += 1
                    out.append(rest.pop(k))
                return tuple(out + rest)
        raise Unsupported('iteration over a set')
    if isinstance(v, UObj):
        raise Unsupported('iteration over abstract %s' % v.tag)
    if isinstance(v, LList):
        self.check_read(v)
    if isinstance(v, Obj):
        m = self.find_method(v.cls, '__iter__')
        if m is not None:
            return self.iter_of(self.call_function(m, [v], {}))
    s = self.plain_seq(v)
    if isinstance(s, Seq):
        n = simp(s.n)
        if isinstance(n, int):
            return tuple(s.get(i) for i in range(n))
    return s


def concrete_items(self, v):
    s = self.iter_of(v)
    if not isinstance(s, tuple):
        raise Unsupported('iteration needs a known length')
    return s


def st_For(self, s, env):
    it = self.iter_of(self.eval(s.iter, env))
    if isinstance(it, tuple):
        for x in it:
            try:
                self.assign(s.target, x, env)
                self.exec_block(s.body, env)
            except _Continue:
                continue
            except _Break:
                return
        self.exec_block(s.orelse, env)
        return
    from . import loops
    loops.sym_for(self, s, env, it)


def st_While(self, s, env):
    from . import loops
    loops.do_while(self, s, env)


# ------------------------------------------------------------------------------- expressions
def eval_(self, e, env):
    m = getattr(self, 'ex_' + type(e).__name__, None)
    if m is None:
        raise Unsupported('expression %s' % type(e).__name__)
    return m(e, env)


def ex_Constant(self, e, env):
    if isinstance(e.value, float):
        return Fraction(e.value)
    if e.value is Ellipsis:
        raise Unsupported('...')
    return e.value


def ex_Name(self, e, env):
    v = self.lookup(env, e.id)
    if isinstance(v, Poison) and v.why.startswith('carried:'):
        raise NeedState(('var', v.why[8:]))
    return v


def ex_Attribute(self, e, env):
    return self.getattr(self.eval(e.value, env), e.attr)


def ex_Tuple(self, e, env):
    out = []
    for x in e.elts:
        if isinstance(x, ast.Starred):
            out += list(self.concrete_items(self.eval(x.value, env)))
        else:
            out.append(self.eval(x, env))
    return tuple(out)


def ex_List(self, e, env):
    return self.mklist(list(self.ex_Tuple(e, env)))


def ex_Set(self, e, env):
    s = LSet()
    s.birth = self.new_birth()
    for x in e.elts:
        s.puts.append(self.eval(x, env))
    return s


def ex_Dict(self, e, env):
    d = LDict()
    d.birth = self.new_birth()
    for k, v in zip(e.keys, e.values):
        if k is None:
            src = self.eval(v, env)
            if isinstance(src, LDict) and src.base is None and not src.memo:
                for kk, vv in self.dict_items(src):
                    self.dict_put(d, kk, vv)
                continue
            raise Unsupported('dict unpacking')
        self.dict_put(d, self.eval(k, env), self.eval(v, env))
    return d


def ex_JoinedStr(self, e, env):
    if self.strings:
        out = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                out.append(x.value)
            elif x.conversion in (-1, 115) and x.format_spec is None:
                out.append(strings.text_of(self, self.eval(x.value, env)))
            else:
                raise Unsupported('format specification')
        return strings.concat(*out)
    return Poison('formatted string')


def ex_Lambda(self, e, env):
    return FuncInfo(e, env.module, None, env)


def ex_Starred(self, e, env):
    raise Unsupported('starred')


def ex_NamedExpr(self, e, env):
    v = self.eval(e.value, env)
    self.assign(e.target, v, env)
    return v


def ex_IfExp(self, e, env):
    c = simp(self.truth(self.eval(e.test, env)))
    if isinstance(c, bool):
        return self.eval(e.body if c else e.orelse, env)
    # merge when both sides are pure scalars/structures, otherwise fork
    try:
        n0 = len(self.obligations)
        a = self.merge_under(c, lambda: self.eval(e.body, env))
        b = self.merge_under(Not(c), lambda: self.eval(e.orelse, env))
        if a is _NOPATH:
            return b
        if b is _NOPATH:
            return a
        return self.ite(c, a, b)
    except (Unsupported, MergeFail):
        del self.obligations[n0:]
    if self.branch(c):
        return self.eval(e.body, env)
    return self.eval(e.orelse, env)


class MergeFail(Exception):
    pass


_NOPATH = object()


def merge_under(self, c, thunk):
    outs = self.merge(thunk, (), c)
    if not outs:
        return _NOPATH
    vals = []
    for cond, out, J in outs:
        if J.entries or out[0] != 'value':
            raise MergeFail()
        vals.append((cond, out[1]))
    v = vals[-1][1]
    for cc, w in reversed(vals[:-1]):
        v = self.ite(cc, w, v)
    return v


def ex_BoolOp(self, e, env):
    isand = isinstance(e.op, ast.And)
    # value semantics; booleans are merged without forking
    vals = []
    cur = None
    for k, x in enumerate(e.values):
        if k == 0:
            cur = self.eval(x, env)
            continue
        c = simp(self.truth(cur))
        if isinstance(c, bool):
            if c != isand:
                return cur
            cur = self.eval(x, env)
            continue
        guard = c if isand else Not(c)
        n0 = len(self.obligations)
        try:
            nxt = self.merge_under(guard, lambda: self.eval(x, env))
            if nxt is _NOPATH:
                continue
            if is_bool(cur) and is_bool(nxt):
                cur = And(c, nxt) if isand else Or(c, nxt)
            else:
                cur = self.ite(guard, nxt, cur)
            continue
        except (Unsupported, MergeFail):
            del self.obligations[n0:]
        if self.branch(guard):
            cur = self.eval(x, env)
        else:
            return cur
    return cur


def ex_UnaryOp(self, e, env):
    v = self.eval(e.operand, env)
    if isinstance(e.op, ast.Not):
        return Not(self.truth(v))
    if isinstance(v, Opt):
        if self.branch(v.isnone):
            raise PyRaise('TypeError')
        v = v.val
    if isinstance(e.op, ast.USub):
        if isinstance(v, bool):
            return -int(v)
        if is_bool(v):
            return -z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if is_num(v):
            return -v
        if isinstance(v, UObj) and '__neg__' in v.attrs:
            return v.attrs['__neg__'](v)
    if isinstance(e.op, ast.UAdd) and is_num(v):
        return v
    if isinstance(e.op, ast.Invert):
        if isinstance(v, Obj):
            m = self.find_method(v.cls, '__invert__')
            if m is not None:
                return self.call_function(m, [v], {})
        if isinstance(v, UObj) and '__invert__' in v.attrs:
            return v.attrs['__invert__'](v)
        if isinstance(v, int):
            return ~v
        if is_num(v) and v.sort() == IntS:
            return -v - 1
    if isinstance(e.op, ast.USub) and isinstance(v, Obj):
        m = self.find_method(v.cls, '__neg__')
        if m is not None:
            return self.call_function(m, [v], {})
    raise Unsupported('unary %s on %r' % (type(e.op).__name__, v))


OPN = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Pow: '__pow__', ast.Mod: '__mod__',
       ast.FloorDiv: '__floordiv__', ast.Div: '__truediv__', ast.BitAnd: '__and__', ast.BitOr: '__or__', ast.BitXor: '__xor__'}
ROPN = {k: '__r' + v[2:] for k, v in OPN.items()}


def ex_BinOp(self, e, env):
    return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))


def binop(self, op, a, b):
    if isinstance(a, Opt):
        if self.branch(a.isnone):
            raise PyRaise('TypeError', ('operand is None',))
        a = a.val
    if isinstance(b, Opt):
        if self.branch(b.isnone):
            raise PyRaise('TypeError', ('operand is None',))
        b = b.val
    if a is None or b is None:
        raise PyRaise('TypeError', ('operand is None',))
    if isinstance(a, Poison) or isinstance(b, Poison):
        p = a if isinstance(a, Poison) else b
        if getattr(p, 'stat', False):
            return p
        raise Unsupported('undetermined value: %s' % p.why)
    t = type(op)
    # repository operators
    if isinstance(a, (Obj, UObj)) or isinstance(b, (Obj, UObj)):
        if t in OPN:
            for x, y, nm in ((a, b, OPN[t]), (b, a, ROPN[t])):
                if isinstance(x, Obj):
                    m = self.find_method(x.cls, nm)
                    if m is not None:
                        r = self.call_function(m, [x, y], {})
                        if r is not NOTIMPL:
                            return r
                elif isinstance(x, UObj) and nm in x.attrs:
                    r = x.attrs[nm](x, y)
                    if r is not NOTIMPL:
                        return r
            if isinstance(a, Obj) and a.payload is not None or isinstance(b, Obj) and b.payload is not None:
                return self.seq_binop(op, a, b)
            raise PyRaise('TypeError', ('unsupported operand',))
    if isinstance(a, NumOf) or isinstance(b, (NumOf, DenOf)) or isinstance(a, DenOf):
        if isinstance(a, NumOf) and isinstance(b, DenOf) and a.x.eq(b.x):
            if t is ast.FloorDiv:
                return z3.ToInt(a.x)
            if t is ast.Mod:
                r = self.fresh('fracpart', IntS)
                self.assume(z3.And(r >= 0, (r == 0) == z3.IsInt(a.x)))
                return r
        raise Unsupported('numerator/denominator arithmetic')
    if is_bool(a) and is_bool(b):
        if t is ast.BitXor:
            return a != b if not (is_z3(a) or is_z3(b)) else z3.Xor(zval(a), zval(b))
        if t is ast.BitAnd:
            return And(a, b)
        if t is ast.BitOr:
            return Or(a, b)
    if is_bool(a):
        a = int(a) if isinstance(a, bool) else z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if is_bool(b):
        b = int(b) if isinstance(b, bool) else z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if is_num(a) and is_num(b):
        return self.arith(t, a, b)
    return self.seq_binop(op, a, b)


def arith(self, t, a, b):
    ca, cb = not is_z3(a), not is_z3(b)
    isint = (isinstance(a, int) or (is_z3(a) and a.sort() == IntS)) and (isinstance(b, int) or (is_z3(b) and b.sort() == IntS))
    if not isint and t is not ast.Pow:
        if isinstance(a, Fraction) and not cb:
            a = zval(a)
        if isinstance(b, Fraction) and not ca:
            b = zval(b)
    if t is ast.Add:
        return a + b
    if t is ast.Sub:
        return a - b
    if t is ast.Mult:
        return a * b
    if t in (ast.FloorDiv, ast.Mod, ast.Div):
        if cb and b == 0:
            raise PyRaise('ZeroDivisionError')
        if not cb and not self.known(b != 0):
            if not self.branch(b != 0):
                raise PyRaise('ZeroDivisionError')
        if ca and cb:
            if t is ast.FloorDiv:
                return a // b
            if t is ast.Mod:
                return a % b
            return Fraction(a) / Fraction(b)
        if t is ast.Div:
            self.assumptions.add('true division is exact')
            return toreal(a) / toreal(b)
        if isint:
            # Python floors; z3 div/mod agree for positive divisors
            pos = (b > 0) if cb else self.known(b > 0)
            if not pos:
                raise Unsupported('division by a possibly negative number')
            return zval(a) / zval(b) if t is ast.FloorDiv else zval(a) % zval(b)
        q = z3.ToInt(toreal(a) / toreal(b))
        return q if t is ast.FloorDiv else toreal(a) - toreal(b) * z3.ToReal(q)
    if t is ast.Pow:
        return self.power(a, b)
    if t in (ast.BitXor, ast.BitAnd, ast.BitOr) and ca and cb:
        return {ast.BitXor: a ^ b, ast.BitAnd: a & b, ast.BitOr: a | b}[t]
    raise Unsupported('arithmetic %s' % t.__name__)


def power(self, a, b):
    if not is_z3(a) and not is_z3(b):
        return a ** b
    if isinstance(b, int) and 0 <= b <= 4:
        r = 1
        for _ in range(b):
            r = r * a
        return r
    if is_z3(b) and b.sort() != IntS:
        raise Unsupported('real exponent')
    za = zval(a)
    zb = zval(b)
    if za.sort() == IntS:
        return POW(za, zb)
    return RPOW(za, zb)


POW = z3.Function('POW', IntS, IntS, IntS)
RPOW = z3.Function('RPOW', RealS, IntS, RealS)


def seq_binop(self, op, a, b):
    if isinstance(op, ast.Add):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, (str, Str)) and isinstance(b, (str, Str)):
            return strings.concat(a, b)
        if isinstance(a, LList) and isinstance(b, LList):
            return self.mklist(self.concat_content(a, b))
        if isinstance(a, (tuple, Seq, Obj)) and isinstance(b, (tuple, Seq, Obj)):
            return self.concat(self.plain_seq(a), self.plain_seq(b))
    if isinstance(op, ast.Mult):
        if is_num(a) and not is_num(b):
            a, b = b, a
        if isinstance(a, str) and isinstance(b, int):
            return a * b
        base = self.plain_seq(a)
        if isinstance(base, tuple) and len(base) == 1:
            v = base[0]
            if isinstance(b, int):
                r = (v,) * b
            else:
                n = b if self.known(b >= 0) else z3.If(b >= 0, b, z3.IntVal(0))
                r = Seq(n, lambda i: v)
            if isinstance(a, LList):
                return self.mklist(list(r) if isinstance(r, tuple) else r)
            return r
        if isinstance(base, tuple) and isinstance(b, int):
            return self.mklist(list(base * b)) if isinstance(a, LList) else base * b
    if isinstance(op, ast.Mod) and isinstance(a, str):
        if self.strings:
            return strings.percent(self, a, b)
        return Poison('formatted string')
    if isinstance(a, LSet) or isinstance(b, LSet):
        return self.set_op(op, a, b)
    if isinstance(a, DictView) or isinstance(b, DictView):
        raise Unsupported('dict view operator')
    raise Unsupported('operator %s on %s, %s' % (type(op).__name__, type(a).__name__, type(b).__name__))


def concat_content(self, a, b):
    if isinstance(a.content, list) and isinstance(b.content, list):
        return a.content + b.content
    if isinstance(a.content, Bag) or isinstance(b.content, Bag):
        return Bag(self.bag_of(a).events + self.bag_of(b).events)
    r = self.concat(self.plain_seq(a), self.plain_seq(b))
    return list(r) if isinstance(r, tuple) else r


def concat(self, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a + b
    if isinstance(a, tuple) and not a:
        return b
    if isinstance(b, tuple) and not b:
        return a
    sa, sb = self.as_seq(a), self.as_seq(b)

    def get(i):
        c = simp(zval(i) < zval(sa.n))
        if c is True:
            return sa.get(i)
        if c is False:
            return sb.get(simp(i - sa.n))
        if is_z3(i) and self.known(c, 100):
            return sa.get(i)
        if is_z3(i) and self.known(Not(c), 100):
            return sb.get(simp(i - sa.n))
        if sb.n == 1 or (is_z3(sb.n) and z3.is_int_value(sb.n)):
            return self.ite(c, sa.get(i), sb.get(0) if sb.n == 1 else sb.get(simp(i - sa.n)))
        if isinstance(sa.n, int):
            v = sb.get(simp(i - sa.n))
            for j in range(sa.n - 1, -1, -1):
                v = self.ite(i == j, sa.get(j), v)
            return v
        return self.ite(c, sa.get(i), sb.get(simp(i - sa.n)))
    return Seq(simp(zval(sa.n) + zval(sb.n)), get)


def ex_Compare(self, e, env):
    left = self.eval(e.left, env)
    res = True
    for op, r in zip(e.ops, e.comparators):
        right = self.eval(r, env)
        c = self.compare(op, left, right)
        res = And(res, c)
        left = right
        if res is False:
            return False
    return res


def compare(self, op, a, b):
    t = type(op)
    if t is ast.Eq:
        return self.eq(a, b)
    if t is ast.NotEq:
        return Not(self.eq(a, b))
    if t in (ast.Is, ast.IsNot):
        if a is None or b is None:
            x = b if a is None else a
            r = x.isnone if isinstance(x, Opt) else (x is None)
            if isinstance(x, Poison):
                raise Unsupported('undetermined value: %s' % x.why)
        elif isinstance(a, bool) or isinstance(b, bool):
            r = self.eq(a, b) if is_bool(a) and is_bool(b) else False
        elif isinstance(a, ClassInfo) or isinstance(b, ClassInfo):
            r = a is b
        elif isinstance(a, (Obj, LList, LDict, LSet)) and a is b:
            r = True
        else:
            raise Unsupported('identity test')
        return r if t is ast.Is else Not(r)
    if t in (ast.In, ast.NotIn):
        r = self.contains(b, a)
        return r if t is ast.In else Not(r)
    return self.order(t, a, b)


def order(self, t, a, b):
    if isinstance(a, Opt):
        if self.branch(a.isnone):
            raise PyRaise('TypeError', ('compare with None',))
        a = a.val
    if isinstance(b, Opt):
        if self.branch(b.isnone):
            raise PyRaise('TypeError', ('compare with None',))
        b = b.val
    if a is None or b is None:
        raise PyRaise('TypeError', ('compare with None',))
    if is_bool(a):
        a = int(a) if isinstance(a, bool) else z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if is_bool(b):
        b = int(b) if isinstance(b, bool) else z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if is_num(a) and is_num(b):
        if isinstance(a, Fraction) and is_z3(b):
            a = zval(a)
        if isinstance(b, Fraction) and is_z3(a):
            b = zval(b)
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[t]()
    names = {ast.Lt: ('__lt__', '__gt__'), ast.Gt: ('__gt__', '__lt__'), ast.LtE: ('__le__', '__ge__'), ast.GtE: ('__ge__', '__le__')}[t]
    if isinstance(a, Obj) and self.find_method(a.cls, names[0]):
        return self.truth(self.call_function(self.find_method(a.cls, names[0]), [a, b], {}))
    if isinstance(b, Obj) and self.find_method(b.cls, names[1]):
        return self.truth(self.call_function(self.find_method(b.cls, names[1]), [b, a], {}))
    if isinstance(a, UObj) and isinstance(b, UObj) and '__lt__' in a.attrs:
        lt = a.attrs['__lt__']
        if t is ast.Lt:
            return lt(a, b)
        if t is ast.Gt:
            return lt(b, a)
        if t is ast.LtE:
            return Or(lt(a, b), self.eq(a, b))
        return Or(lt(b, a), self.eq(a, b))
    if isinstance(a, (tuple, NTVal)) and isinstance(b, (tuple, NTVal)) or (isinstance(a, Obj) and isinstance(b, Obj) and a.payload is not None and b.payload is not None):
        pa, pb = self.plain_seq(a), self.plain_seq(b)
        if isinstance(pa, tuple) and isinstance(pb, tuple):
            return self.lex(t, pa, pb)
    raise Unsupported('order of %s, %s' % (type(a).__name__, type(b).__name__))


def lex(self, t, a, b):
    if not a or not b:
        la, lb = len(a), len(b)
        return {ast.Lt: la < lb, ast.LtE: la <= lb, ast.Gt: la > lb, ast.GtE: la >= lb}[t]
    strict = ast.Lt if t in (ast.Lt, ast.LtE) else ast.Gt
    head = self.order(strict, a[0], b[0]) if not (a[0] is b[0]) else False
    same = self.eq(a[0], b[0])
    if same is False:
        return head
    return Or(head, And(same, self.lex(t, a[1:], b[1:])))


def eval_index(self, s, env):
    if isinstance(s, ast.Slice):
        f = lambda x: None if x is None else self.eval(x, env)
        return Slice(f(s.lower), f(s.upper), f(s.step))
    if isinstance(s, ast.Tuple):
        if any(isinstance(x, ast.Slice) for x in s.elts):
            raise Unsupported('multi slice')
    return self.eval(s, env)


def ex_Subscript(self, e, env):
    o = self.eval(e.value, env)
    if isinstance(o, (ClassInfo, ExtType)):
        return o
    return self.getitem(o, self.eval_index(e.slice, env))


def getitem(self, o, k):
    if isinstance(o, Opt):
        if self.branch(o.isnone):
            raise PyRaise('TypeError', ('None[...]',))
        o = o.val
    if o is None:
        raise PyRaise('TypeError', ('None[...]',))
    if isinstance(o, LDict):
        return self.dict_get(o, k)
    if isinstance(o, Poison):
        raise Unsupported('undetermined value: %s' % o.why)
    if isinstance(o, UObj):
        if '__getitem__' in o.attrs:
            return o.attrs['__getitem__'](o, k)
        raise Unsupported('index of abstract %s' % o.tag)
    if isinstance(o, Obj) and self.find_method(o.cls, '__getitem__'):
        return self.call_function(self.find_method(o.cls, '__getitem__'), [o, k], {})
    if isinstance(o, LList):
        self.check_read(o, k)
        if hasattr(o.content, 'index'):
            if not isinstance(o.content, (list, tuple)):
                return o.content.index(self, k)
    if isinstance(o, Str) or (self.strings and isinstance(o, str)):
        return strings.index(self, o, k)
    seq = self.plain_seq(o)
    if isinstance(k, Slice):
        r = self.slice(seq, k)
        return self.mklist(list(r) if isinstance(r, tuple) else r) if isinstance(o, LList) else r
    if isinstance(o, str):
        return o[k]
    return self.seq_index(seq, k)


def check_read(self, l, k=None):
    lock = getattr(l, 'locked', None)
    if lock is None:
        return
    if lock == 'append':
        raise NeedState(('list', l))
    if callable(lock):
        lock(k)


def seq_index(self, seq, k):
    k = simp(k)
    if is_bool(k):
        k = int(k) if isinstance(k, bool) else z3.If(k, z3.IntVal(1), z3.IntVal(0))
    if not is_num(k):
        raise Unsupported('index %r' % (k,))
    n = len(seq) if isinstance(seq, tuple) else seq.n
    if isinstance(k, int) and isinstance(n, int):
        if not -n <= k < n:
            raise PyRaise('IndexError')
        return seq[k] if isinstance(seq, tuple) else seq.get(k % n)
    zn = zval(n)
    if isinstance(k, int):
        if k < 0:
            if not self.branch(zn >= -k):
                raise PyRaise('IndexError')
            return seq.get(simp(zn + k))
        if not self.branch(zn > k):
            raise PyRaise('IndexError')
        return seq.get(k)
    if not self.known(k >= 0):
        if self.branch(k < 0):
            if not self.branch(k + zn >= 0):
                raise PyRaise('IndexError')
            return self.tuple_get(seq, k + zn) if isinstance(seq, tuple) else seq.get(k + zn)
    if not self.branch(k < zn):
        raise PyRaise('IndexError')
    return self.tuple_get(seq, k) if isinstance(seq, tuple) else seq.get(k)


def slice_(self, seq, s):
    if s.step is not None:
        if isinstance(s.step, int) and s.step == -1 and s.lo is None and s.hi is None:
            return self.reverse(seq)
        if isinstance(seq, tuple) and all(x is None or isinstance(x, int) for x in (s.lo, s.hi, s.step)):
            return seq[s.lo:s.hi:s.step]
        if not (isinstance(s.step, int) and s.step == 1):
            raise Unsupported('slice step')
    lo, hi = simp(s.lo), simp(s.hi)
    if isinstance(seq, tuple) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
        return seq[lo:hi]
    sq = self.as_seq(seq)
    n = zval(sq.n)

    def norm(x, default):
        if x is None:
            return default
        if isinstance(x, int):
            if x < 0:
                return n + x if self.known(n + x >= 0) else z3.If(n + x >= 0, n + x, z3.IntVal(0))
            return z3.IntVal(x) if self.known(n >= x) else z3.If(n >= x, z3.IntVal(x), n)
        if self.known(And(x >= 0, x <= n)):
            return x
        y = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))
        return y
    lo, hi = norm(lo, z3.IntVal(0)), norm(hi, n)
    m = hi - lo if self.known(hi >= lo) else z3.If(hi >= lo, hi - lo, z3.IntVal(0))
    m = simp(m)
    if isinstance(m, int):
        return tuple(sq.get(simp(lo + j)) for j in range(m))
    lo = simp(lo)
    if isinstance(lo, int) and lo == 0:
        return Seq(m, sq.get)
    return Seq(m, lambda i: sq.get(simp(i + lo)))


def reverse(self, seq):
    seq = self.plain_seq(seq)
    if isinstance(seq, tuple):
        return tuple(reversed(seq))
    if isinstance(seq, FlatSeq):
        pass
    return Seq(seq.n, lambda i: seq.get(simp(seq.n - 1 - i)))


def setitem(self, o, k, v):
    self.touched.append(o)
    if isinstance(o, LDict):
        return self.dict_put(o, k, v)
    if isinstance(o, Obj) and self.find_method(o.cls, '__setitem__'):
        return self.call_function(self.find_method(o.cls, '__setitem__'), [o, k, v], {})
    if isinstance(o, LList):
        if isinstance(k, Slice):
            raise Unsupported('slice assignment')
        if isinstance(o.content, Bag):
            raise Unsupported('store into a filtered collection')
        k = simp(k)
        n = self.length(o)
        if isinstance(k, int) and k < 0:
            k = simp(zval(n) + k)
        if is_z3(k) and not self.known(k >= 0):
            if self.branch(k < 0):
                k = k + n
        ok = simp(And(zval(k) >= 0, zval(k) < zval(n)))
        if not self.branch(ok):
            raise PyRaise('IndexError', ('store',))
        if self.journal is not None and getattr(o, 'birth', 0) <= self.journal.birth:
            self.journal.add(('store', o, k, v))
            return
        if isinstance(o.content, list):
            if isinstance(k, int):
                o.content[k] = v
            else:
                o.content = [self.ite(k == j, v, x) for j, x in enumerate(o.content)]
        else:
            old = o.content
            o.content = Seq(old.n, lambda i: self.ite(simp(zval(i) == zval(k)), v, old.get(i)))
        return
    raise Unsupported('item assignment on %r' % (o,))


def delitem(self, o, k):
    self.touched.append(o)
    if isinstance(o, LDict) and o.base is None:
        raise Unsupported('del from dict')
    if isinstance(o, LList) and isinstance(o.content, list) and isinstance(k, int):
        self.note_mut_plain(o)
        del o.content[k]
        return
    raise Unsupported('del')


def note_mut_plain(self, o):
    if self.journal is not None and getattr(o, 'birth', 0) <= self.journal.birth:
        raise Unsupported('mutation inside a generic iteration')


# calls
def ex_Call(self, e, env):
    f = e.func
    if isinstance(f, ast.Name) and f.id == 'super' and not e.args:
        ee = env
        while ee is not None and ee.cls is None:
            ee = ee.parent
        return SuperProxy(ee.cls, ee.self_val)
    if self.is_logging(e, env):
        return None
    fn = self.eval(f, env)
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            args += list(self.star_items(self.eval(a.value, env), fn))
        else:
            args.append(self.eval(a, env))
    kw = {}
    for k in e.keywords:
        if k.arg is None:
            d = self.eval(k.value, env)
            if not isinstance(d, LDict) or d.base is not None or getattr(d, 'comp', None):
                raise Unsupported('**kwargs')
            for kk, vv in self.dict_items(d):
                if not isinstance(kk, str):
                    raise Unsupported('**kwargs key')
                kw[kk] = vv
        else:
            kw[k.arg] = self.eval(k.value, env)
    return self.call(fn, args, kw)


def star_items(self, v, fn):
    s = self.iter_of(v)
    if isinstance(s, tuple):
        return s
    if isinstance(fn, Builtin) and getattr(fn, 'name', '') in ('product', 'zip', 'chain'):
        return [StarArg(s)]
    raise Unsupported('star arguments of unknown length')


class StarArg:
    def __init__(self, seq):
        self.seq = seq


def ex_Yield(self, e, env):
    v = self.eval(e.value, env) if e.value is not None else None
    ee = env
    while ee.out is None:
        ee = ee.parent
    self.coll_method(ee.out, 'append', (v,), {})
    return None


def ex_YieldFrom(self, e, env):
    v = self.eval(e.value, env)
    ee = env
    while ee.out is None:
        ee = ee.parent
    self.coll_method(ee.out, 'extend', (v,), {})
    return None


# comprehensions
def ex_ListComp(self, e, env):
    c = self.comp(e, env)
    return self.mklist(list(c) if isinstance(c, tuple) else c)


def ex_GeneratorExp(self, e, env):
    c = self.comp(e, env)
    return GenIter(self.mklist(list(c) if isinstance(c, tuple) else c))


def ex_SetComp(self, e, env):
    c = self.comp(e, env)
    s = LSet()
    s.birth = self.new_birth()
    if isinstance(c, tuple):
        s.puts = list(c)
        return s
    s.base = self.bag_of(c)
    return s


def ex_DictComp(self, e, env):
    pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
    c = self.comp_gen(e.generators, pair, env)
    return self.dict_from_pairs(c)


def dict_from_pairs(self, c):
    d = LDict()
    d.birth = self.new_birth()
    if isinstance(c, tuple):
        for k, v in c:
            self.dict_put(d, k, v)
        return d
    if isinstance(c, Seq):
        g = c.get
        d.comp = (c.n, lambda i: g(i)[0], lambda i: g(i)[1])
        return d
    raise Unsupported('filtered dict comprehension')


class MutInComp(Unsupported):
    pass


def comp(self, e, env):
    return self.comp_gen(e.generators, e.elt, env)


def comp_gen(self, gens, elt, env):
    """Result: tuple, Seq or Bag."""
    inner = Env(env.module, env)
    inner.func, inner.cls, inner.self_val = env.func, env.cls, env.self_val
    inner.cls = None
    inner.out = None
    try:
        return self._comp(list(gens), elt, inner)
    except MutInComp:
        return self.comp_as_loop(gens, elt, inner)


def comp_as_loop(self, gens, elt, env):
    """a comprehension whose element expression has effects: the equivalent for statement"""
    tmp = self.mklist([])
    env.vars['.list'] = tmp
    node = ast.Expr(ast.Call(ast.Attribute(ast.Name('.list', ast.Load()), 'append', ast.Load()), [elt], []))
    for g in reversed(gens):
        for t in reversed(g.ifs):
            node = ast.If(t, [node], [])
        node = ast.For(g.target, g.iter, [node], [])
    ast.copy_location(node, elt)
    ast.fix_missing_locations(node)
    self.exec_block([node], env)
    c = tmp.content
    return tuple(c) if isinstance(c, list) else c


def _comp(self, gens, elt, env):
    if not gens:
        return (self.eval(elt, env),)
    g = gens[0]
    it = self.iter_of(self.eval(g.iter, env))
    if isinstance(it, tuple):
        parts = []
        for x in it:
            self.assign(g.target, x, env)
            cond = True
            for t in g.ifs:
                cond = And(cond, self.truth(self.eval(t, env)))
            cond = simp(cond)
            if cond is not True and cond is not False and getattr(self, 'fork_filter', False):
                cond = self.branch(cond)
            if cond is False:
                continue
            if cond is True:
                sub = self._comp(gens[1:], elt, env)
                parts.append((True, sub))
            else:
                def run():
                    return self._comp(gens[1:], elt, env)
                sub = self.merge_under(cond, run)
                if sub is _NOPATH:
                    continue
                parts.append((cond, sub))
        if all(c is True and isinstance(s, tuple) for c, s in parts):
            return tuple(x for _, s in parts for x in s)
        if len(parts) == 1 and parts[0][0] is True:
            return parts[0][1]
        if all(c is True and not isinstance(s, Bag) for c, s in parts):
            r = ()
            for _, s in parts:
                r = self.concat(r, s)
            return r
        evs = []
        for c, s in parts:
            for ev in self.bag_of(s).events:
                evs.append(Event(ev.binders, And(c, ev.cond), ev.value))
        return Bag(evs)
    if isinstance(it, Seq):
        i = self.index_var('i')
        guard = z3.And(i >= 0, i < it.n)

        def body():
            self.assign(g.target, it.get(i), env)
            cond = True
            for t in g.ifs:
                tv = self.merge_under(cond, lambda: self.truth(self.eval(t, env))) if cond is not True else self.truth(self.eval(t, env))
                if tv is _NOPATH:
                    tv = False
                cond = And(cond, tv)
            cond = simp(cond)
            if cond is False:
                return (False, ())
            if cond is True:
                return (True, self._comp(gens[1:], elt, env))
            sub = self.merge_under(cond, lambda: self._comp(gens[1:], elt, env))
            if sub is _NOPATH:
                return (False, ())
            return (cond, sub)
        cond, sub = self.merge_pair(body, [i], guard)
        if cond is True and isinstance(sub, tuple) and len(sub) == 1:
            v = sub[0]
            return Seq(it.n, lambda j: self.subst(v, [(i, zval(j))]))
        if cond is True and isinstance(sub, (Seq, tuple)) and not isinstance(sub, Bag):
            m = len(sub) if isinstance(sub, tuple) else sub.n
            if not occurs(i, m):
                ss = self.as_seq(sub)
                return FlatSeq(it.n, m, lambda a, r: self.subst_shift2(ss, r, i, a), simp(zval(it.n) * zval(m)))
        evs = []
        for ev in self.bag_of(sub).events:
            evs.append(Event((i,) + tuple(ev.binders), And(guard, cond, ev.cond), ev.value))
        return Bag(evs)
    if isinstance(it, Bag):
        evs = []
        for ev in it.events:
            bs, cond0, val0 = self.rename_event(ev)

            def body():
                self.assign(g.target, val0, env)
                cond = True
                for t in g.ifs:
                    cond = And(cond, self.truth(self.eval(t, env)))
                cond = simp(cond)
                if cond is False:
                    return (False, ())
                if cond is True:
                    return (True, self._comp(gens[1:], elt, env))
                sub = self.merge_under(cond, lambda: self._comp(gens[1:], elt, env))
                return (cond, sub) if sub is not _NOPATH else (False, ())
            cond, sub = self.merge_pair(body, list(bs), cond0)
            if cond is False:
                continue
            for e2 in self.bag_of(sub).events:
                evs.append(Event(tuple(bs) + tuple(e2.binders), And(cond0, cond, e2.cond), e2.value))
        return Bag(evs)
    raise Unsupported('comprehension over %r' % (it,))


def subst_shift2(self, ss, r, i, a):
    return self.subst_shift(lambda x: ss.get(x), (r,), [(i, zval(a))])


def merge_pair(self, body, binders, guard):
    outs = self.merge(body, binders, guard)
    vals = []
    for c, out, J in outs:
        if J.entries:
            raise MutInComp('mutation inside a comprehension')
        if out[0] == 'raise':
            self._prove_no_raise(c, out[1], binders, guard)
            continue
        vals.append((c, out[1]))
    if not vals:
        return (False, ())
    if len(vals) == 1 and (vals[0][0] is True):
        return vals[0][1]
    # several local paths: merge when shapes agree, otherwise a bag of the alternatives
    try:
        cc, vv = vals[-1][1]
        for c, (c2, v2) in reversed(vals[:-1]):
            if not (c2 is True and cc is True):
                raise Unsupported('filter')
            vv = self.ite(c, v2, vv)
        return (cc, vv)
    except Unsupported:
        evs = []
        for c, (c2, v2) in vals:
            for ev in self.bag_of(v2).events:
                evs.append(Event(ev.binders, And(c, c2, ev.cond), ev.value))
        return (True, Bag(evs))


def rename_event(self, ev):
    new = [z3.FreshConst(b.sort(), 'e') for b in ev.binders]
    pairs = list(zip(ev.binders, new))
    if not pairs:
        return (), ev.cond, ev.value
    return tuple(new), self.subst(ev.cond, pairs), self.subst(ev.value, pairs)


def bag_of(self, v):
    if isinstance(v, Bag):
        return v
    if isinstance(v, LList):
        if isinstance(v.content, Bag):
            return v.content
        return self.bag_of(tuple(v.content) if isinstance(v.content, list) else v.content)
    if isinstance(v, GenIter):
        return self.bag_of(v.coll)
    if isinstance(v, tuple):
        return Bag([Event((), True, x) for x in v])
    if isinstance(v, FlatSeq):
        i, r = self.index_var('fi'), self.index_var('fr')
        return Bag([Event((i, r), z3.And(i >= 0, i < v.blocks, r >= 0, r < v.m), v.get2(i, r))])
    if isinstance(v, Seq) and hasattr(v, 'bag'):
        return v.bag
    if isinstance(v, Seq):
        i = self.index_var('b')
        return Bag([Event((i,), z3.And(i >= 0, i < v.n), v.get(i))])
    return self.bag_of(self.plain_seq(v))


Engine.call = call
Engine.call_function = call_function
Engine.bind_args = bind_args
Engine.bind = bind
Engine.run_body = run_body
Engine.exec_block = exec_block
Engine.exec = exec_
Engine.eval = eval_
Engine.slice = slice_
for _n, _f in list(globals().items()):
    if callable(_f) and getattr(_f, '__module__', None) == __name__ and not isinstance(_f, type) and not _n.endswith('__'):
        if not hasattr(Engine, _n):
            setattr(Engine, _n, _f)
