"""AST interpreter of the repository's own functions over symbolic values.

Sources are read from the files the imported modules come from, on every run; nothing is translated by hand.
What is dropped: docstrings, type annotations, and the text of exception messages (never inspected).
"""
from __future__ import annotations
import ast, types, inspect, dataclasses, builtins, math, operator, os
from fractions import Fraction
from . import terms as tm
from .terms import T
from .engine import ctx, InterpRaise, MISSING, Retry, is_deferred, VDict, tick
from . import containers as C
from .containers import (PList, PSet, PDict, Arr, Item, For, If, Rem, eqv, member, conj, disj, inst, is_repo_class,
                         is_repo_instance, is_scalar)

REPO_SRC = os.environ.get("PYDV_REPO_SRC", "/repo/src")


# ------------------------------------------------------------------ sources
class Sources:
    def __init__(self):
        self.files = {}
        self.used = {}

    def index(self, path):
        r = self.files.get(path)
        if r is None:
            with open(path) as fh:
                text = fh.read()
            tree = ast.parse(text)
            r = {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    line = n.lineno
                    if isinstance(n, ast.FunctionDef) and n.decorator_list:
                        line = min(d.lineno for d in n.decorator_list)
                    r.setdefault(line, []).append(n)
            self.files[path] = r
        return r

    def node(self, f):
        code = f.__code__
        cands = self.index(code.co_filename).get(code.co_firstlineno, [])
        cands = [n for n in cands if (isinstance(n, ast.Lambda)) == (code.co_name == "<lambda>")]
        if not isinstance(code.co_name, str):
            return None
        if code.co_name != "<lambda>":
            cands = [n for n in cands if n.name == code.co_name]
        if len(cands) > 1:
            pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None]
            if pos:
                c0 = min(p[2] for p in pos if p[0] == code.co_firstlineno)
                cands = [n for n in cands if n.col_offset <= c0] or cands
                cands = [max(cands, key=lambda n: n.col_offset)]
        return cands[0] if cands else None


SOURCES = Sources()


def is_repo_function(f):
    return isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(REPO_SRC)


class Frame:
    __slots__ = ("vars", "globals", "parent", "cls", "selfarg", "name", "outer", "yields")

    def __init__(self, globals_, parent=None, cls=None, name=""):
        self.vars = VDict()
        self.globals = globals_
        self.parent = parent
        self.cls = cls
        self.selfarg = None
        self.name = name
        self.outer = {}
        self.yields = None


class InterpFunction:
    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults = node, frame, defaults, kwdefaults
        self.__name__ = name

    def __call__(self, *a, **k):
        return call(self, list(a), k)

    def __get__(self, obj, owner=None):
        return self if obj is None else types.MethodType(self, obj)

    def __inst__(self, m, ids):
        # captured variables are substituted
        fr = self.frame
        if fr is None:
            return self
        nf = _inst_frame(fr, m, ids)
        if nf is fr:
            return self
        return InterpFunction(self.node, nf, self.defaults, self.kwdefaults, self.__name__)


def _inst_frame(fr, m, ids, depth=0):
    if fr is None or depth > 4:
        return fr
    vs = {k: (C._inst(v, m, ids) if not isinstance(v, InterpFunction) else v) for k, v in fr.vars.items()}
    p = _inst_frame(fr.parent, m, ids, depth + 1)
    if p is fr.parent and all(vs[k] is fr.vars[k] for k in vs):
        return fr
    nf = Frame(fr.globals, p, fr.cls, fr.name)
    nf.vars = vs
    nf.selfarg = fr.selfarg
    nf.outer = fr.outer
    return nf


class Opaque:
    """a caller-supplied function about which nothing is assumed beyond what `fn` says"""

    def __init__(self, fn, name="f"):
        self.fn, self.__name__ = fn, name

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


class Last:
    """value a variable has after a loop 0 <= k < n in whose every iteration it is assigned `v`"""

    def __init__(self, v, k, n, old):
        self.v, self.k, self.n, self.old = v, k, n, old


class Poison:
    def __init__(self, what):
        self.what = what


LAMBDIFIED: list = []     # model of the sympy-generated functions
CONTRACTS: dict = {}      # function object -> spec(args, kwargs)
STUBS: dict = {}          # native callables -> model(args, kwargs)
DEPTH = [0]
USED = {}                 # qualified names of interpreted functions


def signature_bind(a: ast.arguments, name, args, kwargs, defaults, kwdefaults):
    out = {}
    pos = a.posonlyargs + a.args
    args = list(args)
    if len(args) > len(pos) and a.vararg is None:
        raise InterpRaise(TypeError(f"{name}() takes {len(pos)} positional arguments but {len(args)} were given"))
    for p, v in zip(pos, args):
        out[p.arg] = v
    if a.vararg is not None:
        out[a.vararg.arg] = tuple(args[len(pos):])
    kw = dict(kwargs)
    names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
    for k in list(kw):
        if k in names:
            if k in out:
                raise InterpRaise(TypeError(f"{name}() got multiple values for argument '{k}'"))
            out[k] = kw.pop(k)
    off = len(pos) - len(defaults)
    for i, p in enumerate(pos):
        if p.arg not in out:
            if i >= off:
                out[p.arg] = defaults[i - off]
            else:
                raise InterpRaise(TypeError(f"{name}() missing required argument: '{p.arg}'"))
    for p in a.kwonlyargs:
        if p.arg not in out:
            if p.arg in kwdefaults:
                out[p.arg] = kwdefaults[p.arg]
            else:
                raise InterpRaise(TypeError(f"{name}() missing required keyword argument: '{p.arg}'"))
    if a.kwarg is not None:
        out[a.kwarg.arg] = PDict(tuple(Item((k, v)) for k, v in kw.items()))
    elif kw:
        raise InterpRaise(TypeError(f"{name}() got an unexpected keyword argument '{next(iter(kw))}'"))
    return out


def has_yield(node):
    r = getattr(node, "_has_yield", None)
    if r is None:
        r = False
        stack = list(node.body) if isinstance(node, ast.FunctionDef) else []
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        node._has_yield = r
    return r


def run_node(node, frame, bound, name):
    DEPTH[0] += 1
    if DEPTH[0] > 120:
        DEPTH[0] = 0
        raise tm.Unsupported("recursion depth")
    try:
        for _k, _v in bound.items():
            frame.vars[_k] = _v
        if isinstance(node, ast.Lambda):
            return ev(node.body, frame)
        if has_yield(node):
            frame.yields = PList()
            exec_block(node.body, frame)
            return PIter(frame.yields.nodes)
        r = exec_block(node.body, frame)
        if r is not None and r[0] == "return":
            return r[1]
        return None
    finally:
        DEPTH[0] -= 1


def call_repo(f, args, kwargs):
    node = SOURCES.node(f)
    if node is None:
        raise tm.Unsupported(f"no source for {f.__qualname__}")
    USED[f"{f.__module__.split('.')[-1]}.{f.__qualname__}"] = f.__code__.co_firstlineno
    cls = None
    closure = {}
    if f.__closure__:
        for nm, cell in zip(f.__code__.co_freevars, f.__closure__):
            try:
                closure[nm] = cell.cell_contents
            except ValueError:
                pass
    cls = closure.get("__class__")
    fr = Frame(f.__globals__, None, cls, f.__qualname__)
    fr.outer = closure
    bound = signature_bind(node.args, f.__name__, args, kwargs, f.__defaults__ or (), f.__kwdefaults__ or {})
    if node.args.args:
        fr.selfarg = node.args.args[0].arg
    return run_node(node, fr, bound, f.__name__)


# the frame condition of the contracts: a call made by a contract writes to nothing that existed before it
PURE = [False]


def call_framed(f, args, kwargs):
    m = ctx().hmark()
    r = call_repo(f, args, kwargs)
    for c, k, old in ctx().modified(m).values():
        if not isinstance(c, PIter) and not getattr(c, "ghost", False):
            # what the call returns may depend on earlier calls, which this contract does not cover
            raise tm.Unsupported(f"{f.__qualname__} writes to state that outlives the call ({k})")
    return r


def call(f, args, kwargs=None):
    kwargs = kwargs or {}
    h = CONTRACTS.get(f) if _hashable(f) else None
    if h is not None:
        return h(args, kwargs)
    if isinstance(f, InterpFunction):
        fr = Frame(f.frame.globals, f.frame, f.frame.cls, f.__name__)
        bound = signature_bind(f.node.args, f.__name__, args, kwargs, f.defaults, f.kwdefaults)
        fr.selfarg = f.frame.selfarg if f.frame.cls is not None else None
        return run_node(f.node, fr, bound, f.__name__)
    if isinstance(f, types.MethodType):
        if getattr(f.__self__, "__model__", False):
            return f(*args, **kwargs)
        return call(f.__func__, [f.__self__] + list(args), kwargs)
    if isinstance(f, (Opaque, Bound)):
        return f(*args, **kwargs)
    if is_repo_function(f):
        if PURE[0] and DEPTH[0] == 0 and f.__name__ not in ("__init__", "__post_init__", "__new__"):
            return call_framed(f, args, kwargs)
        return call_repo(f, args, kwargs)
    s = STUBS.get(f) if _hashable(f) else None
    if s is not None:
        return s(*args, **kwargs)
    if isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith("<lambdifygenerated"):
        if LAMBDIFIED:
            return LAMBDIFIED[-1](f, args, kwargs)
        return call_lambdified(f, args, kwargs)
    if isinstance(f, type):
        return construct(f, args, kwargs)
    if is_repo_instance(f):
        m = lookup_type(type(f), "__call__")
        if m is not None:
            return call(m, [f] + list(args), kwargs)
        raise InterpRaise(TypeError(f"{type(f).__name__} object is not callable"))
    if getattr(f, "__model__", False) or getattr(getattr(f, "__self__", None), "__model__", False):
        return f(*args, **kwargs)
    import functools
    if isinstance(f, functools.partial):
        return call(f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
    return native_call(f, args, kwargs)


def _hashable(f):
    try:
        hash(f)
        return not isinstance(f, T)
    except TypeError:
        return False


def native_call(f, args, kwargs):
    vals = [native(a) for a in args]
    kv = {k: native(v) for k, v in kwargs.items()}
    if not callable(f):
        raise InterpRaise(TypeError(f"{type(f).__name__} object is not callable"))
    try:
        return f(*vals, **kv)
    except Exception as e:
        raise InterpRaise(e)


def native(v):
    """plain Python value for a call into code outside the repository"""
    if v is None or isinstance(v, (int, str, float, Fraction, bytes, type, types.ModuleType)):
        return v
    if isinstance(v, T):
        if v.op == "const":
            return v.args[0]
        raise tm.Unsupported("symbolic value passed to external code")
    if type(v) is tuple:
        return tuple(native(x) for x in v)
    if isinstance(v, PList):
        return [native(x) for x in v.vals()]
    if isinstance(v, list):
        return [native(x) for x in v]
    if isinstance(v, (PDict, PSet, Arr, PIter)):
        raise tm.Unsupported(f"{type(v).__name__} passed to external code")
    return v


def call_lambdified(f, args, kwargs):
    import numpy as np
    import pyomo.environ as pyo
    table = {id(pyo.exp): sym_exp, id(pyo.log): sym_log, id(pyo.sqrt): sym_sqrt, id(np.exp): sym_exp, id(np.log): sym_log,
             id(np.sqrt): sym_sqrt, id(math.exp): sym_exp, id(math.log): sym_log, id(math.sqrt): sym_sqrt}
    g = dict(f.__globals__)
    for nm in f.__code__.co_names:
        if nm in g and id(g[nm]) in table:
            g[nm] = table[id(g[nm])]
    h = types.FunctionType(f.__code__, g, f.__name__, f.__defaults__, f.__closure__)
    USED[f"{f.__name__} (generated by sympy.lambdify)"] = 0
    args = [lift_scalar(a) for a in args]
    return h(*args, **kwargs)


def lift_scalar(a):
    if hasattr(a, "__term__"):
        return a.__term__()
    if isinstance(a, (int, Fraction, float)) and not isinstance(a, bool):
        return tm.lift(a)
    return a


def sym_exp(x):
    return tm.exp(tm.lift(x))


def sym_log(x):
    x = tm.lift(x)
    if not is_deferred(x) and not _pos_known(x):
        if ctx().decide(tm.le(x, 0)):
            raise InterpRaise(ValueError("math domain error"))
    return tm.log(x)


def sym_sqrt(x):
    from .engine import nonneg_syn
    x = tm.lift(x)
    if not is_deferred(x) and not nonneg_syn(x):
        if not ctx().decide(tm.le(0, x)):
            raise InterpRaise(ValueError("math domain error"))
    return tm.sqrt(x)


def _pos_known(x):
    return x.op == "const" and x.args[0] > 0


# ------------------------------------------------------------------ objects
def lookup_type(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            v = c.__dict__[name]
            return v
    return None


def construct(cls, args, kwargs):
    s = STUBS.get(cls)
    if s is not None:
        return s(*args, **kwargs)
    if not is_repo_class(cls):
        if getattr(cls, "__model__", False):
            return cls(*args, **kwargs)
        if issubclass(cls, BaseException):
            return cls(*[pystr(a) if not isinstance(a, (str, int)) else a for a in args])
        return native_call(cls, args, kwargs)
    o = object.__new__(cls)
    object.__setattr__(o, "__dict__", VDict())
    init = lookup_type(cls, "__init__")
    if dataclasses.is_dataclass(cls) and "__init__" not in _own_repo_inits(cls):
        data_init(cls, o, args, kwargs)
        return o
    if isinstance(init, types.FunctionType) and (is_repo_function(init) or init in CONTRACTS):
        call(init, [o] + list(args), kwargs)
    elif init is object.__init__ or not is_repo_function(init):
        if args or kwargs:
            raise InterpRaise(TypeError(f"{cls.__name__}() takes no arguments"))
    return o


def _own_repo_inits(cls):
    out = set()
    for c in cls.__mro__:
        f = c.__dict__.get("__init__")
        if isinstance(f, types.FunctionType):
            if is_repo_function(f):
                out.add("__init__")
            break
    return out


def data_init(cls, o, args, kwargs):
    fs = [f for f in dataclasses.fields(cls) if f.init]
    if len(args) > len(fs):
        raise InterpRaise(TypeError("too many arguments"))
    vals = dict(zip([f.name for f in fs], args))
    for k, v in kwargs.items():
        if k in vals or k not in {f.name for f in fs}:
            raise InterpRaise(TypeError(f"unexpected argument {k}"))
        vals[k] = v
    for f in dataclasses.fields(cls):
        if f.name not in vals:
            if f.default is not dataclasses.MISSING:
                vals[f.name] = f.default
            elif f.default_factory is not dataclasses.MISSING:
                vals[f.name] = call(f.default_factory, [])
            elif f.init:
                raise InterpRaise(TypeError(f"missing argument {f.name}"))
        if f.name in vals:
            ctx().put(o.__dict__, f.name, vals[f.name])
    post = lookup_type(cls, "__post_init__")
    if post is not None:
        call(post, [o])


def getattr_(o, name, default=MISSING):
    if isinstance(o, (PList, PSet, PDict, PIter, Arr, PRange)):
        from .builtins_ import container_attr
        r = container_attr(o, name)
        if r is not MISSING:
            return r
    elif is_repo_instance(o) or is_repo_class(o):
        cls = o if isinstance(o, type) else type(o)
        v = lookup_type(cls, name)
        if isinstance(v, property):
            if isinstance(o, type):
                return v
            return call(v.fget, [o])
        if not isinstance(o, type) and name in o.__dict__:
            r = o.__dict__[name]
            if isinstance(r, Last):
                r = resolve_last(r, o.__dict__, name)
            if isinstance(r, Poison):
                raise tm.Unsupported(f"loop-carried attribute {name}")
            return r
        if name == "__class__":
            return cls
        if name == "__dict__" and not isinstance(o, type):
            raise tm.Unsupported("__dict__ access")
        if v is not None:
            if isinstance(v, types.FunctionType):
                return v if isinstance(o, type) else types.MethodType(v, o)
            if isinstance(v, staticmethod):
                return v.__func__
            if isinstance(v, classmethod):
                return types.MethodType(v.__func__, cls)
            if hasattr(v, "__get__") and type(v).__name__ == "cached_property":
                r = call(v.func, [o])
                ctx().put(o.__dict__, name, r)
                return r
            return v
    elif isinstance(o, T):
        if name == "value":
            raise InterpRaise(AttributeError(name))
        if name in ("real",):
            return o
        if name == "item":
            return Bound(lambda: o)
    else:
        try:
            return getattr(o, name)
        except AttributeError as e:
            if default is not MISSING:
                return default
            raise InterpRaise(e)
    if default is not MISSING:
        return default
    raise InterpRaise(AttributeError(f"{type(o).__name__} has no attribute {name}"))


def setattr_(o, name, v):
    if getattr(o, "__model__", False):
        o.model_setattr(name, v)
        return
    if is_repo_instance(o):
        p = lookup_type(type(o), name)
        if isinstance(p, property):
            if p.fset is None:
                raise InterpRaise(AttributeError(f"can't set attribute {name}"))
            call(p.fset, [o, v])
            return
        params = getattr(type(o), "__dataclass_params__", None)
        if params is not None and params.frozen:
            raise InterpRaise(dataclasses.FrozenInstanceError(name))
        ctx().put(o.__dict__, name, v)
        return
    raise tm.Unsupported(f"attribute assignment on {type(o).__name__}")


class Bound:
    __model__ = True

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


class PRange:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = start, stop, step

    def nodes(self):
        st = self.step
        if st not in (1, -1):
            raise tm.Unsupported("symbolic range with a step")
        n = tm.sub(self.stop, self.start) if st == 1 else tm.sub(self.start, self.stop)
        n = tm.lift(n)
        if n.op != "const":
            s = ctx()
            if not s.entails(tm.le(0, n)):
                n = tm.ite(tm.le(0, n), n, 0)
                n = C.simp_count(n)
        s = ctx()
        s.counter += 1
        k = tm.var(f"%r{s.counter}", tm.I)
        v = tm.add(self.start, k) if st == 1 else tm.sub(self.start, k)
        if n.op == "const":
            m = max(0, n.args[0])
            return tuple(Item(C.pyint(tm.subst(v, {k: tm.const(j)}))) for j in range(m))
        return (For(k, n, (Item(v),)),)

    def __inst__(self, m, ids):
        return PRange(C._inst(self.start, m, ids), C._inst(self.stop, m, ids), self.step)


class PIter:
    """iterator over nodes"""
    __slots__ = ("nodes", "birth")

    def __init__(self, nodes):
        self.nodes = tuple(nodes)
        self.birth = tick()

    def take(self):
        ns = self.nodes
        ctx().put(self, "nodes", ())
        return ns

    def __inst__(self, m, ids):
        n = C.inst_nodes(self.nodes, m, ids)
        return self if n is self.nodes else PIter(n)


def to_nodes(x):
    if isinstance(x, PList):
        return x.nodes
    if isinstance(x, PIter):
        return x.take()
    if isinstance(x, (list, tuple)):
        return tuple(Item(v) for v in x)
    if isinstance(x, range):
        return tuple(Item(v) for v in x)
    if isinstance(x, PRange):
        return x.nodes()
    if isinstance(x, PSet):
        return C.shuffle(x.elements())
    if isinstance(x, PDict):
        return x.keyset().elements() if not C.allitems(x.nodes) else tuple(Item(i.v[0]) for i in x.items_nodes())
    if isinstance(x, (dict, set, frozenset)):
        return tuple(Item(v) for v in x)
    if isinstance(x, str):
        return tuple(Item(v) for v in x)
    if isinstance(x, Arr):
        from .numpy_model import arr_nodes
        return arr_nodes(x)
    if is_repo_instance(x):
        m = lookup_type(type(x), "__iter__")
        if m is not None:
            return to_nodes(call(m, [x]))
        g = lookup_type(type(x), "__getitem__")
        if g is not None:
            return iter_getitem(x, g)
        raise InterpRaise(TypeError(f"{type(x).__name__} object is not iterable"))
    if getattr(x, "__model__", False) and hasattr(x, "iter_nodes"):
        return x.iter_nodes()
    if isinstance(x, T) or x is None or is_scalar(x):
        raise InterpRaise(TypeError("object is not iterable"))
    if isinstance(x, types.GeneratorType) or hasattr(x, "__iter__"):
        return tuple(Item(v) for v in x)
    raise InterpRaise(TypeError(f"{type(x).__name__} object is not iterable"))


def iter_getitem(x, g):
    out = []
    for i in range(64):
        try:
            out.append(Item(call(g, [x, i])))
        except InterpRaise as e:
            if isinstance(e.exc, IndexError):
                return tuple(out)
            raise
    raise tm.Unsupported("iteration by __getitem__")


def iter_values(x):
    ns = to_nodes(x)
    if not C.allitems(ns):
        n = C.pyint(C.simp_count(C.count(ns)))
        if isinstance(n, int) and n <= 64:
            g = C.view(ns)[1]
            return [g(i) for i in range(n)]
        raise tm.Unsupported("unpacking a collection of symbolic length")
    return [i.v for i in ns]


def unpack(v, n):
    ns = to_nodes(v)
    if C.allitems(ns):
        vals = [i.v for i in ns]
        if len(vals) != n:
            raise InterpRaise(ValueError(f"cannot unpack {len(vals)} values into {n}"))
        return vals
    ln = C.pyint(C.simp_count(C.count(ns)))
    if not isinstance(ln, int):
        if not ctx().decide(tm.eq(ln, n)):
            raise InterpRaise(ValueError("wrong number of values to unpack"))
    elif ln != n:
        raise InterpRaise(ValueError("wrong number of values to unpack"))
    g = C.view(ns)[1]
    return [g(i) for i in range(n)]


def truth(v):
    if isinstance(v, bool) or v is None:
        return bool(v)
    if isinstance(v, T):
        return bool(v)
    if isinstance(v, (int, float, Fraction, str, bytes, tuple, list, dict, range)):
        return bool(v)
    if isinstance(v, (PList, PSet, PDict)):
        if isinstance(v, PList):
            ne = C.nonempty(v.nodes)
            if ne is not None:
                return ne if isinstance(ne, bool) else ctx().decide(ne)
        n = v.length()
        return truth(n) if isinstance(n, int) else ctx().decide(tm.lt(0, n))
    if is_repo_instance(v):
        b = lookup_type(type(v), "__bool__")
        if b is not None:
            return truth(call(b, [v]))
        l = lookup_type(type(v), "__len__")
        if l is not None:
            return truth(call(l, [v]))
        return True
    if hasattr(v, "__term__"):
        return bool(v.__term__())
    if getattr(v, "__model__", False) and hasattr(v, "model_truth"):
        return v.model_truth()
    if isinstance(v, Arr):
        raise tm.Unsupported("truth value of an array")
    return bool(v)


def truthterm(v):
    if isinstance(v, T):
        return tm.boolterm(v)
    return tm.const(truth(v))


# ------------------------------------------------------------------ operators
OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod",
       ast.Pow: "pow", ast.MatMult: "matmul", ast.BitOr: "or_", ast.BitAnd: "and_", ast.BitXor: "xor",
       ast.LShift: "lshift", ast.RShift: "rshift"}
DUNDER = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "truediv": "__truediv__", "floordiv": "__floordiv__",
          "mod": "__mod__", "pow": "__pow__", "matmul": "__matmul__", "or_": "__or__", "and_": "__and__", "xor": "__xor__"}


def norm_num(x):
    if hasattr(x, "__term__"):
        return x.__term__()
    if isinstance(x, float) and not (math.isinf(x) or math.isnan(x)):
        return C.Fraction(tm.snap(x)) if False else tm.snap(x)
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        return norm_num(x.item())
    return x


def binop(op, a, b):
    if is_scalar(a) and is_scalar(b) or (hasattr(a, "dtype") and getattr(a, "shape", 1) == ()) or (
        hasattr(b, "dtype") and getattr(b, "shape", 1) == () and is_scalar(a)
    ):
        if is_scalar(a) or hasattr(a, "dtype"):
            return scalar_op(op, norm_num(a), norm_num(b))
    if is_repo_instance(a) or is_repo_instance(b):
        d = DUNDER.get(op)
        if is_repo_instance(a):
            m = lookup_type(type(a), d)
            if m is not None:
                r = call(m, [a, b])
                if r is not NotImplemented:
                    return r
        if is_repo_instance(b):
            m = lookup_type(type(b), d.replace("__", "__r", 1))
            if m is not None:
                r = call(m, [b, a])
                if r is not NotImplemented:
                    return r
        raise InterpRaise(TypeError(f"unsupported operand types for {op}"))
    if isinstance(a, Arr) or isinstance(b, Arr):
        from .numpy_model import arr_op
        return arr_op(op, a, b)
    if getattr(a, "__model__", False) or getattr(b, "__model__", False):
        return getattr(operator, op)(a, b)
    if op == "add" and isinstance(a, (PList, list)) and isinstance(b, (PList, list)):
        return PList(C.nodes_of(a) + C.nodes_of(b))
    if op == "mul":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, PList) and isinstance(y, (int, T)):
                return repeat(x, y)
    if isinstance(a, PSet) or isinstance(b, PSet):
        from .builtins_ import set_op
        return set_op(op, a, b)
    if isinstance(a, PDict) and isinstance(b, PDict) and op == "or_":
        return PDict(a.nodes + b.nodes)
    if isinstance(a, (str, tuple, list, bytes, dict, set)) or isinstance(b, (str, tuple, list, bytes)):
        try:
            if op == "mod" and isinstance(a, str):
                return a
            if op == "mul" and isinstance(b, T):
                raise tm.Unsupported("repetition by a symbolic count")
            return getattr(operator, op)(a, b)
        except Exception as e:
            raise InterpRaise(e)
    if a is None or b is None:
        raise InterpRaise(TypeError(f"unsupported operand type for {op}: NoneType"))
    if isinstance(a, Poison) or isinstance(b, Poison):
        raise tm.Unsupported("loop-carried value")
    try:
        return getattr(operator, op)(a, b)
    except Exception as e:
        raise InterpRaise(e)


def repeat(x, n):
    if isinstance(n, int) or (isinstance(n, T) and n.op == "const"):
        n = n if isinstance(n, int) else n.args[0]
        return PList(x.nodes * max(0, n))
    s = ctx()
    s.counter += 1
    k = tm.var(f"%p{s.counter}", tm.I)
    n = C.simp_count(tm.ite(tm.le(0, n), n, 0))
    return PList((For(k, n, x.nodes),))


def scalar_op(op, a, b):
    if isinstance(a, T) or isinstance(b, T):
        for x in (a, b):
            if isinstance(x, float):
                raise tm.Unsupported("infinite value in symbolic arithmetic")
        if op == "or_":
            return tm.or_(a, b)
        if op == "and_":
            return tm.and_(a, b)
        return getattr(operator, op)(a, b)
    if isinstance(a, bool):
        a = int(a) if op not in ("or_", "and_", "xor") else a
    if isinstance(b, bool):
        b = int(b) if op not in ("or_", "and_", "xor") else b
    try:
        if op == "truediv":
            if isinstance(a, float) or isinstance(b, float):
                return a / b
            return Fraction(a) / Fraction(b)
        if op == "pow":
            if isinstance(b, Fraction):
                if b.denominator == 1:
                    b = int(b)
                else:
                    return C.pyint(tm.lift(a) ** b) if a >= 0 else operator.pow(float(a), float(b))
            if isinstance(a, int) and isinstance(b, int) and b < 0:
                a = Fraction(a)
        return getattr(operator, op)(a, b)
    except Exception as e:
        raise InterpRaise(e)


def iadd(op, a, b):
    if op == "add" and isinstance(a, PList):
        a.set(a.nodes + to_nodes(b))
        return a
    if isinstance(a, PSet) and op in ("or_", "sub", "and_"):
        from .builtins_ import container_attr
        nm = {"or_": "update", "sub": "difference_update", "and_": "intersection_update"}[op]
        container_attr(a, nm)(b)
        return a
    if isinstance(a, Arr):
        from .numpy_model import arr_iop
        return arr_iop(op, a, b)
    if is_repo_instance(a):
        m = lookup_type(type(a), DUNDER[op].replace("__", "__i", 1))
        if m is not None:
            return call(m, [a, b])
    return binop(op, a, b)


def unary(op, a):
    if op is ast.Not:
        if isinstance(a, T):
            return tm.not_(a)
        return not truth(a)
    if is_repo_instance(a):
        m = lookup_type(type(a), {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[op])
        if m is None:
            raise InterpRaise(TypeError("bad operand type for unary operator"))
        return call(m, [a])
    if isinstance(a, Arr):
        from .numpy_model import arr_op
        return arr_op("sub", 0, a) if op is ast.USub else a
    a = norm_num(a)
    try:
        return {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[op](a)
    except TypeError as e:
        raise InterpRaise(e)


def eq_any(a, b):
    """Python a == b (bool or term)"""
    if is_repo_instance(a) or is_repo_instance(b):
        for x, y in ((a, b), (b, a)):
            if is_repo_instance(x):
                m = lookup_type(type(x), "__eq__")
                if isinstance(m, types.FunctionType) and is_repo_function(m):
                    r = call(m, [x, y])
                    if r is not NotImplemented:
                        return r
                elif dataclasses.is_dataclass(type(x)) and type(x) is type(y) and type(x).__dataclass_params__.eq:
                    return conj([eqv(x.__dict__[f.name], y.__dict__[f.name]) for f in dataclasses.fields(x) if f.compare])
        return a is b
    if isinstance(a, (PList, PSet, PDict, Arr, T)) or isinstance(b, (PList, PSet, PDict, Arr, T)):
        if isinstance(a, Arr) or isinstance(b, Arr):
            raise tm.Unsupported("array comparison")
        if isinstance(a, PDict) and isinstance(b, PDict):
            raise tm.Unsupported("dict comparison")
        return False
    try:
        return a == b
    except Exception as e:
        raise InterpRaise(e)


C.EQ_HOOK["eq"] = eq_any


def compare(op, a, b):
    if op is ast.Is:
        return is_same(a, b)
    if op is ast.IsNot:
        return not is_same(a, b)
    if (isinstance(a, Arr) or isinstance(b, Arr)) and op not in (ast.In, ast.NotIn):
        from .numpy_model import arr_compare
        return arr_compare(op, a, b)
    if op is ast.Eq:
        return eqv(a, b)
    if op is ast.NotEq:
        if is_repo_instance(a):
            m = lookup_type(type(a), "__ne__")
            if isinstance(m, types.FunctionType):
                return call(m, [a, b])
        r = eqv(a, b)
        return (not r) if isinstance(r, bool) else tm.not_(r)
    if op in (ast.In, ast.NotIn):
        r = contains(b, a)
        if op is ast.NotIn:
            return (not r) if isinstance(r, bool) else tm.not_(r)
        return r
    if is_repo_instance(a) or is_repo_instance(b):
        nm = {ast.Lt: ("__lt__", "__gt__"), ast.LtE: ("__le__", "__ge__"), ast.Gt: ("__gt__", "__lt__"), ast.GtE: ("__ge__", "__le__")}[op]
        if is_repo_instance(a) and lookup_type(type(a), nm[0]) is not None:
            m = lookup_type(type(a), nm[0])
            if isinstance(m, types.FunctionType):
                return call(m, [a, b])
        if is_repo_instance(b):
            m = lookup_type(type(b), nm[1])
            if isinstance(m, types.FunctionType):
                return call(m, [b, a])
        raise InterpRaise(TypeError("unorderable types"))
    if type(a) is tuple and type(b) is tuple:
        return lex(op, a, b)
    a, b = norm_num(a), norm_num(b)
    f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op]
    if a is None or b is None:
        raise InterpRaise(TypeError("comparison with None"))
    try:
        r = f(a, b)
    except TypeError as e:
        raise InterpRaise(e)
    if isinstance(r, T) and r.op == "const":
        return bool(r.args[0])
    return r


def lex(op, a, b):
    for x, y in zip(a, b):
        e = eqv(x, y)
        if not (e if isinstance(e, bool) else ctx().decide(e)):
            strict = {ast.Lt: ast.Lt, ast.LtE: ast.Lt, ast.Gt: ast.Gt, ast.GtE: ast.Gt}[op]
            return compare(strict, x, y)
    return compare(op, len(a), len(b))


def is_same(a, b):
    if a is b:
        return True
    if a is None or b is None or isinstance(a, bool) and isinstance(b, bool):
        return False
    if is_scalar(a) and is_scalar(b):
        raise tm.Unsupported("identity of numbers")
    return False


def contains(cont, x):
    if isinstance(cont, (PList, list, tuple)):
        ns = cont.nodes if isinstance(cont, PList) else tuple(Item(v) for v in cont)
        return member(x, ns)
    if isinstance(cont, PSet):
        return member(x, cont.nodes)
    if isinstance(cont, PDict):
        return cont.contains(x)
    if isinstance(cont, (range, PRange)):
        if isinstance(cont, range) and cont.step != 1:
            return member(x, to_nodes(cont))
        return conj([compare(ast.LtE, cont.start, x), compare(ast.Lt, x, cont.stop)])
    if isinstance(cont, PIter):
        return member(x, cont.take())
    if isinstance(cont, (dict, set, frozenset)):
        return member(x, tuple(Item(v) for v in cont))
    if isinstance(cont, str):
        return x in cont
    if getattr(cont, "__model__", False) and hasattr(cont, "model_contains"):
        return cont.model_contains(x)
    if is_repo_instance(cont):
        m = lookup_type(type(cont), "__contains__")
        if m is not None:
            return call(m, [cont, x])
        return member(x, to_nodes(cont))
    if cont is None or is_scalar(cont):
        raise InterpRaise(TypeError("argument is not iterable"))
    return x in cont


def subscript(o, i):
    if isinstance(o, (list, tuple)):
        if isinstance(i, slice):
            if any(isinstance(x, T) for x in (i.start, i.stop, i.step)):
                r = PList.of(o).slice(i)
                return tuple(r.vals()) if isinstance(o, tuple) else r
            return o[i] if isinstance(o, tuple) else PList.of(o[i])
        j = C.norm_index(i, len(o), f"{type(o).__name__} index out of range")
        return C._pick(list(o), j)
    if isinstance(o, PList):
        return o.slice(i) if isinstance(i, slice) else o.index(i)
    if isinstance(o, PDict):
        return o.lookup(i)
    if isinstance(o, dict):
        return PDict(tuple(Item(p) for p in o.items())).lookup(i)
    if isinstance(o, Arr):
        from .numpy_model import arr_getitem
        return arr_getitem(o, i)
    if is_repo_instance(o):
        m = lookup_type(type(o), "__getitem__")
        if m is None:
            raise InterpRaise(TypeError("object is not subscriptable"))
        return call(m, [o, i])
    if getattr(o, "__model__", False):
        return o.model_getitem(i)
    if isinstance(o, range) or isinstance(o, PRange):
        return PList(to_nodes(o)).index(i)
    if isinstance(o, PIter) or o is None or is_scalar(o):
        raise InterpRaise(TypeError("object is not subscriptable"))
    try:
        return o[native(i)]
    except tm.SymError:
        raise
    except Exception as e:
        raise InterpRaise(e)


def subscript_store(o, i, v):
    if isinstance(o, PList):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                o.set(to_nodes(v))
                return
            raise tm.Unsupported("slice assignment")
        n = o.length()
        j = C.norm_index(i, n, "list assignment index out of range")
        if o.concrete() and isinstance(j, int):
            o.set(o.nodes[:j] + (Item(v),) + o.nodes[j + 1:])
            return
        list_write(o, j, v)
        return
    if isinstance(o, PDict):
        o.store(i, v)
        return
    if isinstance(o, Arr):
        from .numpy_model import arr_setitem
        arr_setitem(o, i, v)
        return
    if is_repo_instance(o):
        m = lookup_type(type(o), "__setitem__")
        if m is None:
            raise InterpRaise(TypeError("object does not support item assignment"))
        call(m, [o, i, v])
        return
    if getattr(o, "__model__", False):
        o.model_setitem(i, v)
        return
    if isinstance(o, tuple):
        raise InterpRaise(TypeError("'tuple' object does not support item assignment"))
    raise tm.Unsupported(f"item assignment on {type(o).__name__}")


def list_write(o, j, v):
    """o[j] = v on a list of symbolic length: a list read through a write history"""
    n, g = C.view(o.nodes)
    s = ctx()
    with s.bind(n) as k:
        old = g(k)
        if not (is_scalar(old) and is_scalar(v)):
            raise tm.Unsupported("item assignment on a list of symbolic length")
        new = tm.ite(tm.eq(k, j), tm.lift(v), tm.lift(old))
    o.set((For(k, n, (Item(new),)),))


# ------------------------------------------------------------------ expressions
def lookup_name(name, fr):
    f = fr
    while f is not None:
        if name in f.vars:
            v = f.vars[name]
            if isinstance(v, Last):
                v = resolve_last(v, f.vars, name)
            if isinstance(v, Poison):
                raise tm.Unsupported(f"loop-carried variable {name}")
            return v
        if name in f.outer:
            return f.outer[name]
        f = f.parent
    g = fr.globals
    if name in g:
        return g[name]
    b = getattr(builtins, name, MISSING)
    if b is MISSING:
        raise InterpRaise(NameError(f"name '{name}' is not defined"))
    return b


def resolve_last(v, cont, name):
    s = ctx()
    if s.decide(tm.lt(0, v.n)):
        r = inst(v.v, {v.k: tm.sub(v.n, 1)})
    elif v.old is MISSING:
        raise InterpRaise(UnboundLocalError(name))
    else:
        r = v.old
        if isinstance(r, Last):
            r = resolve_last(r, cont, name)
    s.put(cont, name, r)
    return r


def ev(n, fr):
    h = EV.get(type(n))
    if h is None:
        raise tm.Unsupported(f"expression {type(n).__name__}")
    return h(n, fr)


def e_const(n, fr):
    v = n.value
    if isinstance(v, float) and not (math.isinf(v) or math.isnan(v)):
        return Fraction(repr(v))
    return v


def e_name(n, fr):
    return lookup_name(n.id, fr)


def e_binop(n, fr):
    a = ev(n.left, fr)
    b = ev(n.right, fr)
    return binop(OPS[type(n.op)], a, b)


def e_unary(n, fr):
    return unary(type(n.op), ev(n.operand, fr))


def e_boolop(n, fr):
    isand = isinstance(n.op, ast.And)
    v = ev(n.values[0], fr)
    for i, x in enumerate(n.values[1:]):
        if isinstance(v, T) and v.sort == "B" and v.op != "const":
            # v and x / v or x without forking when x can be evaluated quietly under v / not v
            s = ctx()
            st = s.settle(v)
            if st is not None:
                v = st
            else:
                try:
                    w = s.speculate(lambda: ev(x, fr), v if isand else tm.not_(v))
                    if isinstance(w, bool) or (isinstance(w, T) and w.sort == "B"):
                        v = tm.and_(v, w) if isand else tm.or_(v, w)
                        if v.op == "const":
                            v = bool(v.args[0])
                        continue
                except Retry:
                    pass
        t = truth(v)
        if isand and not t:
            return v if not isinstance(v, T) else False
        if not isand and t:
            return v if not isinstance(v, T) else True
        v = ev(x, fr)
    return v


def e_compare(n, fr):
    a = ev(n.left, fr)
    res = True
    for op, c in zip(n.ops, n.comparators):
        if res is False:
            return False
        if isinstance(res, T):
            try:
                b = ctx().speculate(lambda: ev(c, fr), res)
            except Retry:
                if not truth(res):
                    return False
                res = True
                b = ev(c, fr)
        else:
            b = ev(c, fr)
        r = compare(type(op), a, b)
        if len(n.ops) == 1:
            return r
        if not isinstance(r, (bool, T)):
            r = truth(r)
        res = conj([res, r])
        a = b
    return res


def e_ifexp(n, fr):
    c = ev(n.test, fr)
    if isinstance(c, T):
        s = ctx()
        st = s.settle(c)
        if st is None:
            cb = tm.boolterm(c)
            try:
                a = s.speculate(lambda: ev(n.body, fr), cb)
                b = s.speculate(lambda: ev(n.orelse, fr), tm.not_(cb))
                if is_scalar(a) and is_scalar(b):
                    return tm.ite(cb, a, b)
                if type(a) is tuple and type(b) is tuple and len(a) == len(b) and all(map(is_scalar, a + b)):
                    return tuple(tm.ite(cb, x, y) for x, y in zip(a, b))
            except Retry:
                pass
            st = truth(c)
        return ev(n.body if st else n.orelse, fr)
    return ev(n.body if truth(c) else n.orelse, fr)


def e_tuple(n, fr):
    return tuple(elts(n.elts, fr))


def elts(es, fr):
    out = []
    for e in es:
        if isinstance(e, ast.Starred):
            out.extend(iter_values(ev(e.value, fr)))
        else:
            out.append(ev(e, fr))
    return out


def e_list(n, fr):
    ns = []
    for e in n.elts:
        if isinstance(e, ast.Starred):
            ns.extend(to_nodes(ev(e.value, fr)))
        else:
            ns.append(Item(ev(e, fr)))
    return PList(tuple(ns))


def e_set(n, fr):
    return PSet(e_list(n, fr).nodes)


def e_dict(n, fr):
    d = PDict()
    for k, v in zip(n.keys, n.values):
        if k is None:
            x = ev(v, fr)
            d.nodes = d.nodes + (x.nodes if isinstance(x, PDict) else tuple(Item(p) for p in x.items()))
        else:
            kk = ev(k, fr)
            d.nodes = d.nodes + (Item((kk, ev(v, fr))),)
    return d


def e_call(n, fr):
    if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
        cls = None
        f = fr
        while f is not None:
            if f.cls is not None:
                cls = f.cls
                selfv = f.vars.get(f.selfarg) if f.selfarg in f.vars else next(iter(f.vars.values()))
                break
            f = f.parent
        if cls is None:
            raise tm.Unsupported("super() outside a method")
        return super(cls, selfv)
    if isinstance(n.func, ast.Name) and n.func.id in ("locals", "globals", "vars", "eval", "exec", "dir"):
        raise tm.Unsupported(n.func.id)
    f = ev(n.func, fr)
    args = elts(n.args, fr)
    kw = {}
    for k in n.keywords:
        v = ev(k.value, fr)
        if k.arg is None:
            if isinstance(v, PDict):
                for it in v.items_nodes():
                    kw[it.v[0]] = it.v[1]
            else:
                kw.update(v)
        else:
            kw[k.arg] = v
    return call(f, args, kw)


def e_attr(n, fr):
    return getattr_(ev(n.value, fr), n.attr)


def e_subscript(n, fr):
    o = ev(n.value, fr)
    return subscript(o, ev(n.slice, fr))


def e_slice(n, fr):
    g = lambda x: None if x is None else ev(x, fr)
    return slice(g(n.lower), g(n.upper), g(n.step))


def e_lambda(n, fr):
    return make_function(n, fr, "<lambda>")


def make_function(n, fr, name):
    a = n.args
    defaults = tuple(ev(d, fr) for d in a.defaults)
    kwd = {p.arg: ev(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    return InterpFunction(n, fr, defaults, kwd, name)


def e_joined(n, fr):
    out = []
    for v in n.values:
        if isinstance(v, ast.Constant):
            out.append(str(v.value))
        else:
            x = ev(v.value, fr)
            out.append(pystr(x))
    return "".join(out)


def pystr(x):
    if isinstance(x, str):
        return x
    if isinstance(x, (PList, PDict, PSet, T, Arr, PIter)) or is_repo_instance(x) or type(x) is tuple:
        return "<value>"
    try:
        return str(x)
    except Exception:
        return "<value>"


def comp(n, fr, elt):
    """nodes of a comprehension"""
    def gen(gs, f):
        if not gs:
            return (Item(elt(f)),)
        g = gs[0]
        src = to_nodes(ev(g.iter, f))

        def body(v):
            inner = Frame(fr.globals, f, fr.cls, fr.name)
            inner.selfarg = fr.selfarg
            assign(g.target, v, inner)
            for i, c in enumerate(g.ifs):
                if not truth(ev(c, inner)):
                    return ()
            return gen(gs[1:], inner)

        return C.expand(src, body)

    return gen(n.generators, fr)


def comp_loop(n, fr, elt):
    """a list comprehension with side effects, as the loop it stands for"""
    from .loops import run_nodes
    out = PList()

    def gen(gs, f):
        if not gs:
            out.set(out.nodes + (Item(elt(f)),))
            return
        g = gs[0]

        def body(v):
            inner = Frame(fr.globals, f, fr.cls, fr.name)
            inner.selfarg = fr.selfarg
            assign(g.target, v, inner)
            for c in g.ifs:
                if not truth(ev(c, inner)):
                    return
            gen(gs[1:], inner)

        run_nodes(to_nodes(ev(g.iter, f)), body)

    gen(n.generators, fr)
    return out


def e_listcomp(n, fr):
    s = ctx()
    m = s.hmark()
    try:
        return PList(comp(n, fr, lambda f: ev(n.elt, f)))
    except tm.SideEffect:
        s.undo(m)
    return comp_loop(n, fr, lambda f: ev(n.elt, f))


def e_setcomp(n, fr):
    return PSet(comp(n, fr, lambda f: ev(n.elt, f)))


def e_genexp(n, fr):
    return PIter(comp(n, fr, lambda f: ev(n.elt, f)))


def e_dictcomp(n, fr):
    return PDict(comp(n, fr, lambda f: (ev(n.key, f), ev(n.value, f))))


def e_named(n, fr):
    v = ev(n.value, fr)
    assign(n.target, v, fr)
    return v


def e_starred(n, fr):
    raise tm.Unsupported("starred expression")


def e_yield(n, fr):
    f = fr
    while f.yields is None:
        f = f.parent
    v = ev(n.value, fr) if n.value is not None else None
    f.yields.set(f.yields.nodes + (Item(v),))
    return None


def e_yieldfrom(n, fr):
    f = fr
    while f.yields is None:
        f = f.parent
    f.yields.set(f.yields.nodes + to_nodes(ev(n.value, fr)))
    return None


EV = {ast.Constant: e_const, ast.Name: e_name, ast.BinOp: e_binop, ast.UnaryOp: e_unary, ast.BoolOp: e_boolop,
      ast.Compare: e_compare, ast.IfExp: e_ifexp, ast.Tuple: e_tuple, ast.List: e_list, ast.Set: e_set, ast.Dict: e_dict,
      ast.Call: e_call, ast.Attribute: e_attr, ast.Subscript: e_subscript, ast.Slice: e_slice, ast.Lambda: e_lambda,
      ast.JoinedStr: e_joined, ast.ListComp: e_listcomp, ast.SetComp: e_setcomp, ast.GeneratorExp: e_genexp,
      ast.DictComp: e_dictcomp, ast.NamedExpr: e_named, ast.Starred: e_starred, ast.Yield: e_yield,
      ast.YieldFrom: e_yieldfrom}


# ------------------------------------------------------------------ statements
def assign(t, v, fr):
    if isinstance(t, ast.Name):
        target = fr
        nl = getattr(fr, "vars")
        decl = fr.vars.get("%nonlocal")
        if decl and t.id in decl:
            f = fr.parent
            while f is not None:
                if t.id in f.vars:
                    ctx().put(f.vars, t.id, v)
                    return
                f = f.parent
            raise tm.Unsupported("nonlocal")
        ctx().put(fr.vars, t.id, v)
    elif isinstance(t, (ast.Tuple, ast.List)):
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        if star:
            vals = iter_values(v)
            i = star[0]
            after = len(t.elts) - i - 1
            if len(vals) < len(t.elts) - 1:
                raise InterpRaise(ValueError("not enough values to unpack"))
            for e, x in zip(t.elts[:i], vals[:i]):
                assign(e, x, fr)
            assign(t.elts[i].value, PList.of(vals[i:len(vals) - after]), fr)
            for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                assign(e, x, fr)
        else:
            for e, x in zip(t.elts, unpack(v, len(t.elts))):
                assign(e, x, fr)
    elif isinstance(t, ast.Attribute):
        setattr_(ev(t.value, fr), t.attr, v)
    elif isinstance(t, ast.Subscript):
        o = ev(t.value, fr)
        subscript_store(o, ev(t.slice, fr), v)
    else:
        raise tm.Unsupported("assignment target")


def exec_block(body, fr):
    for st in body:
        h = EX.get(type(st))
        if h is None:
            raise tm.Unsupported(f"statement {type(st).__name__}")
        r = h(st, fr)
        if r is not None:
            return r
    return None


def x_expr(st, fr):
    if isinstance(st.value, ast.Constant):
        return None
    ev(st.value, fr)


def x_assign(st, fr):
    v = ev(st.value, fr)
    for t in st.targets:
        assign(t, v, fr)


def x_annassign(st, fr):
    if st.value is not None:
        assign(st.target, ev(st.value, fr), fr)


def x_augassign(st, fr):
    op = OPS[type(st.op)]
    t = st.target
    if isinstance(t, ast.Name):
        assign(t, iadd(op, lookup_name(t.id, fr), ev(st.value, fr)), fr)
    elif isinstance(t, ast.Attribute):
        o = ev(t.value, fr)
        setattr_(o, t.attr, iadd(op, getattr_(o, t.attr), ev(st.value, fr)))
    elif isinstance(t, ast.Subscript):
        o = ev(t.value, fr)
        i = ev(t.slice, fr)
        subscript_store(o, i, iadd(op, subscript(o, i), ev(st.value, fr)))
    else:
        raise tm.Unsupported("augmented assignment")


def x_return(st, fr):
    return ("return", ev(st.value, fr) if st.value is not None else None)


def x_if(st, fr):
    return exec_block(st.body if truth(ev(st.test, fr)) else st.orelse, fr)


def x_for(st, fr):
    from .loops import run_for
    return run_for(st, fr)


def x_while(st, fr):
    n = 0
    while truth(ev(st.test, fr)):
        n += 1
        if n > 400:
            raise tm.Unsupported("while loop without a concrete bound")
        r = exec_block(st.body, fr)
        if r is not None:
            if r[0] == "break":
                return None
            if r[0] == "continue":
                continue
            return r
    return exec_block(st.orelse, fr)


def x_raise(st, fr):
    if st.exc is None:
        e = fr.vars.get("%exc")
        raise InterpRaise(e if e is not None else RuntimeError("no active exception"))
    e = ev(st.exc, fr)
    if isinstance(e, type):
        e = construct(e, [], {})
    raise InterpRaise(e)


def x_try(st, fr):
    s = ctx()
    try:
        try:
            r = exec_block(st.body, fr)
        except InterpRaise as e:
            for h in st.handlers:
                if h.type is None:
                    ok = True
                else:
                    cls = ev(h.type, fr)
                    ok = isinstance(e.exc, cls)
                if ok:
                    if h.name:
                        s.put(fr.vars, h.name, e.exc)
                    s.put(fr.vars, "%exc", e.exc)
                    r = exec_block(h.body, fr)
                    break
            else:
                raise
        else:
            if r is None:
                r = exec_block(st.orelse, fr)
    except InterpRaise:
        if st.finalbody:
            q = exec_block(st.finalbody, fr)
            if q is not None:
                return q
        raise
    if st.finalbody:
        q = exec_block(st.finalbody, fr)
        if q is not None:
            return q
    return r


def x_assert(st, fr):
    if not truth(ev(st.test, fr)):
        raise InterpRaise(AssertionError("assertion failed"))


def x_functiondef(st, fr):
    f = make_function(st, fr, st.name)
    for d in reversed(st.decorator_list):
        f = call(ev(d, fr), [f])
    ctx().put(fr.vars, st.name, f)


def x_pass(st, fr):
    return None


def x_break(st, fr):
    return ("break",)


def x_continue(st, fr):
    return ("continue",)


def x_nonlocal(st, fr):
    fr.vars["%nonlocal"] = set(fr.vars.get("%nonlocal") or ()) | set(st.names)


def x_delete(st, fr):
    for t in st.targets:
        if isinstance(t, ast.Subscript):
            o = ev(t.value, fr)
            i = ev(t.slice, fr)
            if isinstance(o, PDict):
                c = o.contains(i)
                if not (c if isinstance(c, bool) else ctx().decide(c)):
                    raise InterpRaise(KeyError(i))
                o.set(o.nodes + (Rem((Item(i),)),))
            elif isinstance(o, PList) and o.concrete() and isinstance(i, int):
                j = C.norm_index(i, len(o.nodes), "list assignment index out of range")
                o.set(o.nodes[:j] + o.nodes[j + 1:])
            else:
                raise tm.Unsupported("del")
        elif isinstance(t, ast.Name):
            ctx().put(fr.vars, t.id, MISSING)
            fr.vars.pop(t.id, None)
        else:
            raise tm.Unsupported("del")


def x_import(st, fr):
    import importlib
    if isinstance(st, ast.Import):
        for a in st.names:
            m = importlib.import_module(a.name)
            ctx().put(fr.vars, a.asname or a.name.split(".")[0], m if a.asname else importlib.import_module(a.name.split(".")[0]))
    else:
        m = importlib.import_module(st.module)
        for a in st.names:
            ctx().put(fr.vars, a.asname or a.name, getattr(m, a.name))


def x_match(st, fr):
    v = ev(st.subject, fr)
    for c in st.cases:
        mk = len(ctx().trail)
        if pat(c.pattern, v, fr) and (c.guard is None or truth(ev(c.guard, fr))):
            return exec_block(c.body, fr)
    return None


def pat(p, v, fr):
    if isinstance(p, ast.MatchValue):
        r = eqv(v, ev(p.value, fr))
        return r if isinstance(r, bool) else ctx().decide(r)
    if isinstance(p, ast.MatchSingleton):
        return v is p.value
    if isinstance(p, ast.MatchOr):
        return any(pat(q, v, fr) for q in p.patterns)
    if isinstance(p, ast.MatchAs):
        if p.pattern is not None and not pat(p.pattern, v, fr):
            return False
        if p.name is not None:
            ctx().put(fr.vars, p.name, v)
        return True
    if isinstance(p, ast.MatchSequence):
        if not isinstance(v, (tuple, PList, list)):
            return False
        n = len(v) if not isinstance(v, PList) else v.length()
        if any(isinstance(q, ast.MatchStar) for q in p.patterns):
            raise tm.Unsupported("star pattern")
        e = eqv(n, len(p.patterns))
        if not (e if isinstance(e, bool) else ctx().decide(e)):
            return False
        return all(pat(q, x, fr) for q, x in zip(p.patterns, unpack(v, len(p.patterns))))
    if isinstance(p, ast.MatchClass) and not p.kwd_patterns:
        cls = ev(p.cls, fr)
        from .builtins_ import b_isinstance
        if not b_isinstance(v, cls):
            return False
        if p.patterns:
            if len(p.patterns) == 1 and cls in (int, str, float, list, tuple, dict, bool):
                return pat(p.patterns[0], v, fr)
            raise tm.Unsupported("class pattern")
        return True
    raise tm.Unsupported("pattern")


def x_with(st, fr):
    raise tm.Unsupported("with statement")


EX = {ast.Expr: x_expr, ast.Assign: x_assign, ast.AnnAssign: x_annassign, ast.AugAssign: x_augassign, ast.Return: x_return,
      ast.If: x_if, ast.For: x_for, ast.While: x_while, ast.Raise: x_raise, ast.Try: x_try, ast.Assert: x_assert,
      ast.FunctionDef: x_functiondef, ast.Pass: x_pass, ast.Break: x_break, ast.Continue: x_continue,
      ast.Nonlocal: x_nonlocal, ast.Delete: x_delete, ast.Import: x_import, ast.ImportFrom: x_import, ast.Match: x_match,
      ast.With: x_with, ast.Global: x_with, ast.ClassDef: x_with}
