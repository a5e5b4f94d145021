"""Symbolic interpreter for the Python subset the repository uses.

The code that is interpreted is the AST of the functions' current source files;
objects are real instances of the repository's classes whose attributes may
hold symbolic values.  Functions outside the repository run natively.
"""
from __future__ import annotations
import ast
import builtins
import math
import operator
import os
import types
import warnings as _warnings
from fractions import Fraction
import numpy as np
import z3
from . import values as V
from .values import (Sym, SymB, Unsupported, ite, zb, wrapb, wrap, is_num, is_sym,
                     smax, smin, to_frac)
from .explore import Explorer, Lazy, PathDead, MISSING, mergeable, merge


class Closure:
    def __init__(self, node, env, glob, interp, name, defaults, kwdefaults, cls=None, self_obj=None):
        self.node, self.env, self.glob, self.interp = node, env, glob, interp
        self.name, self.defaults, self.kwdefaults = name, defaults, kwdefaults
        self.cls, self.self_obj = cls, self_obj
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.interp.call(self, list(a), k)


class _ReturnSignal(BaseException):
    def __init__(self, sig):
        self.sig = sig


class Env(dict):
    __slots__ = ("parent",)

    def __init__(self, parent=None):
        super().__init__()
        self.parent = parent

    def __hash__(self):
        return id(self)


_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
        ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
        ast.Pow: operator.pow, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
        ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
        ast.MatMult: operator.matmul}
_CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
        ast.Eq: operator.eq, ast.NotEq: operator.ne}

_MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update",
             "setdefault", "popitem", "add", "discard", "fill"}


class Guarded:
    """An element that is present only under a condition."""
    __slots__ = ("c", "v")

    def __init__(self, c, v):
        self.c, self.v = c, v


class GSeq:
    """Result of filtering a sequence by symbolic conditions: elements with presence guards."""

    def __init__(self, items, array=False):
        self.items = [(x.c, x.v) if isinstance(x, Guarded) else (True, x) for x in items]
        self.array = array

    def raw(self):
        return [v if c is True else Guarded(c, v) for c, v in self.items]

    def map(self, f):
        return GSeq([f(v) if c is True else Guarded(c, f(v)) for c, v in self.items], self.array)

    def sym_len(self):
        n = 0
        for c, _ in self.items:
            n = n + (1 if c is True else ite(c, 1, 0))
        return n

    def nonempty(self):
        if any(c is True for c, _ in self.items):
            return True
        return wrapb(z3.Or(*[c for c, _ in self.items])) if self.items else False


def has_sym(x, depth=3):
    if isinstance(x, (Sym, SymB, Lazy, Guarded, GSeq)):
        return True
    if depth == 0:
        return False
    if isinstance(x, (list, tuple, set)):
        return any(has_sym(i, depth - 1) for i in x)
    if isinstance(x, dict):
        return any(has_sym(i, depth - 1) for i in x.values())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(has_sym(i, 1) for i in x.ravel().tolist())
    return False


def unfrac(x):
    """Exact rationals back to floats for native code."""
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, list):
        return [unfrac(i) for i in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(unfrac(i) for i in x)
    return x


def obj_array(x):
    def conv(v):
        if isinstance(v, (float, np.floating)) and math.isfinite(v):
            return Fraction(repr(float(v)))
        if isinstance(v, np.integer):
            return int(v)
        return v
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.copy()
        if x.dtype.kind in "f":
            out = np.empty(x.shape, dtype=object)
            for ix in np.ndindex(x.shape):
                out[ix] = conv(x[ix])
            return out
        return x.copy()
    x = list(x)
    if x and isinstance(x[0], (list, tuple, np.ndarray)):
        rows = [obj_array(r) for r in x]
        out = np.empty((len(rows),) + rows[0].shape, dtype=object)
        for i, r in enumerate(rows):
            out[i] = r
        return out
    out = np.empty(len(x), dtype=object)
    for i, v in enumerate(x):
        out[i] = conv(v)
    return out


def _plain(a):
    return a is None or isinstance(a, (str, int, type))


class Interp:
    def __init__(self, repo_src, explorer: Explorer):
        self.repo = os.path.realpath(repo_src)
        self.ex = explorer
        self.contracts = {}        # qualname -> handler(interp, fn, args, kwargs)
        self.used = {}             # qualname -> file:line of interpreted functions
        self.contract_used = {}
        self.native_used = {}
        self.loop_specs = {}       # qualname -> LoopSpec handler
        self._ast = {}
        self.depth = 0
        self.warned = []
        self.special = self._special_table()
        self.call_hooks = {}

    # ------------------------------------------------------------ source
    def in_repo(self, fn):
        code = getattr(fn, "__code__", None)
        return code is not None and os.path.realpath(code.co_filename).startswith(self.repo)

    def fn_ast(self, fn):
        code = fn.__code__
        if code in self._ast:
            return self._ast[code]
        path = code.co_filename
        key = ("file", path)
        if key not in self._ast:
            with open(path) as f:
                tree = ast.parse(f.read())
            idx = {}
            for n in ast.walk(tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    ln = min([n.lineno] + [d.lineno for d in n.decorator_list])
                    idx.setdefault((ln, n.name), n)
                elif isinstance(n, ast.Lambda):
                    k = (n.lineno, "<lambda>")
                    idx[k] = n if k not in idx else None
            self._ast[key] = idx
        node = self._ast[key].get((code.co_firstlineno, code.co_name))
        if node is None:
            raise Unsupported(f"source of {fn.__qualname__} not found")
        self._ast[code] = node
        return node

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(fn, Lazy):
            fn = self.ex.force(fn)
        args = [self.ex.force(a) if isinstance(a, Lazy) else a for a in args]
        kwargs = {k: self.ex.force(a) if isinstance(a, Lazy) else a for k, a in kwargs.items()}
        if isinstance(fn, Closure):
            if fn.self_obj is not None:
                args = [fn.self_obj] + args
            return self._interp_call(fn.node, fn.env, fn.glob, fn.name, args, kwargs,
                                     fn.defaults, fn.kwdefaults, fn.cls, fn)
        if isinstance(fn, types.MethodType):
            return self._call_func(fn.__func__, [fn.__self__] + args, kwargs)
        if isinstance(fn, types.FunctionType):
            return self._call_func(fn, args, kwargs)
        if isinstance(fn, type):
            return self._instantiate(fn, args, kwargs)
        return self._native(fn, args, kwargs)

    def _call_func(self, fn, args, kwargs):
        q = fn.__qualname__
        if self.in_repo(fn):
            h = self.contracts.get(q)
            if h is not None:
                self.contract_used[q] = self.contract_used.get(q, 0) + 1
                return h(self, fn, args, kwargs)
            node = self.fn_ast(fn)
            if args and not kwargs and fn.__closure__ is None and all(_plain(a) for a in args) \
                    and any(isinstance(a, (str, int)) for a in args):
                # no symbolic value can reach the call: evaluate it as CPython does
                self.used[q] = f"{os.path.relpath(fn.__code__.co_filename, self.repo)}:{node.lineno}"
                self.native_used[q] = self.native_used.get(q, 0) + 1
                return fn(*args)
            if _is_generator(node):
                node = _listed(node)
            if node is not None:
                self.used[q] = f"{os.path.relpath(fn.__code__.co_filename, self.repo)}:{node.lineno}"
                cls = self._defining_class(fn, args)
                env = None
                if fn.__closure__:
                    env = Env()
                    for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                        if n != "__class__":
                            try:
                                env[n] = c.cell_contents
                            except ValueError:
                                pass
                dn = fn.__defaults__ or ()
                r = self._interp_call(node, env, fn.__globals__, q, args, kwargs,
                                      list(dn), fn.__kwdefaults__ or {}, cls, fn)
                return iter(r) if node.name == "<listed>" and type(r) is list else r
            raise Unsupported(f"generator function {q}")
        if args and (type(args[0]).__module__ or "").startswith("specs.") and "." in q and "<" not in q:
            # a stand-in of the specification: interpreted, so that its writes are journalled
            return self._interp_call(self.fn_ast(fn), None, fn.__globals__, q, args, kwargs,
                                     list(fn.__defaults__ or ()), fn.__kwdefaults__ or {},
                                     self._defining_class(fn, args), fn)
        return self._native(fn, args, kwargs)

    def _defining_class(self, fn, args):
        code = fn.__code__
        if "__class__" in code.co_freevars:
            c = fn.__closure__[code.co_freevars.index("__class__")]
            return c.cell_contents
        return None

    def bind(self, node, args, kwargs, defaults, kwdefaults, name):
        a = node.args
        env = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        npos = len(pos)
        args = list(args)
        for i, p in enumerate(pos):
            if i < len(args):
                env[p] = args[i]
        if len(args) > npos:
            if a.vararg:
                env[a.vararg.arg] = tuple(args[npos:])
            else:
                raise TypeError(f"{name}() takes {npos} positional arguments but {len(args)} were given")
        elif a.vararg:
            env[a.vararg.arg] = ()
        extra = {}
        names = set(pos) | {p.arg for p in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in env:
                    raise TypeError(f"{name}() got multiple values for argument '{k}'")
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise TypeError(f"{name}() got an unexpected keyword argument '{k}'")
        if a.kwarg:
            env[a.kwarg.arg] = extra
        off = npos - len(defaults)
        for i, p in enumerate(pos):
            if p not in env:
                if i >= off:
                    env[p] = defaults[i - off]
                else:
                    raise TypeError(f"{name}() missing required argument: '{p}'")
        for p in a.kwonlyargs:
            if p.arg not in env:
                if p.arg in kwdefaults:
                    env[p.arg] = kwdefaults[p.arg]
                else:
                    raise TypeError(f"{name}() missing keyword argument: '{p.arg}'")
        return env

    def _interp_call(self, node, parent_env, glob, name, args, kwargs, defaults, kwdefaults, cls, fnobj):
        env = Env(parent_env)
        env.update(self.bind(node, args, kwargs, defaults, kwdefaults, name))
        fr = FrameCtx(self, env, glob, name, cls, node)
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Unsupported("call depth")
        try:
            if isinstance(node, ast.Lambda):
                return fr.ev(node.body)

            def thunk():
                e2 = env
                m = dict(e2)
                try:
                    r = fr.block(node.body)
                    return ("return", r[1] if r is not None and r[0] == "return" else None)
                except Exception as e:
                    return ("raise", e)
                finally:
                    e2.clear()
                    e2.update(m)
            kind, val = self.ex.sub_explore(thunk)
            if kind == "raise":
                raise val
            return val
        finally:
            self.depth -= 1

    def _instantiate(self, cls, args, kwargs):
        h = self.special.get(cls)
        if h is not None:
            return h(*args, **kwargs)
        init = getattr(cls, "__init__", None)
        if isinstance(init, types.FunctionType) and self.in_repo(init):
            obj = self.ex.new(object.__new__(cls))
            self._call_func(init, [obj] + args, kwargs)
            return obj
        return self._native(cls, args, kwargs)

    def _native(self, fn, args, kwargs):
        try:
            h = self.special.get(fn)
        except TypeError:
            h = None
        if h is not None:
            return h(*args, **kwargs)
        self_obj = getattr(fn, "__self__", None)
        nm = getattr(fn, "__name__", "")
        if isinstance(self_obj, (list, dict, set, np.ndarray)) and not isinstance(self_obj, type):
            return self._container_method(self_obj, nm, fn, args, kwargs)
        if isinstance(self_obj, Fraction) or isinstance(self_obj, str):
            args = [unfrac(a) for a in args]
            return fn(*args, **kwargs)
        sym = any(has_sym(a) for a in args) or any(has_sym(a) for a in kwargs.values())
        try:
            r = fn(*[self._native_arg(a) for a in args],
                   **{k: self._native_arg(a) for k, a in kwargs.items()})
        except (TypeError, ValueError, AttributeError) as e:
            if sym:
                raise Unsupported(f"native call {nm} with symbolic argument: {e}")
            raise
        return r

    def _native_arg(self, a):
        if isinstance(a, Fraction):
            return float(a)
        if isinstance(a, (list, tuple)) and type(a) in (list, tuple) and any(isinstance(i, Fraction) for i in a):
            return type(a)(unfrac(i) for i in a)
        if isinstance(a, np.ndarray) and a.dtype == object and not has_sym(a):
            try:
                return a.astype(float)
            except Exception:
                return a
        return a

    def _container_method(self, o, nm, fn, args, kwargs):
        if nm in _MUTATORS:
            self.ex.journal.cont(o)
            if nm == "sort":
                new = self.b_sorted(o, **kwargs)
                o[:] = new
                return None
            return fn(*args, **kwargs)
        if isinstance(o, dict) and nm in ("get",) and args and is_sym(args[0]):
            return self.subscript(o, args[0], default=args[1] if len(args) > 1 else None)
        if isinstance(o, np.ndarray):
            if nm == "min":
                return self.b_min(list(o.ravel()))
            if nm == "max":
                return self.b_max(list(o.ravel()))
            if nm == "sum":
                return self.b_sum(list(o.ravel()))
            if nm == "mean":
                return self.binop(ast.Div, self.b_sum(list(o.ravel())), o.size)
            if nm == "astype":
                return obj_array(o)
            if nm == "cumsum":
                return self.np_cumsum(o)
        return fn(*args, **kwargs)

    # ------------------------------------------------------------ builtins
    def _special_table(self):
        t = {
            max: self.b_max, min: self.b_min, sum: self.b_sum, abs: self.b_abs, len: self.b_len,
            range: self.b_range, isinstance: self.b_isinstance, float: self.b_float, int: self.b_int,
            round: self.b_round, any: self.b_any, all: self.b_all, bool: self.b_bool,
            sorted: self.b_sorted, print: lambda *a, **k: None,
            getattr: self.b_getattr, hasattr: self.b_hasattr, setattr: self.b_setattr,
            list: self.b_list, tuple: lambda x=(): tuple(self.iterate(x)),
            enumerate: lambda x, start=0: enumerate(self.iterate(x), start),
            zip: lambda *a, **k: zip(*[self.iterate(x) for x in a], **k),
            map: lambda f, *a: [self.call(f, list(x)) for x in zip(*[list(self.iterate(y)) for y in a])],
            filter: lambda f, a: [x for x in self.iterate(a) if self.truth_fork(self.call(f, [x]) if f else x)],
            str: self.b_str, type: self.b_type, id: id, divmod: lambda a, b: (a // b, a % b),
            reversed: lambda x: list(reversed(list(self.iterate(x)))),
            math.floor: self.m_floor, math.ceil: self.m_ceil, math.isnan: self.m_isnan,
            math.isfinite: lambda x: True if is_sym(x) else math.isfinite(x),
            math.isinf: lambda x: False if is_sym(x) else math.isinf(x),
            math.isclose: self.m_isclose, math.fabs: self.b_abs, math.fsum: self.b_sum,
            math.trunc: self.b_int, math.pow: lambda a, b: a ** b,
            np.array: self.np_array, np.asarray: self.np_array,
            np.zeros: lambda n, *a, **k: self.np_full(n, Fraction(0)),
            np.ones: lambda n, *a, **k: self.np_full(n, Fraction(1)),
            np.full: lambda n, v, *a, **k: self.np_full(n, v),
            np.zeros_like: lambda a, *x, **k: self.np_full(np.shape(a), Fraction(0)),
            np.ones_like: lambda a, *x, **k: self.np_full(np.shape(a), Fraction(1)),
            np.empty: lambda n, *a, **k: self.np_full(n, Fraction(0)),
            np.max: lambda a, *x, **k: self.b_max(self.np_flat(a)),
            np.min: lambda a, *x, **k: self.b_min(self.np_flat(a)),
            np.amax: lambda a, *x, **k: self.b_max(self.np_flat(a)),
            np.amin: lambda a, *x, **k: self.b_min(self.np_flat(a)),
            np.sum: lambda a, *x, **k: self.b_sum(self.np_flat(a)),
            np.mean: lambda a, *x, **k: self.binop(ast.Div, self.b_sum(list(self.iterate(a))), len(a)),
            np.cumsum: self.np_cumsum, np.diff: self.np_diff,
            np.maximum: lambda a, b: self.np_ew(a, b, smax), np.minimum: lambda a, b: self.np_ew(a, b, smin),
            np.abs: lambda a: self.np_ew(a, None, lambda x, _: abs(x)),
            np.absolute: lambda a: self.np_ew(a, None, lambda x, _: abs(x)),
            np.any: lambda a: self.b_any(list(np.ravel(a))), np.all: lambda a: self.b_all(list(np.ravel(a))),
            np.where: self.np_where, np.clip: lambda a, lo, hi: self.np_ew(self.np_ew(a, lo, smax), hi, smin),
            np.isnan: self.np_isnan, np.floor: lambda a: self.np_ew(a, None, lambda x, _: self.m_floor(x)),
            np.tile: lambda a, n: np.tile(obj_array(self.iterate(a)), n),
            np.repeat: lambda a, n: np.repeat(obj_array(self.iterate(a)), n),
            np.concatenate: lambda xs, *a, **k: np.concatenate([obj_array(self.iterate(x)) for x in xs]),
            np.append: lambda a, b: np.concatenate([obj_array(self.iterate(a)), obj_array(self.iterate(b) if not (is_num(b) or is_sym(b)) else [b])]),
            np.flip: lambda a: obj_array(list(reversed(list(self.iterate(a))))),
            np.roll: lambda a, n: np.roll(obj_array(self.iterate(a)), n),
            _warnings.warn: self.w_warn,
        }
        return t

    def w_warn(self, *a, **k):
        return None

    def b_str(self, x=""):
        if is_sym(x):
            return "<sym>"
        return str(unfrac(x))

    def b_type(self, *a):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, Sym):
                return int if x.is_int else float
            if isinstance(x, SymB):
                return bool
            if isinstance(x, Fraction):
                return float
            return type(x)
        return type(*a)

    def b_max(self, *a, key=None, default=MISSING):
        xs = list(self.iter_raw(a[0])) if len(a) == 1 else list(a)
        if any(isinstance(x, Guarded) for x in xs):
            if key is None:
                r = self._guarded_reduce(xs, smax)
                if r is not MISSING:
                    return r
                xs = []
            else:
                xs = list(self._settle(xs))
        if key is not None:
            keys = [self.call(key, [x]) for x in xs]
            if has_sym(keys):
                best, bk = xs[0], keys[0]
                for x, k in zip(xs[1:], keys[1:]):
                    if self.truth_fork(k > bk):
                        best, bk = x, k
                return best
            return xs[max(range(len(xs)), key=lambda i: keys[i])]
        if not xs:
            if default is not MISSING:
                return default
            raise ValueError("max() iterable argument is empty")
        return self._reduce(xs, smax)

    def _reduce(self, xs, f):
        xs = [self.ex.force(x) for x in xs]
        if any(not (is_num(x) or is_sym(x)) for x in xs):
            if any(is_sym(x) for x in xs):
                raise TypeError("'<' not supported between instances")
            return max(xs) if f is smax else min(xs)
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r

    def b_min(self, *a, key=None, default=MISSING):
        xs = list(self.iter_raw(a[0])) if len(a) == 1 else list(a)
        if any(isinstance(x, Guarded) for x in xs):
            if key is None:
                r = self._guarded_reduce(xs, smin)
                if r is not MISSING:
                    return r
                xs = []
            else:
                xs = list(self._settle(xs))
        if key is not None:
            keys = [self.call(key, [x]) for x in xs]
            if has_sym(keys):
                best, bk = xs[0], keys[0]
                for x, k in zip(xs[1:], keys[1:]):
                    if self.truth_fork(k < bk):
                        best, bk = x, k
                return best
            return xs[min(range(len(xs)), key=lambda i: keys[i])]
        if not xs:
            if default is not MISSING:
                return default
            raise ValueError("min() iterable argument is empty")
        return self._reduce(xs, smin)

    def b_sum(self, xs, start=0):
        r = start
        for x in self.iter_raw(xs):
            if isinstance(x, Guarded):
                v = self.ex.force(x.v)
                if is_num(v) or is_sym(v):
                    r = self.binop(ast.Add, r, ite(x.c, v, 0))
                    continue
                if not self.ex.decide(x.c):
                    continue
                x = v
            r = self.binop(ast.Add, r, self.ex.force(x))
        return r

    def b_abs(self, x):
        return abs(x)

    def b_len(self, x):
        if hasattr(x, "sym_len"):
            return x.sym_len()
        return len(x)

    def b_range(self, *a):
        a = [self.concretize(x) if is_sym(x) else (int(x) if isinstance(x, np.integer) else x) for x in a]
        return range(*a)

    def concretize(self, x, limit=70):
        """Case split a symbolic integer over all its feasible values (exhaustive)."""
        if isinstance(x, SymB):
            return 1 if self.ex.decide(x) else 0
        if not x.is_int:
            raise TypeError("'float' object cannot be interpreted as an integer")
        f = self.ex.frames[-1]
        if f.i < len(f.prefix) and isinstance(f.prefix[f.i], tuple):
            val = f.prefix[f.i][1]
            f.i += 1
            f.taken.append(("val", val))
            self.ex.add_pc(x.t == val)
            return val
        vals = []
        s = self.ex.solver
        s.push()
        s.set("timeout", 5000)
        try:
            while True:
                r = s.check()
                if r == z3.unsat:
                    break
                if r != z3.sat or len(vals) >= limit:
                    raise Unsupported("symbolic integer with too many values")
                v = s.model().eval(x.t, model_completion=True).as_long()
                vals.append(v)
                s.add(x.t != v)
        finally:
            s.pop()
            s.set("timeout", self.ex.feas_ms)
        if not vals:
            raise PathDead()
        vals.sort()
        for alt in vals[1:]:
            f.work.append(f.taken + [("val", alt)])
        f.i += 1
        f.prefix = f.prefix + [("val", vals[0])]
        f.taken.append(("val", vals[0]))
        self.ex.add_pc(x.t == vals[0])
        return vals[0]

    def b_isinstance(self, x, cls):
        cl = []

        def flat(c):
            if isinstance(c, tuple):
                for i in c:
                    flat(i)
            elif isinstance(c, types.UnionType):
                for i in c.__args__:
                    flat(i)
            else:
                cl.append(c)
        flat(cls)
        if isinstance(x, Sym):
            return (int in cl) if x.is_int else (float in cl)
        if isinstance(x, SymB):
            return bool in cl or int in cl
        if isinstance(x, Fraction):
            return float in cl
        return isinstance(x, tuple(cl))

    def b_float(self, x=0.0):
        if is_sym(x):
            return V.to_float(x)
        if isinstance(x, Fraction):
            return x
        if isinstance(x, bool) or isinstance(x, (int, np.integer)):
            return Fraction(int(x))
        if isinstance(x, str):
            r = float(x)
            return Fraction(repr(r)) if math.isfinite(r) else r
        return float(x)

    def b_int(self, x=0, *a):
        if is_sym(x):
            return V.to_int(x)
        return int(x, *a) if a else int(x)

    def b_round(self, x, n=None):
        if is_sym(x):
            if isinstance(x, Sym) and x.is_int and n is None:
                return x
            if n is None:
                r = z3.Int(V.term_name("round", x.t, n))
                self.ex.assume_fast(SymB(z3.And(z3.ToReal(r) - x.t <= z3.Q(1, 2), x.t - z3.ToReal(r) <= z3.Q(1, 2))))
                return Sym(r)
            r = z3.Real(V.term_name("round", x.t, n))
            e = Fraction(1, 2) / (Fraction(10) ** n)
            ev = z3.RealVal(str(e))
            xt = V._real(V.z(x))
            self.ex.assume_fast(SymB(z3.And(r - xt <= ev, xt - r <= ev)))
            return Sym(r)
        if isinstance(x, Fraction):
            r = round(float(x), n) if n is not None else round(float(x))
            return Fraction(repr(r)) if isinstance(r, float) else r
        return round(x, n) if n is not None else round(x)

    def truth(self, v):
        """-> bool or SymB"""
        v = self.ex.force(v)
        if isinstance(v, SymB):
            return v
        if isinstance(v, Sym):
            return v != 0
        if isinstance(v, GSeq):
            if v.array:
                raise Unsupported("truth value of a filtered array")
            return v.nonempty()
        return bool(v)

    def truth_fork(self, v):
        t = self.truth(v)
        return t if isinstance(t, bool) else self.ex.decide(t)

    def b_any(self, xs):
        acc = []
        for x in self.iter_raw(xs):
            g = None
            if isinstance(x, Guarded):
                g, x = x.c, x.v
            t = self.truth(x)
            if t is True:
                if g is None:
                    return True
                acc.append(g)
            elif t is not False:
                acc.append(t.t if g is None else z3.And(g, t.t))
        return wrapb(z3.Or(*acc)) if acc else False

    def b_all(self, xs):
        acc = []
        for x in self.iter_raw(xs):
            g = None
            if isinstance(x, Guarded):
                g, x = x.c, x.v
            t = self.truth(x)
            if t is False:
                if g is None:
                    return False
                acc.append(z3.Not(g))
            elif t is not True:
                acc.append(t.t if g is None else z3.Implies(g, t.t))
        return wrapb(z3.And(*acc)) if acc else True

    def b_bool(self, x=False):
        return self.truth(x)

    def b_sorted(self, xs, key=None, reverse=False):
        xs = list(self.iterate(xs))
        if key is not None:
            keys = [self.call(key, [x]) for x in xs]
            if has_sym(keys):
                raise Unsupported("sort by symbolic keys")
            idx = sorted(range(len(xs)), key=lambda i: keys[i], reverse=reverse)
            return [xs[i] for i in idx]
        return sorted(xs, reverse=reverse)

    def b_list(self, x=()):
        return list(self.iterate(x))

    def b_getattr(self, o, name, *d):
        try:
            return self.getattr_(o, name)
        except AttributeError:
            if d:
                return d[0]
            raise

    def b_hasattr(self, o, name):
        try:
            self.getattr_(o, name)
            return True
        except AttributeError:
            return False

    def b_setattr(self, o, name, v):
        self.setattr_(o, name, v)

    def m_floor(self, x):
        if is_sym(x):
            return V.Sym.__floor__(x) if isinstance(x, Sym) else x._i()
        return math.floor(x)

    def m_ceil(self, x):
        if is_sym(x):
            return V.Sym.__ceil__(x) if isinstance(x, Sym) else x._i()
        return math.ceil(x)

    def m_isnan(self, x):
        if is_sym(x):
            return False
        return math.isnan(x)

    def m_isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        if not has_sym([a, b]):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = abs(a - b)
        return wrapb(zb(d <= smax(smax(abs(a), abs(b)) * to_frac(rel_tol), to_frac(abs_tol))))

    def np_flat(self, a):
        a = self.ex.force(a)
        return a if isinstance(a, GSeq) else list(np.ravel(obj_array(self.iterate(a)) if not isinstance(a, np.ndarray) else a))

    def np_array(self, x, dtype=None, **k):
        x = self.ex.force(x)
        if isinstance(x, GSeq):
            return GSeq(x.raw(), array=True)
        if hasattr(x, "sym_at"):
            return x            # immutable symbolic sequence: a copy is the sequence
        if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
            pass
        else:
            x = list(self.iterate(x))
        if isinstance(x, (list, tuple)):
            x = [self.ex.force(i) for i in x]
        a = obj_array(x)
        if a.dtype == object and dtype in (float, np.float64):
            for ix in np.ndindex(a.shape):
                if isinstance(a[ix], int):
                    a[ix] = Fraction(a[ix])
        return a

    def np_full(self, n, v):
        if is_sym(n):
            n = self.concretize(n)
        out = np.empty(n, dtype=object)
        for ix in np.ndindex(out.shape):
            out[ix] = v
        return out

    def np_cumsum(self, a, *x, **k):
        r, acc = [], None
        for v in self.iterate(a):
            acc = v if acc is None else self.binop(ast.Add, acc, v)
            r.append(acc)
        return obj_array(r)

    def np_diff(self, a, *x, **k):
        a = list(self.iterate(a))
        return obj_array([self.binop(ast.Sub, b, c) for c, b in zip(a, a[1:])])

    def np_ew(self, a, b, f):
        def is_arr(x):
            return isinstance(x, (np.ndarray, list, tuple))
        if not is_arr(a) and not is_arr(b):
            return f(a, b)
        n = len(a) if is_arr(a) else len(b)
        return obj_array([f(a[i] if is_arr(a) else a, b[i] if is_arr(b) else b) for i in range(n)])

    def np_isnan(self, a):
        if is_sym(a):
            return False
        if isinstance(a, np.ndarray) and a.dtype == object:
            return np.array([False if is_sym(x) else math.isnan(x) for x in a.ravel()]).reshape(a.shape)
        return np.isnan(a)

    def np_where(self, c, a=None, b=None):
        if a is None:
            return (np.array([i for i, x in enumerate(self.iterate(c)) if self.truth_fork(x)], dtype=int),)
        cs = list(self.iterate(c))
        ga = lambda i: a[i] if isinstance(a, (np.ndarray, list)) else a
        gb = lambda i: b[i] if isinstance(b, (np.ndarray, list)) else b
        out = []
        for i, x in enumerate(cs):
            t = self.truth(x)
            out.append(ga(i) if t is True else gb(i) if t is False else ite(t.t, ga(i), gb(i)))
        return obj_array(out)

    # ------------------------------------------------------------ data model
    def iterate(self, x):
        x = self.ex.force(x)
        if isinstance(x, (Sym, SymB)):
            raise TypeError("object is not iterable")
        if isinstance(x, GSeq):
            x = x.raw()
        return self._settle(iter(x))

    def _settle(self, it):
        """Plain iteration: the presence of a guarded element is decided by forking."""
        for x in it:
            if isinstance(x, Guarded):
                if self.ex.decide(x.c):
                    yield x.v
            else:
                yield x

    def iter_raw(self, x):
        """Iteration for consumers that understand guards."""
        x = self.ex.force(x)
        if isinstance(x, (Sym, SymB)):
            raise TypeError("object is not iterable")
        return iter(x.raw() if isinstance(x, GSeq) else x)

    def _guarded_reduce(self, xs, f):
        """min/max over elements some of which are present conditionally."""
        acc, has = None, None
        for x in xs:
            c, v = (x.c, x.v) if isinstance(x, Guarded) else (True, x)
            v = self.ex.force(v)
            if not (is_num(v) or is_sym(v)):
                raise Unsupported("min/max over conditional non-numbers")
            if acc is None:
                acc, has = v, c
            elif c is True and has is True:
                acc = f(acc, v)
            elif has is True:
                acc = ite(c, f(acc, v), acc)
            elif c is True:
                acc, has = ite(has, f(acc, v), v), True
            else:
                acc = ite(has, ite(c, f(acc, v), acc), v)
                has = z3.Or(has, c)
        if has is not True:
            if self.ex.decide_k([has, z3.Not(has)]) == 1:
                return MISSING
        return acc

    def getattr_(self, o, name):
        o = self.ex.force(o)
        if isinstance(o, (Sym, SymB)):
            return getattr(o, name)
        if isinstance(o, GSeq):
            if name == "size":
                return o.sym_len()
            if name in ("min", "max", "sum"):
                f = {"min": self.b_min, "max": self.b_max, "sum": self.b_sum}[name]
                return lambda *a, **k: f(o)
            xs = list(self.iterate(o))
            return getattr(obj_array(xs) if o.array else xs, name)
        if isinstance(o, (types.ModuleType, type)):
            return getattr(o, name)
        if isinstance(o, super):
            r = getattr(o, name)
            return r
        d = getattr(o, "__dict__", None)
        cls = type(o)
        cattr = None
        for c in cls.__mro__:
            if name in c.__dict__:
                cattr = c.__dict__[name]
                break
        if isinstance(cattr, property):
            if self.in_repo(cattr.fget):
                return self.call(cattr.fget, [o])
            return getattr(o, name)
        if d is not None and name in d:
            v = d[name]
            if isinstance(v, Lazy):
                v = self.ex.force(v)
                self.ex.journal.write("attr", o, name, v)
            return v
        return getattr(o, name)

    def setattr_(self, o, name, v):
        o = self.ex.force(o)
        cattr = None
        for c in type(o).__mro__:
            if name in c.__dict__:
                cattr = c.__dict__[name]
                break
        if isinstance(cattr, property):
            if cattr.fset is None:
                raise AttributeError(f"property '{name}' has no setter")
            self.call(cattr.fset, [o, v])
            return
        if not hasattr(o, "__dict__"):
            raise Unsupported("attribute store on slotted object")
        self.ex.journal.write("attr", o, name, v)

    def subscript(self, o, i, default=MISSING):
        o = self.ex.force(o)
        i = self.ex.force(i)
        if hasattr(o, "sym_at"):
            return o.sym_at(self, i)
        if isinstance(o, GSeq):
            o = list(self.iterate(o))
            if isinstance(i, np.ndarray):
                o = obj_array(o)
        if isinstance(i, np.ndarray) and i.dtype == object and isinstance(o, np.ndarray) and o.ndim == 1 \
                and len(i) == len(o) and all(isinstance(x, (bool, np.bool_, SymB)) for x in i.tolist()):
            return GSeq([Guarded(c.t, v) if isinstance(c, SymB) else v
                         for c, v in zip(i.tolist(), o.tolist()) if c is not False], array=True)
        if isinstance(i, slice):
            sl = []
            for p in (i.start, i.stop, i.step):
                if is_sym(p):
                    p = self.concretize(p)
                sl.append(p)
            return o[slice(*sl)]
        if is_sym(i) and isinstance(o, (list, tuple, np.ndarray, str)):
            if isinstance(i, SymB):
                i = i._i()
            if not i.is_int:
                raise TypeError("list indices must be integers or slices, not float")
            n = len(o)
            ok = z3.And(i.t >= -n, i.t < n)
            if self.ex.decide_k([ok, z3.Not(ok)]) == 1:
                raise IndexError("list index out of range")
            if n == 0:
                raise PathDead()
            alts = [(z3.Or(i.t == k, i.t == k - n), self.ex.force(o[k])) for k in range(n)]
            return self._merge_alts(alts)
        if is_sym(i) and isinstance(o, dict):
            keys = list(o.keys())
            conds = [zb(i == k) for k in keys]
            none = z3.Not(z3.Or(*conds)) if conds else z3.BoolVal(True)
            if default is MISSING:
                if self.ex.decide_k([z3.Not(none), none]) == 1:
                    raise KeyError(i)
                return self._merge_alts([(c, self.ex.force(o[k])) for c, k in zip(conds, keys)])
            return self._merge_alts([(c, self.ex.force(o[k])) for c, k in zip(conds, keys)] + [(none, default)])
        if isinstance(i, tuple) and has_sym(i) and isinstance(o, dict):
            keys = list(o.keys())
            conds = []
            for k in keys:
                conds.append(z3.And(*[zb(a == b) for a, b in zip(i, k)]))
            none = z3.Not(z3.Or(*conds)) if conds else z3.BoolVal(True)
            if self.ex.decide_k([z3.Not(none), none]) == 1:
                raise KeyError(i)
            return self._merge_alts([(c, self.ex.force(o[k])) for c, k in zip(conds, keys)])
        if isinstance(i, Fraction) and isinstance(o, dict):
            pass
        v = o[i]
        if isinstance(v, Lazy):
            v = self.ex.force(v)
        if isinstance(v, np.floating):
            v = Fraction(repr(float(v))) if math.isfinite(v) else float(v)
        elif isinstance(v, np.integer):
            v = int(v)
        return v

    def _merge_alts(self, alts):
        v0 = alts[0][1]
        if all(mergeable(v0, v) for _, v in alts[1:]):
            return merge(alts)
        groups = []
        for c, v in alts:
            for g in groups:
                if mergeable(g[0][1], v):
                    g.append((c, v))
                    break
            else:
                groups.append([(c, v)])
        k = self.ex.decide_k([z3.Or(*[c for c, _ in g]) for g in groups])
        return merge(groups[k])

    def store_sub(self, o, i, v):
        o = self.ex.force(o)
        i = self.ex.force(i)
        if hasattr(o, "sym_store"):
            return o.sym_store(self, i, v)
        if not isinstance(o, (list, dict, np.ndarray)):
            raise Unsupported(f"item store on {type(o).__name__}")
        self.ex.journal.cont(o)
        if isinstance(i, slice) and (is_sym(i.start) or is_sym(i.stop)):
            i = slice(*[self.concretize(p) if is_sym(p) else p for p in (i.start, i.stop, i.step)])
        if is_sym(i) and isinstance(o, (list, np.ndarray)):
            if not i.is_int:
                raise TypeError("list indices must be integers or slices, not float")
            n = len(o)
            ok = z3.And(i.t >= -n, i.t < n)
            if self.ex.decide_k([ok, z3.Not(ok)]) == 1:
                raise IndexError("list assignment index out of range")
            if (is_num(v) or is_sym(v)) and all(is_num(self.ex.force(x)) or is_sym(self.ex.force(x)) for x in o):
                for k in range(n):
                    o[k] = ite(z3.Or(i.t == k, i.t == k - n), v, self.ex.force(o[k]))
                return
            i = self.concretize(i)
        elif is_sym(i) and isinstance(o, dict):
            keys = list(o.keys())
            conds = [zb(i == k) for k in keys] + [z3.And(*[z3.Not(zb(i == k)) for k in keys])]
            k = self.ex.decide_k(conds)
            if k < len(keys):
                o[keys[k]] = v
            else:
                i = self.concretize(i) if isinstance(i, Sym) and i.is_int else i
                o[i] = v
            return
        elif isinstance(i, tuple) and any(isinstance(p, Sym) for p in i) and isinstance(o, dict):
            i = tuple(self.concretize(p) if isinstance(p, Sym) and p.is_int else p for p in i)
        if isinstance(o, np.ndarray) and o.dtype != object:
            raise Unsupported("item store on native numeric array")
        o[i] = v

    def binop(self, op, a, b):
        a = self.ex.force(a)
        b = self.ex.force(b)
        if isinstance(a, GSeq) or isinstance(b, GSeq):
            if isinstance(a, GSeq) and a.array and not isinstance(b, GSeq) and (is_num(b) or is_sym(b)):
                return a.map(lambda x: self.binop(op, x, b))
            if isinstance(b, GSeq) and b.array and not isinstance(a, GSeq) and (is_num(a) or is_sym(a)):
                return b.map(lambda x: self.binop(op, a, x))
            if isinstance(a, GSeq) and not a.array and op is ast.Add and isinstance(b, (list, GSeq)):
                return GSeq(a.raw() + (b.raw() if isinstance(b, GSeq) else b))
            if isinstance(b, GSeq) and not b.array and op is ast.Add and isinstance(a, list):
                return GSeq(a + b.raw())
            raise Unsupported("operation on filtered sequences")
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if isinstance(a, np.ndarray) and a.dtype.kind == "f":
                a = obj_array(a)
            if isinstance(b, np.ndarray) and b.dtype.kind == "f":
                b = obj_array(b)
            if isinstance(a, float):
                a = to_frac(a)
            if isinstance(b, float):
                b = to_frac(b)
            ob = (isinstance(a, np.ndarray) and a.dtype == object) or (isinstance(b, np.ndarray) and b.dtype == object)
            if ob or is_sym(a) or is_sym(b) or isinstance(a, Fraction) or isinstance(b, Fraction):
                if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
                    if a.shape != b.shape:
                        raise ValueError("operands could not be broadcast together")
                    return obj_array([self.binop(op, x, y) for x, y in zip(a.tolist(), b.tolist())])
                if isinstance(a, np.ndarray):
                    if isinstance(b, list):
                        return obj_array([self.binop(op, x, y) for x, y in zip(a.tolist(), b)])
                    return obj_array([self.binop(op, x, b) for x in a.tolist()])
                if isinstance(a, list):
                    return obj_array([self.binop(op, x, y) for x, y in zip(a, b.tolist())])
                return obj_array([self.binop(op, a, y) for y in b.tolist()])
        f = _BIN[op]
        if is_num(a) and is_num(b) and not is_sym(a) and not is_sym(b):
            inex = isinstance(a, (float, Fraction, np.floating)) or isinstance(b, (float, Fraction, np.floating)) or op is ast.Div
            if inex:
                af, bf = a, b
                if (isinstance(a, (float, np.floating)) and not math.isfinite(a)) or \
                        (isinstance(b, (float, np.floating)) and not math.isfinite(b)):
                    return f(float(a), float(b))
                af, bf = Fraction(to_frac(a)), Fraction(to_frac(b))
                r = f(af, bf)
                if isinstance(r, int):
                    r = Fraction(r)
                if isinstance(r, float) and math.isfinite(r):
                    r = Fraction(repr(r))
                return r
        return f(a, b)

    def compare(self, op, a, b):
        a = self.ex.force(a)
        b = self.ex.force(b)
        if op is ast.Is:
            return a is b
        if op is ast.IsNot:
            return a is not b
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            if op is ast.NotIn:
                return wrapb(z3.Not(r.t)) if isinstance(r, SymB) else not r
            return r
        f = _CMP[op]
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
                return self._obj_bools([self.compare(op, x, y) for x, y in zip(a.tolist(), b.tolist())])
            if isinstance(a, np.ndarray):
                return self._obj_bools([self.compare(op, x, b) for x in a.tolist()])
            return self._obj_bools([self.compare(op, a, y) for y in b.tolist()])
        if isinstance(a, (list, tuple)) and type(a) is type(b) and op in (ast.Eq, ast.NotEq) and (has_sym(a) or has_sym(b)):
            if len(a) != len(b):
                r = False
            else:
                r = self.b_all([self.compare(ast.Eq, x, y) for x, y in zip(a, b)])
            if op is ast.NotEq:
                return wrapb(z3.Not(r.t)) if isinstance(r, SymB) else not r
            return r
        if isinstance(a, float) and isinstance(b, Fraction) and math.isfinite(a):
            a = to_frac(a)
        if isinstance(b, float) and isinstance(a, Fraction) and math.isfinite(b):
            b = to_frac(b)
        return f(a, b)

    def _obj_bools(self, xs):
        out = np.empty(len(xs), dtype=object)
        for i, x in enumerate(xs):
            out[i] = x
        if all(isinstance(x, bool) for x in xs):
            return out.astype(bool)
        return out

    def contains(self, c, x):
        c = self.ex.force(c)
        if is_sym(x) and isinstance(c, range):
            if c.step == 1 and isinstance(x, Sym) and x.is_int:
                return wrapb(z3.And(x.t >= c.start, x.t < c.stop))
            c = list(c)
        if isinstance(c, (list, tuple, set, frozenset, np.ndarray)) and (is_sym(x) or has_sym(list(c), 1)):
            return self.b_any([self.compare(ast.Eq, e, x) for e in c])
        if is_sym(x) and isinstance(c, dict):
            return self.b_any([x == k for k in c])
        return x in c


_LISTED = {}


class _Lister(ast.NodeTransformer):
    """yield x -> __out.append(x); yield from xs -> __out.extend(xs); return -> return __out"""

    def visit_FunctionDef(self, n): return n
    def visit_Lambda(self, n): return n

    def visit_Expr(self, n):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            m = "append" if isinstance(n.value, ast.Yield) else "extend"
            x = n.value.value if n.value.value is not None else ast.Constant(None)
            return ast.Expr(ast.Call(ast.Attribute(ast.Name("__out", ast.Load()), m, ast.Load()), [x], []))
        return n

    def visit_Return(self, n):
        return ast.Return(ast.Name("__out", ast.Load()))


def _listed(node):
    """A generator function that only reads, as the function that gives all it yields; None if it is not of that kind (its
    effects would come at another time)."""
    if id(node) not in _LISTED:
        import copy
        r = copy.deepcopy(node)
        body = []
        for st in r.body:
            body.append(_Lister().visit(st))
        r.body = [ast.Assign([ast.Name("__out", ast.Store())], ast.List([], ast.Load()))] + body + \
                 [ast.Return(ast.Name("__out", ast.Load()))]
        for n in ast.walk(r):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Try, ast.With)) or \
                    isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                r = None
                break
        if r is not None:
            r.name = "<listed>"
            for n in ast.walk(r):
                if not hasattr(n, "lineno") and "lineno" in n._attributes:
                    n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = node.lineno, 0, node.lineno, 0
        _LISTED[id(node)] = (node, r)
    return _LISTED[id(node)][1]


def _is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    for n in _walk_scope(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def _walk_scope(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def _jumps(stmts):
    """Does the statement list contain break/continue/return in its own scope?"""
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Break, ast.Continue, ast.Return)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class FrameCtx:
    """Execution of one function activation."""

    def __init__(self, interp, env, glob, name, cls, node):
        self.I, self.env, self.glob, self.name, self.cls, self.node = interp, env, glob, name, cls, node
        self.ex = interp.ex
        self.yield_cb = None

    # ---- names
    def lookup(self, name):
        e = self.env
        while e is not None:
            if name in e:
                v = e[name]
                if v is MISSING:
                    raise UnboundLocalError(name)
                if isinstance(v, Lazy):
                    v = self.ex.force(v)
                    if v is MISSING:
                        raise UnboundLocalError(f"cannot access local variable '{name}'")
                    self.ex.journal.write("env", e, name, v)
                return v
            e = e.parent if isinstance(e, Env) else None
        if name in self.glob:
            return self.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise NameError(f"name '{name}' is not defined")

    def store_name(self, name, v):
        e = self.env
        nl = getattr(self, "nonlocals", None)
        if nl and name in nl:
            e = e.parent
            while e is not None and name not in e:
                e = e.parent
        if getattr(self, "globals_", None) and name in self.globals_:
            raise Unsupported("global store")
        self.ex.journal.write("env", e, name, v)

    # ---- statements
    def block(self, stmts):
        for s in stmts:
            r = self.stmt(s)
            if r is not None:
                return r
        return None

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def s_Pass(self, s): pass

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.I.setattr_(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.I.store_sub(self.ev(t.value), self.ev_slice(t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = list(self.I.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                for e, x in zip(t.elts[:k], xs[:k]):
                    self.assign(e, x)
                self.assign(t.elts[k].value, xs[k:len(xs) - after])
                for e, x in zip(t.elts[k + 1:], xs[len(xs) - after:]):
                    self.assign(e, x)
                return
            if len(xs) != len(t.elts):
                raise ValueError("unpack mismatch")
            for e, x in zip(t.elts, xs):
                self.assign(e, x)
        else:
            raise Unsupported(f"assignment target {type(t).__name__}")

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.store_name(t.id, self._aug(op, cur, self.ev(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            cur = self.I.getattr_(o, t.attr)
            self.I.setattr_(o, t.attr, self._aug(op, cur, self.ev(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            i = self.ev_slice(t.slice)
            cur = self.I.subscript(o, i)
            self.I.store_sub(o, i, self._aug(op, cur, self.ev(s.value)))
        else:
            raise Unsupported("augmented target")

    def _aug(self, op, cur, v):
        if isinstance(cur, list) and op is ast.Add:
            self.ex.journal.cont(cur)
            cur.extend(self.I.iterate(v))
            return cur
        if isinstance(cur, np.ndarray):
            self.ex.journal.cont(cur)
            new = self.I.binop(op, cur, v)
            if cur.dtype != object:
                raise Unsupported("in-place op on native array")
            cur[...] = new
            return cur
        return self.I.binop(op, cur, v)

    def s_If(self, s):
        t = self.I.truth(self.ev(s.test))
        if t is True:
            return self.block(s.body)
        if t is False:
            return self.block(s.orelse)

        def thunk():
            try:
                r = self.block(s.body if self.ex.decide(t) else s.orelse)
                return r if r is not None else ("fall", None)
            except Exception as e:
                return ("raise", e)
        kind, val = self.ex.sub_explore(thunk)
        return self._outcome(kind, val)

    def _outcome(self, kind, val):
        if kind == "raise":
            raise val
        if kind == "fall":
            return None
        return (kind, val)

    def s_For(self, s):
        it = self.ev(s.iter)
        it = self.ex.force(it)
        spec = self.I.loop_specs.get(self.name)
        if spec is not None and s is self._loop_of(spec):
            from .symv import loop_cut
            return loop_cut(self, s, it, spec)
        if hasattr(it, "sym_iter_loop"):
            return it.sym_iter_loop(self, s)
        wrap_body = _jumps(s.body)
        broke = False
        for x in self.I.iter_raw(it):
            guard = None
            if isinstance(x, Guarded):
                guard, x = x.c, x.v
            if wrap_body or guard is not None:
                def thunk():
                    try:
                        if guard is not None and not self.ex.decide(guard):
                            return ("fall", None)
                        self.assign(s.target, x)
                        r = self.block(s.body)
                        if r is None or r[0] == "continue":
                            return ("fall", None)
                        return r
                    except Exception as e:
                        return ("raise", e)
                r = self._outcome(*self.ex.sub_explore(thunk))
            else:
                self.assign(s.target, x)
                r = self.block(s.body)
            if r is None or r[0] == "continue":
                continue
            if r[0] == "break":
                broke = True
                break
            return r
        if not broke and s.orelse:
            return self.block(s.orelse)

    def _loop_of(self, spec):
        loops = [x for x in ast.walk(self.node) if isinstance(x, ast.For)]
        if len(loops) <= spec.which:
            raise Unsupported("the loop under a specification is written differently")
        return loops[spec.which]

    def s_While(self, s):
        spec = self.I.loop_specs.get(self.name)
        if spec is not None:
            self._loop_of(spec)
        n = 0
        while True:
            t = self.I.truth(self.ev(s.test))
            if not isinstance(t, bool):
                t = self.ex.decide(t)
            if not t:
                if s.orelse:
                    return self.block(s.orelse)
                return None
            n += 1
            if n > 5000:
                raise Unsupported("while loop bound")
            r = self.block(s.body)
            if r is None or r[0] == "continue":
                continue
            if r[0] == "break":
                return None
            return r

    def s_Return(self, s):
        return ("return", self.ev(s.value) if s.value is not None else None)

    def s_Break(self, s): return ("break", None)
    def s_Continue(self, s): return ("continue", None)

    def s_Raise(self, s):
        if s.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is None:
                raise RuntimeError("No active exception to reraise")
            raise cur
        e = self.ev(s.exc)
        if isinstance(e, type):
            e = e()
        raise e

    def s_Assert(self, s):
        if not self.I.truth_fork(self.ev(s.test)):
            raise AssertionError()

    def s_Try(self, s):
        sig = None
        pending = None
        try:
            try:
                sig = self.block(s.body)
                if sig is None and s.orelse:
                    sig = self.block(s.orelse)
            except Exception as e:
                for h in s.handlers:
                    types_ = (Exception,) if h.type is None else self.ev(h.type)
                    if isinstance(e, types_ if isinstance(types_, tuple) else (types_,)):
                        if h.name:
                            self.store_name(h.name, e)
                        old = getattr(self, "cur_exc", None)
                        self.cur_exc = e
                        try:
                            sig = self.block(h.body)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
        except (Exception, _ReturnSignal) as e:
            pending = e
        if s.finalbody:
            r = self.block(s.finalbody)
            if r is not None:
                return r
        if pending is not None:
            raise pending
        return sig

    def s_With(self, s):
        return self._with(s.items, s.body)

    def _with(self, items, body):
        if not items:
            return self.block(body)
        item, rest = items[0], items[1:]
        ce = item.context_expr
        # repository context managers written with @contextmanager
        if isinstance(ce, ast.Call):
            fn = self.ev(ce.func)
            raw = getattr(fn, "__func__", fn)
            inner = getattr(raw, "__wrapped__", None)
            if inner is not None and self.I.in_repo(inner):
                args, kwargs = self.ev_args(ce)
                if isinstance(fn, types.MethodType):
                    args = [fn.__self__] + args
                return self._with_gen(inner, args, kwargs, item, rest, body)
        cm = self.ev(ce)
        if isinstance(cm, np.ndarray):
            raise Unsupported("with ndarray")
        cls = type(cm)
        if isinstance(getattr(cls, "__enter__", None), types.FunctionType) and self.I.in_repo(cls.__enter__):
            v = self.I.call(cls.__enter__, [cm])
            exit_ = lambda a, b, c: self.I.call(cls.__exit__, [cm, a, b, c])
        else:
            v = cm.__enter__()
            exit_ = cm.__exit__
        if item.optional_vars is not None:
            self.assign(item.optional_vars, v)
        try:
            r = self._with(rest, body)
        except Exception as e:
            if self.I.truth_fork(exit_(type(e), e, None)):
                return None
            raise
        except BaseException:
            if not self.I.in_repo(getattr(cls, "__exit__", None) or len):
                exit_(None, None, None)
            raise
        exit_(None, None, None)
        return r

    def _with_gen(self, inner, args, kwargs, item, rest, body):
        node = self.I.fn_ast(inner)
        self.I.used[inner.__qualname__] = f"{os.path.relpath(inner.__code__.co_filename, self.I.repo)}:{node.lineno}"
        env = Env(None)
        env.update(self.I.bind(node, args, kwargs, list(inner.__defaults__ or ()), inner.__kwdefaults__ or {}, inner.__name__))
        fr = FrameCtx(self.I, env, inner.__globals__, inner.__qualname__, None, node)
        out = {}

        def cb(v):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
            r = self._with(rest, body)
            if r is not None:
                raise _ReturnSignal(r)
            return None
        fr.yield_cb = cb
        try:
            fr.block(node.body)
        except _ReturnSignal as rs:
            return rs.sig
        return None

    def s_Import(self, s):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m)
            else:
                self.store_name(a.name.split(".")[0], importlib.import_module(a.name.split(".")[0]))

    def s_ImportFrom(self, s):
        import importlib
        name = s.module or ""
        if s.level:
            pkg = self.glob.get("__package__") or self.glob["__name__"].rpartition(".")[0]
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        m = importlib.import_module(name)
        for a in s.names:
            try:
                v = getattr(m, a.name)
            except AttributeError:
                try:
                    v = importlib.import_module(name + "." + a.name)
                except ImportError:
                    raise ImportError(f"cannot import name {a.name}")
            self.store_name(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        defaults = [self.ev(d) for d in s.args.defaults]
        kwd = {p.arg: self.ev(d) for p, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        if s.decorator_list or _is_generator(s):
            raise Unsupported("decorated or generator inner function")
        self.store_name(s.name, Closure(s, self.env, self.glob, self.I, s.name, defaults, kwd, self.cls))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.ex.journal.write("env", self.env, t.id, MISSING)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                self.ex.journal.cont(o)
                del o[self.ev_slice(t.slice)]
            elif isinstance(t, ast.Attribute):
                self.ex.journal.write("attr", self.ev(t.value), t.attr, MISSING)
            else:
                raise Unsupported("del")

    def s_Nonlocal(self, s):
        self.nonlocals = getattr(self, "nonlocals", set()) | set(s.names)

    def s_Global(self, s):
        self.globals_ = getattr(self, "globals_", set()) | set(s.names)

    # ---- expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, float) and math.isfinite(v):
            return Fraction(repr(v))
        return v

    def e_Name(self, e):
        v = self.lookup(e.id)
        if type(v) is float and math.isfinite(v):
            return Fraction(repr(v))
        return v

    def e_Attribute(self, e):
        v = self.I.getattr_(self.ev(e.value), e.attr)
        if type(v) is float and math.isfinite(v):
            return Fraction(repr(v))
        return v

    def e_BinOp(self, e):
        return self.I.binop(type(e.op), self.ev(e.left), self.ev(e.right))

    def e_UnaryOp(self, e):
        v = self.ex.force(self.ev(e.operand))
        if isinstance(e.op, ast.Not):
            t = self.I.truth(v)
            return (not t) if isinstance(t, bool) else wrapb(z3.Not(t.t))
        if isinstance(e.op, ast.USub):
            if isinstance(v, np.ndarray):
                return obj_array([-x for x in v.tolist()])
            if isinstance(v, GSeq):
                return v.map(lambda x: -x)
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return v
            t = self.I.truth(v)
            if isinstance(t, bool):
                if t == is_and:
                    return go(i + 1)
                return v

            def thunk():
                try:
                    if self.ex.decide(t) == is_and:
                        return ("val", go(i + 1))
                    if isinstance(v, SymB):
                        return ("val", not is_and)
                    return ("val", v)
                except Exception as ex_:
                    return ("raise", ex_)
            kind, val = self.ex.sub_explore(thunk)
            if kind == "raise":
                raise val
            return val
        return go(0)

    def e_Compare(self, e):
        left = self.ev(e.left)
        acc = []
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c)
            r = self.I.compare(type(op), left, right)
            if isinstance(r, (bool, np.bool_)):
                if not r:
                    return False
            elif isinstance(r, SymB):
                acc.append(r.t)
            else:
                if len(e.ops) == 1:
                    return r
                raise Unsupported("chained comparison of arrays")
            left = right
        if not acc:
            return True
        return wrapb(z3.And(*acc) if len(acc) > 1 else acc[0])

    def e_IfExp(self, e):
        t = self.I.truth(self.ev(e.test))
        if isinstance(t, bool):
            return self.ev(e.body if t else e.orelse)

        def thunk():
            try:
                return ("val", self.ev(e.body if self.ex.decide(t) else e.orelse))
            except Exception as ex_:
                return ("raise", ex_)
        kind, val = self.ex.sub_explore(thunk)
        if kind == "raise":
            raise val
        return val

    def ev_args(self, e):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.I.iterate(self.ev(a.value)))
            else:
                args.append(self.ev(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value))
            else:
                kwargs[k.arg] = self.ev(k.value)
        return args, kwargs

    def e_Call(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and not e.args:
            first = self.node.args.args[0].arg
            self_obj = self.lookup(first)
            return super(self.cls, self_obj)
        fn = self.ev(f)
        args, kwargs = self.ev_args(e)
        return self.I.call(fn, args, kwargs)

    def e_Lambda(self, e):
        return Closure(e, self.env, self.glob, self.I, "<lambda>",
                       [self.ev(d) for d in e.args.defaults], {}, self.cls)

    def ev_slice(self, s):
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(p) if p is not None else None for p in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(x) for x in s.elts)
        return self.ev(s)

    def e_Subscript(self, e):
        v = self.I.subscript(self.ev(e.value), self.ev_slice(e.slice))
        if type(v) is float and math.isfinite(v):
            return Fraction(repr(v))
        return v

    def e_Tuple(self, e): return tuple(self._elts(e))
    def e_List(self, e): return self.I.ex.new(list(self._elts(e)))
    def e_Set(self, e): return set(self._elts(e))

    def _elts(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.I.iterate(self.ev(x.value)))
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v))
            else:
                d[self.ev(k)] = self.ev(v)
        return self.I.ex.new(d)

    def e_JoinedStr(self, e):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.ev(p.value)
                if has_sym(v):
                    out.append("<sym>")
                    continue
                v = unfrac(v)
                if p.conversion == 114:
                    v = repr(v)
                elif p.conversion == 115:
                    v = str(v)
                spec = self.e_JoinedStr(p.format_spec) if p.format_spec else ""
                out.append(format(v, spec))
        return "".join(out)

    def _comp(self, gens, k, sub, emit):
        if k == len(gens):
            yield emit(sub)
            return
        g = gens[k]
        it = (sub if k else self).ev(g.iter)
        last = k == len(gens) - 1
        for x in (self.I.iter_raw(it) if last else self.I.iterate(it)):
            if last:
                y = self._comp_item(g, x, sub, emit)
                if y is not MISSING:
                    yield y
                continue
            sub.assign(g.target, x)
            ok = True
            for c in g.ifs:
                if not self.I.truth_fork(sub.ev(c)):
                    ok = False
                    break
            if ok:
                yield from self._comp(gens, k + 1, sub, emit)

    def _comp_item(self, g, x, sub, emit):
        """One element of a comprehension: its value, MISSING if filtered out, or Guarded."""
        guard = None
        if isinstance(x, Guarded):
            guard, x = x.c, x.v
        sub.assign(g.target, x)
        tests = []
        for c in g.ifs:
            t = self.I.truth(sub.ev(c)) if not tests else None
            if t is None:
                tests.append(c)          # evaluated under the earlier ones
            elif t is False:
                return MISSING
            elif t is not True:
                tests.append(t)
        if not tests and guard is None:
            return emit(sub)
        seen = []

        def thunk():
            try:
                ok = guard is None or self.ex.decide(guard)
                for t in tests:
                    if not ok:
                        break
                    ok = self.ex.decide(t) if isinstance(t, SymB) else self.I.truth_fork(sub.ev(t))
                if ok:
                    v = emit(sub)
                    seen.append(v)
                    return ("fall", (True, v))
                if not seen:
                    return ("skip", None)
                return ("fall", (False, seen[-1]))
            except Exception as e:
                return ("raise", e)
        kind, val = self.ex.sub_explore(thunk)
        if kind == "skip":
            return MISSING
        if kind == "raise":
            raise val
        c, v = val
        if c is True:
            return v
        if c is False:
            return MISSING
        return Guarded(c.t, v)

    def _sub(self):
        fr = FrameCtx(self.I, Env(self.env), self.glob, self.name, self.cls, self.node)
        return fr

    def e_ListComp(self, e):
        xs = list(self._comp(e.generators, 0, self._sub(), lambda s: s.ev(e.elt)))
        return GSeq(xs) if any(isinstance(x, Guarded) for x in xs) else self.I.ex.new(xs)

    def e_SetComp(self, e):
        return set(self.I._settle(self._comp(e.generators, 0, self._sub(), lambda s: s.ev(e.elt))))

    def e_GeneratorExp(self, e):
        return self._comp(e.generators, 0, self._sub(), lambda s: s.ev(e.elt))

    def e_DictComp(self, e):
        return self.I.ex.new(dict(self.I._settle(self._comp(e.generators, 0, self._sub(),
                                                            lambda s: (s.ev(e.key), s.ev(e.value))))))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Yield(self, e):
        if self.yield_cb is None:
            raise Unsupported("yield")
        return self.yield_cb(self.ev(e.value) if e.value is not None else None)

    def e_Starred(self, e):
        raise Unsupported("starred")
