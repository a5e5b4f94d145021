"""Harness API with two interpretations of the same specification text.

SymV  : inputs are symbolic, repository functions are interpreted from their
        current source, `check` produces a proof obligation.
ConcV : inputs are concrete (a solver model or a random sample), repository
        functions run natively under CPython, `check` evaluates the condition
        with a floating-point tolerance (three-valued at knife edges).
This module must import without z3 (replays run in the repository's venv).
"""
from __future__ import annotations
import math
import random

REGISTRY = {}      # property -> [Harness]
CONTRACTS = {}     # name -> Contract


class Harness:
    def __init__(self, prop, name, fn, uses=(), samples=300, timeout_ms=20000, feas_ms=250,
                 max_paths=4000, tier="quick", loops=None, about="", wall=150, exact=True, abstracts=None):
        self.prop, self.name, self.fn = prop, name, fn
        self.uses = list(uses)
        self.samples = samples
        self.timeout_ms = timeout_ms
        self.feas_ms = feas_ms
        self.max_paths = max_paths
        self.tier = tier
        self.loops = loops or {}
        self.about = about or (fn.__doc__ or "").strip()
        self.wall = wall
        self.exact = exact and not uses and not loops
        self.abstracts = abstracts or {}


def harness(prop, name=None, **kw):
    def deco(fn):
        h = Harness(prop, name or fn.__name__, fn, **kw)
        REGISTRY.setdefault(prop, []).append(h)
        return fn
    return deco


class Contract:
    """Function contract: `setup(v)` yields (callable, args) for an arbitrary
    state; `requires`/`ensures` are the pre/postcondition; `modifies` lists the
    attributes of the first argument that may change (frame)."""

    def __init__(self, qualname, requires, ensures, modifies=(), result="real", setup=None, gives=None, value=None):
        self.qualname = qualname
        self.value = value                 # value(v, *args): the result as a named function of what it is computed from
        self.gives = gives or ensures      # what callers are told: `ensures`, up to named definitions (v.term)
        self.requires, self.ensures = requires, ensures
        self.modifies, self.result, self.setup = list(modifies), result, setup
        CONTRACTS[qualname] = self

    def only(self, key, *labels):
        """Register for callers that need no more than some of the postconditions."""
        c = object.__new__(Contract)
        c.__dict__.update(self.__dict__)
        c.gives = lambda v, *a: [(l, x) for l, x in self.gives(v, *a) if l in labels]
        CONTRACTS[key] = c

    def body(self, v):
        """Proof of the contract against the real body."""
        fn, args = self.setup(v)
        v.assume(self.requires(v, *args))
        old = [v.snap(a) for a in args]
        r = v.call(fn, *args)
        for lab, c in self.ensures(v, old, r, *args):
            v.check(lab, c() if callable(c) else c)
        if self.modifies is not None and args and hasattr(args[0], "__dict__"):
            for k, val in old[0].items():
                if k not in self.modifies:
                    cur = args[0].__dict__.get(k, v.MISSING)
                    v.check("frame:" + k, cur is val or v.same(cur, val))
            v.check("frame:no new attributes",
                    all(k in old[0] or k in self.modifies for k in args[0].__dict__))
        return r


class Loop:
    """Invariant of a loop over a range: `inv(v, L, k, p)` -> [(label, condition)] over the locals L after k steps, p = 2**k.
    `names`: the locals the loop carries from one iteration to the next."""

    def __init__(self, names, inv, which=0, after=None):
        self.names, self.inv, self.which = list(names), inv, which
        self.after = after         # after(v, L): lemma instances about the state after the loop, however it was left

    def entry(self, v, L):
        return self.inv(v, L, 0, 1)

    def begin(self, v, L, k, p):
        return self.inv(v, L, k, p)

    def kept(self, v, L, k, p):
        return self.inv(v, L, k + 1, p * 2)

    def exit(self, v, L, n):
        return self.inv(v, L, n, 2 ** n)


class Fold:
    """A loop that computes v.fold(name, ...): `rel(v, L, G)` -> [(label, condition)] relates the locals L to the fold's
    state G, before and after every step.  A loop run more than once computes one fold after the other: `name` may be a
    function (v, L) -> name of the locals on entry."""

    def __init__(self, name, names, rel, which=0):
        self.name, self.names, self.rel, self.which = name, list(names), rel, which
        self.after = None

    def entry(self, v, L):
        self.of = self.name(v, L) if callable(self.name) else self.name
        self.f = v.folds[self.of]
        return self.rel(v, L, self.f.init)

    def begin(self, v, L, k, p):
        self.state = {key: v.fresh(self.of + "." + key) for key in self.f.init}
        return self.rel(v, L, self.state)

    def kept(self, v, L, k, p):
        return self.rel(v, L, self.f.step(self.state, k))

    def exit(self, v, L, n):
        if self.f.n != n:
            v.unsupported("the loop takes another number of steps than the fold")
        self.f.bound = True
        return self.rel(v, L, self.f.final)


class Reject(Exception):
    """Concrete sample outside the preconditions."""


class CheckFailed(Exception):
    pass


class CallOutcome:
    def __init__(self, raised, value, exc):
        self.raised, self.value, self.exc = raised, value, exc


class BaseV:
    MISSING = object()
    symbolic = False

    def snap(self, o):
        return dict(o.__dict__) if hasattr(o, "__dict__") else {}

    def new(self, cls, **fields):
        o = object.__new__(cls)
        o.__dict__.update(fields)
        return o

    # shared numeric helpers -------------------------------------------------
    def ge(self, a, b, **k): return self.le(b, a, **k)
    def gt(self, a, b, **k): return self.lt(b, a, **k)

    def between(self, lo, x, hi):
        return self.and_(self.le(lo, x), self.le(x, hi))

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))

    def same_obj(self, o, old, skip=()):
        """All attributes of o equal the snapshot `old`."""
        cs = []
        cur = o.__dict__
        for k in set(old) | set(cur):
            if k in skip:
                continue
            if k not in cur or k not in old:
                cs.append(False)
            else:
                cs.append(self.same(cur[k], old[k]))
        return self.and_(*cs)


class ConcV(BaseV):
    """Concrete interpretation under CPython."""
    REL = 1e-7
    ABS = 1e-7

    def __init__(self, rng=None, inputs=None):
        self.rng = rng
        self.given = inputs
        self.inputs = {}
        self.failures = []
        self.reached = {}
        self.stop_on_fail = False

    # inputs -----------------------------------------------------------------
    def _get(self, name, gen):
        if name in self.inputs:
            return self.inputs[name]
        if self.given is not None:
            if name not in self.given:
                # inputs a model leaves unconstrained
                v = gen(random.Random(0))
            else:
                v = self.given[name]
        else:
            v = gen(self.rng)
        self.inputs[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, sample=None):
        slo, shi = sample or (lo if lo is not None else -1000.0, hi if hi is not None else (lo or 0.0) + 1000.0)
        slo, shi = float(slo), float(shi)

        def gen(r):
            k = r.random()
            if k < 0.06 and not lo_open and lo is not None:
                return float(slo)
            if k < 0.12 and not hi_open and hi is not None:
                return float(shi)
            x = r.uniform(slo, shi)
            if k < 0.45:
                x = float(round(x))
            elif k < 0.6:
                x = round(x, 1)
            return min(max(x, slo), shi)
        x = float(self._get(name, gen))
        if lo is not None and (x < lo or (lo_open and x <= lo)):
            raise Reject(name)
        if hi is not None and (x > hi or (hi_open and x >= hi)):
            raise Reject(name)
        return x

    def int_(self, name, lo, hi=None, sample=None):
        slo, shi = sample or (lo, hi if hi is not None else lo + 100000)

        def gen(r):
            k = r.random()
            if k < 0.1:
                return slo
            if k < 0.2:
                return shi
            return r.randint(slo, shi)
        x = int(self._get(name, gen))
        if x < lo or (hi is not None and x > hi):
            raise Reject(name)
        return x

    def boolean(self, name):
        return bool(self._get(name, lambda r: r.random() < 0.5))

    def choice(self, name, opts):
        i = int(self._get(name, lambda r: r.randrange(len(opts))))
        return opts[i]

    def series(self, name, n, lo=None, hi=None, sample=None):
        """A sequence of n reals, of which the code may read any index."""
        slo, shi = sample or (lo if lo is not None else -50.0, hi if hi is not None else 150.0)

        def gen(r):
            seed = r.randrange(1 << 30)
            return {"seed": seed}
        g = self._get(name, gen)
        if isinstance(g, dict):
            if "seed" in g:
                rr = random.Random(g["seed"])
                xs = [round(rr.uniform(float(slo), float(shi)), 3) for _ in range(n)]
            else:
                xs = [float(g.get("default", 0.0))] * n
                for k, x in g["items"]:
                    if 0 <= k < n:
                        xs[k] = float(x)
        else:
            xs = [float(x) for x in g]
        for x in xs:
            if (lo is not None and x < lo) or (hi is not None and x > hi):
                raise Reject(name)
        return xs

    # logic (Kleene: None is a knife-edge) -------------------------------------
    def _tol(self, a, b):
        return self.ABS + self.REL * max(abs(a), abs(b))

    def eq(self, a, b, tol=None):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if a == b:
            return True
        return abs(a - b) <= (tol if tol is not None else 0.0) + self._tol(a, b)

    def ne(self, a, b):
        r = self.eq(a, b)
        return None if r and a != b else not r

    def le(self, a, b, exact=False, tol=None):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return False
        if exact:
            return a <= b
        t = self._tol(a, b) + (tol or 0.0)
        if a <= b - t:
            return True
        if a > b + t:
            return False
        return None

    def lt(self, a, b, exact=False, tol=None):
        if exact:
            return a < b
        return self.le(a, b, tol=tol)

    def and_(self, *cs):
        cs = [self._b(c) for c in cs]
        if any(c is False for c in cs):
            return False
        return None if any(c is None for c in cs) else True

    def or_(self, *cs):
        cs = [self._b(c) for c in cs]
        if any(c is True for c in cs):
            return True
        return None if any(c is None for c in cs) else False

    def not_(self, c):
        c = self._b(c)
        return None if c is None else not c

    def implies(self, p, q):
        return self.or_(self.not_(p), q)

    @staticmethod
    def _b(c):
        return None if c is None else bool(c)

    def ite(self, c, a, b):
        return b if c is False else a

    def ifthen(self, c, a, b):
        """Choose by an exact condition."""
        return a if c else b

    def num(self, x): return float(x)

    def mx(self, *xs): return max(xs)
    def mn(self, *xs): return min(xs)
    def sum_(self, xs): return math.fsum(xs)
    def abs_(self, x): return abs(x)
    def floor(self, x): return math.floor(x)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return self.eq(a, b)
        try:
            import numpy as np
            if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
                return bool(np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-7, atol=1e-7))
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
            if isinstance(a, dict) and isinstance(b, dict):
                return a.keys() == b.keys() and all(self.same(a[k], b[k]) for k in a)
            return bool(a == b)
        except Exception:
            return False

    # execution ----------------------------------------------------------------
    def assume(self, c):
        if not self._b(c):
            raise Reject()

    def check(self, label, c):
        self.reached[label] = self.reached.get(label, 0) + 1
        if self._b(c) is False:
            self.failures.append(label)

    def hyp(self):
        return None

    def fact(self, label, c, given=()):
        self.check(label, c)
        return None

    def name(self, x):
        return x, None

    def known(self, c):
        return bool(c)

    def call(self, fn, *a, **k):
        o = self.outcome(fn, *a, **k)
        if o.raised:
            self.check("no exception", False)
            self.failures[-1] = f"no exception ({type(o.exc).__name__}: {o.exc})"
            raise CheckFailed()
        self.check("no exception", True)
        return o.value

    private_called = False

    def outcome(self, fn, *a, **k):
        if getattr(fn, "__name__", "").startswith("_"):
            self.private_called = True
        import io
        import contextlib
        import warnings
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                return CallOutcome(None, fn(*a, **k), None)
        except TypeError as e:
            if getattr(fn, "__name__", "").startswith("_") and not e.__traceback__.tb_next:
                raise AttributeError(f"private function takes other arguments: {e}")
            return CallOutcome(type(e), None, e)
        except Exception as e:
            return CallOutcome(type(e), None, e)

    def term(self, name, definition, *args):
        return definition(*args)

    def lemma(self, *cs):
        pass

    def fold(self, name, n, init, step):
        s = dict(init)
        for k in range(n):
            s = step(s, k)
        return s

    def later(self, f, key):
        return f[key]


class NotModelled(BaseException):
    """The code asks a stand-in for something it does not have: the specification does not apply to this version."""


class StandIn:
    """Base of the stand-ins of specifications."""
    absent = ()          # attributes that the code may ask for and not find

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("sym_") or name in type(self).absent or name in ("item", "dtype"):
            raise AttributeError(name)
        raise NotModelled(f"{type(self).__name__} has no {name}")


def run_concrete(h, rng=None, inputs=None):
    """-> (status, ConcV): status in reject, ok, fail, error"""
    v = ConcV(rng, inputs)
    try:
        h.fn(v)
    except Reject:
        return "reject", v
    except CheckFailed:
        pass
    except (ZeroDivisionError, OverflowError) as e:
        if v.failures:
            return "fail", v
        v.error = e
        return "reject", v
    except Exception as e:
        if v.failures:
            return "fail", v
        if v.private_called and isinstance(e, (KeyError, IndexError, TypeError)):
            raise AttributeError(f"private results of another form: {type(e).__name__}: {e}")
        if isinstance(e, (KeyError, IndexError, TypeError)) or \
                (isinstance(e, AttributeError) and "'NoneType'" in str(e)):
            v.failures.append(f"results have the promised form ({type(e).__name__}: {e})")
            return "fail", v
        raise
    return ("fail" if v.failures else "ok"), v
