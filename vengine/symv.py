"""Symbolic interpretation of harnesses and discharge of obligations."""
from __future__ import annotations
import ast
import random
import subprocess
import tempfile
import time
from fractions import Fraction
import z3
from .harness import BaseV, CallOutcome, CheckFailed, CONTRACTS
from . import values as V
from .values import Sym, SymB, Unsupported, zb, wrapb, is_sym, is_num, smax, smin, coerce2, to_frac
from .explore import Explorer, PathDead, Lazy, MISSING
from .interp import Interp, has_sym

MARGIN = z3.Real("margin!")        # how far a counterexample misses an equality or <=
MARGIN2 = z3.Real("margin2!")      # ... a strict inequality


def with_margin(neg, m, m2):
    return z3.substitute(neg, (MARGIN, z3.RealVal(m)), (MARGIN2, z3.RealVal(m2)))


class SymSeq:
    """A sequence of n reals given by an uninterpreted function."""

    def __init__(self, name, n, lo, hi):
        self.name, self.n, self.lo, self.hi = name, n, lo, hi
        self.f = z3.Function(name, z3.IntSort(), z3.RealSort())

    def __len__(self):
        if is_sym(self.n):
            raise Unsupported("len of symbolic sequence in native code")
        return self.n

    def sym_len(self):
        return self.n

    def sym_at(self, I, i):
        ex = I.ex
        if isinstance(i, slice):
            raise Unsupported("slice of symbolic sequence")
        if isinstance(i, Fraction) or isinstance(i, float) or (isinstance(i, Sym) and not i.is_int):
            raise TypeError("list indices must be integers or slices, not float")
        it = V.z(i)
        n = V.z(self.n)
        if not (is_num(i) and not is_sym(self.n) and 0 <= i < self.n):
            ok = z3.And(it >= -n, it < n)
            if ex.decide_k([ok, z3.Not(ok)]) == 1:
                raise IndexError("list index out of range")
            it = z3.If(it < 0, it + n, it)
            it = z3.simplify(it)
        return self.at_term(ex, it)

    def at_term(self, ex, it):
        t = self.f(it)
        if self.lo is not None:
            ex.assume_fast(SymB(t >= V.z(self.lo)))
        if self.hi is not None:
            ex.assume_fast(SymB(t <= V.z(self.hi)))
        return Sym(t)

    def __getitem__(self, i):
        if isinstance(i, int) and not is_sym(self.n):
            if i < 0:
                i += self.n
            if not 0 <= i < self.n:
                raise IndexError
            return self.at_term(self.ex, z3.IntVal(i))
        if isinstance(i, Sym):
            return self.at_term(self.ex, i.t)
        raise Unsupported("index of symbolic sequence")

    def __iter__(self):
        if is_sym(self.n) or self.n > 400:
            raise Unsupported("iteration over a long symbolic sequence")
        for k in range(self.n):
            yield self.at_term(self.ex, z3.IntVal(k))


class SymV(BaseV):
    symbolic = True

    def __init__(self, interp: Interp):
        self.I = interp
        self.ex = interp.ex
        self.decl = {}       # input name -> ('real'|'int'|'bool'|'choice'|'series', term/info)
        self.reached = {}
        self.folds = {}
        interp.v = self

    def unsupported(self, why):
        raise Unsupported(why)

    # inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, sample=None):
        t = z3.Real(name)
        self.decl[name] = ("real", t)
        if lo is not None:
            l = V.z(lo)
            self.ex.add_pc(t > l if lo_open else t >= l)
        if hi is not None:
            h_ = V.z(hi)
            self.ex.add_pc(t < h_ if hi_open else t <= h_)
        return Sym(t)

    def int_(self, name, lo, hi=None, sample=None):
        t = z3.Int(name)
        self.decl[name] = ("int", t)
        self.ex.add_pc(t >= V.z(lo))
        if hi is not None:
            self.ex.add_pc(t <= V.z(hi))
        return Sym(t)

    def boolean(self, name):
        t = z3.Bool(name)
        self.decl[name] = ("bool", t)
        return SymB(t)

    def choice(self, name, opts):
        t = z3.Int(name)
        self.decl[name] = ("choice", t)
        k = self.ex.decide_k([t == i for i in range(len(opts))]) if len(opts) > 1 else 0
        if len(opts) == 1:
            self.ex.add_pc(t == 0)
        return opts[k]

    def series(self, name, n, lo=None, hi=None, sample=None):
        s = SymSeq(name, n, lo, hi)
        s.ex = self.ex
        self.decl[name] = ("series", s)
        return s

    def num(self, x):
        """A constant for exact arithmetic in a specification."""
        return to_frac(x)

    def fresh(self, base, lo=None, hi=None):
        t = z3.Real(self.ex.fresh_id(base))
        if lo is not None:
            self.ex.assume_fast(SymB(t >= V.z(lo)))
        if hi is not None:
            self.ex.assume_fast(SymB(t <= V.z(hi)))
        return Sym(t)

    def fresh_bool(self, base):
        return SymB(z3.Bool(self.ex.fresh_id(base)))

    def fresh_int(self, base):
        return Sym(z3.Int(self.ex.fresh_id(base)))

    # logic
    def eq(self, a, b, tol=None):
        if not is_sym(a) and not is_sym(b):
            # both concrete: some of it may have been computed in floating point
            return abs(to_frac(a) - to_frac(b)) <= (to_frac(tol) if tol is not None else 0) + \
                Fraction(1, 10 ** 9) * max(1, abs(to_frac(a)), abs(to_frac(b)))
        ta, tb = coerce2(a, b)
        if tol is not None:
            tl = V.z(tol)
            return SymB(z3.And(ta - tb <= tl, tb - ta <= tl),
                        z3.Or(ta - tb >= tl + MARGIN, tb - ta >= tl + MARGIN))
        if ta.eq(tb):
            return True
        return SymB(ta == tb, z3.Or(ta - tb >= MARGIN, tb - ta >= MARGIN))

    def ne(self, a, b):
        return self.not_(self.eq(a, b))

    def le(self, a, b, exact=False, tol=None):
        if not is_sym(a) and not is_sym(b) and tol is None:
            return a <= b
        ta, tb = coerce2(a, b)
        if tol is not None:
            tb = tb + V.z(tol)
        return SymB(ta <= tb, (ta > tb) if exact else (ta >= tb + MARGIN))

    def lt(self, a, b, exact=False, tol=None):
        if not is_sym(a) and not is_sym(b) and tol is None:
            return a < b
        ta, tb = coerce2(a, b)
        if tol is not None:
            tb = tb + V.z(tol)
        return SymB(ta < tb, (ta >= tb) if exact else (ta >= tb + MARGIN2))

    @staticmethod
    def _neg(c):
        if isinstance(c, SymB):
            return c.neg if c.neg is not None else z3.Not(c.t)
        return z3.BoolVal(not c)

    def and_(self, *cs):
        cs = [c for c in cs]
        return wrapb(z3.And(*[zb(c) for c in cs]) if cs else z3.BoolVal(True),
                     z3.Or(*[self._neg(c) for c in cs]) if cs else z3.BoolVal(False))

    def or_(self, *cs):
        return wrapb(z3.Or(*[zb(c) for c in cs]), z3.And(*[self._neg(c) for c in cs]))

    def not_(self, c):
        return wrapb(z3.Not(zb(c)), zb(c))

    def implies(self, p, q):
        return wrapb(z3.Implies(zb(p), zb(q)), z3.And(zb(p), self._neg(q)))

    def ite(self, c, a, b):
        if not is_sym(c):
            return a if c else b
        return V.ite(c.t, a, b)

    ifthen = ite

    def mx(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = smax(r, x)
        return r

    def mn(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = smin(r, x)
        return r

    def sum_(self, xs):
        return self.I.b_sum(xs)

    def abs_(self, x): return abs(x)

    def floor(self, x): return self.I.m_floor(x)

    def same(self, a, b):
        a, b = self.ex.force(a), self.ex.force(b)
        if a is b:
            return True
        if (is_sym(a) or is_num(a)) and (is_sym(b) or is_num(b)):
            if isinstance(a, (bool, SymB)) and isinstance(b, (bool, SymB)):
                return wrapb(zb(a) == zb(b))
            return self.eq(a, b)
        import numpy as np
        if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
            if len(a) != len(b):
                return False
            return self.and_(*[self.same(x, y) for x, y in zip(list(a), list(b))])
        if isinstance(a, dict) and isinstance(b, dict):
            if set(a) != set(b):
                return False
            return self.and_(*[self.same(a[k], b[k]) for k in a])
        if is_sym(a) or is_sym(b):
            return False
        try:
            return bool(a == b)
        except Exception:
            return False

    # execution
    def assume(self, c):
        if c is None:
            return
        self.ex.assume(c)

    def check(self, label, c):
        self.reached[label] = self.reached.get(label, 0) + 1
        self.ex.oblige(label, c)

    def hyp(self):
        """Everything assumed so far, as a fact."""
        pc = self.ex.full_pc()
        return z3.And(*pc) if pc else z3.BoolVal(True)

    def fact(self, label, c, given=()):
        """A lemma: proved from the listed facts only; may be listed in later proofs."""
        self.reached[label] = self.reached.get(label, 0) + 1
        t = zb(c)
        if not (z3.is_true(t) or z3.is_true(z3.simplify(t))):
            self.ex.obligations.append((label, [g for g in given if g is not None], t,
                                        c.neg if isinstance(c, SymB) else None, ("fact", self.ex.full_pc())))
        return t

    def term(self, name, definition, *args):
        """The value of a definition, left folded: only what lemmas say of it is known."""
        f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        return Sym(f(*[V._real(V.z(a)) for a in args]))

    def lemma(self, *cs):
        """Instances of facts proved by other harnesses of the property."""
        for c in cs:
            self.ex.assume_fast(c if is_sym(c) else bool(c))

    def fold(self, name, n, init, step):
        """Final state of `n` steps from `init`; known once a loop of the code has been shown to compute it (Fold)."""
        f = FoldState(name, n, init, step)
        self.folds[name] = f
        return f

    def later(self, f, key):
        """A part of the final state of a fold, before the loop has been met."""
        return f.final[key]

    def name(self, x):
        """-> (fresh variable, fact that it equals x)"""
        if not is_sym(x):
            return x, z3.BoolVal(True)
        r = z3.Real(self.ex.fresh_id("n"))
        return Sym(r), r == V._real(V.z(x))

    def call(self, fn, *a, **k):
        o = self.outcome(fn, *a, **k)
        if o.raised:
            self.ex.oblige(f"no exception", False, info=f"{o.raised.__name__}: {o.exc}")
            raise CheckFailed()
        return o.value

    def outcome(self, fn, *a, **k):
        def thunk():
            try:
                return ("return", self.I.call(fn, list(a), k))
            except Exception as e:
                return ("raise", e)
        kind, val = self.ex.sub_explore(thunk)
        if kind == "raise":
            return CallOutcome(type(val), None, val)
        return CallOutcome(None, val, None)


class FoldState:
    def __init__(self, name, n, init, step):
        self.n, self.init, self.step, self.bound = n, init, step, False
        self.final = {k: Sym(z3.Real(f"{name}!final!{k}")) for k in init}

    def __getitem__(self, k):
        if not self.bound:
            raise Unsupported("no loop of the code was matched with the fold")
        return self.final[k]


def loop_cut(ctx, s, it, spec):
    """A loop under an invariant: holds on entry, is kept by the body from any state in which it holds, and is all that
    is known afterwards.  ctx: interp.FrameCtx, s: ast.For."""
    ex, v = ctx.ex, ctx.I.v
    if not isinstance(it, range):
        raise Unsupported("loop invariant on a loop that is not over a range")
    n = len(it)
    if not isinstance(s.target, ast.Name):
        raise Unsupported("loop target")
    written = {x.id for st in s.body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    written |= {x.target.id for st in s.body for x in ast.walk(st) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    env = ctx.env
    carry = spec.names
    live = {w for w in written if env.get(w, MISSING) is not MISSING}
    if not live <= set(carry) or any(env.get(w, MISSING) is MISSING for w in carry) or not set(carry) <= written:
        raise Unsupported("loop invariant speaks of other variables than the loop carries")

    class Locals:
        def __getitem__(self, w):
            if env.get(w, MISSING) is MISSING:
                raise Unsupported(f"loop invariant speaks of {w}, which the code does not have")
            return ex.force(env[w])

    def state():
        return Locals()

    def claim(when, cs):
        for lab, c in cs:
            v.check(f"loop invariant {when}: {lab}", c)

    def given(cs):
        for lab, c in cs:
            ex.assume_fast(c if is_sym(c) else bool(c))

    def havoc():
        for w in carry:
            ex.journal.write("env", env, w, Sym(z3.Real(ex.fresh_id(ctx.name + "." + w))))
        for w in written - set(carry):
            ex.journal.write("env", env, w, MISSING)
    claim("on entry", spec.entry(v, state()))
    if n == 0:
        return None
    if ex.decide_k([(b := z3.Bool(ex.fresh_id("some_step"))), z3.Not(b)]) == 0:
        k = z3.Int(ex.fresh_id("k"))
        p = z3.Real(ex.fresh_id("pow2k"))
        ex.assume_fast(SymB(z3.And(k >= 0, k < n, p >= 1)))
        havoc()
        given(spec.begin(v, state(), Sym(k), Sym(p)))
        mark, birth = ex.journal.mark(), ex._births
        ctx.store_name(s.target.id, Sym(it.start + k * it.step) if it.start or it.step != 1 else Sym(k))

        def thunk():
            try:
                r = ctx.block(s.body)
                return ("fall", None) if r is None or r[0] == "continue" else r
            except Exception as e:
                return ("raise", e)
        r = ctx._outcome(*ex.sub_explore(thunk))
        for (kind, oid, name), (o, old, new) in ex.journal.diff(mark).items():
            if kind != "env" and not ex._born_after(o, birth):
                raise Unsupported("loop body writes to the heap")
        if r is None:
            claim("kept", spec.kept(v, state(), Sym(k), Sym(p)))
            raise PathDead()
        if r[0] == "break" and spec.after:
            spec.after(v, state())
        return None if r[0] == "break" else r
    havoc()
    given(spec.exit(v, state(), n))
    if spec.after:
        spec.after(v, state())
    ctx.store_name(s.target.id, it[-1])
    return ctx.block(s.orelse) if s.orelse else None


def contract_handler(c, v):
    def handler(I, fn, args, kwargs):
        node = I.fn_ast(fn)
        b = I.bind(node, args, kwargs, list(fn.__defaults__ or ()), fn.__kwdefaults__ or {}, fn.__qualname__)
        full = [b[p.arg] for p in node.args.posonlyargs + node.args.args] + \
               [b[p.arg] for p in node.args.kwonlyargs]
        try:
            v.check(f"precondition of {c.qualname}", c.requires(v, *full))
            old = [v.snap(a) for a in full]
            for m in c.modifies:
                getattr(full[0], m)
                I.ex.journal.write("attr", full[0], m, v.fresh(m))
            r = c.value(v, *full) if c.value else {"real": lambda: v.fresh("res"), "bool": lambda: v.fresh_bool("res"),
                 "int": lambda: v.fresh_int("res"), "none": lambda: None}[c.result]()
            for lab, cond in c.gives(v, old, r, *full):
                cond = cond() if callable(cond) else cond
                I.ex.assume_fast(cond if is_sym(cond) else bool(cond))
        except (AttributeError, ImportError, NameError, KeyError, IndexError, TypeError) as e:
            # the contract itself speaks of names or parameters this version of the code does not have
            raise Unsupported(f"contract of {c.qualname} not applicable: {type(e).__name__}: {e}")
        return r
    return handler


# ---------------------------------------------------------------- discharge
class Discharger:
    def __init__(self, timeout_ms=20000, seed=1):
        self.timeout_ms = timeout_ms
        self.stats = {}
        self.time = 0.0
        self.seed = seed

    def prove(self, pc, t, timeout_ms=None):
        """-> ('unsat'|'sat'|'unknown', model)"""
        tmo = timeout_ms or self.timeout_ms
        t0 = time.time()
        try:
            return self._prove(pc, t, tmo)
        finally:
            self.time += time.time() - t0

    def _prove(self, pc, t, tmo):
        st = z3.simplify(t)
        if z3.is_true(st):
            self.stats["z3-simplify"] = self.stats.get("z3-simplify", 0) + 1
            return "unsat", None
        goal = list(pc) + [z3.Not(t)]
        strategies = (
            ("z3", lambda: z3.Solver()),
            ("z3-nlsat", lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "elim-term-ite",
                                         "simplify", "qfnra").solver()),
            ("z3-simple", lambda: z3.SimpleSolver()),
            ("z3-smt", lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()),
        )
        try:
            gl = z3.Goal()
            gl.add(*goal)
            linear = z3.Probe("is-qflra")(gl) == 1.0
        except z3.Z3Exception:
            linear = False
        if linear:
            strategies = (("z3-lra", lambda: z3.SolverFor("QF_LRA")),) + strategies
        for share in (0.03, 0.3):
            if share > 0.1:
                r = self._split(goal, time.time() + tmo / 1000 * 0.6)
                if r == "unsat":
                    self.stats["z3-casesplit"] = self.stats.get("z3-casesplit", 0) + 1
                    return "unsat", None
                if r is not None and r != "unknown":
                    return "sat", r
            for name, mk in strategies:
                s = mk()
                s.set("timeout", max(300, int(tmo * share)))
                s.add(*goal)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r == z3.unsat:
                    self.stats[name] = self.stats.get(name, 0) + 1
                    return "unsat", None
                if r == z3.sat:
                    return "sat", s.model()
        r = self._cvc5(goal, tmo)
        if r == "unsat":
            self.stats["cvc5"] = self.stats.get("cvc5", 0) + 1
            return "unsat", None
        return "unknown", None

    def _split(self, goal, deadline):
        """Case split on if-then-else conditions, pruning infeasible cases; leaves go to nlsat.
        -> 'unsat' | model | 'unknown'"""
        def conds(fs):
            seen = {}
            order = []

            def walk(e):
                i = e.get_id()
                if i in seen:
                    return seen[i]
                seen[i] = False
                has = False
                for c in e.children():
                    has |= walk(c)
                if z3.is_app_of(e, z3.Z3_OP_ITE):
                    c = e.arg(0)
                    if not seen.get(c.get_id(), False):
                        order.append(c)
                    has = True
                seen[i] = has
                return has
            for f in fs:
                walk(f)
            return order

        def rec(fs, depth):
            if time.time() > deadline:
                return "unknown"
            fs = [z3.simplify(f) for f in fs]
            if any(z3.is_false(f) for f in fs):
                return "unsat"
            cs = conds(fs)
            if cs and depth:
                s = z3.Solver()
                s.set("timeout", 150)
                s.add(*fs)
                if s.check() == z3.unsat:
                    return "unsat"
            if not cs:
                last = "unknown"
                for tmo in (1000, 8000):
                    for mk in (lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "simplify", "qfnra-nlsat").solver(),
                               lambda: z3.Solver()):
                        s = mk()
                        s.set("timeout", tmo)
                        s.add(*fs)
                        try:
                            r = s.check()
                        except z3.Z3Exception:
                            continue
                        if r == z3.unsat:
                            return "unsat"
                        if r == z3.sat:
                            return s.model()
                return last
            c = cs[0]
            for val in (True, False):
                sub = [z3.substitute(f, (c, z3.BoolVal(val))) for f in fs]
                r = rec(sub + [c if val else z3.Not(c)], depth + 1)
                if r != "unsat":
                    return r
            return "unsat"
        return rec(list(goal), 0)

    def _cvc5(self, goal, tmo):
        s = z3.Solver()
        s.add(*goal)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=True) as f:
                f.write(txt)
                f.flush()
                p = subprocess.run(["cvc5", f"--tlimit={int(tmo * 0.5)}", "--nl-cov", f.name],
                                   capture_output=True, text=True, timeout=tmo / 1000 + 5)
            out = p.stdout.strip().splitlines()
            return out[0] if out else "unknown"
        except Exception:
            return "unknown"

    def robust_models(self, pc, t, neg, base_model, decl, n=6):
        """Yield models of the violation, clear-margin ones first."""
        goals = []
        if neg is not None:
            goals.append(list(pc) + [with_margin(neg, "1/100", "1/100")])
        goals.append(list(pc) + [z3.Not(t)])
        for g in goals:
            for extra in self._nice(decl):
                for mk in (lambda: z3.Solver(), lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "elim-term-ite", "simplify", "qfnra").solver()):
                    s = mk()
                    s.set("timeout", 3000)
                    s.add(*g)
                    s.add(*extra)
                    try:
                        r = s.check()
                    except z3.Z3Exception:
                        continue
                    if r == z3.sat:
                        yield s.model()
                        break
        if base_model is not None:
            yield base_model

    def rounding_only(self, pc, neg, decl):
        """True if, over the ordinary range of the inputs, the condition can be missed only by rounding noise
        (constants of the code computed in floating point)."""
        if neg is None:
            return False
        goal = list(pc) + self._nice(decl)[0] + [with_margin(neg, "1/10000000", "0")]
        r, _ = self.prove(goal, z3.BoolVal(False))
        return r == "unsat"

    def _nice(self, decl):
        big = []
        for k, (kind, t) in decl.items():
            if kind == "real":
                big += [t <= 5000, t >= -500]
            elif kind == "int":
                big += [t <= 600000]
        out = [big, []]
        return out


def _simple():
    s = z3.SimpleSolver()
    return s


def model_inputs(m, decl):
    out = {}

    def num(x):
        if z3.is_algebraic_value(x):
            x = x.approx(20)
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        raise Unsupported("model value")
    for k, (kind, t) in decl.items():
        if kind in ("real", "int", "choice"):
            v = m.eval(t, model_completion=True)
            out[k] = num(v)
        elif kind == "bool":
            out[k] = z3.is_true(m.eval(t, model_completion=True))
        elif kind == "series":
            fi = m[t.f]
            items, default = [], None
            if fi is not None and isinstance(fi, z3.FuncInterp):
                for i in range(fi.num_entries()):
                    e = fi.entry(i)
                    items.append([e.arg_value(0).as_long(), num(e.value())])
                try:
                    default = num(fi.else_value())
                except Exception:
                    default = None
            if default is None:
                default = float(t.lo) if t.lo is not None and not is_sym(t.lo) else 0.0
            if t.lo is not None and not is_sym(t.lo):
                default = max(default, float(t.lo))
            if t.hi is not None and not is_sym(t.hi):
                default = min(default, float(t.hi))
            out[k] = {"items": items, "default": default}
    return out
