"""Path exploration with state merging.

Every piece of interpreted code that can branch (an if statement, a loop
iteration, a function call) is run by `sub_explore`: all its feasible paths are
enumerated by re-execution, the writes of each path are journaled and undone,
and the outcomes are merged into one state with if-then-else terms.  Values
that cannot be merged become a Lazy value that forks the enclosing path when it
is read.  The enumeration is exhaustive: a branch is dropped only when the
solver proves it infeasible.
"""
from __future__ import annotations
import time
from fractions import Fraction
import numpy as np
import z3
from . import values as V
from .values import Sym, SymB, Unsupported, ite, zb, wrapb, is_num, is_sym


class PathDead(BaseException):
    """The current path's condition is infeasible."""


class Budget(Unsupported):
    pass


MISSING = type("Missing", (), {"__repr__": lambda s: "MISSING"})()


class Lazy:
    """An unmerged choice between values: reading it forks."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts      # [(z3 cond, value)]

    def __deepcopy__(self, memo):
        return self


class Frame:
    __slots__ = ("prefix", "i", "pc", "work", "has_assume", "taken", "subs", "cuts")

    def __init__(self, prefix, work):
        self.prefix = prefix
        self.taken = []
        self.i = 0
        self.pc = []
        self.work = work
        self.has_assume = False
        self.subs = self.cuts = 0      # sub-explorations and fresh names so far on this path


class Journal:
    """Undo log of writes to locals, attributes and containers."""

    def __init__(self):
        self.log = []

    def mark(self):
        return len(self.log)

    def env(self, env, name):
        self.log.append(("env", env, name, env.get(name, MISSING)))

    def attr(self, obj, name):
        self.log.append(("attr", obj, name, obj.__dict__.get(name, MISSING)))

    def cont(self, c):
        if isinstance(c, list):
            snap = list(c)
        elif isinstance(c, dict):
            snap = dict(c)
        elif isinstance(c, set):
            snap = set(c)
        elif isinstance(c, np.ndarray):
            snap = c.copy()
        else:
            raise Unsupported(f"mutation of {type(c).__name__}")
        self.log.append(("cont", c, None, snap))

    def diff(self, mark):
        """First-write-wins old values and current values of all written locations."""
        out = {}
        for kind, o, name, old in self.log[mark:]:
            key = (kind, id(o), name)
            if key not in out:
                out[key] = (o, old)
        res = {}
        for (kind, oid, name), (o, old) in out.items():
            if kind == "env":
                new = o.get(name, MISSING)
            elif kind == "attr":
                new = o.__dict__.get(name, MISSING)
            else:
                new = list(o) if isinstance(o, list) else dict(o) if isinstance(o, dict) else \
                    set(o) if isinstance(o, set) else o.copy()
            res[(kind, oid, name)] = (o, old, new)
        return res

    def undo(self, mark):
        while len(self.log) > mark:
            kind, o, name, old = self.log.pop()
            self._put(kind, o, name, old)

    @staticmethod
    def _put(kind, o, name, val):
        if kind == "env":
            if val is MISSING:
                o.pop(name, None)
            else:
                o[name] = val
        elif kind == "attr":
            if val is MISSING:
                o.__dict__.pop(name, None)
            else:
                o.__dict__[name] = val
        elif isinstance(o, list):
            o[:] = val
        elif isinstance(o, np.ndarray):
            o[...] = val
        else:
            o.clear()
            o.update(val)

    def write(self, kind, o, name, val):
        if kind == "env":
            self.env(o, name)
        elif kind == "attr":
            self.attr(o, name)
        else:
            self.cont(o)
        self._put(kind, o, name, val)


class Explorer:
    def __init__(self, feas_ms=250, max_paths=4000, deadline=None):
        self.solver = z3.Solver()
        self.feas_ms = feas_ms
        self.solver.set("timeout", feas_ms)
        self.frames = []
        self.journal = Journal()
        self.obligations = []
        self._obl_seen = set()
        self.max_paths = max_paths
        self.npaths = 0
        self.nfeas = 0
        self.deadline = deadline
        self.facts = []            # axioms valid on every path
        self.feas_time = 0.0
        V.ST.decide = self.decide
        V.ST.div_guard = self.div_guard
        self.cache = {}
        self._new = {}             # id -> (object, birth): created by the interpreted code on the current path
        self._births = 0

    def new(self, o):
        """Note that o was created by the code being run: no earlier state can refer to it."""
        self._births += 1
        self._new[id(o)] = (o, self._births)
        return o

    def _born_after(self, o, birth):
        x = self._new.get(id(o))
        return x is not None and x[0] is o and x[1] > birth

    def fresh_id(self, base):
        """A name no other point of this path has, the same whenever the path is re-executed."""
        f = self.frames[-1]
        f.cuts += 1
        return base + "!" + ".".join("%d_%d" % (g.subs, g.cuts) for g in self.frames)

    # ---- path conditions
    def full_pc(self):
        out = []
        for f in self.frames:
            out.extend(f.pc)
        return out

    def _feasible(self, t):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget of the exploration used up")
        # Same question, same answer: solver time-outs must not make a re-execution take other branches.
        pc = self.full_pc()
        key = (tuple(p.get_id() for p in pc), t.get_id())
        hit = self.cache.get(key)
        if hit is not None:
            return hit[0]
        self.nfeas += 1
        t0 = time.time()
        self.solver.push()
        self.solver.add(t)
        r = self.solver.check()
        self.solver.pop()
        self.feas_time += time.time() - t0
        self.cache[key] = (r != z3.unsat, pc, t)      # keeps the terms alive, so that ids stay unique
        return r != z3.unsat

    def add_pc(self, t):
        self.frames[-1].pc.append(t)
        self.solver.add(t)

    def assume(self, c):
        t = zb(c)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathDead()
        f = self.frames[-1]
        f.has_assume = True
        self.add_pc(t)
        if not self._feasible(z3.BoolVal(True)):
            raise PathDead()

    def assume_fast(self, c):
        t = zb(c)
        if z3.is_false(t):
            raise PathDead()
        self.frames[-1].has_assume = True
        self.add_pc(t)

    def decide(self, c):
        t = c.t if isinstance(c, SymB) else c
        ts = z3.simplify(t)
        if z3.is_true(ts):
            return True
        if z3.is_false(ts):
            return False
        return self.decide_k([t, z3.Not(t)]) == 0

    def decide_k(self, conds):
        """k-way fork; conds are exhaustive. Returns the index taken."""
        f = self.frames[-1]
        if f.i < len(f.prefix):
            k, was = f.prefix[f.i]
            if len(was) != len(conds) or not all(a.eq(b) for a, b in zip(was, conds)):
                raise Unsupported("exploration not reproducible")
            f.i += 1
            f.taken.append((k, was))
            self.add_pc(conds[k])
            return k
        feas = []
        n = len(conds)
        for k, t in enumerate(conds):
            if k == n - 1 and not feas:
                feas.append(k)       # exhaustive: the rest was infeasible
            elif self._feasible(t):
                feas.append(k)
        k = feas[0]
        for alt in feas[1:]:
            f.work.append(f.taken + [(alt, conds)])
        f.i += 1
        f.prefix = f.prefix + [(k, conds)]
        f.taken.append((k, conds))
        self.add_pc(conds[k])
        return k

    def div_guard(self, tb):
        while z3.is_app_of(tb, z3.Z3_OP_DIV):      # n/d != 0 iff n != 0 (d was checked when n/d was formed)
            tb = tb.arg(0)
        ts = z3.simplify(tb)
        if z3.is_rational_value(ts) or z3.is_int_value(ts):
            if ts.as_fraction() == 0 if z3.is_rational_value(ts) else ts.as_long() == 0:
                raise ZeroDivisionError("division by zero")
            return
        key = ("nz", tb.get_id())
        if self.decide_k([tb != 0, tb == 0]) == 1:
            raise ZeroDivisionError("float division by zero")

    # ---- exploration
    def run_paths(self, thunk):
        """All paths of thunk() -> [(frame, outcome, diff)]; state is undone."""
        results = []
        work = [[]]
        while work:
            prefix = work.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Budget(f"more than {self.max_paths} paths")
            fr = Frame(prefix, work)
            self.frames.append(fr)
            self.solver.push()
            m = self.journal.mark()
            birth = self._births
            own = []
            try:
                out = thunk()
                diff = self.journal.diff(m)
                # objects born on this path keep their final contents: nothing else can see them
                own = [(k[0], o, k[2], new) for k, (o, old, new) in diff.items()
                       if k[0] != "env" and self._born_after(o, birth)]
                results.append((fr, out, {k: x for k, x in diff.items()
                                          if k[0] == "env" or not self._born_after(x[0], birth)}))
            except PathDead:
                pass
            finally:
                self.journal.undo(m)
                for kind, o, name, val in own:
                    self.journal._put(kind, o, name, val)
                if len(self.frames) == 1:
                    self._new.clear()
                self.solver.pop()
                self.frames.pop()
        return results

    def sub_explore(self, thunk):
        """Run thunk (-> (kind, value)) over all its paths and merge. Returns (kind, value)."""
        if self.frames:
            self.frames[-1].subs += 1
        res = self.run_paths(thunk)
        if not res:
            raise PathDead()
        if len(res) == 1:
            fr, out, diff = res[0]
            for t in fr.pc:
                self.add_pc(t)
            if fr.has_assume:
                self.frames[-1].has_assume = True
            for (kind, oid, name), (o, old, new) in diff.items():
                self.journal.write(kind, o, name, new)
            return out
        pcs = [z3.And(*fr.pc) if len(fr.pc) != 1 else fr.pc[0] for fr, _, _ in res]
        # group by outcome kind / mergeability of the value
        groups = []
        for i, (fr, out, diff) in enumerate(res):
            for g in groups:
                o0 = res[g[0]][1]
                if o0[0] == out[0] and mergeable(o0[1], out[1]):
                    g.append(i)
                    break
            else:
                groups.append([i])
        if len(groups) > 1:
            conds = [z3.Or(*[pcs[i] for i in g]) if len(g) > 1 else pcs[g[0]] for g in groups]
            k = self.decide_k(conds)
            g = groups[k]
        else:
            g = groups[0]
            if any(res[i][0].has_assume for i in g):
                self.frames[-1].has_assume = True
                self.add_pc(z3.Or(*pcs))
        if any(res[i][0].has_assume for i in g):
            self.frames[-1].has_assume = True
        sel = [(pcs[i], res[i]) for i in g]
        # merge writes
        locs = {}
        for pc, (fr, out, diff) in sel:
            for key, (o, old, new) in diff.items():
                locs.setdefault(key, (o, old))
        for key, (o, old) in locs.items():
            kind, oid, name = key
            alts = []
            for pc, (fr, out, diff) in sel:
                alts.append((pc, diff[key][2] if key in diff else self._current(kind, o, name)))
            self.journal.write(kind, o, name, self._merge_loc(kind, alts))
        kind0 = sel[0][1][1][0]
        val = merge([(pc, r[1][1]) for pc, r in sel])
        if isinstance(val, (list, dict)) and not any(val is r[1][1] for _, r in sel):
            self.new(val)
        return (kind0, val)

    @staticmethod
    def _current(kind, o, name):
        if kind == "env":
            return o.get(name, MISSING)
        if kind == "attr":
            return o.__dict__.get(name, MISSING)
        return list(o) if isinstance(o, list) else dict(o) if isinstance(o, dict) else \
            set(o) if isinstance(o, set) else o.copy()

    def _merge_loc(self, kind, alts):
        vals = [v for _, v in alts]
        if kind in ("env", "attr"):
            if all(mergeable(vals[0], v) for v in vals[1:]):
                return merge(alts)
            return Lazy(alts)
        # containers: same shape required, unmergeable items become Lazy
        a0 = vals[0]
        if isinstance(a0, list):
            if len({len(v) for v in vals}) == 1:
                return [self._merge_loc("env", [(c, v[i]) for c, v in alts]) for i in range(len(a0))]
        elif isinstance(a0, dict):
            if len({tuple(v.keys()) for v in vals}) == 1:
                return {k: self._merge_loc("env", [(c, v[k]) for c, v in alts]) for k in a0}
        elif isinstance(a0, np.ndarray):
            if len({v.shape for v in vals}) == 1:
                out = np.empty(a0.shape, dtype=object)
                for ix in np.ndindex(a0.shape):
                    out[ix] = self._merge_loc("env", [(c, v[ix]) for c, v in alts])
                return out
        elif isinstance(a0, set):
            if all(v == a0 for v in vals):
                return a0
        # containers of different shape: fork
        k = self.decide_k([c for c, _ in alts])
        return vals[k]

    def force(self, v):
        while isinstance(v, Lazy):
            k = self.decide_k([c for c, _ in v.alts])
            v = v.alts[k][1]
        return v

    # ---- obligations
    def oblige(self, name, c, info=None):
        t = zb(c)
        pc = self.full_pc()
        key = (name, z3.simplify(t).get_id() if False else t.get_id(), tuple(p.get_id() for p in pc))
        if key in self._obl_seen:
            return
        self._obl_seen.add(key)
        neg = c.neg if isinstance(c, SymB) else None
        self.obligations.append((name, pc, t, neg, info))


def _scalar(v):
    return is_num(v) or is_sym(v)


def mergeable(a, b):
    if a is b:
        return True
    if isinstance(a, Lazy) or isinstance(b, Lazy):
        return False
    if a is MISSING or b is MISSING or a is None or b is None:
        return False
    if _scalar(a) and _scalar(b):
        if isinstance(a, float) and not np.isfinite(a) or isinstance(b, float) and not np.isfinite(b):
            return a == b
        return isinstance(a, (bool, SymB)) == isinstance(b, (bool, SymB))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, BaseException) and isinstance(b, BaseException):
        return type(a) is type(b)
    if type(a) is type(b):
        if isinstance(a, (tuple, list)):
            return len(a) == len(b) and all(mergeable(x, y) for x, y in zip(a, b))
        if isinstance(a, dict):
            return list(a.keys()) == list(b.keys()) and all(mergeable(a[k], b[k]) for k in a)
        if isinstance(a, np.ndarray):
            return a.shape == b.shape and all(mergeable(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    return False


def merge(alts):
    """alts: [(z3 cond, value)] pairwise mergeable."""
    v0 = alts[0][1]
    if all(v is v0 for _, v in alts):
        return v0
    if _scalar(v0):
        r = alts[-1][1]
        for c, v in reversed(alts[:-1]):
            r = ite(c, v, r)
        return r
    if isinstance(v0, (str, BaseException)):
        return v0
    if isinstance(v0, tuple):
        return tuple(merge([(c, v[i]) for c, v in alts]) for i in range(len(v0)))
    if isinstance(v0, list):
        return [merge([(c, v[i]) for c, v in alts]) for i in range(len(v0))]
    if isinstance(v0, dict):
        return {k: merge([(c, v[k]) for c, v in alts]) for k in v0}
    if isinstance(v0, np.ndarray):
        out = np.empty(v0.shape, dtype=object)
        for ix in np.ndindex(v0.shape):
            out[ix] = merge([(c, v[ix]) for c, v in alts])
        return out
    raise Unsupported("merge")
