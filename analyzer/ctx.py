"""Shared by all rules: the program, what the command line accepts, cached analyses, traces."""
import os
import sys
import time

import adt as ADT
import engine
import extract
import terms as T
from engine import Budget, Engine
from program import Program
from terms import I, add, app, fld, ge0, is_app, show, sub


class Missing(Exception):
    """an anchor of a rule is not there: the rule cannot be applied"""


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []  # (key, message, where)
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.notes = []
        self.counts = {}
        self.assumptions = []
        self.soft = ()

    def ok(self, what=None, n=1):
        self.obligations += n
        self.discharged += n
        if what is not None and len(self.samples) < 40:
            self.samples.append(what)

    def fail(self, key, msg, where=None):
        if self.soft:
            # something unseen happens on this path
            return self.undec("%s (after %s)" % (msg, ", ".join(sorted(self.soft))[:120]))
        self.obligations += 1
        if not any(k == key for k, _, _ in self.violations):
            self.violations.append((key, msg, where))

    def undec(self, msg):
        self.obligations += 1
        if msg not in self.undecided:
            self.undecided.append(msg)

    def check(self, cond, key, msg, where=None, what=None):
        """cond: True holds / False violated / None undecided"""
        if cond is True:
            self.ok(what)
        elif cond is False:
            self.fail(key, msg, where)
        else:
            self.undec(msg)
        return cond

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


class Ctx:
    def __init__(self, tier="quick"):
        self.tier = tier
        self.t0 = time.time()
        self.P = Program(extract.export())
        self.cache = {}
        self.deadline = 740 if tier == "quick" else 850

    def left(self):
        return max(5.0, self.deadline - (time.time() - self.t0))

    # ------------------------------------------------------------ anchors
    def memo(self, k, f):
        if k not in self.cache:
            self.cache[k] = f()
        return self.cache[k]

    def local_fns(self):
        return [f for f in self.P.fns if f and f.local and not f.derived and f.item != "" or (f and f.local and f.closure)]

    def the(self, what, l):
        l = list(l)
        if len(l) != 1:
            raise Missing("%s: %d candidates" % (what, len(l)))
        return l[0]

    @property
    def args_ty(self):
        """the command line structure: the one with clap's derived Args implementation"""
        def go():
            f = [f for f in self.P.fns if f and f.local and f.item == "augment_args" and "promoted" not in f.name]
            f = self.the("derived clap Args implementation", f)
            for i, t in enumerate(self.P.tys):
                if t.get("s") == f.name.split(" as ")[0].lstrip("<") and self.P.is_struct(i):
                    return i
            raise Missing("command line structure")
        return self.memo("args_ty", go)

    def args_field(self, name):
        n = self.P.field_names(self.args_ty)
        return n.index(name) if name in n else None

    def cli(self):
        """argument name -> (lo, hi) accepted for integer arguments, None when unknown"""
        def go():
            f = [f for f in self.P.fns if f and f.local and f.item == "augment_args" and "promoted" not in f.name][0]
            E = Engine(self.P, budget=60)
            outs = E.analyse(f.id)
            res = {}
            for s, v in outs:
                evs = [e for e in events(s.tr)]
                by = {e.ret: e for e in evs}
                for e in evs:
                    if not e.path.endswith("Command::arg") or len(e.args) < 2:
                        continue
                    x = e.args[1]
                    rng, ident, known = None, None, True
                    while x in by:
                        c = by[x]
                        if c.path.endswith("Arg::new"):
                            ident = T.const_str(c.args[0].a[0]) if c.args[0].op == "refv" else None
                            break
                        if c.path.endswith("Arg::value_parser"):
                            y = c.args[1]
                            lim = []
                            while y in by:
                                d = by[y]
                                if "RangedI64ValueParser" in d.path and d.path.endswith("::range"):
                                    lim.append(d.args[1])
                                elif "value_parser" in d.path or d.path.endswith("::new"):
                                    pass
                                else:
                                    known = False
                                y = d.args[0] if d.args else None
                                while y is not None and y.op in ("refv",):
                                    y = y.a[0]
                            rng = lim
                        x = c.args[0]
                    if ident is not None:
                        res[ident] = (rng or [], known)
            out = {}
            names = self.P.field_names(self.args_ty)
            for i, ft in enumerate(self.P.fields(self.args_ty)):
                t = ft
                if self.P.is_enum(t) and self.P.tys[t].get("args"):
                    t = self.P.tys[t]["args"][0]
                r = self.P.irange(t) if self.P.k(t) == "int" else None
                if r is None or names[i] not in res:
                    continue
                lo, hi = r
                rng, known = res[names[i]]
                for x in rng:
                    b = range_bounds(x)
                    if b is None:
                        known = False
                    else:
                        lo = max(lo, b[0]) if b[0] is not None else lo
                        hi = min(hi, b[1]) if b[1] is not None else hi
                out[names[i]] = (lo, hi) if known else None
            return out
        return self.memo("cli", go)

    def args_facts(self, st, a, skip=()):
        """assume what the command line guarantees about the settings a (a value of type Args)"""
        P = self.P
        fx = st.facts
        names = P.field_names(self.args_ty)
        for i, ft in enumerate(P.fields(self.args_ty)):
            r = self.cli().get(names[i])
            if r is None or names[i] in skip:
                continue
            x = fld(a, 0, i, ft)
            if P.is_enum(ty := ft):
                some = P.variant_index(ty, "Some")
                x = fld(x, some, 0, P.tys[ty]["args"][0])
                fx = self.guarded(fx, fld(a, 0, i, ft), some, [ge0(sub(x, I(r[0]))), ge0(sub(I(r[1]), x))])
                continue
            for b in (ge0(sub(x, I(r[0]))), ge0(sub(I(r[1]), x))):
                g = fx.assume(b)
                if g is not None:
                    fx = g
        st.facts = fx

    def guarded(self, fx, t, v, bs):
        return fx.with_guard(t, v, bs)

    def pre(self, E, st, f, args):
        """entry assumption: settings anywhere in the arguments are acceptable ones"""
        for i, a in enumerate(args):
            ty = f.locals[i + 1]
            self.assume_settings(E, st, a, ty, 0)

    def assume_settings(self, E, st, a, ty, depth):
        P = self.P
        if ty == self.args_ty:
            self.args_facts(st, a)
            return
        if depth > 4:
            return
        if P.k(ty) == "ref":
            self.assume_settings(E, st, E.base_val(st, ("H", a)) if P.tys[ty]["mut"] else T.deref(a, P.tys[ty]["ty"]), P.tys[ty]["ty"], depth + 1)
        elif P.is_struct(ty) and P.contains(ty, lambda t: t == self.args_ty, "args"):
            for i, ft in enumerate(P.fields(ty)):
                self.assume_settings(E, st, fld(a, 0, i, ft), ft, depth + 1)

    # ------------------------------------------------------------ evaluation of expressions
    def ratio_ty(self):
        for i, t in enumerate(self.P.tys):
            if "Ratio<" in t["s"] and "BigInt" in t["s"] and self.P.k(i) == "adt" and t["s"].split("<")[0].endswith("Ratio"):
                return i
        raise Missing("rational number type")

    def eval_impls(self):
        """implementations of the dynamic evaluation method: Box<Node> -> Result<rational, _>"""
        def go():
            P = self.P
            r = self.ratio_ty()
            out = []
            for f in P.fns:
                if not (f and f.local and f.trait) or f.closure:
                    continue
                rt = f.locals[0]
                if not (P.is_enum(rt) and P.tys[rt].get("args") and P.tys[rt]["args"][0] == r):
                    continue
                if f.argc < 1 or P.cat(f.locals[1]) != "box":
                    continue
                out.append(f)
            if not out:
                raise Missing("evaluation of syntax tree nodes")
            return out
        return self.memo("eval_impls", go)

    def adts(self):
        return self.memo("adts", lambda: [ADT.ADT(self.P, *x) for x in ADT.encapsulated(self.P)])

    def analyse(self, f, opaque=None, lim=12, retlim=12, pre=True, hooks=None, budget=None, key=None, args=None, adts=False, setup=None):
        """cached: (engine, outcomes, error)"""
        k = key or (f.id, lim, retlim, pre, adts)

        def go():
            E = Engine(self.P, opaque=opaque, budget=min(budget or 120, self.left()))
            E.LIM, E.RETLIM = lim, retlim
            if hooks:
                E.hooks.update(hooks)
            if adts:
                ADT.install(E, self.adts())
            if setup:
                setup(E)
            err = None
            outs = []
            try:
                outs = E.analyse(f.id, args=args, pre=self.pre if pre is True else (pre or None))
            except Budget as e:
                err = str(e)
            return E, outs, err
        return self.memo(k, go)


def range_bounds(x):
    if is_app(x, "rangeincl"):
        a, b = x.a[1], x.a[2]
        return (a.a[0] if a.op == "int" else None, b.a[0] if b.op == "int" else None) if a.op == b.op == "int" else None
    if x.op == "adt" and len(x.a[1]) == 2 and all(y.op == "int" for y in x.a[1]):
        return x.a[1][0].a[0], x.a[1][1].a[0] - 1
    if x.op == "adt" and len(x.a[1]) == 0:
        return None, None
    return None


def nodes(tr):
    """all trace nodes from which tr is reached, oldest first (topological where acyclic)"""
    seen = set()
    order = []
    stack = [(tr, 0)]
    seen.add(tr.id)
    while stack:
        n, i = stack.pop()
        if i < len(n.prev):
            stack.append((n, i + 1))
            m = n.prev[i]
            if m.id not in seen:
                seen.add(m.id)
                stack.append((m, 0))
        else:
            order.append(n)
    return order


def events(tr):
    return [n.ev for n in nodes(tr) if n.kind == "ev"]


def flow(trs, init, step):
    """forward propagation of sets of automaton states over the trace graph ending in the nodes
    trs; step(state, node) -> iterable of states.  Returns node id -> set of states after it."""
    order = []
    seen = set()
    for tr in trs:
        for n in nodes(tr):
            if n.id not in seen:
                seen.add(n.id)
                order.append(n)
    succ = {}
    for n in order:
        for p in n.prev:
            succ.setdefault(p.id, []).append(n)
    byid = {n.id: n for n in order}
    out = {n.id: set() for n in order}
    inn = {n.id: set() for n in order}
    work = []
    for n in order:
        if not n.prev:
            inn[n.id] = set(init) if n.kind == "start" else set()
            if inn[n.id]:
                work.append(n)
    while work:
        n = work.pop()
        res = set()
        for q in inn[n.id]:
            res.update(step(q, n))
        if not (res - out[n.id]):
            continue
        out[n.id] |= res
        for m in succ.get(n.id, []):
            if not (res <= inn[m.id]):
                inn[m.id] |= res
                work.append(m)
    return out
