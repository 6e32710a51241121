"""Data abstraction: a local struct whose fields only its own methods touch is analysed once as a
class (representation invariant by a fixpoint over constructors and methods) and used elsewhere
through contracts: what every method returns and how it changes what the observers return.

The observer is a `&self -> &str` method.  Nothing here depends on names: constructors, observers
and mutators are recognised by their signatures.
"""
import terms as T
from engine import Engine, Cx
from facts import Facts
from terms import *


def encapsulated(P):
    """[(type id, methods, ctors)] of local structs with a &self -> &str method and private use"""
    out = []
    for t in range(len(P.tys)):
        if not (P.is_struct(t) and P.k(t) == "adt" and P.tys[t].get("local")):
            continue
        if P.path(t) and len(P.fields(t)) == 0:
            continue
        refs = {i for i, x in enumerate(P.tys) if x["k"] == "ref" and x["ty"] == t}
        meths, ctors, obs = [], [], []
        for f in P.fns:
            if f is None or not f.local or f.closure or f.derived or 'promoted[' in f.name:
                continue
            if f.argc >= 1 and f.locals[1] in refs:
                meths.append(f.id)
                rt = P.tys[f.locals[0]]
                if f.argc == 1 and rt["k"] == "ref" and P.cat(rt["ty"]) == "str" and not P.tys[f.locals[1]]["mut"]:
                    obs.append(f.id)
            elif f.locals[0] == t and not any(f.locals[i] == t for i in range(1, f.argc + 1)):
                ctors.append(f.id)
        if not obs or not ctors:
            continue
        owners = set(meths) | set(ctors)
        ok = True
        for f in P.fns:
            if f is None or not f.local:
                continue
            if f.id in owners or (f.closure and any(f.name.startswith(P.fns[o].name + '::') for o in owners)) or f.derived:
                continue
            if touches(P, f, t):
                ok = False
        if ok:
            out.append((t, meths, ctors, obs))
    return out


def touches(P, f, t):
    from program import walk_places
    P.cfg(f)

    def pl(p):
        for e in p[0][1:]:
            if e[0] == "." and e[3] == t:
                return True
        return False

    def op(o):
        return o[0] in ("copy", "move") and pl(o[1])
    for b in f.rpo:
        for s in f.blocks[b]["s"]:
            if s[0] == "=":
                if pl(s[1]):
                    return True
                from program import walk_ops
                if any(op(o) for o in walk_ops(s[2])) or any(pl(p) for p in walk_places(s[2])):
                    return True
                if s[2][0] == "agg" and s[2][1] == "adt" and s[2][3] == t:
                    return True
        tm = f.blocks[b]["t"]
        if tm[0] == "call":
            if any(op(o) for o in tm[2]) or pl(tm[3]):
                return True
    return False


class ADT:
    """class analysis of one type"""

    def __init__(self, P, ty, meths, ctors, obs, budget=120):
        self.P = P
        self.ty = ty
        self.meths = meths
        self.ctors = ctors
        self.obs = obs
        self.o = obs[0]
        self.E = E = Engine(P, opaque=self.opaque, budget=budget)
        self.self_ = sym("self", self.refty(True))
        self.cell = ("H", self.self_)
        self.strty = P.tys[P.fns[self.o].locals[0]]["ty"]
        self.dollar = sym("$o", self.strty)
        self.charpre = True
        self.contracts = {}
        self.problems = []
        self.infer()
        for m in meths:
            self.contracts[m] = self.contract(m)

    def refty(self, mut):
        P = self.P
        for i, x in enumerate(P.tys):
            if x["k"] == "ref" and x["ty"] == self.ty and x["mut"] == mut:
                return i
        return next(i for i, x in enumerate(P.tys) if x["k"] == "ref" and x["ty"] == self.ty)

    def opaque(self, E, fid):
        # methods on other local types are not the subject here
        f = self.P.fns[fid]
        if f.id in self.meths or f.closure:
            return False
        if f.path.startswith(("error::",)):
            return True
        return False

    # ------------------------------------------------------------ invariant
    def infer(self):
        E, P = self.E, self.P
        E.rec = 0
        states = []
        for c in self.ctors:
            f = P.fns[c]
            for s, v in E.analyse(c, name="ctor"):
                s.seth(self.cell, v)
                s.frames = []
                s.tr = None
                states.append(s)
        for s in states:
            self.prune(s)
        head, _ = E.generalise(states, None, None, "C", None) if len(states) > 1 else (states[0], None)
        n = 0
        work = True
        while work:
            work = False
            n += 1
            if n > 10:
                raise RuntimeError("class invariant does not stabilise")
            for m in self.meths:
                if not P.tys[P.fns[m].locals[1]]["mut"]:
                    continue
                outs = self.run(head, m)
                bad = []
                for s, _ in outs:
                    s.frames = []
                    self.prune(s)
                    mm = {}
                    if not E.match_state(head, s, mm) or not E.facts_hold(head, s, mm):
                        bad.append(s)
                if bad:
                    head, _ = E.generalise([head] + bad, None, None, "C", None, weak=n > 7, carry=head.aux.get("gen", frozenset()))
                    work = True
        self.head = head
        E.rec = 1

    def prune(self, s):
        s.heap = {k: v for k, v in s.heap.items() if k == self.cell}

    def args(self, m):
        P = self.P
        f = P.fns[m]
        a = [self.self_ if P.tys[f.locals[1]]["mut"] else None]
        for i in range(2, f.argc + 1):
            a.append(self.E.symbolic("$%d" % i, f.locals[i]))
        return a

    def start(self, head, m):
        P, E = self.P, self.E
        st = head.fork()
        st.tr = None
        from engine import Node
        st.tr = Node("start", [])
        args = self.args(m)
        for a in args[1:]:
            if isinstance(a.ty, int) and P.cat(a.ty) == "char":
                g = st.facts.assume(ge0(T.sub(I(127), a)))
                if g is not None:
                    st.facts = g
        if args[0] is None:
            args[0] = refv(st.heap[self.cell])
        return st, args

    def run(self, head, m):
        E = self.E
        st, args = self.start(head, m)
        E.entry = self.P.fns[m].name
        return E.run_fn(st, m, args, self.P.fns[m].span)

    def observe(self, s):
        """[(state, observed string)]"""
        E = self.E
        rec, E.rec = E.rec, 0
        st = s.fork()
        try:
            return [(x, E.strip(x, v)) for x, v in E.run_fn(st, self.o, [refv(s.heap[self.cell])], "?")]
        finally:
            E.rec = rec

    # ------------------------------------------------------------ contracts
    def contract(self, m):
        P, E = self.P, self.E
        f = P.fns[m]
        cases = []
        seen = set()
        lifted = []
        obl = []
        st, args = self.start(self.head, m)
        E.entry = f.name
        old = E.on_oblige

        def on(stt, kind, cond, span, detail, r):
            obl.append((stt.facts, kind, cond, span, detail, r, E.site(span)))
        if m == self.o:
            # the observer itself, on any representation the invariant allows
            E.on_oblige = on
            try:
                E.run_fn(st.fork(), m, args, f.span)
            finally:
                E.on_oblige = old
            for fx, kind, cond, span, detail, r, site in obl:
                if r is not True:
                    self.problems.append((f.name, kind, site, show(cond), detail))
            return {"cases": [(refv(self.dollar), self.dollar, (), True)], "pre": [], "mut": False, "fn": f.name}
        for s0, o0 in self.observe(st):
            E.on_oblige = on
            del obl[:]
            try:
                outs = E.run_fn(s0, m, args, f.span)
            finally:
                E.on_oblige = old
            base = set(E.fact_list(s0.facts))
            for fx, kind, cond, span, detail, r, site in obl:
                if r is True:
                    continue
                c2 = self.abstract(cond, o0)
                if self.closed(c2):
                    pf = self.path_facts(fx, base, o0)
                    key = (kind, c2, tuple(pf))
                    if key not in seen:
                        seen.add(key)
                        lifted.append((kind, c2, pf, site, detail))
                else:
                    self.problems.append((f.name, kind, site, show(cond), detail))
            for s, v in outs:
                same = s.heap[self.cell] is s0.heap[self.cell]
                for s2, o1 in ([(s, o0)] if same else self.observe(s)):
                    ret = self.abstract(E.freeze(s2, v) if v.op == "ptr" else v, o0)
                    ob = self.abstract(o1, o0)
                    pf = tuple(self.path_facts(s2.facts, base, o0))
                    r2 = self.erase(ret, f.locals[0])
                    o2 = ob if self.closed(ob) else None
                    asc = E.M.all_holds(E, s2, o1, "ascii")
                    key = (r2, o2, pf)
                    if key not in seen:
                        seen.add(key)
                        cases.append((r2, o2, pf, asc))
        if not P.tys[f.locals[1]]["mut"]:
            cases = [(r, self.dollar, pf, a) for r, o, pf, a in cases]
        return {"cases": cases, "pre": lifted, "mut": P.tys[f.locals[1]]["mut"], "fn": f.name}

    def abstract(self, t, o0):
        m = {o0: self.dollar}
        if o0.op == "cat" and o0 is EMPTY:
            m = {}
        if t is o0:
            return self.dollar
        r = substitute(t, m)
        # windows of the observed value, when it is itself a window
        return r

    def closed(self, t):
        return all(x is self.dollar or (x.op == "sym" and x.a[0].startswith("$")) for x in T.syms(t))

    def path_facts(self, fx, base, o0):
        out = []
        for b in self.E.fact_list(fx):
            if b in base:
                continue
            b2 = (b[0], self.abstract(b[1], o0)) if b[0] == "b" else None
            if b2 and self.closed(b2[1]) and T.syms(b2[1]):
                out.append(b2[1])
        return sorted(set(out), key=lambda t: t.id)

    def erase(self, t, ty):
        """return value with everything internal replaced by a hole"""
        if self.closed(t):
            return t
        if t.op == "adt":
            fts = self.P.fields(t.ty, t.a[0]) if isinstance(t.ty, int) else []
            return adt(t.ty, t.a[0], [self.erase(x, fts[i] if i < len(fts) else None) for i, x in enumerate(t.a[1])])
        if t.op == "refv":
            return refv(self.erase(t.a[0], None))
        return mk("hole", (), t.ty if isinstance(t.ty, int) else ty)


def install(E, adts):
    """make engine E use the contracts of these classes"""
    P = E.P
    for A in adts:
        E.observed[A.ty] = A
        for m in A.meths:
            E.contracts[m] = (A, m)


def apply_contract(E, st, A, m, c, args, cx):
    P = E.P
    con = A.contracts[m]
    h = E.strip(st, args[0])
    if h.op == "adt":
        return None
    o = observed(E, A, h)
    sub_ = {A.dollar: o}
    f = P.fns[m]
    for i in range(2, f.argc + 1):
        a = args[i - 1]
        sub_[sym("$%d" % i, f.locals[i])] = a
        if P.cat(f.locals[i]) == "char":
            s = E.oblige(st, "ascii", ge0(T.sub(I(127), a)), cx.span, "character stored in the line is ASCII")
            if s is None:
                return []
            st = s
    st = st.fork()
    st.facts = st.facts.with_all(o, "ascii")
    for kind, cond, pf, site, detail in con["pre"]:
        s = st
        fx = s.facts
        for b in pf:
            fx = fx.assume(substitute(b, sub_))
            if fx is None:
                break
        if fx is None:
            continue
        cond2 = substitute(cond, sub_)
        if kind in ("boundary",):
            continue
        s2 = st.with_facts(fx)
        r = E.oblige(s2, kind, cond2, cx.span, detail + " [in %s]" % f.name.split("::")[-1])
        if r is None:
            return []
        if not pf:
            st = st.with_facts(r.facts)
    out = []
    for r, o2, pf, asc in con["cases"]:
        fx = st.facts
        for b in pf:
            fx = fx.assume(substitute(b, sub_))
            if fx is None:
                break
        if fx is None:
            continue
        s = st.with_facts(fx)
        if con["mut"]:
            if o2 is A.dollar and False:
                pass
            h2 = fresh("h", A.ty)
            E.set_pointee(s, args[0], h2)
            on = observed(E, A, h2)
            fx = s.facts.with_all(on, "ascii")
            if o2 is not None:
                val = substitute(o2, sub_)
                g = fx.assume(eq0(T.sub(seqlen(on), seqlen(val))))
                if g is None:
                    continue
                fx = g
                s.setaux(("line", on), val)
            s.facts = fx
        E.event(s, c.get("name"), f.name, [h] + list(args[1:]), UNINIT, cx.span, c, "contract")
        ret = fill(E, substitute(r, sub_), cx.ty)
        out.append((s, ret))
    return out


def fill(E, t, ty):
    if t.op == "hole":
        return E.default("ret", t.a[0] if False else (t.ty if t.ty is not None else ty))
    if t.op == "adt":
        fts = E.P.fields(t.ty, t.a[0]) if isinstance(t.ty, int) else []
        return adt(t.ty, t.a[0], [fill(E, x, fts[i] if i < len(fts) else None) for i, x in enumerate(t.a[1])])
    if t.op == "refv":
        return refv(fill(E, t.a[0], None))
    return t


def observed(E, A, h):
    return app("obs:%d" % A.o, (h,), A.strty)
