"""C22, C23: the lines of a session and the stored ones, over an exact list of states reached from opening
the database and starting the session, with symbolic texts"""
import sqldb as D
import terms as T
from terms import I, ONE, ZERO, adt, app, cat, fld, is_app, refv, seqlen, sub
from ctx import events
from engine import Budget, Engine
from rules import line
from rules.common import *
from rules.db import HIST, Report_none, empty, env_hook, initial, mkdir_hook, seq_of, size
from ctx import flow
from rules.session import adt_named, bits_value, callee_path, session, strip_ref
from rules.settings import calc_fn, result_kind
from rules.store import db_ops, db_ty

ROLES = ("new", "current", "insert", "remove", "earlier", "later")


def roles(ctx):
    """the structure holding the lines of a session and what is done to it"""
    def go():
        P, d = ctx.P, db_ty(ctx)
        calc = calc_fn(ctx)
        cand = set()
        for i in range(1, calc.argc + 1):
            t = calc.locals[i]
            u = P.tys[t]["args"][0] if P.cat(t) == "option" else t
            if P.k(u) == "ref" and P.is_struct(P.tys[u]["ty"]) and P.tys[P.tys[u]["ty"]].get("local"):
                cand.add(P.tys[u]["ty"])
        out = []
        for h in sorted(cand):
            r = {}
            for f in P.fns:
                if not (f and f.local) or f.closure or "promoted" in f.name:
                    continue
                ts = [f.locals[i] for i in range(1, f.argc + 1)]
                rt = f.locals[0]
                kinds = []
                for t in ts:
                    u = P.tys[t]["args"][0] if P.cat(t) == "option" else t
                    if P.k(u) == "ref" and P.tys[u]["ty"] == h:
                        kinds.append("Hmut" if P.tys[u]["mut"] else "H")
                    elif P.k(u) == "ref" and P.tys[u]["ty"] == d:
                        kinds.append("DB")
                    else:
                        kinds.append(P.cat(t))
                isr = P.is_enum(rt) and P.cat(rt) == "result"
                okt = P.tys[rt]["args"][0] if isr else None
                if rt == h and not set(kinds) & {"Hmut", "H"}:
                    r.setdefault("new", []).append(f)
                elif kinds == ["H"] and (P.cat(rt) == "str" or P.tys[P.strip(rt)]["s"] in ("str", "std::string::String")):
                    r.setdefault("current", []).append(f)
                elif kinds == ["Hmut", "int", "char"]:
                    r.setdefault("insert", []).append(f)
                elif kinds == ["Hmut", "int"]:
                    r.setdefault("remove", []).append(f)
                elif kinds == ["Hmut", "DB"] and isr and P.k(okt) == "bool":
                    r.setdefault("earlier", []).append(f)
                elif kinds == ["Hmut"] and P.k(rt) == "bool":
                    r.setdefault("later", []).append(f)
                elif kinds == ["Hmut", "DB"] and isr and P.cat(okt) == "option":
                    r.setdefault("finish", []).append(f)
            for k, l in list(r.items()):
                if len(l) > 1:
                    # the ones used from outside the structure's own methods
                    own = {f.id for fs in r.values() for f in fs}
                    used = set()
                    for g in P.fns:
                        if g and g.local and not any(P.strip(g.locals[i]) == h for i in range(1, min(1, g.argc) + 1)):
                            used |= set(P.callee_ids(g))
                    r[k] = [f for f in l if f.id in used] or l
            if all(len(r.get(k, ())) == 1 for k in ROLES):
                out.append((h, {k: l[0] for k, l in r.items() if len(l) == 1}))
        return ctx.the("structure of the lines of a session", out)
    return ctx.memo("history_roles", go)


class Driver:
    """functions of the program run one after the other on one abstract state"""

    def __init__(self, ctx, n, opaque=None):
        P = ctx.P
        self.ctx, self.n = ctx, n
        self.E = E = Engine(P, opaque=opaque, budget=min(300, ctx.left()))
        E.LIM, E.RETLIM = 1024, 1024
        D.install(E)
        E.loop_hook = D.loop_hook(ctx)
        for x in ("var", "var_os"):
            E.hooks["std::env::" + x] = env_hook
        E.hooks["std::fs::create_dir"] = mkdir_hook
        E.unroll = lambda fn: True
        E.unroll_max = 256

    def start(self):
        """[(state, database or None)] after opening"""
        E, P, ctx = self.E, self.ctx.P, self.ctx
        E.entry = "driver"
        st = E.start()
        if self.n is None:
            empty(ctx, E, st)
            return [(st, None)]
        initial(ctx, E, st, self.n)
        out, seen = [], set()
        for f in db_ops(ctx)[0]:
            for s, v in self.call(st, f, [E.symbolic(f.names.get(i) or "a%d" % i, f.locals[i]) for i in range(1, f.argc + 1)]):
                x = v
                while x is not None and isinstance(x.ty, int) and P.is_enum(x.ty):
                    x = x.a[1][0] if x.op == "adt" and x.a[1] and P.variant_name(x.ty, x.a[0]) in ("Ok", "Some") else None
                if x is None or x.ty != db_ty(ctx):
                    continue
                db = s.aux["db"]
                k = (x, db.key() if hasattr(db, "key") else id(db))
                if k in seen:
                    continue
                seen.add(k)
                s = s.fork()
                out.append((s, E.newcell(s, x)))
        return out

    def call(self, st, f, args):
        return self.E.run_fn(st, f.id, args, f.span)


class Lines:
    """what the lines of a session should be: entries of the session, stored entries (newest first), the
    place in them, and what was typed over them"""
    __slots__ = ("L", "S", "read", "pos", "edits")

    def __init__(self, L, S, read, pos, edits):
        self.L, self.S, self.read, self.pos, self.edits = L, S, read, pos, edits

    def entry(self, p):
        return T.EMPTY if p == 0 else self.L[-p] if p <= len(self.L) else self.read[p - len(self.L) - 1]

    def text(self):
        return self.edits.get(self.pos, self.entry(self.pos))

    def key(self):
        return self.L, self.S, self.read, self.pos, tuple(sorted(self.edits.items()))

    def with_(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Lines(**d)


def equal(E, st, a, b):
    if a is b:
        return True
    t = E.M.eq_term(E, st, a, b)
    return t if t in (True, False) else (T.is_true(t) if hasattr(T, "is_true") and T.is_true(t) is not None else st.facts.decide(t))


def opt_mut(P, t, p):
    """argument of type t giving access to p (or to nothing)"""
    if P.cat(t) == "option":
        return line.some_of(P, t, p) if p is not None else line.none_of(P, t)
    return p


def flag(P, st, v):
    """True / False for a returned truth value, through Ok"""
    if isinstance(v.ty, int) and P.is_enum(v.ty) and P.cat(v.ty) == "result":
        if result_kind(P, st.facts, v) != "Ok":
            return "error"
        v = v.a[1][0] if v.op == "adt" else fld(v, 0, 0, P.tys[v.ty]["args"][0])
    if v.op == "bool":
        return v.a[0]
    return st.facts.decide(v)


def contract(ctx, rep, total):
    """every method that changes the line shown, at any place in it: it does what the contract says
    (total: only that it cannot abort)"""
    P = ctx.P
    us, ch = P.ty_by_s.get("usize"), P.ty_by_s.get("char")

    def words(m):
        l = []
        if m.pos in m.edits:
            if len(seen_(m)) > 1:
                return []
        else:
            l = [("earlier", None), ("later", None)] + ([("submit", None)] if len(m.L) < 2 else [])
        k = len(seen_(m))
        i = T.sym("place%d" % k, us)
        return l + [("insert", (i, T.sym("typed%d" % k, ch))), ("remove", (i,))]

    def seen_(m):
        return {x for t in m.edits.values() for x in T.subterms(t) if x.op == "sym" and x.a[0].startswith("place")}
    quiet = Report_none() if total else rep
    k = 0
    # a change at one place, then one more; with and without stored lines
    for n, depth in ((0, 4), (2, 4), (None, 4)):
        box = []
        k += explore(ctx, quiet, n, depth, words, "walk", box)
        for d in box:
            rep.soft = frozenset(d.E.unseen)
            for (fn, kind, site), o in sorted(d.E.obl.items(), key=lambda x: str(x[0])):
                if not any(P.fns[x].name == fn for x in reached(ctx)):
                    continue
                what = "%s in %s: %s" % (kind, fn, o.detail or kind)
                if o.status == "proven":
                    rep.ok(what)
                elif o.status == "undecided":
                    rep.undec("%s at %s" % (what, o.span))
                else:
                    rep.fail("%s:%s:%s" % (kind, fn, o.detail), "%s: %s is not ensured when the line shown is changed or recalled (through %s)" % (fn, o.detail or kind, " > ".join(o.stack)), o.span)
    rep.check(True if k else None, "contract", "no state of the lines of a session", None, "%d states of the lines" % k)


def reached(ctx):
    """the methods of the lines, and what they use"""
    def go():
        h, R = roles(ctx)
        out = set()
        for f in R.values():
            out |= set(ctx.P.reach(f.id)) | {f.id}
        return out
    return ctx.memo("lines_reach", go)


def explore(ctx, rep, n, depth, words, part="walk", box=None):
    """every sequence of operations up to the given length, from the beginning of a session; part says what is
    judged: the walk through the lines, or the recording of submitted lines"""
    P = ctx.P
    h, R = roles(ctx)
    calc = calc_fn(ctx)
    lx = {g.id: g for g in line.lexers(ctx)}
    sv = {g.id for g in line.executor(ctx)}
    trees = line.tree_types(ctx)

    def opq(E, fid):
        return fid in lx or fid in sv

    d = Driver(ctx, n, opq)
    if box is not None:
        box.append(d)
    E = d.E
    fin = lex_spy(ctx, E)
    for g in lx.values():
        E.hooks[g.name] = fin(g)
    try:
        return run_all(ctx, rep, d, n, depth, words, h, R, part)
    except Budget as e:
        rep.undec("history of %s: %s" % ("no database" if n is None else size(n), e))
        return 0


def lex_spy(ctx, E):
    """reading the text of a line: noted, and refused"""
    def fin(g):
        def hook(E, st, c, args, cx):
            s = st.fork()
            v = E.M.err(E, cx.ty, E.default("unreadable", E.M.payload_ty(E, cx.ty, "Err")))
            texts = [E.strip(s, a) for a in args]
            texts = [t for t in texts if isinstance(t.ty, int) and (ctx.P.cat(t.ty) == "str" or ctx.P.tys[t.ty]["s"] == "str") or T.const_elems(t) is not None or t.op in ("cat", "sub")]
            s.setaux("lexed", (s.aux.get("lexed") or ()) + (texts[0] if texts else None,))
            s.setaux("atread", s.aux.get("db"))
            return [(s, v)]
        return hook
    return fin


def run_all(ctx, rep, d, n, depth, words, h, R, part):
    P, E = ctx.P, d.E
    begun = d.start()
    if not begun:
        rep.undec("opening the database (%s)" % size(n))
        return 0
    level = []
    for st, db in begun:
        if st.aux["db"].lost:
            rep.undec("opening: %s" % st.aux["db"].lost)
            continue
        f = R["new"]
        args = [T.TRUE if P.k(f.locals[i]) == "bool" and n is not None else T.FALSE if P.k(f.locals[i]) == "bool" else
                (opt_mut(P, f.locals[i], db) if P.cat(f.locals[i]) == "option" else E.symbolic("new%d" % i, f.locals[i])) for i in range(1, f.argc + 1)]
        for s, v in d.call(st, f, args):
            s = s.fork()
            hp = E.newcell(s, v)
            t0 = s.aux["db"].settled() if n is not None else {}
            ids = seq_of(t0) if n is not None else []
            rows = {r["id"]: r for r in t0.get(HIST, ()) if not isinstance(r, D.Mid)}
            S = tuple(rows[x]["input"] for x in reversed(ids)) if ids and None not in ids else ()
            level.append((s, hp, db, Lines((), S, (), 0, {}), ()))
    known0 = dict(E.unknown)
    count = 0
    seen = set()
    j = Judge(ctx, rep, d, n, R, part, known0)
    for k in range(depth + 1):
        nxt = []
        for st, hp, db, m, trail in level:
            for s in j.shown(st, hp, m, trail):
                count += 1
                j.walk(s, hp, db, m, trail)
            if k == depth:
                continue
            for op, word in words(m):
                for s2, m2 in j.step(st, hp, db, m, op, word, trail):
                    dbk = s2.aux["db"]
                    key = (E.pointee(s2, hp), E.pointee(s2, db) if db is not None else None, tuple(sorted((t, tuple(tuple(sorted(r.items(), key=lambda p: p[0])) if not isinstance(r, D.Mid) else r for r in rs)) for t, rs in dbk.settled().items())) if db is not None else None, m2.key())
                    if key in seen:
                        continue
                    seen.add(key)
                    nxt.append((s2, hp, db, m2, trail + (op,)))
        level = nxt
    return count


class Judge:
    def __init__(self, ctx, rep, d, n, R, part, known0):
        self.ctx, self.rep, self.d, self.n, self.R, self.part, self.known0 = ctx, rep, d, n, R, part, known0
        d.judge = self

    def soften(self):
        E = self.d.E
        self.rep.soft = frozenset(k for k in E.unknown if k not in self.known0) | frozenset(E.unseen)

    def step(self, st, hp, db, m, op, word, trail):
        self.soften()
        rep = self.rep if (op == "submit") == (self.part == "record") else Report_none()
        return step(self.ctx, rep, self.d, self.n, st, hp, db, m, op, word, trail)

    def shown(self, st, hp, m, trail):
        """states after looking at the line that is shown"""
        E, rep, n = self.d.E, self.rep, self.n
        out = []
        self.soften()
        f = self.R["current"]
        rs = self.d.call(st, f, [hp])
        self.soften()
        if not rs:
            rep.check(False, "shown:aborts", "%s there is no line to show: the program aborts" % said(trail), f.span)
        for s, v in rs:
            out.append(s)
            t = E.strip(s, v)
            ok = equal(E, s, t, m.text())
            if self.part == "walk":
                rep.check(True if ok else (False if settled(t) else None), "shown:%s" % what_of(trail), "%s shows another line than the one %s" % (said(trail), where(m)), f.span,
                          "the line shown is the one %s (%s)" % (where(m), base(n)))
            elif not ok and settled(t) and m.edits.get(m.pos) is None:
                known_ = m.L + m.read + m.S + tuple(m.edits.values()) + (T.EMPTY,)
                own = [equal(E, s, t, x) for x in known_]
                fx = s.facts
                for x, o in zip(known_, own):
                    if o is None and fx is not None:
                        fx = fx.assume(T.bnot(E.M.eq_term(E, s, t, x)))
                rep.check(True if any(own) else (None if fx is None else False), "entry:%s" % what_of(trail), "%s a recorded line has another text than when it was recorded" % said(trail), f.span)
            else:
                rep.ok("recorded lines keep their text (%s)" % base(n))
        return out

    def walk(self, st, hp, db, m, trail):
        """all the way to the oldest line and back"""
        last = what_of(trail)
        if self.part == "record":
            if last == "submit":
                recalled(self.ctx, self.rep, self.d, self.n, st, hp, db, m, trail)
            if last not in ("insert", "remove") or m.pos == 0:
                return
            # the entry typed over, once something is submitted
            todo = [(s, m2) for s, m2 in step(self.ctx, Report_none(), self.d, self.n, st, hp, db, m, "submit", None, trail)]
            trail = trail + ("submit",)
        elif last in ("submit", "start"):
            todo = [(st, m)]
        else:
            return
        cur = todo
        ups = 0
        while cur and ups < 12:
            nxt = []
            for s, m1 in cur:
                for s2, m2 in self.step(s, hp, db, m1, "earlier", None, trail):
                    if m2.pos > m1.pos:
                        for s3 in self.shown(s2, hp, m2, trail + ("earlier",) * (ups + 1)):
                            nxt.append((s3, m2))
                    elif self.part == "walk":
                        self.back(s2, hp, db, m2, trail + ("earlier",) * ups)
            cur = nxt
            ups += 1

    def back(self, st, hp, db, m, trail):
        cur = [(st, m)]
        k = 0
        while cur and k < 12:
            nxt = []
            k += 1
            for s, m1 in cur:
                for s2, m2 in self.step(s, hp, db, m1, "later", None, trail):
                    if m2.pos < m1.pos:
                        for s3 in self.shown(s2, hp, m2, trail + ("later",) * k):
                            nxt.append((s3, m2))
            cur = nxt


def recalled(ctx, rep, d, n, st, hp, db, m, trail):
    """the line just submitted is among those that can be recalled, as often as it was submitted"""
    P, E = ctx.P, d.E
    h, R = roles(ctx)
    f = R["earlier"]
    cur = [(st, [])]
    done = []
    for _ in range(len(m.L) + len(m.read) + len(m.S) + 2):
        nxt = []
        for s, l in cur:
            for s2, v in d.call(s, f, [hp] + [opt_mut(P, f.locals[i], db) for i in range(2, f.argc + 1)]):
                if flag(P, s2, v) is not True:
                    done.append((s2, l))
                    continue
                for s3, w in d.call(s2, R["current"], [hp]):
                    nxt.append((s3, l + [E.strip(s3, w)]))
        cur = nxt
    for s, l in done + cur:
        x = m.L[-1]
        if x is T.EMPTY or any(not settled(t) for t in l):
            continue
        want = sum(1 for y in m.L + m.read + m.S if y is x)
        got = [equal(E, s, t, x) for t in l]
        if sum(1 for g in got if g) == want:
            rep.ok("a submitted line can be recalled as often as it was submitted (%s)" % base(n))
        elif any(g is None for g in got):
            rep.undec("a submitted line among the recalled ones")
        else:
            k = sum(1 for g in got if g)
            rep.fail("appended", "%s the submitted line is in the history %d times instead of %d" % (said(trail), k, want), R["current"].span)


def base(n):
    return "no database" if n is None else "%s stored" % n


def settled(t):
    return not any(x.op == "sym" and "#" in str(x.a[0]) for x in T.subterms(t))


def what_of(trail):
    return trail[-1] if trail else "start"


def said(trail):
    if not trail:
        return "a new session"
    l = []
    for x in trail:
        if l and l[-1][0] == x:
            l[-1][1] += 1
        else:
            l.append([x, 1])
    return "after %s the session" % ", ".join(x if k == 1 else "%s %d times" % (x, k) for x, k in l)


def where(m):
    return "being composed" if m.pos == 0 else "submitted %d before" % m.pos if m.pos <= len(m.L) else "stored %d before" % (m.pos - len(m.L))


def must(rep, d, st, f, args, what, op):
    out = d.call(st, f, args)
    d.judge.soften()
    if not out:
        rep.check(False, "%s:aborts" % op, "%s: the program aborts" % what, f.span)
    return out


def step(ctx, rep, d, n, st, hp, db, m, op, word, trail):
    """the outcomes of one operation, judged; yields the states to go on from"""
    P, E = ctx.P, d.E
    h, R = roles(ctx)
    out = []
    f = R.get(op) if op != "submit" else calc_fn(ctx)
    what = said(trail + (op,))

    def lost(s):
        x = s.aux.get("db")
        if x is not None and x.lost:
            rep.undec("%s: %s" % (what, x.lost))
            return True
        return False
    if op in ("insert", "remove"):
        i = word[0] if isinstance(word[0], T.Term) else I(word[0])
        args = [hp, i] + ([word[1]] if op == "insert" else [])
        t = m.text()
        # a place within the line; for typing, a character of the keyboard's
        fx = st.facts.assume(ge0(sub(sub(seqlen(t), i), ONE if op == "remove" else ZERO)))
        if fx is not None and op == "insert":
            fx = fx.assume(ge0(sub(I(127), word[1])))
        if fx is None:
            return []
        for x in {x for y in (t,) + m.L + m.read for x in T.subterms(y) if x.op == "sym" and isinstance(x.ty, int) and P.cat(x.ty) == "str"} | {t}:
            fx = fx.with_all(x, "ascii")
        st = st.with_facts(fx)
        new = cat([E.slice(st, t, ZERO, i), ("L", (word[1],)), E.slice(st, t, i, seqlen(t))]) if op == "insert" else cat([E.slice(st, t, ZERO, i), E.slice(st, t, T.add(i, ONE), seqlen(t))])
        for s, v in must(rep, d, st, f, args, what, op):
            if not lost(s):
                out.append((s, m.with_(edits=dict(m.edits, **{}) | {m.pos: new})))
        return out
    if op == "later":
        for s, v in must(rep, d, st, f, [hp], what, op):
            b = flag(P, s, v)
            rep.check(b is (m.pos > 0) if b is not None else None, "later:%s" % ("moves" if m.pos else "stays"), "%s %s" % (what, "does not move although a later line exists" if m.pos else "moves past the line being composed"), f.span, "recalling a later line moves unless at the composed one")
            if not lost(s):
                out.append((s, m.with_(pos=max(0, m.pos - 1))))
        return out
    if op == "earlier":
        args = [hp] + [opt_mut(P, f.locals[i], db) for i in range(2, f.argc + 1)]
        for s, v in must(rep, d, st, f, args, what, op):
            if lost(s):
                continue
            b = flag(P, s, v)
            left = m.S
            if m.pos < len(m.L) + len(m.read):
                m2, can = m.with_(pos=m.pos + 1), True
            elif left:
                m2, can = m.with_(pos=m.pos + 1, read=m.read + left[:1], S=left[1:]), True
            else:
                m2, can = m, False
            if b == "error":
                rep.fail("earlier:error", "%s: recalling an earlier line fails" % what, f.span)
                continue
            rep.check(b is can if b is not None else None, "earlier:%s" % ("moves" if can else "stays"), "%s %s" % (what, "does not move although an earlier line exists" if can else "moves although there is no earlier line"), f.span, "recalling an earlier line moves unless at the oldest (%s)" % base(n))
            if b is can:
                out.append((s, m2))
        return out
    if op == "submit":
        text = m.text()
        args = []
        for i in range(1, f.argc + 1):
            t = f.locals[i]
            u = P.tys[t]["args"][0] if P.cat(t) == "option" else t
            if P.k(u) == "ref" and P.tys[u]["ty"] == h:
                args.append(opt_mut(P, t, hp))
            elif P.k(u) == "ref" and P.tys[u]["ty"] == db_ty(ctx):
                args.append(opt_mut(P, t, db))
            elif P.tys[P.strip(t)]["s"] in ("str", "std::string::String"):
                args.append(refv(text) if P.k(t) == "ref" else text)
            elif P.cat(t) == "option":
                args.append(line.some_of(P, t, E.symbolic("calc%d" % i, u)))
            else:
                args.append(E.symbolic("calc%d" % i, t))
        old = st.aux["db"].settled() if db is not None else {}
        for s, v in must(rep, d, st, f, args, what, op):
            if lost(s):
                continue
            lexed = s.aux.get("lexed") or ()
            s = s.fork()
            rep.check(len(lexed) == 1 if lexed or result_kind(P, s.facts, v) == "Ok" else None, "read", "a submitted line is read %d times" % len(lexed), f.span, "a submitted line is read once")
            for t in lexed:
                if t is not None:
                    e = equal(E, s, t, text)
                    rep.check(True if e else (False if settled(t) else None), "text", "another text than the line submitted is evaluated", f.span, "the line submitted is what is evaluated")
            if db is not None:
                new = s.aux["db"].settled()
                was = {r["id"] for r in old.get(HIST, ()) if not isinstance(r, D.Mid)}
                fresh = [r for r in new.get(HIST, ()) if not isinstance(r, D.Mid) and r["id"] not in was]
                rep.check(len(fresh) == 1, "rows", "%s stores the submitted line %d times" % (what, len(fresh)), f.span, "a submitted line is stored once")
                for r in fresh:
                    e = equal(E, s, r["input"], text)
                    rep.check(True if e else (False if settled(r["input"]) else None), "stored", "%s stores another text than the line submitted" % what, f.span, "the stored line is the one submitted")
                ar = s.aux.get("atread")
                if lexed and ar is not None and not ar.lost:
                    ids = {r["id"] for r in ar.settled().get(HIST, ()) if not isinstance(r, D.Mid)}
                    rep.check(all(r["id"] in ids for r in fresh) and bool(fresh), "before", "a submitted line is read before it is stored", f.span, "a submitted line is stored before it is read")
                keep = {r["id"]: r for r in old.get(HIST, ()) if not isinstance(r, D.Mid)}
                for r in new.get(HIST, ()):
                    if not isinstance(r, D.Mid) and r["id"] in keep:
                        rep.check(r["input"] is keep[r["id"]]["input"], "kept", "%s changes the text of a stored line" % what, f.span, "stored lines keep their text")
                alive = [r["input"] for r in new.get(HIST, ()) if not isinstance(r, D.Mid)]
                S = tuple(x for x in m.S if x in alive)
            else:
                S = ()
            s.setaux("lexed", ())
            out.append((s, Lines(m.L + (text,), S, m.read, 0, {})))
        return out
    return out


def words_of(ctx):
    """the operations tried from a state"""
    ch = ctx.P.ty_by_s.get("char")

    def words(m):
        k = len(m.edits)
        l = [("earlier", None), ("later", None)]
        if len(m.L) < 2:
            l.append(("submit", None))
        if k < 1:
            l.append(("insert", (0, T.sym("ch%d_%d" % (len(m.L), m.pos), ch))))
            if m.pos:
                l.append(("remove", (0,)))
        elif m.pos in m.edits:
            l.append(("remove", (0,)))
        return l
    return words


def c22(ctx, rep):
    total = 0
    for n, depth in ((0, 4), (1, 4), (2, 5), (None, 5)):
        total += explore(ctx, rep, n, depth, words_of(ctx), "record")
    rep.check(True if total else None, "states", "no state of the lines of a session", None, "%d states" % total)
    # whatever the line is
    f = calc_fn(ctx)
    for n, kind, k, E, st, v, t0, t1 in line.line_outcomes(ctx, rep):
        if n is None:
            rep.check(t1.get(HIST) == t0.get(HIST), "line:nodb", "a session without a database stores lines", f.span)
            continue
        s0, s1 = seq_of(t0), seq_of(t1)
        if s0 is None or s1 is None:
            rep.undec("the list of inputs")
            continue
        new = [x for x in s1 if x is not None and x not in s0]
        rep.check(len(new) == 1, "line:%d" % min(2, len(new)), "a submitted line (%s) is stored %s" % (kind, "more than once" if new else "nowhere"), f.span, "a line is stored once (%s of %d, %s)" % (kind, k, size(n)))
        ar = st.aux.get("atread")
        if ar is not None and not ar.lost and seq_of(ar.settled()) is not None:
            rep.check(all(x in seq_of(ar.settled()) for x in new), "line:before", "a submitted line is read before it is stored", f.span, "a line is stored before it is read")
    submitting(ctx, rep)


def enter_hook(E, st, c, args, cx):
    """waiting for a key: Enter pressed, Enter in another way, another event, failure"""
    P = E.P
    ev_t = adt_named(P, "crossterm::event::Event")
    key_v = P.variant_index(ev_t, "Key")
    ke_t = P.fields(ev_t, key_v)[0]
    names = P.field_names(ke_t)
    ft = dict(zip(names, P.fields(ke_t)))
    code_t, kind_t = ft["code"], ft["kind"]
    en = P.variant_index(code_t, "Enter")
    path = callee_path(P, c)
    okt, ert = P.tys[cx.ty]["args"][:2]
    out = []

    def emit(tag, v, facts=None):
        s = st.fork()
        if facts is not None:
            s.facts = facts
        E.event(s, "read", path, [T.string(tag)], v, cx.span, c, "external")
        out.append((s, adt(cx.ty, 0, [v])))
    base_ = {n: E.default("key_" + n, ft[n]) for n in names}

    def key(**kw):
        d = dict(base_, **kw)
        return adt(ev_t, key_v, [adt(ke_t, 0, [d[n] for n in names])])
    emit("enter", key(code=adt(code_t, en, []), kind=adt(kind_t, P.variant_index(kind_t, "Press"), []), modifiers=bits_value(P, ft["modifiers"], 0)))
    emit("enter?", key(code=adt(code_t, en, [])))
    x = E.default("event", ev_t)
    fx = st.facts.exclude_variants(x, {key_v})
    if fx is not None:
        emit("other", x, fx)
    k = E.default("key_code", code_t)
    fx = st.facts.exclude_variants(k, {en})
    if fx is not None:
        emit("other", key(code=k), fx)
    s = st.fork()
    x = E.default("ioerr", ert)
    E.event(s, "read", path, [T.string("failed")], app("failed", (x,)), cx.span, c, "external")
    out.append((s, adt(cx.ty, 1, [x])))
    return out


def submitting(ctx, rep):
    """in a whole session: Enter, and nothing else, has the current line evaluated, once"""
    P = ctx.P
    f, (E, outs, err), rec = session(ctx, enter_hook, "enter")
    if not finish(rep, E, err, f):
        return
    calc = calc_fn(ctx)
    h, R = roles(ctx)
    mut = {g.name for g in P.fns if g and g.local and not g.closure and g.argc and P.k(g.locals[1]) == "ref" and P.tys[g.locals[1]]["ty"] == h and P.tys[g.locals[1]]["mut"]}
    rec_ = {R[k].name for k in ("finish",) if k in R}
    bad = {}
    good = {}

    def text(e):
        for i, x in enumerate(e.args):
            if P.tys[P.strip(calc.locals[i + 1])]["s"] in ("str", "std::string::String"):
                return x
        return None

    def step(q, n):
        if n.kind != "ev":
            return [q]
        e = n.ev
        kind, line_, k = q
        if e.name == "read" and e.args and T.const_str(e.args[0]):
            t = T.const_str(e.args[0])
            if kind == "enter" and k == 0:
                bad.setdefault("lost", ("after Enter the program waits for another key without evaluating the line", e.span))
            elif kind == "enter":
                good["once"] = e.span
            return [(t, None, 0)]
        if e.name == R["current"].name:
            return [(kind, e.ret, k)]
        if e.name == calc.name:
            if oneshot_call(e):
                return [q]
            if kind not in ("enter", "enter?"):
                bad.setdefault("other", ("a line is evaluated %s" % ("without a key press" if kind == "none" else "although Enter was not pressed"), e.span))
            elif k:
                bad.setdefault("twice", ("one Enter has a line evaluated more than once", e.span))
            else:
                x = text(e)
                y, z = (strip_ref(x) if x is not None else None), (strip_ref(line_) if line_ is not None else None)
                if y is None or z is None:
                    soft.append("the text evaluated")
                elif y is z or flat_text(y) is flat_text(z):
                    good["text"] = e.span
                else:
                    (bad.setdefault("line", ("another text than the current line is evaluated", e.span)) if settled(y) or z in T.subterms(y) else soft.append("the text evaluated"))
            return [(kind, None, k + 1)]
        if e.name in rec_:
            bad.setdefault("recorded", ("a line is recorded outside of its evaluation", e.span))
        if e.name in mut:
            return [(kind, None, k)]
        return [q]
    soft = []

    def oneshot_call(e):
        """the evaluation of a line given on the command line: without lines of a session"""
        for i, x in enumerate(e.args):
            t = calc.locals[i + 1]
            if P.cat(t) == "option" and P.k(P.tys[t]["args"][0]) == "ref" and P.tys[P.tys[t]["args"][0]]["ty"] == h:
                return x.op == "adt" and P.variant_name(t, x.a[0]) == "None"
        return False
    flow([st.tr for st, _ in outs] + [st.tr for st, _, _ in E.exits], [("none", None, 0)], step)
    for k, (m, sp) in sorted(bad.items()):
        rep.fail(k, m, sp)
    for m in soft:
        rep.undec(m)
    rep.check(True if "once" in good else None, "enter", "no line is evaluated after Enter", None, "Enter has the line evaluated once before the next key")
    if not bad:
        rep.check(True if "text" in good else None, "current", "no current line evaluated", None, "the current line is what is evaluated")


def flat_text(t):
    while is_app(t, "to_string") or is_app(t, "display"):
        t = strip_ref(t.a[1])
    return t


def c23(ctx, rep):
    total = 0
    for n, depth in ((0, 4), (1, 4), (2, 5), (None, 5)):
        total += explore(ctx, rep, n, depth, words_of(ctx))
    rep.check(True if total else None, "states", "no state of the lines of a session", None, "%d shown lines" % total)
