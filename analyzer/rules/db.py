"""C16, C17, ...: the statements interpreted over an abstract database (sqldb)."""
import sqldb as D
import sqlmini as Q
from rules.common import *
from rules.session import effects
from rules.settings import result_kind
from rules.store import KEYS, db_ops, db_run, db_ty, env_hook, mkdir_hook, schema_flow

CLASSES = (0, 1, 2, 3, 4, 5, "many")
HIST, TAGS, META, VARS = "input_history", "input_history_tags", "meta_int", "variable_history"


def schema(ctx):
    """the tables after opening the database, as the opener's statements declare them"""
    def go():
        fin = set()
        for f in db_ops(ctx)[0]:
            E, outs, err = db_run(ctx, f)
            if err:
                raise Missing("schema (%s)" % err)
            fin |= schema_flow(ctx, f, E, outs, lambda e, q: None)
        if len(fin) != 1:
            raise Missing("one schema (%d found)" % len(fin))
        try:
            ts = [Q.declared(s) for s in list(fin)[0]]
        except Q.Unsupported as e:
            raise Missing("schema: %s" % e)
        d = {t.name: t for t in ts}
        for n, cs in ((HIST, {"id", "input", "next", "prev"}), (TAGS, {"key", "value"}), (META, {"key", "value"}), (VARS, {"name", "numer", "denom", "last_used_by"})):
            if n not in d or set(d[n].cols) != cs:
                raise Missing("table %s with columns %s" % (n, sorted(cs)))
        return d
    return ctx.memo("dbschema", go)


def initial(ctx, E, st, n):
    """a well-formed database with n inputs"""
    P = ctx.P
    i64, s = P.ty_by_s.get("i64"), P.ty_by_s.get("std::string::String")
    db = D.Db()
    db.decl = dict(schema(ctx))
    cap = T.sym("capacity", i64)
    ver, minver = T.sym("version", i64), T.sym("minimum_version", i64)
    rows, order, vars_ = [], [], []
    if n == "many":
        ids = [T.sym("h%d" % k, i64) for k in (1, 2, 3)]
        post = [T.sym("g%d" % k, i64) for k in (2, 1)]
        first, last = T.sym("mfirst", i64), T.sym("mlast", i64)
        K = T.sym("more", i64)
        mid = D.Mid(K, ids[2], post[0], first, last)
        names = [x.a[0] for x in ids]
        for k, x in enumerate(ids):
            rows.append(D.row_of(E, x.a[0], ids[k + 1] if k < 2 else first, ids[k - 1] if k else None))
        rows.append(mid)
        rows.append(D.row_of(E, "g2", post[1], last))
        rows.append(D.row_of(E, "g1", None, post[0]))
        order = ids + [None] + post
        db.ids = frozenset(ids + post + [first, last])
        front, back = post[1], ids[0]
        count = T.add(K, I(5))
        fx = st.facts.assume(ge0(sub(K, I(1))))
    else:
        ids = [T.sym("h%d" % k, i64) for k in range(1, n + 1)]
        for k, x in enumerate(ids):
            rows.append(D.row_of(E, x.a[0], ids[k + 1] if k < n - 1 else None, ids[k - 1] if k else None))
        order = list(ids)
        db.ids = frozenset(ids)
        front, back = (ids[-1], ids[0]) if ids else (None, None)
        count = I(n)
        fx = st.facts
    for x in order:
        if x is not None:
            v = "v_" + x.a[0]
            vars_.append({"name": T.sym(v, s), "numer": T.sym(v + "_n", s), "denom": T.sym(v + "_d", s), "last_used_by": x})
    names = [r["name"] for r in vars_]
    for i, a in enumerate(names):
        for b in names[:i]:
            fx = fx.assume(bnot(E.M.eq_term(E, st, a, b)))
    fx = fx.assume(ge0(sub(cap, I(1))))
    fx = fx.assume(ge0(sub(cap, count)))
    st.facts = fx
    db.tables = {HIST: tuple(rows), TAGS: ({"key": I(KEYS["Front"]), "value": front}, {"key": I(KEYS["Back"]), "value": back}),
                 META: ({"key": I(KEYS["Version"]), "value": ver}, {"key": I(KEYS["MinimumVersion"]), "value": minver}, {"key": I(KEYS["MaxHistorySize"]), "value": cap}),
                 VARS: tuple(vars_)}
    D.setdb(st, db)
    st.setaux("order", tuple(order))
    st.setaux("db0", db)


def empty(ctx, E, st):
    db = D.Db()
    D.setdb(st, db)
    st.setaux("order", ())
    st.setaux("db0", db)


def op_run(ctx, f, n, extra=None, key=None, args=None, opaque=None, lim=64, retlim=256):
    """an operation run over a database with n inputs (None: a new file)"""
    def pre(E, st, g, a):
        if n is None:
            empty(ctx, E, st)
        else:
            initial(ctx, E, st, n)
        if extra:
            extra(E, st, g, a)

    def setup(E):
        D.install(E)
        E.loop_hook = D.loop_hook(ctx)
        for x in ("var", "var_os"):
            E.hooks["std::env::" + x] = env_hook
        E.hooks["std::fs::create_dir"] = mkdir_hook
    return ctx.analyse(f, opaque=opaque, pre=pre, lim=lim, retlim=retlim, key=("dbop", f.id, n, key), budget=200, setup=setup, args=args)


def wellformed(P, tables):
    """None when the inputs form one list, else (what is wrong, certain)"""
    rows = tables.get(HIST)
    tags = tables.get(TAGS)
    if rows is None or tags is None:
        return ("the tables of the history are missing", True)
    marks = {}
    for r in tags:
        if r["key"].op != "int":
            return ("a mark with an unknown key", False)
        marks.setdefault(r["key"].a[0], []).append(r["value"])
    for n in ("Front", "Back"):
        if len(marks.get(KEYS[n], [])) != 1:
            return ("the %s mark is not stored exactly once" % n.lower(), True)
    front, back = marks[KEYS["Front"]][0], marks[KEYS["Back"]][0]
    if not rows:
        if front is not None or back is not None:
            return ("the list is empty but its %s mark is not" % ("front" if front is not None else "back"), True)
        return None
    if front is None or back is None:
        return ("the list is not empty but its %s mark is" % ("front" if front is None else "back"), True)
    ids, mid = {}, None
    for r in rows:
        if isinstance(r, D.Mid):
            mid = r
        else:
            ids[r["id"]] = r
    cur, prev, n = back, None, 0
    seen = set()
    while True:
        if mid is not None and cur is mid.first and not isinstance(prev, tuple) and "mid" not in seen:
            if mid.prev is not prev:
                return ("the previous link of an entry does not name its neighbour", True)
            seen.add("mid")
            prev, cur = mid.last, mid.next
            n += 1
            continue
        r = ids.get(cur)
        if r is None:
            return ("a mark or link names no entry", True)
        if cur in seen:
            return ("the links form a cycle", True)
        seen.add(cur)
        n += 1
        if r["prev"] is not prev:
            return ("the previous link of %s does not name its neighbour" % ("the oldest entry" if prev is None else "an entry"), True)
        if r["next"] is None:
            break
        prev, cur = cur, r["next"]
    if cur is not front:
        return ("the front mark does not name the newest entry", True)
    if n != len(rows):
        return ("entries are not reachable from the back of the list", True)
    return None


def count(tables):
    n = T.ZERO
    for r in tables.get(HIST, ()):
        n = T.add(n, r.count if isinstance(r, D.Mid) else T.ONE)
    return n


def capacity(tables):
    l = [r["value"] for r in tables.get(META, ()) if r["key"].op == "int" and r["key"].a[0] == KEYS["MaxHistorySize"]]
    return l[0] if len(l) == 1 else None


def seq_of(tables):
    """ids from the oldest to the newest, None for the unknown middle"""
    ch = D.chain(tables) if tables.get(HIST) else []
    if ch is None:
        return None
    return [None if isinstance(r, D.Mid) else r["id"] for r in ch]


def all_ops(ctx):
    """(function, sizes) of every storage operation"""
    opening, ops = db_ops(ctx)
    inner = set()
    out = []
    for f in opening:
        out.append((f, (None,) + CLASSES))
    for f in ops:
        out.append((f, CLASSES))
    return out


def outcomes(ctx, rep, f, sizes):
    P = ctx.P
    for n in sizes:
        E, outs, err = op_run(ctx, f, n)
        if not finish(rep, E, err, f):
            continue
        for st, v in outs:
            db = st.aux.get("db")
            if db is None or db.lost:
                rep.undec("%s on %s: %s" % (f.name, size(n), db.lost if db is not None else "?"))
                continue
            yield n, st, v, st.aux["db0"], db


def size(n):
    return "a new file" if n is None else "a history of more than 5 inputs" if n == "many" else "a history of %d inputs" % n


def c16(ctx, rep):
    P = ctx.P
    k = 0
    for f, sizes in all_ops(ctx):
        for n, st, v, db0, db in outcomes(ctx, rep, f, sizes):
            ts = db.settled()
            rk = result_kind(P, st.facts, v)
            if n is None and rk != "Ok" or n is None and not ts:
                if ts:
                    rep.check(False, "new:%s" % f.name, "a failed opening leaves a half-made database", f.span)
                continue
            k += 1
            w = wellformed(P, ts)
            rep.check(True if w is None else (False if w[1] else None), "%s:%s" % (f.name, w[0] if w else ""), "after %s on %s %s" % (f.name, size(n), w[0] if w else ""), f.span, "%s keeps the list on %s (%s)" % (f.name, size(n), rk))
            if w is None:
                s = seq_of(ts)
                old = list(st.aux.get("order") or ())
                new = [x for x in s if x is not None and x not in set(old)]
                want = old + new
                good = s == want[len(want) - len(s):]
                rep.check(good, "%s:order" % f.name, "%s on %s reorders the inputs or removes others than the oldest" % (f.name, size(n)), f.span, "%s keeps the order of the inputs on %s" % (f.name, size(n)))
    rep.check(True if k else None, "ops", "no storage operation analysed", None, "%d outcomes of storage operations" % k)


def c17(ctx, rep):
    P = ctx.P
    k = 0
    for f, sizes in all_ops(ctx):
        for n, st, v, db0, db in outcomes(ctx, rep, f, sizes):
            ts = db.settled()
            if n is None and not ts:
                continue
            k += 1
            cap, cnt = capacity(ts), count(ts)
            if cap is None:
                rep.check(None if n is not None or result_kind(P, st.facts, v) != "Ok" else False, "%s:none" % f.name, "%s leaves no capacity stored" % f.name, f.span)
                continue

            def prove(c, key, bad, good):
                r = st.facts.decide(c)
                if r is None:
                    r = False if all(x.op == "sym" for x in T.syms(c)) else None
                rep.check(r, "%s:%s" % (f.name, key), bad, f.span, good)
            prove(ge0(sub(cap, I(1))), "positive", "%s can store a capacity below 1" % f.name, "the capacity stored after %s is at least 1" % f.name)
            prove(ge0(sub(cap, cnt)), "over", "after %s on %s there can be more inputs than the capacity" % (f.name, size(n)), "after %s on %s there are at most as many inputs as the capacity" % (f.name, size(n)))
            s, old = seq_of(ts), list(st.aux.get("order") or ())
            if s is None:
                rep.undec("the list after %s" % f.name)
                continue
            gone = [x for x in old if x not in s]
            kept = [x for x in s if x in old]
            new = [x for x in s if x not in old]
            if gone:
                prove(ge0(sub(cnt, cap)), "more", "%s on %s can remove more inputs than necessary" % (f.name, size(n)), "%s on %s removes no more inputs than necessary" % (f.name, size(n)))
                rep.check(old[:len(gone)] == gone, "%s:oldest" % f.name, "%s on %s removes inputs other than the oldest" % (f.name, size(n)), f.span, "%s removes the oldest inputs" % f.name)
            # nothing is removed and put back: inputs keep their text
            rows = {r["id"]: r for r in ts[HIST] if not isinstance(r, D.Mid)}
            base = {r["id"]: r for r in db0.tables.get(HIST, ()) if not isinstance(r, D.Mid)}
            for x in kept:
                if x in base and x in rows:
                    rep.check(rows[x]["input"] is base[x]["input"], "%s:text" % f.name, "%s changes the text of a stored input" % f.name, f.span)
    recording(ctx, rep)
    for f, sizes in all_ops(ctx):
        # an operation that can change the capacity refuses nothing but a capacity below 1
        runs = [x for x in outcomes(ctx, Report_none(), f, CLASSES)] if f in db_ops(ctx)[1] else []
        new = {capacity(db.settled()) for n, st, v, db0, db in runs if capacity(db.settled()) is not capacity(db0.tables)} - {None}
        if not new:
            continue
        for n, st, v, db0, db in runs:
            if result_kind(P, st.facts, v) == "Ok":
                continue
            rs = [st.facts.decide(ge0(sub(c, I(1)))) for c in new]
            r = True if any(x is False for x in rs) else (False if rs and all(x is True for x in rs) else None)
            rep.check(r, "%s:refuses" % f.name, "%s on %s fails for a capacity of at least 1" % (f.name, size(n)), f.span, "%s on %s only refuses capacities below 1" % (f.name, size(n)))
    rep.check(True if k else None, "ops", "no storage operation analysed", None, "%d outcomes of storage operations" % k)


class Report_none:
    """swallows what another pass over the same runs reports"""
    def __getattr__(self, n):
        return lambda *a, **k: None


def recorders(ctx):
    """storage operations that add an input to the history"""
    out = []
    for f in db_ops(ctx)[1]:
        runs = list(outcomes(ctx, Report_none(), f, CLASSES))
        if any([x for x in (seq_of(db.settled()) or []) if x is not None and x not in (st.aux.get("order") or ())] for n, st, v, db0, db in runs):
            out.append((f, runs))
    return out


def recording(ctx, rep):
    """recording an input never fails on a well-formed database"""
    P = ctx.P
    rs = recorders(ctx)
    rep.check(True if rs else None, "recorder", "no operation records inputs", None, "%d operations record inputs" % len(rs))
    for f, runs in rs:
        for n, st, v, db0, db in runs:
            rk = result_kind(P, st.facts, v)
            rep.check(True if rk == "Ok" else False, "%s:fails" % f.name, "%s fails on %s" % (f.name, size(n)), f.span, "%s succeeds on %s" % (f.name, size(n)))
