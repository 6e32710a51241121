"""C18, C24, C25: saved and session variables, over the abstract database and the session's map"""
import sqldb as D
import terms as T
from terms import adt
from ctx import events
from rules.common import *
from rules.db import CLASSES, HIST, VARS, Report_none, all_ops, initial, op_run, seq_of, size
from rules import line
from rules.settings import command_name, command_trait, mk_cell, result_kind
from rules.store import db_ops, db_ty

SIZES = (0, 1, 2, "many")


def stores(ctx):
    """structures holding the session's variables: type -> index of the map from names to values"""
    def go():
        P, r = ctx.P, ctx.ratio_ty()
        out = {}
        for t in range(len(P.tys)):
            if P.is_struct(t) and P.tys[t].get("local"):
                fs = [i for i, ft in enumerate(P.fields(t)) if P.cat(ft) == "map" and r in P.tys[ft].get("args", ()) and P.cat(P.tys[ft]["args"][0]) == "str"]
                if len(fs) == 1:
                    out[t] = fs[0]
        return out
    return ctx.memo("varstores", go)


def methods(ctx):
    """methods of the structures holding the session's variables"""
    P, S = ctx.P, stores(ctx)
    return [f for f in P.fns if f and f.local and not f.closure and "promoted" not in f.name and f.argc >= 1 and P.k(f.locals[1]) == "ref" and P.tys[f.locals[1]]["ty"] in S]


def pair_ty(ctx, t):
    """a structure of a name and a value: field order (name, value)"""
    P = ctx.P
    if P.is_struct(t) and P.tys[t].get("local") and len(P.fields(t)) == 2:
        cs = [P.cat(x) for x in P.fields(t)]
        if sorted(cs) == ["rat", "str"]:
            return cs.index("str"), cs.index("rat")
    return None


def name_value(ctx):
    P = ctx.P
    return T.sym("the_name", P.ty_by_s.get("std::string::String")), T.sym("the_value", ctx.ratio_ty())


def arguments(ctx, f, n, db):
    """arguments of a function over variables: a name, a value, the newest input, the database"""
    P = ctx.P
    N, V = name_value(ctx)
    i64 = P.ty_by_s.get("i64")
    front = None if n == 0 else T.sym("g1" if n == "many" else "h%d" % n, i64)
    out = []

    def build(t, nm):
        if P.k(t) == "ref":
            u = P.tys[t]["ty"]
            x = None
            if pair_ty(ctx, u) or P.cat(u) in ("str", "rat") or P.tys[u]["s"] == "str":
                x = build(u, nm)
            return T.refv(x) if x is not None else None
        if pair_ty(ctx, t):
            a, b = pair_ty(ctx, t)
            return adt(t, 0, (N, V) if a == 0 else (V, N))
        if P.cat(t) == "str" or P.tys[t]["s"] == "str":
            return N
        if t == ctx.ratio_ty():
            return V
        if t == i64:
            return front
        return None
    for i in range(1, f.argc + 1):
        t, nm = f.locals[i], f.names.get(i) or "arg%d" % i
        if P.cat(t) == "option" and i > 1:
            u = P.tys[t]["args"][0]
            if not db:
                x = None
            elif u == i64:
                x = front
                if x is None:
                    return None
            elif P.k(u) == "ref" and P.tys[u]["ty"] == db_ty(ctx):
                x = T.sym(nm, u)
            else:
                x = build(u, nm)
                if x is None:
                    return None
            out.append(adt(t, P.variant_index(t, "Some"), (x,)) if x is not None else adt(t, P.variant_index(t, "None"), ()))
            continue
        x = build(t, nm)
        if x is None and t == i64:
            return None
        out.append(x if x is not None else T.sym(nm, t))
    return out


def uses_db(ctx, f):
    """can the function be given a database?  (it can do without: 'maybe')"""
    P, d = ctx.P, db_ty(ctx)
    r = False
    for i in range(1, f.argc + 1):
        t = f.locals[i]
        if P.k(t) == "ref" and P.tys[t]["ty"] == d:
            return "yes"
        if P.cat(t) == "option" and P.k(P.tys[t]["args"][0]) == "ref" and P.tys[P.tys[t]["args"][0]]["ty"] == d:
            r = "maybe"
    return r


def run(ctx, f, n, db=True, start=None, key=None):
    """[(state, result, map before, map after)], engine, error; start: (tables, facts) to begin with"""
    P, S = ctx.P, stores(ctx)
    args = arguments(ctx, f, n, db)
    if args is None:
        return None, [], None
    N, V = name_value(ctx)

    def extra(E, st, g, a):
        if start is not None:
            ts, fx, order = start
            d = st.aux["db"].copy()
            d.tables = dict(ts)
            st.facts = fx
            D.setdb(st, d)
            st.setaux("dbx", st.aux["db0"])
            st.setaux("db0", d)
            st.setaux("order", order)
    E, outs, err = op_run(ctx, f, n, extra=extra, key=("vars", db, key), args=args)
    t = P.tys[f.locals[1]]["ty"] if f.argc and P.k(f.locals[1]) == "ref" else None
    res = []
    for st, v in outs:
        b = a = None
        if t in S:
            c0 = mk_cell(P, args[0])
            b, a = fld(c0, 0, S[t], P.fields(t)[S[t]]), fld(E.pointee(st, args[0]), 0, S[t], P.fields(t)[S[t]])
        res.append((st, v, b, a))
    return E, res, err


def entries(ctx):
    """storage operations and methods of the session's variables"""
    return [f for f, sizes in all_ops(ctx) if f in db_ops(ctx)[1]] + [f for f in methods(ctx)]


def runs(ctx, rep, f, sizes=SIZES, db=(True, False)):
    """(with a database?, size, state, result, map before, map after, tables before, tables after)"""
    u = uses_db(ctx, f)
    for d in db:
        if d and not u or not d and u == "yes":
            continue
        for n in sizes if d else (1,):
            E, outs, err = run(ctx, f, n, d)
            if E is None:
                continue
            if not finish(rep, E, err, f):
                continue
            for st, v, b, a in outs:
                x = st.aux.get("db")
                if x is None or x.lost:
                    rep.undec("%s on %s: %s" % (f.name, size(n), x.lost if x is not None else "?"))
                    continue
                st.aux = dict(st.aux, E=E)
                yield d, n, st, v, b, a, st.aux["db0"].tables, x.settled()


def saved(ts):
    return [r for r in ts.get(VARS, ())]


def known(t):
    return not any(x.op == "sym" and "#" in str(x.a[0]) for x in T.subterms(t))


def rowkey(r):
    return r["name"], r["numer"], r["denom"]


def writers(ctx):
    """[(function, outcomes)] of what stores variables"""
    out = []
    for f in entries(ctx):
        l = []
        new = False
        for d, n, st, v, b, a, t0, t1 in runs(ctx, Report_none(), f, db=(True,)):
            old = {rowkey(r)[1:] for r in saved(t0)}
            l.append((n, st, v, b, a, t0, t1))
            new |= any(rowkey(r)[1:] not in old for r in saved(t1))
        if new:
            out.append((f, l))
    return out


def readers(ctx):
    P, r = ctx.P, ctx.ratio_ty()
    out = []
    for f in entries(ctx):
        if contains_rat(ctx, f.locals[0]):
            if any(P.cat(P.strip(f.locals[i])) == "str" or P.tys[P.strip(f.locals[i])]["s"] == "str" for i in range(1, f.argc + 1)):
                out.append(f)
    return out


def contains_rat(ctx, t, d=0):
    P = ctx.P
    if t == ctx.ratio_ty():
        return True
    if d > 4 or not isinstance(t, int):
        return False
    if pair_ty(ctx, t):
        return True
    return P.is_enum(t) and any(contains_rat(ctx, x, d + 1) for x in P.tys[t].get("args", ()) if isinstance(x, int)) or \
        P.k(t) == "tuple" and any(contains_rat(ctx, x, d + 1) for x in P.tys[t]["tys"])


def payload(ctx, fx, v):
    """('none' | 'err' | 'some' | None, name, value) of Result<Option<Variable>> and the like"""
    P = ctx.P
    name = None
    for _ in range(6):
        if v is None:
            return None, None, None
        if isinstance(v.ty, int) and v.ty == ctx.ratio_ty():
            return "some", name, v
        p = pair_ty(ctx, v.ty) if isinstance(v.ty, int) else None
        if p:
            return "some", fld(v, 0, p[0], P.fields(v.ty)[p[0]]), fld(v, 0, p[1], P.fields(v.ty)[p[1]])
        if isinstance(v.ty, int) and P.is_enum(v.ty):
            vs = fx.variants(v)
            if vs is None or len(vs) != 1:
                return None, None, None
            k = list(vs)[0]
            nm = P.variant_name(v.ty, k)
            if nm == "None":
                return "none", None, None
            if nm == "Err":
                return "err", None, None
            fs = P.tys[v.ty]["variants"][k]["fields"] if "variants" in P.tys[v.ty] else None
            ft = P.tys[v.ty]["args"][0] if P.tys[v.ty].get("args") else None
            v = v.a[1][0] if v.op == "adt" and v.a[1] else fld(v, k, 0, ft)
            continue
        return None, None, None
    return None, None, None


def has(ctx, E, fx, m, N):
    """is the name in the map?"""
    while True:
        if is_app(m, "mempty"):
            return False
        if is_app(m, "mput") or is_app(m, "mdel"):
            if m.a[2] is N:
                return is_app(m, "mput")
            return None
        return fx.decide(T.app("mhas", (m, N), ctx.P.ty_by_s.get("bool")))


def c18(ctx, rep):
    P = ctx.P
    N, V = name_value(ctx)
    ws, rs = writers(ctx), readers(ctx)
    rep.check(True if ws else None, "writer", "nothing stores variables", None, "%d functions store variables" % len(ws))
    rep.check(True if rs else None, "reader", "nothing reads variables", None, "%d functions read variables" % len(rs))
    k = 0
    for f, l in ws:
        for ix, (n, st, v, b, a, t0, t1) in enumerate(l):
            if result_kind(P, st.facts, v) != "Ok":
                continue
            k += 1
            mine = [r for r in saved(t1) if rowkey(r) not in {rowkey(q) for q in saved(t0)}]
            rep.check(len(mine) == 1, "%s:rows" % f.name, "%s stores %d rows for one variable" % (f.name, len(mine)), f.span)
            for g in rs:
                if uses_db(ctx, g) is False:
                    continue
                start = (t1, st.facts, st.aux.get("order"))
                E, outs, err = run(ctx, g, n, True, start, key=("after", f.id, ix))
                if E is None:
                    rep.undec("arguments of %s" % g.name)
                    continue
                if not finish(rep, E, err, g):
                    continue
                rep.check(True if outs else None, "%s:%s:none" % (f.name, g.name), "%s after %s has no outcome" % (g.name, f.name), g.span)
                for s2, v2, b2, a2 in outs:
                    what, nm, val = payload(ctx, s2.facts, v2)
                    key = "%s:%s" % (f.name, g.name)
                    h = has(ctx, E, s2.facts, b2, N) if b2 is not None else False
                    if h is True and what == "some" and val is not V:
                        # what this session has is not what was saved by another
                        rep.check(nm is None or nm is N, key + ":name", "%s gives a variable another name" % g.name, g.span)
                        continue
                    if what is None:
                        rep.undec("result of %s" % g.name)
                        continue
                    if what in ("none", "err"):
                        rep.check(False, key + ":" + what, "a variable stored by %s %s" % (f.name, "is not found by %s" % g.name if what == "none" else "can make %s fail" % g.name), g.span)
                        continue
                    good = val is V and (nm is None or nm is N)
                    rep.check(True if good else (False if known(val) and (nm is None or known(nm)) else None), key + ":value",
                              "%s reads %s back for a variable stored by %s" % (g.name, "another name" if val is V else "another value", f.name), g.span,
                              "%s reads back exactly what %s stored (%s)" % (g.name, f.name, size(n)))
    rep.check(True if k else None, "stored", "no successful storing of a variable", None, "%d ways to store a variable" % k)
    # nothing else changes what is stored
    wf = {f.id for f, l in ws}
    for f, sizes in all_ops(ctx):
        for n in sizes:
            if n is None:
                continue
            E, outs, err = op_run(ctx, f, n)
            if not finish(rep, E, err, f):
                continue
            for st, v in outs:
                db = st.aux.get("db")
                if db is None or db.lost:
                    rep.undec("%s on %s: %s" % (f.name, size(n), db.lost if db is not None else "?"))
                    continue
                old = {rowkey(r) for r in saved(st.aux["db0"].tables)}
                bad = [r for r in saved(db.settled()) if rowkey(r) not in old]
                rep.check(f.id in wf and len(bad) <= 1 or not bad, "%s:changes" % f.name, "%s changes the name or value of a stored variable" % f.name, f.span, "%s keeps names and values of stored variables on %s" % (f.name, size(n)))


def purge_fns(ctx):
    """storage operations and methods that only the command removing variables uses"""
    def go():
        P = ctx.P
        r = set()
        for imp, d in command_trait(ctx).items():
            if command_name(ctx, d) == "purgevar":
                r |= set(P.reach(d["execute"].id)) | {d["execute"].id}
        return r
    return ctx.memo("purge_fns", go)


def c24(ctx, rep):
    P = ctx.P
    N, V = name_value(ctx)
    pf = purge_fns(ctx)
    rep.check(True if pf else None, "purgevar", "no purging command", None)
    ws = {f.id for f, l in writers(ctx)}
    k = 0
    for f in [g for g, sizes in all_ops(ctx)] + methods(ctx):
        opening = f in db_ops(ctx)[0]
        it = runs(ctx, rep, f, db=(True,)) if not opening else opened(ctx, rep, f)
        for d, n, st, v, b, a, t0, t1 in it:
            k += 1
            E = st.aux["E"]
            s1 = seq_of(t1) if t1.get(HIST) is not None else None
            if s1 is None:
                rep.undec("the list after %s" % f.name)
                continue
            front = t0 and next((x for x in reversed(seq_of(t0) or []) if x is not None), None)
            new_ids = [x for x in s1 if x is not None and x not in (st.aux.get("order") or ())]
            now = {r["name"]: r for r in saved(t1)}
            for r in saved(t0):
                x, u = r["name"], r["last_used_by"]
                named = line.same(E, st, x, N) if not opening else False
                if x in now:
                    w = now[x]["last_used_by"]
                    if w is u:
                        rep.check(u in s1 or u is None, "%s:kept" % f.name, "after %s a saved variable outlives the input it is tied to" % f.name, f.span, "%s removes variables with their input" % f.name)
                    else:
                        rep.check(named is True and w is front, "%s:moves" % f.name, "%s ties a variable to another input" % f.name if named is True else "%s ties a variable that it was not given" % f.name, f.span)
                elif u not in s1:
                    rep.ok("%s removes variables only with their input" % f.name)
                else:
                    rep.check(named is True and (f.id in pf or f.id in ws), "%s:drops" % f.name, "%s removes a saved variable whose input is kept" % f.name, f.span, "%s removes or replaces only the variable it is given" % f.name)
            if f.id in ws and result_kind(P, st.facts, v) == "Ok":
                for r in saved(t1):
                    if rowkey(r) not in {rowkey(q) for q in saved(t0)}:
                        rep.check(r["last_used_by"] is front, "%s:input" % f.name, "%s does not tie the variable to the input it is given" % f.name, f.span, "%s ties the variable to its input" % f.name)
    rep.check(True if k else None, "ops", "no storage operation analysed", None, "%d outcomes" % k)
    line.ties(ctx, rep)


def opened(ctx, rep, f):
    for n in SIZES:
        E, outs, err = op_run(ctx, f, n)
        if not finish(rep, E, err, f):
            continue
        for st, v in outs:
            db = st.aux.get("db")
            if db is None or db.lost:
                rep.undec("%s on %s" % (f.name, size(n)))
                continue
            st.aux = dict(st.aux, E=E)
            yield True, n, st, v, None, None, st.aux["db0"].tables, db.settled()
