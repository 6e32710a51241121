"""C25: the commands that remove and reload variables act on exactly the names they are given, and
reading a variable prefers the session's value"""
import sqldb as D
import terms as T
from terms import adt, fld, is_app
from ctx import events
from rules import line
from rules.common import *
from rules.db import VARS, capacity, op_run, size
from rules.session import node_runs
from rules.settings import command_name, command_trait, data_arg, mk_cell, result_kind
from rules.store import db_ty
from rules.vars import contains_rat, known, methods, pair_ty, payload, readers, rowkey, run, saved, stores, uses_db

SIZES = (0, 1, 2, "many")
WAYS = (("unreadable", 0), ("command", 0), ("tokens", 0), ("tokens", 1), ("tokens", 2))


def command_run(ctx, imp, d, n, kind, k):
    """the command given k names over a database with n inputs (None: without a database)"""
    P = ctx.P
    f = d["execute"]
    di, dty, j = data_arg(ctx, f)
    S = stores(ctx)
    tt, vi = line.token_ty(ctx)
    toks = [T.sym("token%d" % i, tt) for i in range(k)]
    lx = {g.id: g for g in line.lexers(ctx)}
    args, cell = [], None
    for i in range(1, f.argc + 1):
        t, nm = f.locals[i], f.names.get(i) or "arg%d" % i
        if i != di or not P.is_struct(t):
            args.append(T.sym(nm, t))
            continue
        fs = []
        for x, ft in enumerate(P.fields(t)):
            fn = (P.field_names(t) or {})[x] if not isinstance(P.field_names(t), dict) else P.field_names(t).get(x)
            v = T.sym("%s.%s" % (nm, fn), ft)
            u = P.tys[ft]["args"][0] if P.cat(ft) == "option" else ft
            if P.k(u) == "ref" and P.tys[u]["ty"] in set(S) | {db_ty(ctx)}:
                isdb = P.tys[u]["ty"] == db_ty(ctx)
                p = T.sym("the_db" if isdb else "the_vars", u)
                if not isdb:
                    cell = p
                v = p if u == ft else line.none_of(P, ft) if isdb and n is None else line.some_of(P, ft, p)
            fs.append(v)
        args.append(adt(t, 0, fs))
    if cell is None:
        raise Missing("the session's variables among the arguments of %s" % f.name)
    dbm = {g.id for g in P.fns if g and g.local and g.argc and P.k(g.locals[1]) == "ref" and P.tys[g.locals[1]]["ty"] == db_ty(ctx)}
    inl = {x for x in P.reach(f.id) | {f.id} if x not in dbm and x not in lx}
    lex = line.lex_hook(ctx, kind, toks)

    def extra(E, st, g, a):
        for g2 in lx.values():
            E.hooks[g2.name] = lex(g2)
        E.unroll = lambda fn: fn.id in inl
        E.unroll_max = 4096
        st.setaux("names", ())
        st.setaux("toks", tuple(toks))
    E, outs, err = op_run(ctx, f, 1 if n is None else n, extra=extra, key=("named", kind, k, n is None), args=args, opaque=lambda E, fid: fid in lx, lim=4096, retlim=4096)
    t = P.tys[cell.ty]["ty"]
    ft = P.fields(t)[S[t]]
    return E, [(st, v, fld(mk_cell(P, cell), 0, S[t], ft), fld(E.pointee(st, cell), 0, S[t], ft)) for st, v in outs], err


def map_ops(b, a):
    """what was done to the map: [(key, value or None)] oldest first, or None if not only that"""
    out = []
    while a is not b:
        if is_app(a, "mput") and len(a.a) >= 4:
            out.append((a.a[2], a.a[3]))
        elif is_app(a, "mdel"):
            out.append((a.a[2], None))
        else:
            return None
        a = a.a[1]
    return out[::-1]


def name_of(ctx, E, st, t):
    return E.strip(st, t)


def saved_values(ctx, rep, n):
    """name of a stored row -> the value reading it gives"""
    P = ctx.P
    out = {}
    N = T.sym("the_name", P.ty_by_s.get("std::string::String"))
    for g in readers(ctx):
        if g.argc and P.k(g.locals[1]) == "ref" and P.tys[g.locals[1]]["ty"] == db_ty(ctx):
            E, outs, err = run(ctx, g, n, True)
            if E is None or err:
                continue
            for st, v, b, a in outs:
                what, nm, val = payload(ctx, st.facts, v)
                if what != "some":
                    continue
                for r in saved(st.aux["db0"].tables):
                    if line.same(E, st, r["name"], N) is True and known(val):
                        out.setdefault(r["name"], set()).add(val)
    return out


def mentions(ctx, E, st):
    return [m for m, sure in line.mentioned(ctx, st)], all(sure for m, sure in line.mentioned(ctx, st))


def in_list(E, st, x, ms):
    """is x one of the names?"""
    es = [line.same(E, st, x, m) for m in ms]
    if any(e is True for e in es):
        return True
    # what was not compared because it is the same as a name that was
    es = [e if e is not None else next((e2 for e2, m2 in zip(es, ms) if e2 is not None and m2 is not m and (line.same(E, st, m, m2) is True or line.same(E, st, m2, m) is True)), None) for e, m in zip(es, ms)]
    return False if all(e is False for e in es) else None


def c25(ctx, rep):
    P = ctx.P
    done = {}
    for imp, d in sorted(command_trait(ctx).items()):
        nm = command_name(ctx, d)
        if nm in ("purgevar", "reloadvar"):
            done[nm] = d["execute"]
    for nm in ("purgevar", "reloadvar"):
        rep.check(True if nm in done else None, nm, "no command %s" % nm, None, "the command %s" % nm)
    for imp, d in sorted(command_trait(ctx).items()):
        nm = command_name(ctx, d)
        if nm in done:
            one(ctx, rep, imp, d, nm)
    reading(ctx, rep)


def one(ctx, rep, imp, d, nm):
    P = ctx.P
    f = d["execute"]
    purge = nm == "purgevar"
    good = 0
    for n in SIZES + (None,):
        want = saved_values(ctx, rep, n) if n is not None and not purge else {}
        for kind, k in WAYS:
            E, outs, err = command_run(ctx, imp, d, n, kind, k)
            if not finish(rep, E, err, f):
                continue
            for st, v, b, a in outs:
                db = st.aux.get("db")
                if db is None or db.lost:
                    rep.undec("%s on %s: %s" % (nm, size(n) if n is not None else "no database", db.lost if db is not None else "?"))
                    continue
                judge_one(ctx, rep, E, st, v, b, a, f, nm, purge, n, kind, k, want)
                good += result_kind(P, st.facts, v) == "Ok" and k > 0
    rep.check(True if good else None, nm + ":ok", "the command %s never succeeds" % nm, f.span, "%d ways for %s to succeed" % (good, nm))


def judge_one(ctx, rep, E, st, v, b, a, f, nm, purge, n, kind, k, want):
    P = ctx.P
    ok = result_kind(P, st.facts, v) == "Ok"
    ms, sure = mentions(ctx, E, st)
    t0, t1 = st.aux["db0"].tables, st.aux["db"].settled()
    if not line_read(st):
        ms = []
    if n is None:
        rep.check(saved(t0) == saved(t1), nm + ":nodb", "%s changes the database although none is in use" % nm, f.span)
    if ok:
        rep.check(True if sure else False, nm + ":kind", "%s accepts something else than names of variables" % nm, f.span, "%s accepts names only" % nm)
        rep.check(kind == "tokens", nm + ":unread", "%s succeeds although its arguments cannot be read as names" % nm, f.span)
    # the session
    ops = map_ops(b, a)
    if ops is None:
        rep.check(None if any(is_app(x, "mput") or is_app(x, "mdel") for x in T.subterms(a)) else False, nm + ":map", "%s changes the session's variables as a whole" % nm, f.span)
        return
    for key, val in ops:
        key = name_of(ctx, E, st, key)
        isin = in_list(E, st, key, ms)
        rep.check(isin if isin is not None else None, nm + ":other", "%s changes a session variable that it was not given" % nm, f.span, "%s changes only variables it was given" % nm)
        if purge:
            rep.check(val is None, nm + ":put", "%s sets a session variable" % nm, f.span)
    final = []
    for m in ms:
        l = [val for key, val in ops if line.same(E, st, name_of(ctx, E, st, key), m) is True or line.same(E, st, m, name_of(ctx, E, st, key)) is True]
        final.append(("none", None) if not l else ("put", l[-1]) if l[-1] is not None else ("del", None))
    if purge and ok:
        for m, (w, val) in zip(ms, final):
            from rules.vars import has
            rep.check(w == "del" or (w == "none" and has(ctx, E, st.facts, b, m) is False), nm + ":left", "%s can leave a session variable that it was given (%d given)" % (nm, k), f.span, "a given variable is removed from the session (%d given)" % k)
    # the database
    now = {r["name"]: r for r in saved(t1)}
    for r in saved(t0):
        x = r["name"]
        isin = in_list(E, st, x, ms) if ms else False
        if x not in now:
            rep.check(purge and isin is True or (None if purge and isin is None else False), nm + ":saved", "%s removes a saved variable that it was not given" % nm if purge else "%s removes a saved variable" % nm, f.span, "%s removes only saved variables it was given" % nm)
            continue
        same = rowkey(now[x]) == rowkey(r) and now[x]["last_used_by"] is r["last_used_by"]
        rep.check(same, nm + ":row", "%s changes a saved variable" % nm, f.span)
        if purge and ok and n is not None:
            rep.check(isin is False or (None if not sure else False), nm + ":kept", "%s can leave a saved variable that it was given (%d given)" % (nm, k), f.span, "a saved variable that is left was not given (%d given)" % k)
    rep.check(set(now) <= {r["name"] for r in saved(t0)}, nm + ":new", "%s stores a variable" % nm, f.span)
    if purge or not ok:
        return
    # reloading: the session value becomes the saved one
    rep.check(n is not None or not ms, nm + ":without", "%s succeeds without a database" % nm, f.span)
    for m, (w, val) in zip(ms, final):
        l = [r for r in saved(t0) if line.same(E, st, r["name"], m) is True or line.same(E, st, m, r["name"]) is True]
        may = [r for r in saved(t0) if line.same(E, st, r["name"], m) is None and in_list(E, st, r["name"], [m] + [y for y in ms if y is not m]) is None]
        if l:
            vals = want.get(l[0]["name"])
            if not vals:
                rep.undec("value of a saved variable")
                continue
            rep.check(True if w == "put" and val in vals else (False if w != "put" or known(val) else None), nm + ":value",
                      "%s %s" % (nm, "can leave a session variable although another value is saved" if w != "put" else "does not give the session the saved value of the variable"), f.span, "the session value becomes the saved one (%d given)" % k)
        elif w != "none":
            rep.check(False if not may else None, nm + ":absent", "%s changes a session variable of which nothing is saved" % nm, f.span)
        else:
            rep.check(not may, nm + ":skipped", "%s can skip a variable that it was given (%d given)" % (nm, k), f.span, "a variable that is not saved is left as it is (%d given)" % k)


def line_read(st):
    """were the arguments read?"""
    return any(e.tag == "read" for e in events(st.tr))


def reading(ctx, rep):
    """the session's value, else the saved one, else an error"""
    P = ctx.P
    S = stores(ctx)
    N = T.sym("the_name", P.ty_by_s.get("std::string::String"))
    reach = set()
    for f, r in node_runs(ctx):
        reach |= set(P.reach(f.id))
    gets = [g for g in methods(ctx) if contains_rat(ctx, g.locals[0]) and uses_db(ctx, g) == "maybe" and g.id in reach]
    rep.check(True if gets else None, "get", "nothing reads variables for the evaluation", None, "%d functions read variables for the evaluation" % len(gets))
    from rules.vars import has
    for g in gets:
        t = P.tys[g.locals[1]]["ty"]
        for n in SIZES + (None,):
            want = saved_values(ctx, rep, n) if n is not None else {}
            E, outs, err = run(ctx, g, 1 if n is None else n, n is not None)
            if E is None:
                rep.undec("arguments of %s" % g.name)
                continue
            if not finish(rep, E, err, g):
                continue
            for st, v, b, a in outs:
                db = st.aux.get("db")
                if db is None or db.lost:
                    rep.undec("%s: the database" % g.name)
                    continue
                what, nm, val = payload(ctx, st.facts, v)
                if what is None:
                    rep.undec("result of %s" % g.name)
                    continue
                h = has(ctx, E, st.facts, b, N)
                ops = map_ops(b, a)
                t0, t1 = st.aux["db0"].tables, db.settled()
                l = [r for r in saved(t0) if line.same(E, st, r["name"], N) is True] if n is not None else []
                may = [r for r in saved(t0) if line.same(E, st, r["name"], N) is None] if n is not None else []
                if h is None:
                    rep.check(False if val is None or known(val) else None, "get:ignores", "%s does not look at the session's variables" % g.name, g.span)
                    continue
                if h:
                    mine = is_app(val, "mget") and val.a[1 if len(val.a) > 2 else 0] is b if val is not None else False
                    rep.check(True if what == "some" and mine else (False if what != "some" or known(val) else None), "get:session", "%s does not give a variable its session value" % g.name, g.span, "the session's value comes first")
                elif l:
                    if what == "err":
                        rep.ok("a saved value that cannot be read is an error")
                    else:
                        rep.check(True if what == "some" and val in want.get(l[0]["name"], ()) else (False if what != "some" or known(val) else None), "get:saved", "%s does not give a variable its saved value" % g.name, g.span, "the saved value comes next")
                elif what == "none" or what == "err":
                    rep.check(not may, "get:missed", "%s can miss a saved variable" % g.name, g.span, "a variable found nowhere has no value")
                else:
                    rep.check(False if val is not None and known(val) else None, "get:nothing", "%s gives a value to a variable that has none" % g.name, g.span)
                for key, x in ops or ():
                    rep.check(line.same(E, st, name_of(ctx, E, st, key), N) is True and x is val and x is not None, "get:caches", "reading a variable changes the session's variables", g.span, "reading keeps at most the value read")
                if ops is None:
                    rep.undec("the session's variables after %s" % g.name)
                rep.check([rowkey(r) for r in saved(t0)] == [rowkey(r) for r in saved(t1)], "get:rows", "reading a variable changes the saved ones", g.span)
    # what the evaluation does with a variable found nowhere
    ids = {g.id for g in gets}
    paths = {g.path for g in gets} | {g.name for g in gets}
    k = 0
    for f, (E, outs, err) in node_runs(ctx):
        if not (set(P.reach(f.id)) & ids):
            continue
        if not finish(rep, E, err, f):
            continue
        for st, v in outs:
            for e in events(st.tr):
                if e.name in paths or e.path in paths:
                    what, nm, val = payload(ctx, st.facts, e.ret)
                    for x in e.args:
                        x = E.strip(st, x)
                        if isinstance(x.ty, int) and (P.cat(x.ty) == "str" or P.tys[x.ty]["s"] == "str"):
                            own = all(y.op in ("sym", "fld", "deref", "unbox", "box", "cell0") for y in T.subterms(x) if isinstance(y, T.Term))
                            rep.check(True if own else (False if known(x) else None), "eval:name", "%s reads another variable than the one named" % f.name, f.span, "the variable named is the one read")
                    if what == "some" and result_kind(P, st.facts, v) == "Ok":
                        r = v.a[1][0] if v.op == "adt" and v.a[1] else None
                        rep.check(True if r is val else (False if r is not None and known(r) else None), "eval:value", "%s does not evaluate to the value of the variable" % f.name, f.span, "a variable evaluates to its value")
                    if what in ("none", "err"):
                        k += 1
                        rep.check(result_kind(P, st.facts, v) == "Err", "eval:%s" % what, "a variable %s is not an error in %s" % ("found nowhere" if what == "none" else "that cannot be read", f.name), f.span, "a variable without value is an error")
    rep.check(True if k else None, "eval", "no evaluation of a variable", None)


# ------------------------------------------------------------------------- the history's size (C08)
def int_readers(ctx):
    """functions giving the integers a text lists: function -> type of an element"""
    P = ctx.P
    i64 = P.ty_by_s.get("i64")
    out = {}
    for f in P.fns:
        if not (f and f.local) or f.closure or "promoted" in f.name or P.cat(f.locals[0]) != "result":
            continue
        t = P.tys[f.locals[0]]["args"][0]
        if P.cat(t) == "seq" and any(P.tys[P.strip(f.locals[i])]["s"] in ("str", "std::string::String") for i in range(1, f.argc + 1)):
            e = P.tys[t]["args"][0]
            if e == i64 or P.is_struct(e) and i64 in P.fields(e):
                out[f] = e
    return out


def histcap(ctx, rep):
    """/histcap sets the size it is given, shows the present one, and rejects without a change"""
    P = ctx.P
    i64 = P.ty_by_s.get("i64")
    cmds = [(imp, d) for imp, d in command_trait(ctx).items() if command_name(ctx, d) == "histcap"]
    readers_ = int_readers(ctx)
    if len(cmds) != 1 or not readers_:
        rep.undec("/histcap: %d commands, %d readers of integers" % (len(cmds), len(readers_)))
        return
    f = cmds[0][1]["execute"]
    for k in (0, 1, 2):
        vals = [T.sym("given%d" % i, i64) for i in range(k)]
        for n in (0, 2, "many"):
            E, outs, err = histcap_run(ctx, f, n, vals, readers_)
            if not finish(rep, E, err, f):
                continue
            for st, v in outs:
                db = st.aux.get("db")
                if db is None or db.lost or "read_ints" not in st.aux:
                    rep.undec("/histcap: %s" % ("the text is not read as integers" if db is not None and not db.lost else db.lost if db is not None else "?"))
                    continue
                c0, c1 = capacity(st.aux["db0"].tables), capacity(db.settled())
                rk = result_kind(P, st.facts, v)
                if rk == "Err" or k != 1:
                    rep.check(c1 is c0, "histcap:rejected", "/histcap %s changes the size of the history" % ("with %d sizes" % k if k != 1 else "is rejected and"), f.span, "/histcap with %d sizes (%s): size kept" % (k, rk))
                if k == 0:
                    # the numbers in the message that depend on the size
                    nums = [x.a[1] for x in T.subterms(v) if x.op == "app" and x.a[0] in ("display", "radixstr") and any(y is c0 for y in T.subterms(x.a[1]))]
                    rep.check(rk == "Ok" and any(x is c0 for x in T.subterms(v)) and all(x is c0 for x in nums), "histcap:show", "/histcap without a size %s" % ("does not show the size" if rk == "Ok" else "fails"), f.span, "/histcap shows the size")
                elif k == 1 and rk == "Ok":
                    same = c1 is not None and (c1 is vals[0] or st.facts.decide(eq0(sub(c1, vals[0]))) is True)
                    rep.check(same, "histcap:value", "/histcap succeeds but the size of the history is %s" % ("as before" if c1 is c0 else "another one"), f.span, "/histcap sets the size it is given")
                elif k == 1 and rk == "Err":
                    bad = [x for x in (1, 5, 100, 1000) if st.facts.assume(eq0(sub(vals[0], I(x)))) is not None]
                    rep.check(not bad, "histcap:accept", "/histcap %s is rejected" % (bad[0] if bad else ""), f.span, "/histcap: rejected for sizes that cannot be used only")


def histcap_run(ctx, f, n, vals, readers_):
    P = ctx.P
    di, dty, j = data_arg(ctx, f)
    args = []
    for i in range(1, f.argc + 1):
        t, nm = f.locals[i], f.names.get(i) or "arg%d" % i
        if i != di or not P.is_struct(t):
            args.append(T.sym(nm, t))
            continue
        fs = []
        for x, ft in enumerate(P.fields(t)):
            u = P.tys[ft]["args"][0] if P.cat(ft) == "option" else ft
            v = T.sym("data%d" % x, ft)
            if u != ft and P.k(u) == "ref" and P.tys[u]["ty"] == db_ty(ctx):
                v = line.some_of(P, ft, T.sym("the_db", u))
            fs.append(v)
        args.append(adt(t, 0, fs))

    def hook(g):
        def h(E, st, c, a, cx):
            st = st.fork()
            st.setaux("read_ints", True)
            seq = E.M.lit([line.positioned(ctx, readers_[g], x, "int%d" % i) for i, x in enumerate(vals)])
            return [(st, E.M.ok(E, cx.ty, seq))]
        return h

    def extra(E, st, g, a):
        for g2 in readers_:
            E.hooks[g2.name] = hook(g2)
    return op_run(ctx, f, n, extra=extra, key=("histcap", len(vals)), args=args, opaque=lambda E, fid: P.fns[fid] in readers_)
