"""C14, C15, C21: the statements run against the database."""
import re
import sqlite3

from rules.common import *
from rules.session import callee_path, effects, effect
from rules.settings import result_kind

SQLCALLS = ("execute", "execute_batch", "query_row", "query_row_and_then", "query_one", "prepare", "prepare_cached", "prepare_with_flags")


def db_ty(ctx):
    """the structure holding the database connection"""
    def go():
        P = ctx.P
        l = [i for i, t in enumerate(P.tys) if P.is_struct(i) and not t["s"].startswith("rusqlite") and any(P.tys[x]["s"] == "rusqlite::Connection" for x in P.fields(i))]
        return ctx.the("structure holding the database connection", l)
    return ctx.memo("db_ty", go)


def direct_db(ctx, f):
    return any(callee_path(ctx.P, c).startswith("rusqlite::") and effect(ctx.P, c) in ("db", "dbopen") for _, c, _ in ctx.P.calls(f))


def db_ops(ctx):
    """(opening functions, operations on an open database), outermost"""
    def go():
        P = ctx.P
        d = db_ty(ctx)
        opening, ops = [], []
        for f in P.fns:
            if not (f and f.local) or f.closure or "promoted" in f.name:
                continue
            ef = effects(ctx, f.id)
            if "dbopen" in ef and P.contains(f.locals[0], lambda t: t == d, "args") and not any(P.contains(f.locals[i], lambda t: t == d, "args") for i in range(1, f.argc + 1)):
                opening.append(f)
            elif "db" in ef and f.argc >= 1 and P.k(f.locals[1]) == "ref" and P.tys[f.locals[1]]["ty"] == d and "read" not in ef:
                ops.append(f)
        if len(opening) > 1:
            inner = set()
            for f in opening:
                inner |= P.reach(f.id) - {f.id}
            opening = [f for f in opening if f.id not in inner] or opening
        if not opening:
            raise Missing("function opening the database")
        return opening, ops
    return ctx.memo("db_ops", go)


def db_run(ctx, f):
    return ctx.analyse(f, pre=False, lim=32, retlim=256, key=("db", f.id), budget=300)


def is_db(e):
    return e.path.startswith(("rusqlite::", "drop:rusqlite", "<rusqlite")) or isinstance(e.c, dict) and callee_path(None, e.c).startswith("rusqlite::")


def strip_ref(t):
    while t.op in ("refv", "box", "dynref"):
        t = t.a[0]
    return t


def sql_of(e):
    """(statement text or None when not constant) of an event running SQL; False when it runs none"""
    if not is_db(e) or e.name not in SQLCALLS:
        return False
    for a in e.args[1:2]:
        return T.const_str(strip_ref(a))
    return False


def params_of(P, e):
    """parameters bound: ('named', {name: value}), ('pos', [values]) or None when unknown"""
    if len(e.args) < 3:
        return ("pos", [])
    a = strip_ref(e.args[2])
    if a.op == "adt" and P.k(a.ty) == "tuple":
        return ("pos", [strip_ref(x) for x in a.a[1]])
    es = T.const_elems(a)
    if es is None:
        return None
    named, pos = {}, []
    for x in es:
        x = strip_ref(x)
        if x.op == "adt" and isinstance(x.ty, int) and P.k(x.ty) == "tuple" and len(x.a[1]) == 2 and T.const_str(strip_ref(x.a[1][0])) is not None:
            named[T.const_str(strip_ref(x.a[1][0]))] = strip_ref(x.a[1][1])
        else:
            pos.append(x)
    if named and pos:
        return None
    return ("named", named) if named else ("pos", pos)


def params_in(sql):
    """parameter names in a statement (quoted text and comments removed)"""
    s = re.sub(r"'(?:[^']|'')*'|\"[^\"]*\"|--[^\n]*|/\*.*?\*/", " ", sql, flags=re.S)
    return re.findall(r"[:@$][A-Za-z_][A-Za-z_0-9]*|\?\d*", s)


def schema_flow(ctx, f, E, outs, visit):
    """visit(event, statements creating tables run before it) along every path of the opener"""
    def step(q, n):
        if n.kind != "ev":
            return [q]
        s = sql_of(n.ev)
        if s is False:
            return [q]
        visit(n.ev, q)
        if s is not None and re.match(r"\s*(CREATE|ALTER|DROP)\b", s, re.I):
            return [q if s in q else q + (s,)]
        return [q]
    S = flow([st.tr for st, _ in outs], [()], step)
    fin = set()
    for st, v in outs:
        if result_kind(ctx.P, st.facts, v) == "Ok" and any(is_db(e) for e in events(st.tr)):
            fin |= S[st.tr.id]
    return fin


def prepared(schema, sql):
    """None when sql is valid against the schema, else the reason; also the result columns"""
    con = sqlite3.connect(":memory:")
    try:
        for s in schema:
            con.executescript(s)
        cur = con.cursor()
        names = params_in(sql)
        binds = {n[1:]: None for n in names if n[0] != "?"} if names and names[0][0] != "?" else [None] * len(names)
        isq = re.match(r"\s*(SELECT|VALUES|WITH|PRAGMA)\b", sql, re.I)
        ddl = re.match(r"\s*(CREATE|ALTER|DROP|BEGIN|COMMIT|ROLLBACK|SAVEPOINT|RELEASE|ATTACH|DETACH|VACUUM)\b", sql, re.I)
        if re.match(r"\s*PRAGMA\b", sql, re.I):
            cur.execute(sql, binds)
            return None, len(cur.description or ())
        cur.execute("EXPLAIN " + sql, binds)
        if isq and not ddl:
            cur = con.cursor()
            cur.execute(sql, binds)
            return None, len(cur.description or ())
        return None, None
    except (sqlite3.Error, sqlite3.Warning) as x:
        return str(x), None
    finally:
        con.close()


def columns_read(ctx, e):
    """constant column indices read by the row closure given to the event: (set, all known)"""
    P = ctx.P
    out, known = set(), True
    for a in e.args:
        a = strip_ref(a)
        if not (isinstance(a.ty, int) and P.k(a.ty) in ("closure", "fndef")):
            continue
        inst = P.tys[a.ty].get("inst")
        if inst is None or P.fns[inst] is None:
            continue
        for i in P.reach(inst):
            g = P.fns[i]
            if not g.local:
                continue
            for _, c, t in P.calls(g):
                if callee_path(P, c).startswith("rusqlite::Row") and c.get("name") in ("get", "get_unwrap", "get_ref", "get_ref_unwrap"):
                    x = t[2][1]
                    if x[0] == "const" and isinstance(x[1], dict) and "int" in x[1]:
                        out.add(x[1]["int"])
                    else:
                        known = False
    return out, known


def c21(ctx, rep):
    P = ctx.P
    opening, ops = db_ops(ctx)
    seen = set()
    final = set()
    sites = {}

    def look(e, schema, who):
        sites.setdefault((e.span, e.name), []).append((e, schema, who))
    for f in opening:
        E, outs, err = db_run(ctx, f)
        if not finish(rep, E, err, f):
            continue
        seen |= set(E.fns_seen)
        final |= schema_flow(ctx, f, E, outs, lambda e, q: look(e, q, f))
    if len(final) != 1:
        rep.undec("%d different schemas at the end of opening the database" % len(final))
        if not final:
            return
    for f in ops:
        E, outs, err = db_run(ctx, f)
        if not finish(rep, E, err, f):
            continue
        seen |= set(E.fns_seen)
        for st, v in outs:
            for e in events(st.tr):
                if sql_of(e) is not False:
                    for q in final:
                        look(e, q, f)
    # anything else that runs SQL
    for g in P.fns:
        if g and g.local and "promoted" not in g.name and direct_db(ctx, g) and g.id not in seen and g.name not in seen and not used_in_tests(ctx, g):
            E, outs, err = db_run(ctx, g)
            if finish(rep, E, err, g):
                for st, v in outs:
                    for e in events(st.tr):
                        if sql_of(e) is not False:
                            for q in final:
                                look(e, q, g)
    done = set()
    for (span, name), l in sorted(sites.items(), key=lambda x: str(x[0])):
        for e, schema, f in l:
            sql = sql_of(e)
            if sql is None:
                t = strip_ref(e.args[1])
                rep.check(False, "text:%s" % f.name, "the text of a statement is put together at run time: %s" % show(t)[:100], span)
                continue
            key = (span, sql, schema)
            ps = params_of(P, e)
            pk = None if ps is None else (ps[0], tuple(ps[1]) if ps[0] == "named" else len(ps[1]))
            if (key, pk) in done:
                continue
            done.add((key, pk))
            short = " ".join(sql.split())[:70]
            why, ncol = prepared(schema, sql)
            rep.check(why is None, "invalid:%s" % short, "the statement \"%s\" is not valid: %s" % (short, why), span, "statement is valid against the schema: %s" % short)
            if why is not None:
                continue
            isq = ncol is not None
            if name == "execute" and isq and not re.match(r"\s*PRAGMA\b", sql, re.I):
                rep.fail("kind:%s" % short, "a statement returning rows is run as one returning none: %s" % short, span)
            if name.startswith("query") and not isq and "RETURNING" not in sql.upper():
                rep.fail("kind:%s" % short, "a row is read from a statement that returns none: %s" % short, span)
            if name.startswith("prepare"):
                rep.undec("parameters of a prepared statement: %s" % short)
            else:
                want = params_in(sql)
                if ps is None:
                    rep.undec("parameters of %s" % short)
                elif ps[0] == "named":
                    w, h = set(want), set(ps[1])
                    rep.check(w == h, "params:%s" % short, "the statement names the parameters %s but is given %s: %s" % (sorted(w), sorted(h), short), span, "parameters %s are exactly those given" % sorted(w))
                else:
                    n = len(set(want)) if not any(x == "?" for x in want) else len(want)
                    rep.check(len(ps[1]) == n, "params:%s" % short, "the statement has %d parameters but is given %d: %s" % (n, len(ps[1]), short), span, "%d parameters" % n)
            if isq and name.startswith("query"):
                cols, known = columns_read(ctx, e)
                for i in sorted(cols):
                    rep.check(0 <= i < ncol, "column:%s" % short, "column %d of a row with %d columns is read: %s" % (i, ncol, short), span, "column %d exists: %s" % (i, short))
    rep.count("statements", len({(s, q) for (s, q, _), _ in done}))
    rep.check(True if done else None, "sites", "no statements found", None, "%d statement sites" % len(sites))


def used_in_tests(ctx, g):
    return False


# ---------------------------------------------------------------- keys of the key/value tables
# the keys are part of the stored format (documented in /repo/src/saved_data.rs), so they are given here
KEYS = {"Version": 1, "MinimumVersion": 2, "MaxHistorySize": 3, "Front": 1, "Back": 2}


def modifies(sql):
    return bool(re.match(r"\s*(INSERT|UPDATE|DELETE|REPLACE|CREATE|DROP|ALTER|VACUUM|ATTACH|REINDEX|WITH)\b", sql, re.I))


PRAGMA_OK = ("foreign_keys", "busy_timeout", "defer_foreign_keys", "case_sensitive_like", "recursive_triggers", "cache_size", "temp_store", "query_only", "trusted_schema")


def harmless_pragma(sql):
    m = re.match(r"\s*PRAGMA\s+(?:\w+\.)?(\w+)\s*(.?)", sql, re.I)
    return bool(m) and (m.group(1).lower() in PRAGMA_OK or m.group(2) not in ("=", "("))


def table_of(sql):
    m = re.match(r"\s*(?:INSERT\s+(?:OR\s+\w+\s+)?INTO|REPLACE\s+INTO|UPDATE(?:\s+OR\s+\w+)?|DELETE\s+FROM|SELECT\b.*?\bFROM)\s+[\"`\[]?(\w+)", sql, re.I | re.S)
    return m.group(1).lower() if m else None


def version_stored(ctx):
    """the version this program writes into a new database"""
    P = ctx.P
    k = KEYS["Version"]
    vals = set()
    for f in db_ops(ctx)[0]:
        E, outs, err = db_run(ctx, f)
        for st, v in outs:
            for e in events(st.tr):
                s = sql_of(e)
                if s and modifies(s) and table_of(s) == "meta_int":
                    ps = params_of(P, e)
                    if ps and ps[0] == "named":
                        ints = [x.a[0] for x in ps[1].values() if x.op == "int"]
                        if ps[1].get(":key") is not None and ps[1][":key"].op == "int" and ps[1][":key"].a[0] == k:
                            vals |= {x for n, x in ps[1].items() if n != ":key"}
    if k is None or len(vals) != 1 or list(vals)[0].op != "int":
        return None
    return list(vals)[0].a[0]


def reads_key(ctx, sql, ps, table, key):
    """does the query read the value stored under key in the key/value table?"""
    if not sql or table_of(sql) != table or not re.match(r"\s*SELECT\s+value\b", sql, re.I) or ps is None:
        return False
    vals = list(ps[1].values() if ps[0] == "named" else ps[1])
    if len(vals) == 1 and vals[0].op == "int":
        return vals[0].a[0] == key
    return bool(re.search(r"\bkey\s*=\s*%d\b" % key, sql)) and not vals


def open_run(ctx, f, V, key):
    from models import m_query_row
    P = ctx.P

    def hook(E, st, c, args, cx):
        class X:
            pass
        x = X()
        x.c, x.args, x.name, x.path = c, args, "query_row", "rusqlite::Connection::query_row"
        r = m_query_row(E, st, c, args, cx)
        if reads_key(ctx, sql_of(x) or None, params_of(P, x), "meta_int", key):
            for s, v in r:
                cols = [t for t in T.subterms(v) if is_app(t, "col")]
                if cols:
                    s.setaux("minver", cols[0])
        return r

    def status(st):
        """None: not read; else (True, is it known to be / not to be supported)"""
        if "mindec" in st.aux:
            return True, st.aux["mindec"]
        m = st.aux.get("minver")
        if m is None:
            return None
        d = st.facts.decide(ge0(sub(I(V), m)))
        if d is not None:
            st.setaux("mindec", d)
        return True, d

    def setup(E):
        for n in ("query_row", "query_row_and_then"):
            E.hooks["rusqlite::Connection::" + n] = hook
        E.extra_key = status
    return status, ctx.analyse(f, pre=False, lim=64, retlim=512, key=("open", f.id), budget=300, setup=setup)


def sql_kind(sql):
    """'begin', 'commit', 'rollback', 'write', 'pragma', 'read' or None"""
    if sql is None:
        return "write"
    w = re.match(r"\s*(\w+)", sql)
    w = w.group(1).upper() if w else ""
    if w in ("BEGIN", "SAVEPOINT"):
        return "begin"
    if w in ("COMMIT", "END", "RELEASE"):
        return "commit"
    if w == "ROLLBACK":
        return "rollback"
    if w == "PRAGMA":
        return None if harmless_pragma(sql) else "write"
    if w in ("SELECT", "VALUES", "EXPLAIN"):
        return "read"
    return "write" if modifies(sql) else None


def tx_effect(e):
    """what the event does to the transaction: (kind, succeeded)"""
    if not is_db(e):
        return None
    ok = not failed(e)
    if "ransaction" in e.path or "Savepoint" in e.path:
        if e.name in ("transaction", "transaction_with_behavior", "unchecked_transaction", "new", "new_unchecked", "savepoint"):
            return "begin", ok
        if e.name in ("commit",):
            return "commit", ok
        if e.name in ("drop", "rollback", "finish"):
            return "end", ok
        if e.name == "set_drop_behavior":
            a = e.args[1] if len(e.args) > 1 else None
            return "dropmode", a
    if e.name in ("transaction", "transaction_with_behavior", "unchecked_transaction", "savepoint"):
        return "begin", ok
    s = sql_of(e)
    if s is False:
        return None
    k = sql_kind(s)
    return (k, ok) if k else None


def rolls_back(P, a):
    return a is not None and a.op == "adt" and P.variant_name(a.ty, a.a[0]) in ("Rollback", "Ignore", "Panic")


def tx_step(P):
    """state: (transaction: None / 'open' / 'open!' (committed when dropped), written in it, durable changes (0, 1, 2), first place)"""
    def step(q, n):
        if n.kind != "ev":
            return [q]
        x = tx_effect(n.ev)
        if x is None:
            return [q]
        tx, dirty, done, at = q
        k, ok = x
        sp = n.ev.span
        if k == "begin" and ok:
            return [("open", False, done, at)]
        if k == "dropmode":
            return [(tx if not tx else "open" if rolls_back(P, ok) else "open!", dirty, done, at)]
        if k == "commit" or k == "end" and tx == "open!":
            if tx and dirty and ok:
                # committed when dropped: whatever was done so far takes effect
                return [(None, False, min(2, done + (2 if k == "end" else 1)), at or sp)]
            return [(None, False, done, at)]
        if k in ("end", "rollback"):
            return [(None, False, done, at)]
        if k == "write" and ok:
            if tx:
                return [(tx, True, done, at)]
            return [(None, False, min(2, done + 1), at or sp)]
        return [q]
    return step


T0 = (None, False, 0, None)


def c14(ctx, rep):
    P = ctx.P
    V = version_stored(ctx)
    key = KEYS["MinimumVersion"]
    if V is None or key is None:
        rep.undec("supported version or key of the minimum version not found (%s, %s)" % (V, key))
        return
    n = 0
    for f in db_ops(ctx)[0]:
        status, (E, outs, err) = open_run(ctx, f, V, key)
        if not finish(rep, E, err, f):
            continue
        S = flow([st.tr for st, _ in outs], [T0], tx_step(P))
        before(ctx, rep, f, outs, key)
        for st, v in outs:
            evs = events(st.tr)
            if not any(is_db(e) for e in evs):
                continue
            n += 1
            s = status(st)
            rk = result_kind(P, st.facts, v)
            if rk == "Ok" or rk is None:
                rep.check(s is not None and s[1] is True, "refuse:%s" % f.name, "%s can succeed without the database's minimum version being known to be at most %d" % (f.name, V), f.span, "success implies minimum version <= %d" % V)
            if s is not None and s[1] is False or s is None:
                # refused, or given up before the version was known to be supported
                for tx, _, done, at in S[st.tr.id]:
                    rep.check(done == 0, "unmodified:%s" % f.name, "the database is changed for good at %s although its minimum version may be above %d" % (at, V), at, "nothing is changed for good before the version is checked")
            if s is not None and s[1] is None and rk == "Err":
                for tx, _, done, at in S[st.tr.id]:
                    rep.check(done == 0, "unmodified:%s" % f.name, "the database is changed for good at %s before the version is checked" % at, at, "nothing is changed before the version is checked")
            if rk == "Err" and not any(failed(e) or is_app(e.ret, "norows") for e in last_ops(st.tr)):
                rep.check(s is not None and s[1] is False, "supported:%s" % f.name, "%s can refuse a database of a supported version" % f.name, f.span, "a refusal without a failed operation implies a minimum version above %d" % V)
    rep.check(True if n else None, "paths", "no way of opening the database found", None, "%d outcomes" % n)
    # the minimum version written is one this very program accepts
    mv = set()
    for f in db_ops(ctx)[0]:
        E, outs, err = db_run(ctx, f)
        for st, v in outs:
            for e in events(st.tr):
                s = sql_of(e)
                ps = params_of(P, e) if s else None
                if s and modifies(s) and table_of(s) == "meta_int" and ps and ps[0] == "named" and ps[1].get(":key") is I(key):
                    mv |= {x for nm, x in ps[1].items() if nm != ":key"}
    for x in mv:
        rep.check(x.a[0] <= V if x.op == "int" else None, "own", "a new database is given a minimum version this program refuses", None, "own minimum version accepted")


def before(ctx, rep, f, outs, key):
    """nothing replaces the stored minimum version before it is read"""
    P = ctx.P

    def step(q, n):
        if n.kind != "ev":
            return [q]
        s = sql_of(n.ev)
        if s is False:
            return [q]
        if reads_key(ctx, s, params_of(P, n.ev), "meta_int", key):
            if q:
                rep.fail("overwritten:%s" % f.name, "the stored minimum version can be replaced (at %s) before it is read" % q, q)
            return [None]
        if s is None or sql_kind(s) == "write" and table_of(s) in ("meta_int", None) and not re.match(r"\s*(INSERT\s+OR\s+IGNORE|CREATE\s+TABLE\s+IF\s+NOT)\b", s, re.I) and "DO NOTHING" not in s.upper():
            ps = params_of(P, n.ev)
            k = ps[1].get(":key") if ps and ps[0] == "named" else None
            if k is None or k.op != "int" or k.a[0] == key:
                return [n.ev.span]
        return [q]
    flow([st.tr for st, _ in outs], [None], step)


def last_ops(tr):
    """the operations that can be the last one before the end of the trace (destructors skipped)"""
    out, seen, w = [], set(), [tr]
    while w:
        n = w.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.kind == "ev" and n.ev.name != "drop":
            out.append(n.ev)
            continue
        w.extend(n.prev)
    return out


# ---------------------------------------------------------------- C15
def writes_of(ctx, f):
    """tables (and key/value keys) modified by a database operation: set of (verb, table, key)"""
    def go():
        P = ctx.P
        E, outs, err = db_run(ctx, f)
        out = set()
        for st, v in outs:
            for e in events(st.tr):
                s = sql_of(e)
                if s and sql_kind(s) == "write":
                    ps = params_of(P, e)
                    k = None
                    if ps and ps[0] == "named" and ps[1].get(":key") is not None and ps[1][":key"].op == "int":
                        k = ps[1][":key"].a[0]
                    out.add((re.match(r"\s*(\w+)", s).group(1).upper(), table_of(s), k))
        return out
    return ctx.memo(("writes", f.id), go)


def roots_of(ctx, ops):
    """the outermost functions, below the evaluation of a line and the dispatch of commands, doing one of ops"""
    from rules.settings import calc_fn, command_trait
    P = ctx.P
    ids = {f.id for f in ops}
    cmds = {i["execute"].id for i in command_trait(ctx).values()}
    calc = calc_fn(ctx)
    cand = set()
    for f in P.fns:
        if not (f and f.local) or f.closure or "promoted" in f.name:
            continue
        r = P.reach(f.id)
        if not (r & ids) or calc.id in r or "read" in effects(ctx, f.id):
            continue
        if f.id not in cmds and r & cmds:
            continue
        cand.add(f.id)
    inner = set()
    for i in cand:
        inner |= {x for x in P.reach(i) if x != i}
    return [P.fns[i] for i in cand - inner]


def c15(ctx, rep):
    P = ctx.P
    opening, ops = db_ops(ctx)
    rec = [f for f in ops if any(v in ("INSERT", "REPLACE") and t == "input_history" for v, t, k in writes_of(ctx, f))]
    cap = [f for f in ops if any(t == "meta_int" and k in (KEYS["MaxHistorySize"], None) for v, t, k in writes_of(ctx, f))]
    if not rec or not cap:
        rep.undec("recording an input or changing the capacity not found")
    todo = [(f, "opening the database") for f in opening]
    todo += [(f, "recording an input") for f in roots_of(ctx, rec)]
    todo += [(f, "changing the history capacity") for f in roots_of(ctx, cap)]
    ends = 0
    for f, what in todo:
        E, outs, err = db_run(ctx, f)
        if not finish(rep, E, err, f):
            continue
        S = flow([st.tr for st, _ in outs], [T0], tx_step(P))
        for st, v in outs:
            rk = result_kind(P, st.facts, v)
            for tx, dirty, done, at in S[st.tr.id]:
                ends += 1
                rep.check(done <= 1, "atomic:%s" % f.name, "%s (%s) can change the database in several separate steps; the first is at %s" % (what, f.name, at), at, "%s changes the database in one step (%s)" % (what, rk))
                rep.check(not tx, "open:%s" % f.name, "%s can end with its transaction still open" % what, f.span, "no transaction is left open after %s" % what)
        # success without having taken effect
        W = flow([st.tr for st, _ in outs], [(T0, False)], lambda q, n: [(x, q[1] or bool(n.kind == "ev" and tx_effect(n.ev) == ("write", True))) for x in tx_step(P)(q[0], n)])
        for st, v in outs:
            if result_kind(P, st.facts, v) == "Ok":
                for x, wrote in W[st.tr.id]:
                    rep.check(not wrote or x[2] >= 1, "effect:%s" % f.name, "%s can report success although its changes were rolled back" % what, f.span, "success of %s means its changes are committed" % what)
    rep.check(True if ends else None, "ends", "no ends analysed", None, "%d ends" % ends)
    keys(ctx, rep, opening)


def keys(ctx, rep, opening):
    """referential integrity enforcement"""
    P = ctx.P
    default = "bundled" in open(__import__("os").path.join(__import__("extract").REPO, "Cargo.toml")).read()

    def step(q, n):
        if n.kind != "ev":
            return [q]
        on, tx = q
        x = tx_effect(n.ev)
        s = sql_of(n.ev) if is_db(n.ev) else False
        if s and tx is False and not failed(n.ev):
            m = re.match(r"\s*PRAGMA\s+(?:\w+\.)?foreign_keys\s*[=(]\s*['\"]?(\w+)", s, re.I)
            if m:
                on = m.group(1).lower() in ("on", "1", "true", "yes")
                if not on:
                    rep.fail("keys:off", "referential integrity enforcement is switched off", n.ev.span)
        if x and x[0] == "begin" and x[1]:
            tx = True
        elif x and x[0] in ("commit", "end", "rollback"):
            tx = False
        return [(on, tx)]
    for f in opening:
        E, outs, err = db_run(ctx, f)
        if err:
            continue
        S = flow([st.tr for st, _ in outs], [(default, False)], step)
        for st, v in outs:
            if result_kind(P, st.facts, v) == "Ok" and any(is_db(e) for e in events(st.tr)):
                for on, tx in S[st.tr.id]:
                    rep.check(on, "keys", "the database is opened without referential integrity enforcement", f.span, "referential integrity is enforced once the database is open")
    _, ops = db_ops(ctx)
    for f in ops:
        E, outs, err = db_run(ctx, f)
        if not err:
            flow([st.tr for st, _ in outs], [(True, False)], step)


# ---------------------------------------------------------------- C20
def storage_fns(ctx):
    """local functions whose failure may be a failed storage operation"""
    def go():
        P = ctx.P
        out = set()
        for f in P.fns:
            if f and f.local and "promoted" not in f.name and (effects(ctx, f.id) & {"db", "dbopen", "fs"}):
                out.add(f.id)
        return out
    return ctx.memo("storage_fns", go)


def env_hook(E, st, c, args, cx):
    """reading an environment variable: set, unset (not a failure here), or unreadable"""
    P = E.P
    x, et = P.tys[cx.ty]["args"][:2]
    np = P.variant_index(et, "NotPresent") if P.is_enum(et) else None
    if np is None:
        return None
    path = callee_path(P, c)
    out = []
    s1, s2, s3 = st.fork(), st.fork(), st.fork()
    v = E.default("env", x)
    E.event(s1, "var", path, args, v, cx.span, c, "external")
    out.append((s1, T.adt(cx.ty, 0, [v])))
    E.event(s2, "var", path, args, app("unset", ()), cx.span, c, "external")
    out.append((s2, T.adt(cx.ty, 1, [T.adt(et, np, ())])))
    e = E.default("enverr", et)
    s3.facts = s3.facts.exclude_variants(e, {np})
    E.event(s3, "var", path, args, app("failed", (e,)), cx.span, c, "external")
    out.append((s3, T.adt(cx.ty, 1, [e])))
    return out


def mkdir_hook(E, st, c, args, cx):
    """creating a directory: done, already there (not a failure here), or failed"""
    P = E.P
    x, et = P.tys[cx.ty]["args"][:2]
    path = callee_path(P, c)
    kt = [i for i, t in enumerate(P.tys) if P.is_enum(i) and t["s"] == "std::io::ErrorKind"]
    s1 = st.fork()
    E.event(s1, c["name"], path, args, TRUE, cx.span, c, "external")
    out = [(s1, T.adt(cx.ty, 0, [E.default("unit", x)]))]
    if kt:
        k = P.variant_index(kt[0], "AlreadyExists")
        for there in (True, False):
            e = E.default("mkdirerr", et)
            kind = app("iokind", (e,), kt[0])
            s = st.fork()
            fx = s.facts.know_variant(kind, k) if there else s.facts.exclude_variants(kind, {k})
            if fx is None:
                continue
            s.facts = fx
            E.event(s, c["name"], path, args, app("exists", ()) if there else app("failed", (e,)), cx.span, c, "external")
            out.append((s, T.adt(cx.ty, 1, [e])))
    else:
        s = st.fork()
        e = E.default("mkdirerr", et)
        E.event(s, c["name"], path, args, app("failed", (e,)), cx.span, c, "external")
        out.append((s, T.adt(cx.ty, 1, [e])))
    return out


def c20_run(ctx, f):
    P = ctx.P
    S = storage_fns(ctx)

    def opq(E, fid):
        return fid != f.id and (fid in S or fid in ctx_eval(ctx))

    def setup(E):
        E.fork_fallible = lambda i: i in S
        for n in ("var", "var_os"):
            E.hooks["std::env::" + n] = env_hook
        E.hooks["std::fs::create_dir"] = mkdir_hook
    return ctx.analyse(f, opaque=opq, pre=False, lim=16, retlim=64, key=("c20", f.id), budget=240, setup=setup)


def ctx_eval(ctx):
    return ctx.memo("eval_ids", lambda: {g.id for g in ctx.eval_impls()})


def c20(ctx, rep):
    P = ctx.P
    from rules.session import main_fn
    from rules.settings import calc_fn
    S = storage_fns(ctx)
    calc = calc_fn(ctx)
    top = {f.id for f in [main_fn(ctx)]} | {i for i in S if "read" in effects(ctx, i)}
    n = 0
    seen = set()
    for i in sorted(S - top):
        f = P.fns[i]
        if f.closure or f.derived:
            continue
        E, outs, err = c20_run(ctx, f)
        if not finish(rep, E, err, f):
            continue
        seen.update(E.fns_seen)
        n += 1
        fails(ctx, rep, f, E, outs)
    shown(ctx, rep)
    rep.check(True if n else None, "fns", "no functions use the storage", None, "%d functions use the storage" % n)


def fails(ctx, rep, f, E, outs):
    """after a failed storage operation the function fails"""
    P = ctx.P

    def step(q, n):
        if n.kind == "ev" and failed(n.ev):
            return [(n.ev.name.rstrip("!"), n.ev.span)]
        return [q]
    S = flow([st.tr for st, _ in outs], [None], step)
    res = P.cat(f.locals[0]) == "result"
    for st, v in outs:
        rk = result_kind(P, st.facts, v) if res else None
        for q in S[st.tr.id]:
            if q is None:
                rep.count("paths")
                continue
            who, span = q
            if not res:
                rep.fail("swallowed:%s:%s" % (f.name, who), "%s cannot report that %s failed" % (f.name, who), span)
            elif rk == "Err":
                rep.ok("a failure of %s makes %s fail" % (who, f.name))
            elif rk == "Ok":
                rep.fail("swallowed:%s:%s" % (f.name, who), "%s succeeds although %s failed" % (f.name, who), span)
            else:
                rep.undec("result of %s after a failure of %s" % (f.name, who))


def shown(ctx, rep):
    """in the program itself a failure of the storage, or of evaluating a line, ends it with an error or is shown before the next key"""
    from rules.session import main_fn, openers, read_hook, effects, effect, ev_effect, ended_badly, is_stderr
    from rules.settings import calc_fn, service_methods
    P = ctx.P
    f = main_fn(ctx)
    calc = calc_fn(ctx)
    S = storage_fns(ctx)
    op = openers(ctx)
    sv = service_methods(ctx)

    def quiet(fid):
        return fid in S and fid != f.id and not effects(ctx, fid) & {"read", "out", "term", "raw+", "alt+"}

    def opq(E, fid):
        return fid == calc.id or quiet(fid) or sv(E, fid) or (P.fns[fid].argc == 0 and fid != f.id and not effects(ctx, fid))

    def keys(E, st, c, args, cx):
        out = []
        for s, v in read_hook(E, st, c, args, cx):
            t = T.const_str(s.tr.ev.args[0])
            if t in ("key", "failed"):
                s.setaux("key", None)
                out.append((s, v))
        return out

    def reads(g, body):
        return any(b in body and (effect(P, c) == "read" or any("read" in effects(ctx, x) for x in P.targets(c) if P.fns[x].local)) for b, c, t in P.calls(g))

    def setup(E):
        E.hooks["crossterm::event::read"] = keys
        E.fork_fallible = lambda i: i == calc.id or quiet(i)
        E.fail_key = True
        E.peel = lambda g, h, body, entry: any(s.aux.get("key") for s in entry) and not reads(g, body)
    E, outs, err = ctx.analyse(f, opaque=opq, pre=False, lim=16, retlim=64, key=("c20s",), budget=400, setup=setup)
    if not finish(rep, E, err, f):
        return

    def step(q, n):
        if n.kind != "ev":
            return [q]
        e = n.ev
        if e.path == "crossterm::event::read" or e.name == "read":
            if q is not None:
                lost.setdefault(q[0], q[2])
            return [None]
        if e.name.endswith("!") and failed(e):
            if q is not None:
                lost.setdefault(q[0], q[2])
            return [(e.name[:-1], e.ret.a[1], e.span)]
        if q is not None and (ev_effect(P, e) in ("out", "term") or isinstance(e.c, dict) and is_stderr(e)) and any(isinstance(a, T.Term) and q[1] in set(T.subterms(a)) for a in e.args):
            told.add(q[0])
            return [None]
        return [q]
    lost, told = {}, set()
    ends = [(s, v) for s, v in outs] + [(s, ("exit", p, a)) for s, p, a in E.exits]
    R = flow([s.tr for s, _ in ends], [None], step)
    for s, v in ends:
        b = ended_badly(P, s.facts, v)
        for q in R[s.tr.id]:
            if q is None:
                continue
            if b is False:
                lost.setdefault(q[0], q[2])
            elif b:
                rep.ok("a failure of %s ends the program with an error" % q[0])
            else:
                rep.undec("how the program ends after a failure of %s" % q[0])
    for k, sp in sorted(lost.items()):
        rep.fail("hidden:%s" % k, "a failure of %s is neither shown before the next key nor ends the program with an error" % k, sp)
    for k in sorted(told):
        rep.ok("a failure of %s is shown" % k)
    rep.check(True if calc.name in told or calc.name in lost else None, "calc", "no failing evaluation was followed", None, "failing evaluations are followed to what is shown")
