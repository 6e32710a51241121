"""C34: what an earlier session stored is what a later one finds"""
import re

import sqldb as D
import sqlmini as Q
import terms as T
from ctx import events
from rules.common import *
from rules.db import CLASSES, HIST, META, TAGS, VARS, capacity, op_run, size
from rules.settings import result_kind
from rules.store import KEYS, db_ops, db_run, params_of, schema_flow, sql_of, table_of, version_stored
from rules.vars import name_value, rowkey, saved, writers

# the format of version 1: the columns of every table
COLUMNS = {HIST: {"id", "input", "next", "prev"}, TAGS: {"key", "value"}, META: {"key", "value"}, VARS: {"name", "numer", "denom", "last_used_by"}}
FORMAT = 1


def c34(ctx, rep):
    P = ctx.P
    opening = db_ops(ctx)[0]
    tables(ctx, rep, opening)
    n = 0
    for f in opening:
        for sz in CLASSES:
            E, outs, err = op_run(ctx, f, sz)
            if not finish(rep, E, err, f):
                continue
            for st, v in outs:
                if result_kind(P, st.facts, v) == "Err":
                    continue
                db, db0 = st.aux.get("db"), st.aux["db0"]
                if db is None or db.lost:
                    rep.undec("%s on %s: %s" % (f.name, size(sz), db.lost if db is not None else "?"))
                    continue
                n += 1
                kept(ctx, rep, f, sz, st.facts, db0.tables, db.settled())
    rep.check(True if n else None, "opened", "no way of opening an existing database found", None, "%d ways of opening" % n)
    k = 0
    N, V = name_value(ctx)
    for f, l in writers(ctx):
        for sz, st, v, b, a, t0, t1 in l:
            if result_kind(P, st.facts, v) != "Ok":
                continue
            old = {rowkey(r) for r in saved(t0)}
            for r in saved(t1):
                if rowkey(r) in old:
                    continue
                k += 1
                for col in ("numer", "denom"):
                    decimal(rep, f, col, r.get(col))
    rep.check(True if k else None, "written", "nothing stores variables", None, "%d rows stored" % k)


def tables(ctx, rep, opening):
    """the tables of the version the program writes are declared as that version has them"""
    V = version_stored(ctx)
    if V != FORMAT:
        rep.undec("the format of version %s is not known" % V)
        return
    for f in opening:
        E, outs, err = db_run(ctx, f)
        if not finish(rep, E, err, f):
            continue
        fin = schema_flow(ctx, f, E, outs, lambda e, q: None)
        if not fin:
            rep.undec("the tables after %s" % f.name)
        for decls in fin:
            try:
                ts = {t.name: t for t in (Q.declared(s) for s in decls)}
            except Q.Unsupported as e:
                rep.undec("schema: %s" % e)
                continue
            for n, cs in sorted(COLUMNS.items()):
                have = set(ts[n].cols) if n in ts else None
                rep.check(have == cs, "table:%s" % n, "the program expects %s, but databases of version %d have %s (%s)"
                          % ("no table %s" % n if have is None else "%s (%s)" % (n, ", ".join(sorted(have))), FORMAT, n, ", ".join(sorted(cs))), f.span, "table %s as version %d has it" % (n, FORMAT))


def kept(ctx, rep, f, sz, fx, t0, t1):
    for n, what in ((HIST, "the recorded inputs"), (TAGS, "the marks of the history"), (VARS, "the saved variables")):
        a, b = set(D.freeze({n: t0.get(n, ())})[0][1]), set(D.freeze({n: t1.get(n, ())})[0][1])
        same = a == b
        if not same and len(t0[n]) == len(t1.get(n, ())):
            # a loop can leave the number of inputs in the middle unknown
            lost = [r.count for r in t1[n] if isinstance(r, D.Mid) and not any(isinstance(q, D.Mid) and q.count is r.count for q in t0[n])]
            if lost and {r[:1] + r[2:] if r[0] == "mid" else r for r in a} == {r[:1] + r[2:] if r[0] == "mid" else r for r in b}:
                same = True if all(fx.decide(eq0(sub(c, q.count))) is True for c in lost for q in t0[n] if isinstance(q, D.Mid)) else None
        rep.check(same, "%s:%s" % (f.name, n), "opening a database with %s changes %s" % (size(sz), what), f.span, "%s kept when opening (%s)" % (what, size(sz)))
    c0, c1 = capacity(t0), capacity(t1)
    rep.check(c1 is c0, "%s:capacity" % f.name, "opening a database with %s changes the configured history size to %s" % (size(sz), c1), f.span, "history size kept when opening")
    extra = [r["key"].a[0] for r in t1.get(META, ()) if r["key"].op == "int" and r["key"].a[0] not in {q["key"].a[0] for q in t0[META]}]
    lost = [k for k in sorted(KEYS[x] for x in ("Version", "MinimumVersion", "MaxHistorySize")) if k not in keys_used(ctx, f)]
    rep.check(not (extra and lost), "%s:meta" % f.name, "opening a database looks under the keys %s that version %d does not have, and never under %s" % (extra, FORMAT, lost), f.span, "settings under the keys of version %d" % FORMAT)


def keys_used(ctx, f):
    def go():
        E, outs, err = db_run(ctx, f)
        ks = set()
        for st, v in outs:
            for e in events(st.tr):
                s = sql_of(e)
                if s and table_of(s) == META:
                    ps = params_of(ctx.P, e)
                    if ps:
                        ks |= {x.a[0] for x in (ps[1].values() if ps[0] == "named" else ps[1]) if x.op == "int"}
                    ks |= {int(x) for x in re.findall(r"\b\d+\b", s)}
        return ks
    return ctx.memo(("metakeys", f.id), go)


def decimal(rep, f, col, x):
    """the text of an integer in decimal digits"""
    for _ in range(4):
        if x is not None and x.op in ("refv", "box"):
            x = x.a[0]
    if is_app(x, "radixstr") and x.a[2].op == "int":
        r = x.a[2].a[0]
        rep.check(r == 10, "%s:%s" % (f.name, col), "%s stores the %s in radix %d, version %d has it in radix 10" % (f.name, "numerator" if col == "numer" else "denominator", r, FORMAT), f.span, "%s in decimal" % col)
    elif x is not None and x.op == "app" and x.a[0] in ("display", "tostring", "decstr"):
        rep.ok("%s in decimal" % col)
    else:
        rep.undec("%s stored as %s" % (col, str(x)[:80]))
