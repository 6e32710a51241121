"""One line of input followed through: recorded, read, its variables tied, evaluated - over the
abstract database, with the reading, the parsing, the evaluation and the commands abstracted to what
they may return."""
import sqldb as D
import terms as T
from terms import adt, app, is_app
from ctx import events
from rules.common import *
from rules.db import HIST, VARS, op_run, seq_of, size
from rules.session import evaluators, store_param
from rules.settings import all_services, calc_fn, command_trait, data_arg, is_tok, result_kind, service_methods
from rules.store import db_ty


def some_of(P, t, x):
    return adt(t, P.variant_index(t, "Some"), (x,))


def none_of(P, t):
    return adt(t, P.variant_index(t, "None"), ())


def token_ty(ctx):
    """the enum of tokens: one variant holds a name, one a rational"""
    def go():
        P, r = ctx.P, ctx.ratio_ty()
        out = []
        for t in range(len(P.tys)):
            if not (P.is_enum(t) and P.tys[t].get("local")):
                continue
            vs = [payload_of(P, t, i) for i in range(P.nvariants(t))]
            if sum(v == [r] for v in vs) == 1 and sum(len(v) == 1 and P.cat(v[0]) == "str" for v in vs) == 1 and len(vs) > 4:
                out.append((t, [i for i, v in enumerate(vs) if len(v) == 1 and P.cat(v[0]) == "str"][0]))
        return ctx.the("token type", out)
    return ctx.memo("token_ty", go)


def payload_of(P, t, i):
    return [x["ty"] for x in P.tys[t]["variants"][i]["fields"]]


def tree_types(ctx):
    """types an evaluation is a method of"""
    P = ctx.P
    out = set()
    for f in evaluators(ctx):
        t = f.locals[1]
        while P.k(t) in ("ref", "box"):
            t = P.tys[t]["ty"]
        out.add(P.strip(t))
    return out


def tokens_like(ctx, t):
    """sequence of (positioned) tokens"""
    P = ctx.P
    if P.cat(t) != "seq":
        return None
    e = P.elem_ty(t)
    if e == token_ty(ctx)[0]:
        return e
    if P.is_struct(e) and token_ty(ctx)[0] in P.fields(e):
        return e
    return None


def lex_shape(ctx, f):
    """(variant of the Ok payload that carries tokens or None, sequence type, element type) of a
    function splitting text into tokens"""
    P = ctx.P
    t = P.tys[f.locals[0]]["args"][0]
    if tokens_like(ctx, t):
        return None, t, tokens_like(ctx, t)
    if P.is_enum(t):
        for i in range(P.nvariants(t)):
            p = payload_of(P, t, i)
            if len(p) == 1 and tokens_like(ctx, p[0]):
                return i, p[0], tokens_like(ctx, p[0])
    return None


def lexers(ctx):
    P = ctx.P
    out = []
    for f in P.fns:
        if f and f.local and not f.closure and "promoted" not in f.name and P.is_enum(f.locals[0]) and P.cat(f.locals[0]) == "result" and \
                any(P.tys[P.strip(f.locals[i])]["s"] in ("str", "std::string::String") for i in range(1, f.argc + 1)) and lex_shape(ctx, f):
            out.append(f)
    return out


def positioned(ctx, e, x, nm):
    """an element of the token sequence holding x"""
    P = ctx.P
    if e == x.ty:
        return x
    return adt(e, 0, [x if ft == x.ty else T.sym("%s_%d" % (nm, i), ft) for i, ft in enumerate(P.fields(e))])


def executor(ctx):
    """functions running a command and giving its message and the names it used"""
    P = ctx.P
    dyn = service_methods(ctx)
    out = []
    for f in P.fns:
        if not (f and f.local) or f.closure or "promoted" in f.name or f.trait:
            continue
        if f.id == calc_fn(ctx).id or P.cat(f.locals[0]) != "result":
            continue
        t = P.tys[f.locals[0]]["args"][0]
        if names_in(P, t) is not None and any(P.k(f.locals[i]) == "ref" and P.tys[f.locals[i]]["ty"] == ctx.args_ty for i in range(1, f.argc + 1)):
            out.append(f)
    return out


def names_in(P, t):
    """(message, names): index of the sequence of names in a tuple or structure"""
    ts = P.tys[t].get("tys") if P.k(t) == "tuple" else (P.fields(t) if P.is_struct(t) else None)
    if not ts:
        return None
    l = [i for i, x in enumerate(ts) if P.cat(x) == "seq" and P.cat(P.elem_ty(x)) == "str"]
    return l[0] if len(l) == 1 else None


def seen(E, s, g, args, cx, v, tag):
    """note that the text of a line was read, or its command run"""
    if tag == "read" and s.aux.get("db") is not None:
        s.setaux("atread", s.aux["db"])
    E.event(s, g.name, g.path, args, v, cx.span, tag=tag)
    return [(s, v)]


def lex_hook(ctx, kind, toks):
    """what stands for a function splitting text into tokens"""
    P = ctx.P

    def lex(g):
        return lambda E, st, c, args, cx: [y for s, v in lex1(g, E, st, c, args, cx) for y in seen(E, s, g, args, cx, v, "read")]

    def lex1(g, E, st, c, args, cx):
        i, sty, et = lex_shape(ctx, g)
        t = P.tys[cx.ty]["args"][0]
        if kind == "unreadable":
            return [(st.fork(), E.M.err(E, cx.ty, E.default("unreadable", E.M.payload_ty(E, cx.ty, "Err"))))]
        if kind == "tokens":
            seq = E.M.lit([positioned(ctx, et, x, "tok%d" % j) for j, x in enumerate(toks)])
            v = adt(t, i, (seq,)) if i is not None else seq
            return [(st.fork(), E.M.ok(E, cx.ty, v))]
        other = [j for j in range(P.nvariants(t)) if j != i] if i is not None else []
        if len(other) != 1:
            raise Missing("commands among what %s reads" % g.name)
        v = adt(t, other[0], [T.sym("command_%d" % j, x) for j, x in enumerate(payload_of(P, t, other[0]))])
        return [(st.fork(), E.M.ok(E, cx.ty, v))]
    return lex


def line_run(ctx, n, kind, k, show=False):
    """(show: a number, with the making of the text to show followed too) the evaluation of a line over a database with n inputs (None: without a database); kind is
    'tokens' (k unknown tokens), 'command' (a command that used k names) or 'unreadable'"""
    P = ctx.P
    f = calc_fn(ctx)
    lx = {g.id: g for g in lexers(ctx)}
    ex = {g.id: g for g in executor(ctx)}
    ev = {g.id for g in evaluators(ctx)}
    trees = tree_types(ctx)
    s_ty = P.ty_by_s.get("std::string::String")
    rat = ctx.ratio_ty()
    tt, vi = token_ty(ctx)
    toks = [T.sym("token%d" % i, tt) for i in range(k)]
    if show:
        toks = [adt(tt, j, [T.sym("number", rat)]) for j in range(P.nvariants(tt)) if payload_of(P, tt, j) == [rat]]
    names = [T.sym("name%d" % i, s_ty) for i in range(k)]

    def parser(g):
        t = g.locals[0]
        if P.cat(t) == "result":
            t = P.tys[t]["args"][0]
        return P.strip(t) in trees or t in trees

    def fmt(g):
        return not show and P.cat(g.locals[0]) == "str" and any(P.strip(g.locals[i]) == rat for i in range(1, g.argc + 1))

    def opq(E, fid):
        g = P.fns[fid]
        return fid in lx or fid in ex or fid in ev or not g.closure and (parser(g) or fmt(g))

    lex = lex_hook(ctx, kind, toks)

    def run_ex(g):
        return lambda E, st, c, args, cx: [y for s, v in run_ex1(E, st, c, args, cx) for y in seen(E, s, g, args, cx, v, "command")]

    def run_ex1(E, st, c, args, cx):
        t = P.tys[cx.ty]["args"][0]
        j = names_in(P, t)
        ts = P.tys[t].get("tys") if P.k(t) == "tuple" else P.fields(t)
        v = adt(t, 0, [E.M.lit(names) if i == j else E.default("message", x) for i, x in enumerate(ts)])
        a, b = st.fork(), st.fork()
        return [(a, E.M.ok(E, cx.ty, v)), (b, E.M.err(E, cx.ty, E.default("refused", E.M.payload_ty(E, cx.ty, "Err"))))]

    def extra(E, st, g, a):
        for g2 in lx.values():
            E.hooks[g2.name] = lex(g2)
        for g2 in ex.values():
            E.hooks[g2.name] = run_ex(g2)
        E.unroll = lambda fn: fn.id in inl
        E.unroll_max = 4096
        d = db_ty(ctx)
        for i in range(1, g.argc + 1):
            t = g.locals[i]
            if P.cat(t) == "option" and P.k(P.tys[t]["args"][0]) == "ref":
                u = P.tys[P.tys[t]["args"][0]]["ty"]
                if u == d:
                    st.facts = st.facts.know_variant(a[i - 1], P.variant_index(t, "None" if n is None else "Some"))
                else:
                    st.facts = st.facts.know_variant(a[i - 1], P.variant_index(t, "Some"))
        st.setaux("names", tuple(names) if kind == "command" else ())
        st.setaux("toks", tuple(toks) if kind == "tokens" else ())
    # functions between the evaluation of a line and the storage, whose loops are over the few tokens or names
    r = P.reach(f.id)
    db = {g.id for g in P.fns if g and g.local and any(P.k(g.locals[i]) == "ref" and P.tys[g.locals[i]]["ty"] == db_ty(ctx) for i in range(1, min(g.argc, 1) + 1))}
    inl = {x for x in r if x not in db and not opq(None, x)}
    return ctx_run(ctx, f, n, extra, ("line", kind, k, show), opq)


def ctx_run(ctx, f, n, extra, key, opq):
    return op_run(ctx, f, 1 if n is None else n, extra=extra, key=key + (n is None,), opaque=opq, lim=4096, retlim=4096)


LINES = tuple((n, kind, k) for n in (0, 1, 2, "many", None) for kind, k in (("unreadable", 0), ("command", 0), ("command", 1), ("command", 2), ("tokens", 0), ("tokens", 1), ("tokens", 2)) if n != "many" or k < 2)


def mentioned(ctx, st):
    """names of the variables the line mentions: [(name, certain?)]"""
    tt, vi = token_ty(ctx)
    P = ctx.P
    out = [(x, True) for x in st.aux.get("names") or ()]
    for t in st.aux.get("toks") or ():
        vs = st.facts.variants(t)
        if vs is not None and vi not in vs:
            continue
        out.append((T.fld(t, vi, 0, payload_of(P, tt, vi)[0]), vs is not None and len(vs) == 1))
    return out


def line_outcomes(ctx, rep, lines=LINES):
    P = ctx.P
    f = calc_fn(ctx)
    for n, kind, k in lines:
        E, outs, err = line_run(ctx, n, kind, k)
        if not finish(rep, E, err, f):
            continue
        for st, v in outs:
            db = st.aux.get("db")
            if db is None or db.lost:
                rep.undec("%s, %s: %s" % (kind, size(n) if n is not None else "no database", db.lost if db is not None else "?"))
                continue
            yield n, kind, k, E, st, v, st.aux["db0"].tables, db.settled()


def same(E, st, a, b):
    t = E.M.eq_term(E, st, a, b)
    r = t if t in (True, False) else (st.facts.decide(t) if t is not None else None)
    return D.through(E, st, a, b) if r is None else r


def ties(ctx, rep):
    """C24: what evaluating a line does to the saved variables"""
    P = ctx.P
    f = calc_fn(ctx)
    k0 = 0
    for n, kind, k, E, st, v, t0, t1 in line_outcomes(ctx, rep):
        old = {r["name"]: r for r in t0.get(VARS, ())}
        now = {r["name"]: r for r in t1.get(VARS, ())}
        s0, s1 = seq_of(t0), seq_of(t1)
        if s0 is None or s1 is None:
            rep.undec("the list of inputs")
            continue
        new = [x for x in s1 if x is not None and x not in s0]
        ms = mentioned(ctx, st)
        refused = any(e.tag == "command" and result_kind(P, st.facts, e.ret) == "Err" for e in events(st.tr))
        unread = kind == "unreadable" or refused
        k0 += 1
        if n is None:
            rep.check(True if {x: r["last_used_by"] for x, r in old.items()} == {x: r["last_used_by"] for x, r in now.items()} else False, "nodb", "a session without a database changes saved variables", f.span)
            continue
        if len(new) != 1:
            rep.undec("a line recorded %d times" % len(new))
            continue
        for x, r in old.items():
            eqs = [(same(E, st, x, m), sure) for m, sure in ms]
            # what is not compared because it is the same as another name of the line
            eqs = [(e if e is not None else next((e2 for (e2, _), (m2, _) in zip(eqs, ms) if e2 is not None and m2 is not m and (same(E, st, m, m2) is True or same(E, st, m2, m) is True)), None), sure) for (e, sure), (m, _) in zip(eqs, ms)]
            ment = True if any(e is True for e, sure in eqs) else (False if all(e is False for e, sure in eqs) else None)
            if unread:
                ment = False
            if x not in now:
                gone = r["last_used_by"] not in s1
                rep.check(gone, "dropped", "a saved variable is removed although the input it is tied to is kept (%s)" % kind, f.span, "only variables of removed inputs are removed")
                if gone and ment is not False and eqs:
                    ar = st.aux.get("atread")
                    first = ar is not None and r["last_used_by"] is s0[0] and not any(q["name"] is x for q in ar.settled().get(VARS, ()))
                    rep.check(False, "evicted-while-recording" if first else "evicted", "a saved variable that the line uses is removed while the line is recorded, because the last input using it was the oldest", f.span)
                continue
            if r["last_used_by"] not in s1 and now[x]["last_used_by"] is r["last_used_by"]:
                rep.check(False, "kept", "a saved variable outlives the input it is tied to", f.span)
                continue
            if ment is False:
                rep.check(now[x]["last_used_by"] is r["last_used_by"], "unused", "a line ties a variable that it does not mention (%s)" % kind, f.span, "variables not mentioned keep their input")
            elif ment is True:
                rep.check(now[x]["last_used_by"] is new[0], "untied", "a variable that a line mentions is not tied to it (%s)" % kind, f.span, "a mentioned variable is tied to the line (%s of %d)" % (kind, k))
            else:
                rep.check(True if now[x]["last_used_by"] is new[0] else False, "untied", "a variable that a line mentions can be left untied (%s)" % kind, f.span, "a mentioned variable is tied to the line (%s of %d)" % (kind, k))
    rep.check(True if k0 else None, "lines", "no line analysed", None, "%d outcomes of lines" % k0)
