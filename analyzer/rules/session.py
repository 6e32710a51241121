"""C11, C12, C13, C22, C27: what a whole run of the program does, from its entry point."""
from rules.common import *
from rules.settings import all_services, calc_fn, service_methods, result_kind

RAW = ("enable_raw_mode", "disable_raw_mode")
ALT = ("EnterAlternateScreen", "LeaveAlternateScreen")
CONTROL = 2
QUIT = "cdz"


def main_fn(ctx):
    return ctx.the("entry point", [f for f in ctx.P.fns if f and f.local and f.name == "main" and not f.closure])


def callee_path(P, c):
    if not isinstance(c, dict):
        return ""
    return c.get("rpath") or c.get("path") or ""


def type_names(P, c):
    return [P.tys[t]["s"].rsplit("::", 1)[-1] for t in (c.get("args") or []) if isinstance(t, int)] if isinstance(c, dict) else []


def effect(P, c):
    """terminal mode effect of calling c: 'raw+', 'raw-', 'alt+', 'alt-', 'flush', 'read', 'exit', 'out', 'db', 'fs' or None"""
    p = callee_path(P, c)
    q = c.get("path") or "" if isinstance(c, dict) else ""
    if p.startswith("crossterm::terminal::") and p.endswith("::enable_raw_mode"):
        return "raw+"
    if p.startswith("crossterm::terminal::") and p.endswith("::disable_raw_mode"):
        return "raw-"
    if q.startswith("crossterm::") and q.rsplit("::", 1)[-1] in ("queue", "execute") or p.endswith(("QueueableCommand>::queue", "ExecutableCommand>::execute")):
        ns = type_names(P, c)
        if ALT[0] in ns:
            return "alt+"
        if ALT[1] in ns:
            return "alt-"
        return "out"
    if q == "std::io::Write::flush" or p.endswith("Write>::flush"):
        return "flush"
    if p.startswith("crossterm::event::") and p.rsplit("::", 1)[-1] in ("read", "poll"):
        return "read"
    if p in ("std::process::exit", "std::process::abort"):
        return "exit"
    if p == "std::io::_print" or (q.startswith("std::io::Write::write") and "Stdout" in p):
        return "out"
    if p.startswith("crossterm::") and p.split("::")[1] in ("terminal", "cursor", "style", "event") and not p.split("::")[-1][:1].isupper():
        return "term"
    if p.startswith("rusqlite::"):
        return "dbopen" if "::open" in p and "Connection" in p else "db"
    if p.startswith(("std::fs::", "tokio::fs")):
        return "fs"
    return None


def effects(ctx, fid):
    """effects reachable from a function"""
    def go():
        P = ctx.P
        out = set()
        for i in P.reach(fid):
            for b, c, t in P.calls(P.fns[i]):
                if not any(P.fns[x].local for x in P.targets(c)):
                    e = effect(P, c)
                    if e:
                        out.add(e)
        return out
    return ctx.memo(("effects", fid), go)


def ev_effect(P, e):
    return effect(P, e.c) if isinstance(e.c, dict) else None


# ---------------------------------------------------------------- C12
def mode_run(ctx):
    P = ctx.P
    f = main_fn(ctx)
    modes = {"raw+", "raw-", "alt+", "alt-", "exit"}

    def opq(E, fid):
        return not (effects(ctx, fid) & modes) and not P.fns[fid].closure and bool(effects(ctx, fid) or fid == calc_fn(ctx).id or P.fns[fid].argc == 0)
    return f, ctx.analyse(f, opaque=opq, pre=False, lim=64, retlim=256, key=("modes",), budget=600)


def c12(ctx, rep):
    P = ctx.P
    f, (E, outs, err) = mode_run(ctx)
    if not finish(rep, E, err, f):
        return
    ends = [(st, "a normal or error return") for st, v in outs] + [(st, "a call of " + p) for st, p, a in E.exits if "exit" in p or "abort" in p]

    # (raw, alternate screen, enter queued but not flushed)
    def step(q, n):
        raw, alt, pend = q
        if n.kind != "ev":
            return [q]
        e = ev_effect(P, n.ev)
        ok = not failed(n.ev)
        if e == "raw+" and ok:
            return [(n.ev.span, alt, pend)]
        if e == "raw-":
            return [(None, alt, pend)]
        if e == "alt+" and ok:
            if n.ev.name == "execute":
                return [(raw, n.ev.span, None)]
            return [(raw, alt, n.ev.span)]
        if e == "alt-":
            return [(raw, None, None)]
        if e == "flush" and ok and pend:
            return [(raw, pend, None)]
        return [q]
    S = flow([st.tr for st, _ in ends], [(None, None, None)], step)
    on = 0
    for st, how in ends:
        last = [n for n in nodes(st.tr) if n.kind == "ev"]
        at = "%s after %s" % (how, last[-1].ev.path.rsplit("::", 1)[-1] if last else "entry")
        for raw, alt, _ in S[st.tr.id]:
            on += any(n.kind == "ev" and ev_effect(P, n.ev) == "raw+" for n in nodes(st.tr))
            rep.check(raw is None, "raw:%s" % at, "the program ends by %s with raw mode still switched on (at %s)" % (at, raw), raw, "raw mode is off at %s" % at)
            rep.check(alt is None, "alt:%s" % at, "the program ends by %s without leaving the alternate screen (entered at %s)" % (at, alt), alt, "the alternate screen is left at %s" % at)
    rep.check(None if not on else True, "modes", "no path switches raw mode on", None, "%d ends are reached with raw mode having been on" % on)


# ---------------------------------------------------------------- C27
def parse_input(P, ctx, E, tr):
    """the command line as parsed on the path tr"""
    for e in events(tr):
        if isinstance(e.ret, T.Term) and e.ret.ty == ctx.args_ty:
            return e.ret
    return None


def oneshot(ctx):
    """outcomes of a run with the input on the command line"""
    P = ctx.P
    f = main_fn(ctx)
    calc = calc_fn(ctx)

    def opq(E, fid):
        return fid == calc.id or ("read" in effects(ctx, fid) and fid != f.id)
    return f, ctx.analyse(f, opaque=opq, pre=False, lim=64, retlim=256, key=("oneshot",), budget=600)


def out_text(e):
    """text written by an output event"""
    for a in e.args[::-1]:
        while a.op == "refv":
            a = a.a[0]
        if is_app(a, "fmt"):
            return a.a[1]
        if T.const_str(a) is not None or (isinstance(a.ty, int) and a.op in ("cat",)):
            return a
    return None


def is_stderr(e):
    p = callee_path(None, e.c)
    return p == "std::io::_eprint" or "Stderr" in p


def c27(ctx, rep):
    P = ctx.P
    calc = calc_fn(ctx)
    f, (E, outs, err) = oneshot(ctx)
    if not finish(rep, E, err, f):
        return
    for x in ("out", "term", "raw+", "alt+"):
        rep.check(x not in effects(ctx, calc.id), "calc:%s" % x, "evaluating a line can itself write to standard output or the terminal (%s)" % x, calc.span, "evaluating a line reaches no %s operation" % x)
    inp = ctx.args_field("input")
    if inp is None:
        rep.undec("command line field `input`")
        return
    n = 0
    for st, v in [(s, v) for s, v in outs] + [(s, ("exit", p, a)) for s, p, a in E.exits]:
        fx = st.facts
        a = parse_input(P, ctx, E, st.tr)
        if a is None:
            continue
        ity = P.fields(ctx.args_ty)[inp]
        ai = fld(a, 0, inp, ity)
        if variant(P, ai, fx) != "Some":
            continue
        evs = events(st.tr)
        calls = [e for e in evs if e.name == calc.name]
        if len(calls) != 1:
            rep.check(None if calls else False, "calls", "%d evaluations of the input given on the command line" % len(calls), f.span)
            continue
        n += 1
        cl = calls[0]
        text = fld(ai, P.variant_index(ity, "Some"), 0, P.tys[ity]["args"][0])
        got = [x for x in cl.args if isinstance(x, T.Term)]
        same_text = any(strip_ref(x) is text for x in got)
        rep.check(True if same_text else None, "input", "the text evaluated is not visibly the one given on the command line: %s" % show(got[0])[:80], cl.span, "the text evaluated is the one given")
        rk = variant(P, cl.ret, fx)
        pr = [e for e in evs if ev_effect(P, e) in ("out", "term", "raw+", "alt+", "read") and not is_stderr(e)]
        er = [e for e in evs if is_stderr(e)]
        okty = P.tys[calc.locals[0]]["args"]
        if rk == "Ok":
            res = fld(cl.ret, 0, 0, okty[0])
            texts = [out_text(e) for e in pr]
            if any(t is None for t in texts):
                bad = [e for e, t in zip(pr, texts) if t is None]
                rep.check(False if any(ev_effect(P, e) != "out" for e in bad) else None, "stdout:%s" % bad[0].name, "an operation on the terminal besides printing the result: %s" % bad[0].path, bad[0].span)
                continue
            whole = T.cat(texts) if texts else T.string("")
            want = T.cat([res, T.string("\n")])
            if whole is want:
                rep.ok("a successful input prints exactly its result and a newline")
            elif understood(whole, res):
                rep.fail("stdout:ok", "a successful input prints %s instead of its result and a newline" % show(whole)[:100], pr[0].span if pr else cl.span)
            else:
                rep.undec("text printed: %s" % show(whole)[:100])
        elif rk == "Err":
            for e in pr:
                rep.fail("stdout:err", "a failing input writes to standard output (%s)" % show(e.args[0])[:80], e.span)
            if not pr:
                rep.ok("a failing input writes nothing to standard output")
            x = fld(cl.ret, 1, 0, okty[1])
            kind = variant(P, x, fx)
            bad = ended_badly(P, fx, v)
            if kind is None:
                rep.undec("kind of failure on a path")
            elif kind.startswith("Run"):
                rep.check(bad, "status", "a run-time failure does not make the exit status non-zero", f.span, "a run-time failure is returned from main")
            else:
                msg = [t for e in er for t in [out_text(e)] if t is not None]
                pay = payload_terms(P, x)
                whole = T.cat(msg) if msg else T.string("")
                sub_ = set(T.subterms(whole))
                shown = any(p in sub_ for p in pay) or bad is True and v_holds(v, pay)
                rep.check(True if shown else (None if er and any(out_text(e) is None for e in er) else False), "stderr", "an input error is not written to standard error", cl.span, "an input error's message goes to standard error")
        else:
            rep.undec("result of evaluating on a path")
    rep.check(True if n >= 3 else None, "paths", "only %d ways through one-shot mode found" % n, None, "%d ways through one-shot mode" % n)


def v_holds(v, pay):
    return isinstance(v, T.Term) and any(p in set(T.subterms(v)) for p in pay)


def payload_terms(P, x):
    """text fields inside the payload of an input error"""
    out = []

    def go(t, d):
        if d > 4 or not isinstance(t.ty, int):
            return
        if P.cat(t.ty) == "str":
            out.append(t)
        elif P.is_struct(t.ty):
            for i, ft in enumerate(P.fields(t.ty)):
                go(fld(t, 0, i, ft), d + 1)
    for v in range(P.nvariants(x.ty)):
        for i, ft in enumerate(P.fields(x.ty, v)):
            go(fld(x, v, i, ft), 0)
    return out


def ended_badly(P, fx, v):
    """does the program end with a failing exit status?"""
    if isinstance(v, tuple):
        if "abort" in v[1]:
            return True
        a = v[2][0] if v[2] else None
        return None if a is None else {True: False, False: True, None: None}[fx.decide(eq0(a))]
    if P.cat(v.ty) == "result":
        k = variant(P, v, fx)
        return {"Err": True, "Ok": False}.get(k)
    return None


def understood(t, res):
    """a text made only of constants and parts of the result"""
    if t.op == "cat":
        ps = flat(t)
        const = "".join(p[1] for p in ps if isinstance(p, tuple) and p[0] == "S")
        return const != "\n" or all(isinstance(p, tuple) and p[0] == "S" or p is res for p in ps)
    return T.const_str(t) is not None or t is res


def flat(t):
    return list(t.a[0])


def strip_ref(t):
    while t.op in ("refv", "box"):
        t = t.a[0]
    return t


# ---------------------------------------------------------------- a whole session
def adt_named(P, suffix):
    l = [i for i, t in enumerate(P.tys) if P.k(i) == "adt" and t["s"] == suffix]
    if not l:
        raise Missing("type " + suffix)
    return l[0]


def bits_value(P, ty, n):
    """a bit-flag value: nested single-field structures around an integer"""
    if P.is_struct(ty):
        fs = P.fields(ty)
        return T.adt(ty, 0, [bits_value(P, fs[0], n)]) if len(fs) == 1 else None
    return I(n)


def bits_leaf(P, t):
    while P.is_struct(t.ty):
        t = fld(t, 0, 0, P.fields(t.ty)[0])
    return t


def read_hook(E, st, c, args, cx):
    """waiting for a key: each quitting key, four ways of being another event, and failure"""
    P = E.P
    ev_t = adt_named(P, "crossterm::event::Event")
    key_v = P.variant_index(ev_t, "Key")
    ke_t = P.fields(ev_t, key_v)[0]
    names = P.field_names(ke_t)
    ft = dict(zip(names, P.fields(ke_t)))
    code_t = ft["code"]
    ch_v = P.variant_index(code_t, "Char")
    ch_t = P.fields(code_t, ch_v)[0]
    kind_t = ft["kind"]
    path = callee_path(P, c)
    rty = cx.ty
    okt, ert = P.tys[rty]["args"][:2]
    out = []

    def emit(tag, v, facts=None):
        s = st.fork()
        if facts is not None:
            s.facts = facts
        E.event(s, "read", path, [T.string(tag)], v, cx.span, c, "external")
        out.append((s, T.adt(rty, 0, [v])))

    for q in QUIT:
        ke = T.adt(ke_t, 0, [T.adt(code_t, ch_v, [I(ord(q))]) if n == "code" else bits_value(P, ft[n], CONTROL) if n == "modifiers" else
                             T.adt(kind_t, P.variant_index(kind_t, "Press"), []) if n == "kind" else E.default("keystate", ft[n]) for n in names])
        emit("quit:" + q, T.adt(ev_t, key_v, [ke]))
    # other events
    x = E.default("event", ev_t)
    fx = st.facts.exclude_variants(x, {key_v})
    if fx is not None:
        emit("other", x, fx)
    ke = {n: E.default("key_" + n, ft[n]) for n in names}

    def key(**kw):
        d = dict(ke, **kw)
        return T.adt(ev_t, key_v, [T.adt(ke_t, 0, [d[n] for n in names])])
    fx = st.facts.exclude_variants(ke["code"], {ch_v})
    if fx is not None:
        emit("key", key(), fx)
    chv = E.default("char", ch_t)
    code = T.adt(code_t, ch_v, [chv])
    m = bits_leaf(P, ke["modifiers"])
    fx = st.facts.assume(bnot(eq0(sub(m, I(CONTROL)))))
    if fx is not None:
        emit("char", key(code=code), fx)
    fx = st.facts
    for q in QUIT:
        fx = fx.assume(bnot(eq0(sub(chv, I(ord(q)))))) if fx is not None else None
    if fx is not None:
        emit("control", key(code=code, modifiers=bits_value(P, ft["modifiers"], CONTROL)), fx)
    s = st.fork()
    x = E.default("ioerr", ert)
    E.event(s, "read", path, [T.string("failed")], app("failed", (x,)), cx.span, c, "external")
    out.append((s, T.adt(rty, 1, [x])))
    return out


def openers(ctx):
    """local functions through which the database (or its directory) is opened"""
    def go():
        P = ctx.P
        return {f.id for f in P.fns if f and f.local and not f.closure and effects(ctx, f.id) & {"dbopen", "fs"} and "read" not in effects(ctx, f.id) and f.name != "main"}
    return ctx.memo("openers", go)


def session(ctx, hook=None, key=None, more=None):
    """a run of the whole program; the services, the line evaluator and opening the database are opaque"""
    P = ctx.P
    f = main_fn(ctx)
    sv = service_methods(ctx)
    calc = calc_fn(ctx)
    op = openers(ctx)
    rec = []

    direct = {i for i in op if any(effect(P, c) in ("dbopen", "fs") for _, c, _ in P.calls(P.fns[i]))}
    into = set()

    def opq(E, fid):
        if fid in op:
            return fid not in into
        return fid == calc.id or sv(E, fid) or (P.fns[fid].argc == 0 and fid != f.id and not effects(ctx, fid))

    def dbhook(E, st, c, args, cx):
        """a call that opens the database: allowed here, else looked into unless it does so itself"""
        i = c["inst"]
        into.discard(i)
        if i not in direct and not all(may_open(ctx, E, st)):
            into.add(i)
        else:
            rec.append((st, cx.span, c))
        return None

    def setup(E):
        E.hooks["crossterm::event::read"] = hook or read_hook
        for g in op:
            E.hooks[P.fns[g].name] = dbhook
        if more:
            more(E)
    return f, ctx.analyse(f, opaque=opq, pre=False, lim=16, retlim=64, key=("session", key), budget=700, setup=setup), rec


def c11(ctx, rep):
    P = ctx.P
    f, (E, outs, err), rec = session(ctx)
    if not finish(rep, E, err, f):
        return
    calc = calc_fn(ctx)
    sv = service_methods(ctx)
    muts = {g.name for g in P.fns if g and g.local and sv(None, g.id) and P.tys[g.locals[1]].get("mut")}
    reads = 0

    def step(q, n):
        if n.kind != "ev":
            return [q]
        e = n.ev
        if e.name == "read" and e.args and T.const_str(e.args[0]):
            t = T.const_str(e.args[0])
            if q[0] == "quit":
                bad.setdefault("%s:again" % q[1], ("after Control+%s the program waits for another key" % q[1].upper(), e.span))
            if t.startswith("quit:"):
                return [("quit", t[5:], False, e.span)]
            return [("key" if t != "other" and t != "failed" else t, t, True, e.span)]
        if q[0] == "quit":
            if e.name == calc.name:
                bad.setdefault("%s:eval" % q[1], ("after Control+%s the current line is evaluated" % q[1].upper(), e.span))
            elif e.name in muts:
                bad.setdefault("%s:%s" % (q[1], e.name), ("after Control+%s the program calls %s" % (q[1].upper(), e.name), e.span))
            if failed(e):
                return [("quit", q[1], True, q[3])]
            return [q]
        if q[0] in ("key", "other", "failed"):
            return [(q[0], q[1], False, q[3])]
        return [q]
    bad = {}
    S = flow([st.tr for st, _ in outs] + [st.tr for st, _, _ in E.exits], [("none", None, False, None)], step)
    seen = {n.ev.span for st, _ in outs for n in nodes(st.tr) if n.kind == "ev" and n.ev.name == "read"}
    quits = set()
    for k, (m, sp) in bad.items():
        rep.fail(k, m, sp)
    for st, v in [(s, v) for s, v in outs] + [(s, ("exit", p, a)) for s, p, a in E.exits]:
        b = ended_badly(P, st.facts, v)
        for q in S[st.tr.id]:
            if q[0] == "quit":
                quits.add((q[1], q[3]))
                if b is False or q[2]:
                    rep.ok("Control+%s at %s ends the session%s" % (q[1].upper(), q[3], " (or a terminal failure is reported)" if q[2] else " successfully"))
                else:
                    rep.check(False if b else None, "%s:status" % q[1], "Control+%s does not end the session successfully" % q[1].upper(), q[3])
            elif q[0] == "key":
                if b is False:
                    rep.fail("ends:%s" % q[1], "another key press ends the session", q[3])
                elif q[2]:
                    rep.fail("ends:%s" % q[1], "a key press (other than the exit keys) ends the session at once with an error", q[3])
                else:
                    rep.ok("other key presses (%s) end the session only through a later failure" % q[1])
    for sp in sorted(seen):
        for q in QUIT:
            if not any(k.startswith(q + ":") for k in bad):
                rep.check((q, sp) in quits, "%s:ends" % q, "Control+%s at %s does not end the session" % (q.upper(), sp), sp, "Control+%s ends the session" % q.upper())
    rep.check(True if seen else None, "reads", "no place waits for a key", None, "%d places wait for a key" % len(seen))


def may_open(ctx, E, st):
    """(not --no-db, no input on the command line) as known in st"""
    P = ctx.P
    a = parse_input(P, ctx, E, st.tr)
    nd, ip = ctx.args_field("no_db"), ctx.args_field("input")
    if a is None or nd is None or ip is None:
        return None, None
    fs = P.fields(ctx.args_ty)
    return st.facts.decide(fld(a, 0, nd, fs[nd])) is False, variant(P, fld(a, 0, ip, fs[ip]), st.facts) == "None"


def c13(ctx, rep):
    P = ctx.P
    f, (E, outs, err), rec = session(ctx)
    if not finish(rep, E, err, f):
        return
    names = P.field_names(ctx.args_ty)
    if "no_db" not in names or "input" not in names:
        rep.undec("command line fields no_db, input")
        return
    ip = names.index("input")
    for st, span, c in rec:
        d, v = may_open(ctx, E, st)
        rep.check(bool(d), "no_db:%s" % c.get("name"), "%s is reached although --no-db may have been given" % c.get("name"), span, "%s is called only without --no-db" % c.get("name"))
        rep.check(bool(v), "oneshot:%s" % c.get("name"), "%s is reached although the input may have been given on the command line" % c.get("name"), span, "%s is called only without an input on the command line" % c.get("name"))
    rep.check(True if rec else None, "openers", "nothing opens the database", None, "%d calls open the database" % len(rec))
    # effects outside the functions that open it
    calc = calc_fn(ctx)
    op = openers(ctx)
    # one-shot mode
    f, (E, outs, err) = oneshot(ctx)
    if not finish(rep, E, err, f):
        return
    n = 0
    for st, v in [(s, v) for s, v in outs] + [(s, v) for s, p, v in E.exits]:
        a = parse_input(P, ctx, E, st.tr)
        if a is None or variant(P, fld(a, 0, ip, P.fields(ctx.args_ty)[ip]), st.facts) != "Some":
            continue
        n += 1
        for e in events(st.tr):
            x = ev_effect(P, e)
            rep.check(x not in ("raw+", "raw-", "alt+", "alt-", "read", "term", "db", "dbopen", "fs"), "oneshot:%s" % e.name, "one-shot mode reaches %s" % e.path, e.span)
            g = P.byname.get(e.name)
            if g is not None and g.local and e.name != calc.name:
                rep.check(not (effects(ctx, g.id) & {"raw+", "read", "dbopen", "fs"}), "oneshot:%s" % e.name, "one-shot mode reaches %s" % e.name, e.span)
            if e.name == calc.name:
                for i, x in enumerate(e.args):
                    t = calc.locals[i + 1]
                    if P.cat(t) == "option":
                        k = variant(P, x, st.facts)
                        what = P.tys[P.tys[t]["args"][0]]["s"]
                        rep.check(k == "None", "oneshot:%s" % what, "one-shot mode evaluates with %s" % what, e.span, "one-shot evaluation is given no %s" % what)
    rep.check(True if n else None, "oneshot", "no way through one-shot mode", None, "%d ways through one-shot mode" % n)
    x = effects(ctx, calc.id) & {"raw+", "alt+", "read", "dbopen", "fs"}
    rep.check(not x, "calc", "evaluating a line can itself reach %s" % sorted(x), calc.span, "evaluating a line opens no database and reads no terminal event")
    variables(ctx, rep)


def variables(ctx, rep):
    """an evaluation that would use the variable store fails without one"""
    P = ctx.P
    sv = service_methods(ctx)
    n = 0
    for g, (E, outs, err) in node_runs(ctx):
        n += 1
        for i in range(1, g.argc + 1):
            t = store_param(ctx, g.locals[i])
            if t is None or effects_of_type(ctx, t):
                continue
            if not finish(rep, E, err, g):
                continue
            a = T.sym(g.names.get(i) or "arg%d" % i, g.locals[i])
            using, without = [], []
            for st, v in outs:
                k = variant(P, a, st.facts)
                calls = [P.byname.get(e.name) for e in events(st.tr)]
                if any(h is not None and sv(None, h.id) and P.tys[h.locals[1]]["ty"] == t for h in calls):
                    using.append(st)
                elif k != "Some":
                    without.append((st, v, k))
            for st, v, k in without:
                rk = result_kind(P, st.facts, v)
                if rk == "Err" or not any(together(st, u, a) for u in using):
                    rep.ok("%s without a variable store fails, or uses no variable" % g.name)
                else:
                    rep.check(False if rk == "Ok" and k == "None" else None, "novars:%s" % g.name, "%s succeeds without a variable store where it would use one" % g.name, g.span)
    rep.check(True if n else None, "nodes", "no evaluation functions", None, "%d evaluation functions" % n)


def store_param(ctx, t):
    """the service structure an optional mutable parameter gives access to"""
    P = ctx.P
    if P.cat(t) != "option" or P.k(P.tys[t]["args"][0]) != "ref":
        return None
    t = P.tys[P.tys[t]["args"][0]]["ty"]
    return t if t in all_services(ctx) and P.is_struct(t) else None


def together(s1, s2, a):
    """can the two paths be taken for the same data, apart from a?"""
    f = s1.facts
    for t, v in s2.facts.var.items():
        if any(x is a for x in T.subterms(t)) or any(x.op == "sym" and "#" in str(x.a[0]) for x in T.subterms(t)):
            continue
        vs = f.variants(t)
        if vs is not None and v not in vs:
            return False
    for t, ex in s2.facts.exc.items():
        vs = f.variants(t)
        if vs is not None and not (set(vs) - set(ex)):
            return False
    return True


def effects_of_type(ctx, t):
    """does the structure itself hold the database connection?"""
    P = ctx.P
    return P.is_struct(t) and any("rusqlite" in P.tys[x]["s"] for x in P.fields(t))


def evaluators(ctx):
    """functions computing the value of an expression"""
    P = ctx.P
    r = ctx.ratio_ty()
    ids = {f.id for f in ctx.eval_impls()}
    out = list(ctx.eval_impls())
    for f in P.fns:
        if f and f.local and not f.closure and f.id not in ids and P.is_enum(f.locals[0]) and P.tys[f.locals[0]].get("args") and P.tys[f.locals[0]]["args"][0] == r and \
                any(store_param(ctx, f.locals[i]) is not None for i in range(1, f.argc + 1)):
            out.append(f)
    return out


def node_runs(ctx):
    sv = service_methods(ctx)
    ids = {f.id for f in ctx.eval_impls()}
    return [(f, ctx.analyse(f, opaque=lambda E, fid: fid in ids or sv(E, fid), lim=16, retlim=64, key=("node", f.id))) for f in evaluators(ctx)]
