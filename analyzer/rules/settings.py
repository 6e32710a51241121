"""C02, C08: settings commands, settings ranges."""
from rules.common import *
from wordeval import W, feasible

BOOLS = {"fractional": "fractional", "upper": "upper", "commas": "commas", "comma": "commas"}
INTS = {"radix": ["radix"], "converttoradix": ["convert_to_radix"], "precision": ["precision", "extra_precision"]}
OTHER = {"help", "reloadvar", "purgevar", "histcap"}
WORDS = ["t", "T", "true", "TRUE", "tRuE", " t", "t ", "\ttrue ", "f", "F", "false", "FALSE", "fAlSe", " f ", "false\t", "tr", "tt", "truee", "tru", "fa", "ff",
         "fals", "falsee", "x", "1", "0", "10", "yes", "no", "on", "off", "y", "n", "true false", "t f", "-", "none", "NONE", "some"]


def command_trait(ctx):
    """implementations of the command interface: name of the implementing type -> {method: Fn}"""
    def go():
        P = ctx.P
        d = {}
        for f in P.fns:
            if f and f.local and f.trait and not f.closure and "promoted" not in f.name and f.item in ("name", "aliases", "execute", "short_help", "long_help"):
                d.setdefault(f.name.rsplit("::", 1)[0], {})[f.item] = f
        d = {k: v for k, v in d.items() if {"name", "aliases", "execute"} <= set(v)}
        if not d:
            raise Missing("implementations of the command interface")
        return d
    return ctx.memo("command_trait", go)


def const_result(ctx, f):
    """the constant a function returns, or None"""
    E, outs, err = ctx.analyse(f, pre=False, key=("const", f.id), budget=30)
    vals = {E.value(s, v) if v.op in ("ptr", "refv") else v for s, v in outs}
    if err or len(vals) != 1:
        return None
    v = vals.pop()
    while v.op == "refv":
        v = v.a[0]
    return v


def command_name(ctx, impl):
    v = const_result(ctx, impl["name"])
    return T.const_str(v) if v is not None else None


def data_arg(ctx, f):
    """the local of the argument that carries &mut settings, and its type"""
    P = ctx.P
    for i in range(1, f.argc + 1):
        t = f.locals[i]
        if P.is_struct(t):
            for j, ft in enumerate(P.fields(t)):
                if P.k(ft) == "ref" and P.tys[ft]["mut"] and P.tys[ft]["ty"] == ctx.args_ty:
                    return i, t, j
        if P.k(t) == "ref" and P.tys[t]["ty"] == ctx.args_ty:
            return i, t, None
    raise Missing("settings argument of %s" % f.name)


def services(ctx, dty):
    P = ctx.P
    out = set()
    for ft in P.fields(dty):
        t = ft
        while P.is_enum(t) and P.tys[t].get("args"):
            t = P.tys[t]["args"][0]
        if P.k(t) == "ref" and P.tys[t]["ty"] != ctx.args_ty:
            out.add(P.tys[t]["ty"])
    return out


def run_command(ctx, f):
    P = ctx.P
    i, dty, j = data_arg(ctx, f)
    serv = services(ctx, dty) if j is not None else set()

    def opq(E, fid):
        g = P.fns[fid]
        return any(P.k(g.locals[n]) == "ref" and P.tys[g.locals[n]]["ty"] in serv for n in range(1, g.argc + 1))
    def setup(E):
        for g in P.fns:
            if g and g.local and opq(E, g.id):
                E.free_calls |= {g.name, g.path}
    E, outs, err = ctx.analyse(f, opaque=opq, lim=64, retlim=64, key=("command", f.id), setup=setup)
    d = T.sym(f.names.get(i) or "arg%d" % i, dty)
    p = fld(d, 0, j, P.fields(dty)[j]) if j is not None else d
    before = mk_cell(P, p)
    return E, outs, err, p, before


def mk_cell(P, p):
    return T.mk("cell0", (p,), P.tys[p.ty]["ty"])


def text_args(ctx, f):
    """texts among the arguments of execute: (name symbol, arguments symbol) as value terms"""
    P = ctx.P
    out = []
    for i in range(1, f.argc + 1):
        t = f.locals[i]
        x = T.sym(f.names.get(i) or "arg%d" % i, t)
        for k in range(3):
            if P.k(x.ty) == "ref":
                x = T.deref(x, P.tys[x.ty]["ty"])
            if P.cat(x.ty) == "str":
                out.append(x)
                break
            if P.is_struct(x.ty) and x.ty != ctx.args_ty and P.fields(x.ty) and len(P.fields(x.ty)) <= 3:
                ss = [(n, ft) for n, ft in enumerate(P.fields(x.ty)) if P.cat(ft) == "str"]
                if len(ss) == 1:
                    out.append(fld(x, 0, ss[0][0], ss[0][1]))
                break
            else:
                break
    return out


def constants(st, extra=()):
    out = []
    for b in list(st.facts.booleans()) + list(extra):
        for t in T.subterms(b):
            s = T.const_str(t) if t.op == "cat" else None
            if s and s not in out:
                out.append(s)
    return out


def settings_of(ctx, E, st, p, before):
    """field name -> (before, after)"""
    P = ctx.P
    after = E.pointee(st, p)
    names = P.field_names(ctx.args_ty)
    out = {}
    for i, ft in enumerate(P.fields(ctx.args_ty)):
        out[names[i]] = (fld(before, 0, i, ft), fld(after, 0, i, ft))
    return out


def unchanged(fx, b, a):
    if a is b:
        return True
    if a.op == "bool" or b.op == "bool" or is_boolish(b):
        x, y = fx.decide(a) if a.op != "bool" else a.a[0], fx.decide(b) if b.op != "bool" else b.a[0]
        return True if x is not None and x == y else False
    if T.is_intlike(a) and T.is_intlike(b):
        return fx.decide(eq0(sub(a, b))) is True
    va, vb = fx.variants(a), fx.variants(b)
    if va and vb and len(va) == 1 and va == vb and a.op == "adt":
        return all(unchanged(fx, fld(b, a.a[0], i, x.ty), x) for i, x in enumerate(a.a[1]))
    return False


def is_boolish(t):
    return t.op in ("ge0", "gt0", "eq0", "not", "and", "or")


def result_kind(P, fx, v):
    vs = fx.variants(v) if v.op != "adt" else [v.a[0]]
    return P.variant_name(v.ty, vs[0]) if vs and len(vs) == 1 else None


def listed(P, x):
    """x is the k-th value of a tokenized list: (list, index, call arguments)"""
    y = x
    while y.op == "fld" and y.a[0].op == "fld":
        y = y.a[0]
    if y.op == "fld" and y.a[0].op == "elem":
        y = y.a[0]
    if y.op != "elem":
        return None
    return y.a[0], y.a[1]


def allowed(name):
    if name in BOOLS:
        return {BOOLS[name]}
    return set(INTS.get(name, ()))


def commands(ctx):
    for tname, impl in sorted(command_trait(ctx).items()):
        yield tname, impl["execute"], command_name(ctx, impl)


def c08(ctx, rep):
    P = ctx.P
    seen = set()
    for tname, f, name in commands(ctx):
        E, outs, err, p, before = run_command(ctx, f)
        if not finish(rep, E, err, f):
            continue
        key = name or f.name
        for st, v in outs:
            fx = st.facts
            S = settings_of(ctx, E, st, p, before)
            ch = {n for n, (b, a) in S.items() if not unchanged(fx, b, a)}
            rk = result_kind(P, fx, v)
            rep.count("outcomes")
            if ch and rk == "Err":
                rep.fail(key + ":rejected", "%s: a rejected command has already changed %s" % (key, sorted(ch)), f.span)
                continue
            if ch and rk is None:
                rep.undec("%s: result %s" % (key, show(v)[:80]))
                continue
            known = name in BOOLS or name in INTS or name in OTHER
            if ch - allowed(name):
                if known:
                    rep.fail(key + ":isolation", "/%s changes the setting(s) %s" % (key, sorted(ch - allowed(name))), f.span)
                else:
                    rep.undec("/%s changes %s" % (key, sorted(ch)))
                continue
            rep.ok("/%s: an outcome (%s) changes only %s" % (key, rk, sorted(ch) or "nothing"))
            if name in INTS:
                ints(ctx, rep, E, f, st, name, S, ch, rk, key)
        if name in BOOLS and outs:
            bools(ctx, rep, E, f, outs, name, p, before, key)
        if name == "converttoradix" and outs:
            none_word(ctx, rep, E, f, outs, p, before, key)
        seen.add(name)
    for n in ("fractional", "upper", "radix", "converttoradix", "precision"):
        if n not in seen:
            rep.undec("command %s not found" % n)
    from rules import named
    named.histcap(ctx, rep)


def words(outs):
    w = list(WORDS)
    for st, v in outs:
        for s in constants(st):
            if s not in w and len(s) < 40:
                w += [s, s.upper(), " " + s + " "]
    return w


def bools(ctx, rep, E, f, outs, name, p, before, key):
    P = ctx.P
    texts = text_args(ctx, f)
    if not texts:
        rep.undec("/%s: no text argument found" % name)
        return
    A = texts[-1]
    field = BOOLS[name]
    for w in [""] + words(outs):
        norm = w.strip().lower()
        want = True if norm in ("t", "true") else False if norm in ("f", "false") else None
        for st, v in outs:
            S = settings_of(ctx, E, st, p, before)
            b, a = S[field]
            rk = result_kind(P, st.facts, v)
            same = unchanged(st.facts, b, a)
            got, fe, good = None, False, True
            for b0 in (True, False):
                fe1 = feasible(st.facts, {A: w, b: b0})
                if fe1 is False:
                    continue
                got1 = b0 if same else W({A: w, b: b0}).ev(a)
                if want is None:
                    good1 = got1 is b0 and (rk == "Err" or norm == "")
                else:
                    good1 = rk == "Ok" and got1 is want
                if good1:
                    fe = fe or fe1
                    continue
                if good or got is None:
                    good, fe, got = False, fe1, ("same" if same else got1)
            if good and fe is False:
                continue
            if good:
                rep.ok("/%s %r: %s" % (name, w, "rejected" if want is None else "sets %s" % want))
            elif fe is True and got is not None and rk is not None:
                rep.fail("%s:value" % key, "/%s with argument %r must %s, but a path exists on which it %s" % (name, w, "be rejected" if want is None and norm else "change nothing" if want is None else "set %s to %s" % (field, want),
                         ("fails" if rk == "Err" else "leaves it unchanged") if got == "same" else "sets it to %s" % got), f.span)
            else:
                rep.undec("/%s with argument %r: outcome not decided" % (name, w))


def none_word(ctx, rep, E, f, outs, p, before, key):
    P = ctx.P
    texts = text_args(ctx, f)
    A = texts[-1] if texts else None
    if A is None:
        return
    for st, v in outs:
        b, a = settings_of(ctx, E, st, p, before)["convert_to_radix"]
        if not (a.op == "adt" and P.variant_name(a.ty, a.a[0]) == "None") or unchanged(st.facts, b, a):
            continue
        for w in [""] + words([(st, v)]):
            if w.strip().lower() == "none":
                continue
            fe = feasible(st.facts, {A: w})
            if fe is False:
                rep.ok()
            elif fe is True or w == "10" and only_calls(st.facts, {A: w}):
                rep.fail(key + ":none", "/converttoradix %r clears the conversion radix" % w, f.span)
            else:
                rep.undec("/converttoradix %r may clear the conversion radix" % w)


def only_calls(facts, env):
    """what the word leaves open depends only on what reading the text as numbers yields"""
    w = W(env)

    def outside(t):
        if t in env:
            return True
        if t.op == "app" and t.a[0].startswith("call:"):
            return False
        return any(outside(x) for x in T.children(t))
    return all(w.ev(b) is True or w.ev(b) is None and not outside(b) for b in facts.booleans())


def ints(ctx, rep, E, f, st, name, S, ch, rk, key):
    """value stored = the value given"""
    P = ctx.P
    fx = st.facts
    texts = text_args(ctx, f)
    A = texts[-1] if texts else None
    fields = INTS[name]
    lists = []
    for n, fieldn in enumerate(fields):
        if fieldn not in ch:
            continue
        a = S[fieldn][1]
        if P.is_enum(a.ty) if isinstance(a.ty, int) else False:
            vs = fx.variants(a)
            if a.op == "adt" and P.variant_name(a.ty, a.a[0]) == "None":
                continue
            if vs is None or len(vs) != 1:
                rep.undec("/%s: %s becomes %s" % (name, fieldn, show(a)[:80]))
                continue
            a = fld(a, vs[0], 0, P.tys[a.ty]["args"][0])
        L = listed(P, a)
        if L is None:
            if E.precise(ge0(a), fx):
                rep.fail(key + ":given", "/%s sets %s to %s instead of the value given" % (name, fieldn, show(a)[:100]), f.span)
            else:
                rep.undec("/%s: %s becomes %s" % (name, fieldn, show(a)[:80]))
            continue
        lst, idx = L
        lists.append(lst)
        ok = fx.decide(eq0(sub(idx, I(n))))
        rep.check(ok, key + ":order", "/%s sets %s from value number %s of its argument" % (name, fieldn, show(idx)[:40]), f.span, "/%s sets %s to value %d given" % (name, fieldn, n))
        call = lst
        while call.op == "fld":
            call = call.a[0]
        if call.op == "app" and call.a[0].startswith("call:"):
            ints_ = [x for x in call.a[1:] if isinstance(x, T.Term) and x.op == "int"]
            if ints_:
                rep.check(ints_[0] is I(10), key + ":radix", "/%s reads its argument in radix %s, not decimal" % (name, show(ints_[0])), f.span, "/%s reads its argument in decimal" % name)
            elif len(call.a) >= 4:
                rep.fail(key + ":radix", "/%s reads its argument in radix %s, not decimal" % (name, show(call.a[-1])[:60]), f.span)
            if A is not None:
                rep.check(any(A in T.subterms(x) for x in call.a[1:] if isinstance(x, T.Term)), key + ":text", "/%s does not read its own argument text" % name, f.span, "/%s reads its own argument" % name)
    # outcomes that accept values without storing them
    calls = set()
    for b in fx.booleans():
        for t in T.subterms(b):
            if t.op == "len" and is_list(P, t.a[0]):
                calls.add(t.a[0])
    if rk == "Ok":
        for lst in calls:
            for n, fieldn in enumerate(fields):
                if fieldn in ch or (name == "precision" and not ch and n > 0):
                    continue
                fx2 = fx.assume(ge0(sub(T.seqlen(lst), I(n + 1))))
                if fx2 is None:
                    rep.ok("/%s succeeds without setting %s only when no value was given for it" % (name, fieldn))
                elif is_same_none(P, fx2, S[fieldn], lst, n):
                    rep.ok()
                else:
                    rep.fail(key + ":ignored", "/%s can succeed with a value given for %s but not set it" % (name, fieldn), f.span)


def is_same_none(P, fx, ba, lst, n):
    """unchanged because it already equals the value given"""
    b = ba[0]
    return any(fx.decide(eq0(sub(b, x))) is True for x in T.subterms(b) if x.op == "elem")


def is_list(P, t):
    x = t
    while x.op == "fld":
        x = x.a[0]
    return x.op == "app" and x.a[0].startswith("call:") and P.cat(t.ty) == "seq" if isinstance(t.ty, int) else False


# ---------------------------------------------------------------- C02
def calc_fn(ctx):
    """the function evaluating one line: takes the text, the settings and returns the text to show"""
    def go():
        P = ctx.P
        sc = P.sccs()
        out = []
        for f in P.fns:
            if not (f and f.local) or f.closure or f.trait or "promoted" in f.name:
                continue
            ts = [f.locals[i] for i in range(1, f.argc + 1)]
            if not any(P.k(t) == "ref" and P.tys[P.tys[t]["ty"]]["s"] == "str" for t in ts):
                continue
            if not any(P.k(t) == "ref" and P.tys[t]["mut"] and P.tys[t]["ty"] == ctx.args_ty for t in ts):
                continue
            rt = f.locals[0]
            if P.is_enum(rt) and P.tys[rt].get("args") and P.cat(P.tys[rt]["args"][0]) == "str":
                out.append(f)
        if len(out) > 1:
            called = set()
            for f in out:
                r = P.reach(f.id)
                called |= {g.id for g in out if g is not f and g.id in r}
            out = [f for f in out if f.id not in called] or out
        return ctx.the("function evaluating a line", out)
    return ctx.memo("calc_fn", go)


def all_services(ctx):
    def go():
        P = ctx.P
        s = set()
        for _, impl in command_trait(ctx).items():
            i, dty, j = data_arg(ctx, impl["execute"])
            if j is not None:
                s |= services(ctx, dty)
        return s
    return ctx.memo("services", go)


def service_methods(ctx):
    """functions treated as unknown while a line is evaluated: methods of the database, the variable
    store, the history, and the command executor"""
    P = ctx.P
    serv = {t for t in all_services(ctx) if P.is_struct(t) and P.tys[t]["s"].split("<")[0].find("std::") < 0}
    calc = calc_fn(ctx)
    tok = [t for t in serv if any(is_tok(P, f, t) for f in P.fns if f and f.local)]
    dyn = set()
    for i in range(1, calc.argc + 1):
        t = calc.locals[i]
        if P.k(t) == "ref" and P.is_struct(P.tys[t]["ty"]) and P.tys[t]["ty"] != ctx.args_ty:
            u = P.tys[t]["ty"]
            if P.contains(u, lambda x: P.tys[x].get("k") == "dyn" or P.tys[x]["s"].startswith("dyn "), "args"):
                dyn.add(u)

    def opq(E, fid):
        g = P.fns[fid]
        if g.argc < 1 or P.k(g.locals[1]) != "ref" or g.closure:
            return False
        t = P.tys[g.locals[1]]["ty"]
        return (t in serv and t not in tok) or t in dyn
    return opq


def is_tok(P, f, t):
    """f is a method of t that splits text into tokens"""
    if f.argc < 2 or P.k(f.locals[1]) != "ref" or P.tys[f.locals[1]]["ty"] != t:
        return False
    return P.is_enum(f.locals[0]) and any(P.k(f.locals[i]) == "ref" and P.tys[P.tys[f.locals[i]]["ty"]]["s"] == "str" for i in range(2, f.argc + 1)) and \
        P.contains(f.locals[0], lambda x: P.is_struct(x) and "Position" in P.tys[x]["s"], "args")


def run_calc(ctx):
    f = calc_fn(ctx)
    return f, ctx.analyse(f, opaque=service_methods(ctx), lim=16, retlim=64, key=("calc",), budget=600)


def settings_terms(ctx, cond):
    return any(t.op == "fld" and t.a[0].ty == ctx.args_ty for t in T.subterms(cond))


def c02(ctx, rep):
    P = ctx.P
    # 1. the command line
    cli = ctx.cli()
    for n in ("radix", "convert_to_radix"):
        r = cli.get(n)
        if r is None:
            rep.undec("range accepted on the command line for %s" % n)
        else:
            rep.check(r == (2, 16), "cli:" + n, "the command line accepts %d to %d for %s, not 2 to 16" % (r[0], r[1], n), None, "command line %s accepts exactly 2..=16" % n)
    # 2. settings commands
    for tname, f, name in commands(ctx):
        if name not in INTS:
            continue
        E, outs, err, p, before = run_command(ctx, f)
        if not finish(rep, E, err, f):
            continue
        judge(rep, E)
        for st, v in outs:
            S = settings_of(ctx, E, st, p, before)
            rk = result_kind(P, st.facts, v)
            radix_range(ctx, rep, E, f, st, name, S, rk)
    # 3. use
    f, (E, outs, err) = run_calc(ctx)
    if finish(rep, E, err, f):
        judge(rep, E, skip=lambda o: not (settings_terms(ctx, o.cond) or "radix" in (o.detail or "")))
    import rules.arith as A
    for g, (E, outs, err) in A.runs(ctx):
        if finish(rep, E, err, g):
            judge(rep, E, skip=lambda o: not settings_terms(ctx, o.cond))


def radix_range(ctx, rep, E, f, st, name, S, rk):
    P = ctx.P
    fx = st.facts
    for fieldn in INTS[name]:
        b, a = S[fieldn]
        if fieldn.endswith("precision"):
            continue
        if not unchanged(fx, b, a):
            if isinstance(a.ty, int) and P.is_enum(a.ty):
                if a.op == "adt" and P.variant_name(a.ty, a.a[0]) == "None":
                    continue
                a = fld(a, P.variant_index(a.ty, "Some"), 0, P.tys[a.ty]["args"][0])
            for c in (ge0(sub(a, I(2))), ge0(sub(I(16), a))):
                d = fx.decide(c)
                if d is True:
                    rep.ok("/%s stores a value with %s" % (name, show(c)[:60]))
                elif d is False or E.precise(c, fx):
                    rep.fail("%s:range" % name, "/%s can store a radix outside 2 to 16" % name, f.span)
                else:
                    rep.undec("/%s: %s" % (name, show(c)[:80]))
        elif rk == "Err":
            # a rejection although one value between 2 and 16 was given
            for t in {t for b2 in fx.booleans() for t in T.subterms(b2) if t.op == "len" and is_list(P, t.a[0])}:
                lst = t.a[0]
                el = [x for b2 in fx.booleans() for x in T.subterms(b2) if x.op == "fld" and listed(P, x) and listed(P, x)[0] is lst and T.is_intlike(x)]
                fx2 = fx.assume(eq0(sub(t, I(1))))
                if fx2 is None:
                    rep.ok("/%s rejects several values" % name)
                    continue
                vals = [x for x in el if listed(P, x)[1] is T.ZERO and x.a[0].op == "elem" and x.a[2] == 0]
                if not vals:
                    rep.undec("/%s: rejection of one value for a reason not understood" % name)
                    continue
                x = vals[0]
                fx3 = fx2.assume(ge0(sub(x, I(2))))
                fx3 = fx3.assume(ge0(sub(I(16), x))) if fx3 is not None else None
                rep.check(fx3 is None, "%s:refused" % name, "/%s refuses some radix between 2 and 16" % name, f.span, "/%s refuses only values outside 2..=16" % name)
