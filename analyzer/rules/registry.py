"""C09: the command registry."""
import re

from rules.common import *
from rules.settings import command_trait, command_name, const_result, data_arg


def string_list(v):
    es = T.const_elems(v) if v is not None else None
    if es is None:
        return None
    out = []
    for e in es:
        while e.op == "refv":
            e = e.a[0]
        s = T.const_str(e)
        if s is None:
            return None
        out.append(s)
    return out


def table(m):
    """entries of a symbolic map built from empty, oldest first; None if not so built"""
    out = []
    while is_app(m, "mput"):
        out.append((m.a[2], m.a[3]))
        m = m.a[1]
    if not is_app(m, "mempty"):
        return None
    return out[::-1]


def registry(ctx):
    """the function building the registry and its analysed outcome"""
    P = ctx.P

    def dynmap(ft):
        s = P.tys[ft]["s"]
        return "HashMap" in s and "dyn " in s or "BTreeMap" in s and "dyn " in s
    cand = []
    for f in P.fns:
        if f and f.local and not f.closure and "promoted" not in f.name and f.argc == 0 and P.is_struct(f.locals[0]) and any(dynmap(ft) for ft in P.fields(f.locals[0])):
            cand.append(f)
    f = ctx.the("constructor of the command registry", cand)

    def setup(E):
        E.unroll = lambda g: True
    return f, ctx.analyse(f, pre=False, setup=setup, lim=64, retlim=64, key=("registry",))


def text_of(E, st, v):
    """constant parts of a text; the rest as \\0"""
    s = T.const_str(v)
    if s is not None:
        return s
    if v.op == "cat":
        out = ""
        for p in v.a[0]:
            out += p[1] if isinstance(p, tuple) and p[0] == "S" else "\0"
        return out
    return "\0"


def c09(ctx, rep):
    P = ctx.P
    impls = {}
    for tname, impl in command_trait(ctx).items():
        n = command_name(ctx, impl)
        a = string_list(const_result(ctx, impl["aliases"]))
        sty = tname.lstrip("<").split(" as ")[0]
        if n is None or a is None:
            rep.undec("name or aliases of %s are not constants" % sty)
            continue
        impls[sty] = (n, a, impl)
        for x in [n] + a:
            rep.check(bool(x) and not re.search(r"\s", x), "text:%s" % x, "%r cannot be a command name: it is empty or contains white space" % x, impl["name"].span, "%r is non-empty and free of white space" % x)
    used = {}
    for sty, (n, a, impl) in sorted(impls.items()):
        for x in [n] + a:
            rep.check(x not in used, "distinct:%s" % x, "%r is declared by both %s and %s" % (x, used.get(x), sty), impl["aliases"].span, "%r is declared once" % x)
            used[x] = sty
    f, (E, outs, err) = registry(ctx)
    if not finish(rep, E, err, f):
        return
    judge(rep, E)
    if len(outs) != 1:
        if len(outs) == 0:
            rep.fail("builds", "building the command registry never succeeds", f.span)
        else:
            rep.undec("%d outcomes of building the registry" % len(outs))
        return
    st, reg = outs[0]
    maps = [table(x) for x in reg.a[1]] if reg.op == "adt" else []
    cmds = [m for m in maps if m and all(v.op == "box" for _, v in m)]
    if len(cmds) != 1:
        rep.undec("registry contents: %s" % show(reg)[:100])
        return
    have = {}
    for k, v in cmds[0]:
        x = v.a[0]
        have[P.tys[x.ty]["s"] if isinstance(x.ty, int) else "?"] = T.const_str(k)
    for sty, (n, a, impl) in sorted(impls.items()):
        rep.check(have.get(sty) == n, "registered:%s" % n, "command %s (%s) is not in the registry under its own name" % (n, sty), f.span, "%s is registered as %r" % (sty, n))
    for im in P.impls:
        if im["trait"] in {i["execute"].trait for i in command_trait(ctx).values()}:
            rep.check(im["items"].get("execute") is not None, "impl", "", None)
    resolve(ctx, rep, reg, impls, used)
    helps(ctx, rep, impls)


def resolve(ctx, rep, reg, impls, used):
    """look every name and alias up in the registry built: constants propagated through the executor"""
    P = ctx.P
    rty = reg.ty
    ret = {i["execute"].locals[0] for _, _, i in impls.values()}
    ex = [f for f in P.fns if f and f.local and not f.closure and not f.trait and f.argc >= 2 and P.k(f.locals[1]) == "ref" and P.tys[f.locals[1]]["ty"] == rty and f.locals[0] in ret]
    if len(ex) != 1:
        rep.undec("%d functions execute a command by name" % len(ex))
        return
    f = ex[0]
    exec_ids = {i["execute"].id: s for s, (_, _, i) in impls.items()}
    names = {i["execute"].name: s for s, (_, _, i) in impls.items()}

    def posstr(ty):
        return P.is_struct(ty) and P.fields(ty) and P.cat(P.fields(ty)[0]) == "str"
    ti = [i for i in range(2, f.argc + 1) if posstr(f.locals[i]) or P.cat(P.strip(f.locals[i])) == "str"]
    if not ti:
        rep.undec("command name argument of %s" % f.name)
        return
    def string_arg(w, ty):
        if P.cat(P.strip(ty)) == "str":
            s = T.string(w)
            return T.refv(s) if P.k(ty) == "ref" else s
        return T.adt(ty, 0, [T.string(w)] + [T.sym("pos", t) for t in P.fields(ty)[1:]])

    def lookup(words, key, opaque):
        args = []
        for i in range(1, f.argc + 1):
            ty = f.locals[i]
            if i in ti and ti.index(i) < len(words):
                args.append(string_arg(words[ti.index(i)], ty))
            else:
                args.append(T.sym(f.names.get(i) or "arg%d" % i, ty))
        args[0] = T.sym("self", f.locals[1]) if P.tys[f.locals[1]]["mut"] else T.refv(reg)

        def pre(E, st, g, a):
            if P.tys[f.locals[1]]["mut"]:
                E.set_pointee(st, a[0], reg)
        return ctx.analyse(f, opaque=opaque, pre=pre, args=args, key=key, lim=64, retlim=64)
    detailed = {i["long_help"].id: s for s, (_, _, i) in impls.items() if i.get("long_help")}
    dnames = {i["long_help"].name: s for s, (_, _, i) in impls.items() if i.get("long_help")}
    for h in [n for n, _, _ in impls.values() if n == "help"] if len(ti) >= 2 else []:
        for w, sty in sorted(used.items()):
            E, outs, err = lookup((h, w), ("lookuphelp", w), lambda E, fid: fid in detailed)
            if err or not outs:
                rep.undec("looking up the help of %r: %s" % (w, err))
                continue
            for st, v in outs:
                got = {dnames[e.name] for e in events(st.tr) if e.name in dnames}
                if got == {sty}:
                    rep.ok("/%s %s gives the detailed help of %s" % (h, w, sty))
                elif not got and (E.unknown or any(e.name.endswith("::long_help") for e in events(st.tr))):
                    rep.undec("/%s %s: which help is given" % (h, w))
                else:
                    rep.fail("helplookup:%s" % w, "/%s %s does not give the help of %s but %s" % (h, w, sty, sorted(got) or "fails"), f.span)
    for w, sty in sorted(used.items()):
        E, outs, err = lookup((w,), ("lookup", w), lambda E, fid: fid in exec_ids)
        if err or not outs:
            rep.undec("looking up %r: %s" % (w, err))
            continue
        for st, v in outs:
            called = {names[e.name] for e in events(st.tr) if e.name in names}
            if called == {sty}:
                rep.ok("/%s runs %s" % (w, sty))
            elif not called and any(e.name.endswith("::execute") for e in events(st.tr)):
                rep.undec("/%s: receiver not determined" % w)
            else:
                rep.fail("lookup:%s" % w, "/%s does not run %s but %s" % (w, sty, sorted(called) or "fails"), f.span)


def helps(ctx, rep, impls):
    P = ctx.P
    allw = {x for n, a, _ in impls.values() for x in [n] + a}
    for sty, (n, a, impl) in sorted(impls.items()):
        h = impl.get("long_help")
        if h is None:
            rep.undec("no detailed help for %s" % n)
            continue
        E, outs, err = ctx.analyse(h, pre=False, lim=64, retlim=64, key=("help", h.id))
        if not finish(rep, E, err, h):
            continue
        for st, v in outs:
            t = text_of(E, st, v)
            ws = set(re.findall(r"/([^\s/.,;:()'\"\0]+)", t))
            unknown = "\0" in t
            for x in [n] + a:
                rep.check(x in ws or (None if unknown else False), "help:%s:%s" % (n, x), "the detailed help of /%s does not document /%s" % (n, x), h.span, "help of /%s documents /%s" % (n, x))
            for line in re.findall(r"^Alias(?:es)?:(.*)$", t, re.M):
                for x in re.findall(r"/?([^\s,/\0]+)", line):
                    rep.check(x in a, "help:%s:%s" % (n, x), "the detailed help of /%s documents an alias /%s that it does not have" % (n, x), h.span, "documented alias /%s of /%s exists" % (x, n))
            for x in ws:
                if x in allw and x not in [n] + a and re.search(r"[Aa]lias[^.\n]*/" + re.escape(x) + r"\b", t):
                    rep.fail("help:%s:%s" % (n, x), "the detailed help of /%s gives /%s as an alias" % (n, x), h.span)
