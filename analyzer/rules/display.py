"""C07: the text shown for a value, under every combination of display settings"""
from fractions import Fraction
import terms as T
from terms import app, fld, is_app
from ctx import events
from rules import line
from rules.common import *
from rules.session import evaluators
from rules.settings import calc_fn, mk_cell, result_kind
from termeval import V, Unknown, feasible, half_away, to_radix

VALUES = [Fraction(x) for x in ("0", "1", "-1", "10", "-10", "15", "255", "999", "1000", "-1000", "123456", "-1234567", "1/2", "-1/2", "3/2", "-5/2", "1/3", "-1/3", "2/3", "1/4", "1/16", "-1/1000",
                                "1/1000000", "9999/10000", "-99999/1000", "1999/2", "65535/256", "123456789/1000", "-1000001/7", "5/10", "15/100", "25/1000", "1048575/1024", "-1/65536")]


def shown(val, S):
    """the text the property asks for"""
    r = S["convert_to_radix"] or S["radix"]
    up = str.upper if S["upper"] else str
    sign = "-" if val < 0 else ""

    def integer(n):
        s = up(to_radix(n, r))
        if S["commas"]:
            out = ""
            for i, ch in enumerate(s):
                out += ("," if i and (len(s) - i) % 3 == 0 else "") + ch
            return out
        return s
    if S["fractional"]:
        return sign + integer(abs(val.numerator)) + ("" if val.denominator == 1 else "/" + integer(val.denominator))
    p = S["precision"]
    scaled = abs(val) * r ** p
    m = half_away(scaled)
    frac = ""
    if p:
        frac = up(to_radix(m % r ** p, r)).rjust(p, "0")
        if scaled.denominator == 1:
            frac = frac.rstrip("0")
    return sign + integer(m // r ** p) + ("." + frac if frac else "")


NAMES = ("radix", "convert_to_radix", "precision", "fractional", "commas", "upper")


def settings(ctx, f):
    """name -> term of the setting before the line is evaluated"""
    P = ctx.P
    out = {}
    for i in range(1, f.argc + 1):
        t = f.locals[i]
        if P.k(t) == "ref" and P.tys[t]["ty"] == ctx.args_ty:
            cell = mk_cell(P, T.sym(f.names.get(i) or "arg%d" % i, t))
            names = P.field_names(ctx.args_ty)
            for j, ft in enumerate(P.fields(ctx.args_ty)):
                out[names[j]] = fld(cell, 0, j, ft)
    for n in NAMES:
        if n not in out:
            raise Missing("the setting %s" % n)
    return out


def c07(ctx, rep):
    P = ctx.P
    f = calc_fn(ctx)
    S = settings(ctx, f)
    E, outs, err = line.line_run(ctx, None, "tokens", 1, show=True)
    if not finish(rep, E, err, f):
        return
    ev = {g.name for g in evaluators(ctx)}
    rat = ctx.ratio_ty()
    seen, k = {}, 0
    for st, v in outs:
        if result_kind(P, st.facts, v) != "Ok":
            continue
        runs = [e for e in events(st.tr) if e.name in ev and result_kind(P, st.facts, e.ret) == "Ok"]
        if len(runs) != 1:
            continue
        k += 1
        val = fld(runs[0].ret, P.variant_index(runs[0].ret.ty, "Ok"), 0, rat)
        X = T.sym("the_value", rat)
        text = T.substitute(v.a[1][0] if v.op == "adt" else fld(v, 0, 0, None), {val: X})
        facts = tuple(sorted((T.show(T.substitute(b, {val: X})) for b in st.facts.booleans() if T.mentions(b, val) or any(T.mentions(b, s) for s in S.values()))))
        key = (text, facts, tuple(sorted(st.facts.variants(S["convert_to_radix"]) or ())))
        if key in seen:
            continue
        seen[key] = True
        rep.count("summaries")
        judge_one(ctx, rep, E, st, f, S, val, v.a[1][0] if v.op == "adt" else None)
    rep.check(True if k else None, "shown", "no value is shown", f.span, "%d paths show a value" % k)


def judge_one(ctx, rep, E, st, f, S, val, text):
    P = ctx.P
    fx = st.facts
    if text is None:
        rep.undec("the text shown")
        return
    want = expected(ctx, E, st, S, val)
    mode = ", ".join("%s %s" % (n, {True: "on", False: "off"}.get(fx.decide(S[n]), "?")) for n in ("fractional", "commas", "upper"))
    if want is not None and norm(ctx, E, fx, text, val) is norm(ctx, E, fx, want, val):
        rep.ok("the text shown is the one asked for (%s)" % mode)
        return
    bad = witness(ctx, rep, E, st, S, val, text)
    if bad is None:
        rep.undec("the text shown is %s (%s)" % (show(text)[:160], mode))
        return
    if bad is True:
        rep.undec("the text shown agrees on every sample, but is not proven (%s): %s" % (mode, show(text)[:160]))
        return
    x, s, got, exp = bad
    which = "fractional" if s["fractional"] else "decimal"
    rep.check(False, "text:%s" % which, "%s in radix %d, %d digits%s%s%s is shown as %s instead of %s" % (x, s["convert_to_radix"] or s["radix"], s["precision"], ", fractional" if s["fractional"] else "", ", commas" if s["commas"] else "", ", upper" if s["upper"] else "", got, exp), f.span)


def witness(ctx, rep, E, st, S, val, text):
    """(value, settings, text, text asked for) where the summary differs; True: it agrees on the
    samples; None: it cannot be evaluated"""
    P = ctx.P
    ct = S["convert_to_radix"]
    some = P.variant_index(ct.ty, "Some")
    inner = fld(ct, some, 0, P.tys[ct.ty]["args"][0])
    about = {val, inner} | set(S.values())
    tried = 0
    for conv in (None, 2, 3, 10, 16):
        for radix in (10, 16, 2, 7) if conv is None else (10, 8):
            for p in (0, 1, 2, 5, 20):
                for bits in range(8):
                    s = {"radix": radix, "convert_to_radix": conv, "precision": p, "fractional": bool(bits & 1), "commas": bool(bits & 2), "upper": bool(bits & 4)}
                    base = {S[n]: s[n] for n in NAMES if n != "convert_to_radix"}
                    if conv is not None:
                        base[inner] = conv
                    vs = [(ct, some if conv is not None else 1 - some)]
                    if feasible(st.facts, base, set(), vs) is False:
                        continue
                    for x in VALUES:
                        env = dict(base)
                        env[val] = x if x.denominator != 1 else x.numerator
                        if feasible(st.facts, env, about, vs) is not True:
                            continue
                        try:
                            got = V(env).text(text)
                        except (Unknown, TypeError, ValueError, IndexError):
                            continue
                        tried += 1
                        exp = shown(x, s)
                        if got != exp:
                            return x, s, got, exp
    return True if tried else None


def expected(ctx, E, st, S, val):
    """the text asked for as a term, where the path decides its form"""
    P = ctx.P
    fx = st.facts
    d = {n: fx.decide(S[n]) for n in ("fractional", "commas", "upper")}
    vs = fx.variants(S["convert_to_radix"])
    neg_ = fx.decide(gt0(neg(val)))
    if neg_ is None or None in d.values() or vs is None or len(vs) != 1:
        return None
    ct = S["convert_to_radix"]
    some = P.variant_index(ct.ty, "Some")
    r = fld(ct, some, 0, P.tys[ct.ty]["args"][0]) if list(vs)[0] == some else S["radix"]
    sty = P.ty_by_s.get("std::string::String")

    def digits(n):
        s = app("radixstr", (n, r), sty)
        return app("upper", (s,), sty) if d["upper"] else s

    def integer(n):
        return app("grouped", (digits(n),), sty) if d["commas"] else digits(n)
    out = [("S", "-")] if neg_ else []
    mag = app("abs", (val,), val.ty)
    if d["fractional"]:
        out.append(integer(app("numer", (mag,))))
        whole = fx.decide(app("isint", (val,), P.ty_by_s.get("bool")))
        if whole is None:
            return None
        if not whole:
            out += [("S", "/"), integer(app("denom", (mag,)))]
        return T.cat(out)
    p = S["precision"]
    zero = fx.decide(eq0(p))
    if zero is None:
        return None
    pw = app("pow", (r, p))
    scaled = app("mul", tuple(sorted((mag, pw))))
    m = app("round", (scaled,))
    out.append(integer(app("idiv", (m, pw))))
    if zero:
        return T.cat(out)
    frac = app("padded", (digits(app("irem", (m, pw))), p), sty)
    exact = [fx.decide(b) for b in fx.booleans() if is_app(b, "isint") and norm(ctx, E, fx, b.a[1], val) is norm(ctx, E, fx, scaled, val)]
    exact += [not fx.decide(b.a[0]) if fx.decide(b.a[0]) is not None else None for b in fx.booleans() if b.op == "not" and is_app(b.a[0], "isint") and norm(ctx, E, fx, b.a[0].a[1], val) is norm(ctx, E, fx, scaled, val)]
    ds = {e for e in decide_exact(ctx, E, fx, scaled, val)}
    if len(ds) != 1:
        return None
    if not list(ds)[0]:
        return T.cat(out + [("S", "."), frac])
    cut = app("cut", (frac,), sty)
    # is anything left?
    empty = None
    for b in fx.booleans():
        pos = b.op != "not"
        c = b if pos else b.a[0]
        if c.op in ("eq0", "gt0", "ge0"):
            n = norm(ctx, E, fx, c.a[0], val)
            L = T.seqlen(norm(ctx, E, fx, cut, val))
            if c.op == "eq0" and (n is L or n is neg(L)):
                empty = pos
            if c.op == "gt0" and n is L or c.op == "ge0" and n is sub(L, T.ONE):
                empty = not pos
    if empty is None:
        return None
    return T.cat(out + ([] if empty else [("S", "."), cut]))


def decide_exact(ctx, E, fx, scaled, val):
    for b in fx.booleans():
        pos = b.op != "not"
        c = b if pos else b.a[0]
        if is_app(c, "isint") and norm(ctx, E, fx, c.a[1], val) is norm(ctx, E, fx, scaled, val):
            yield pos


def nonneg(fx, t, val):
    """is the number surely not negative?  (radices and digit counts are not)"""
    if t.op == "int":
        return t.a[0] >= 0
    if t.op == "app":
        n = t.a[0]
        if n in ("abs", "denom"):
            return True
        if n in ("pow", "round", "trunc", "floor", "ceil", "numer"):
            return nonneg(fx, t.a[1], val)
        if n in ("mul", "idiv", "irem", "rdiv", "rrem"):
            return all(nonneg(fx, x, val) for x in t.a[1:])
        return False
    if t.op == "fld" and t is not val and t.ty is not None:
        return t.a[0].op != "x" and fx.decide(ge0(t)) is not False and T.is_intlike(t)
    return fx.decide(ge0(t)) is True


def norm(ctx, E, fx, t, val, memo=None):
    """one form for texts and numbers that are written differently"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = _norm(ctx, E, fx, t, val, memo)
    memo[t] = r
    return r


def _norm(ctx, E, fx, t, val, memo):
    go = lambda x: norm(ctx, E, fx, x, val, memo)
    P = ctx.P
    sty = P.ty_by_s.get("std::string::String")
    if t.op in ("refv", "deref", "box"):
        return go(t.a[0])
    if t.op == "cat":
        return T.cat([go(p) if not isinstance(p, tuple) else p for p in t.a[0]])
    if t.op == "len":
        return T.seqlen(go(t.a[0]))
    if t.op == "lin":
        r = T.I(t.a[0])
        for k, c in t.a[1]:
            r = T.add(r, T.scale(go(k), c))
        return r
    if t.op == "sub" and t.a[1] is T.ZERO and is_app(t.a[2], "trim_hi:c48") and t.a[2].a[1] is t.a[0]:
        return app("cut", (go(t.a[0]),), sty)
    if is_app(t, "trim_hi:c48"):
        return T.seqlen(app("cut", (go(t.a[1]),), sty))
    if t.op != "app":
        return t
    n = t.a[0]
    if n == "abs":
        x = t.a[1]
        return absolute(fx, go(x), val)
    if n == "mul":
        xs = [go(x) for x in t.a[1:]]
        sgn = 1
        ys = []
        for x in xs:
            if x.op == "lin" and not x.a[0] and len(x.a[1]) == 1:
                k, c = x.a[1][0]
                sgn *= c
                ys.append(k)
            else:
                ys.append(x)
        return T.scale(app("mul", tuple(sorted(ys))), sgn)
    if n == "pad" and t.a[3].op == "int" and (t.a[3].a[0] & 0x1fffff) == 48 and (t.a[3].a[0] >> 29) & 3 == 1:
        s = go(t.a[1])
        return app("padded", (s, go(t.a[2])), sty)
    if n == "upper" and is_app(t.a[1], "pad"):
        # zeros have no case
        x = go(t.a[1])
        if is_app(x, "padded"):
            return app("padded", (app("upper", (x.a[1],), sty), x.a[2]), sty)
    if n == "join":
        g = grouped(t)
        if g is not None:
            return app("grouped", (go(g),), sty)
    if n in ("numer", "round", "trunc", "idiv", "irem", "denom", "pow", "radixstr", "upper", "isint", "padded", "grouped", "cut"):
        xs = [go(x) if isinstance(x, T.Term) else x for x in t.a[1:]]
        if n == "denom" and is_app(xs[0], "abs"):
            xs[0] = xs[0].a[1]
        if n in ("numer", "round", "trunc") and xs[0].op == "lin" and not xs[0].a[0] and len(xs[0].a[1]) == 1 and xs[0].a[1][0][1] == -1:
            return neg(app(n, (xs[0].a[1][0][0],), None))
        return app(n, tuple(xs), sty if n in ("radixstr", "upper", "padded", "grouped", "cut") else None)
    return t


def absolute(fx, x, val):
    if nonneg(fx, x, val):
        return x
    if x.op == "lin" and not x.a[0] and len(x.a[1]) == 1:
        k, c = x.a[1][0]
        return T.scale(absolute(fx, k, val), abs(c))
    if is_app(x, "mul"):
        return app("mul", tuple(sorted(absolute(fx, y, val) for y in x.a[1:])))
    if x.op == "app" and x.a[0] in ("numer", "round", "trunc"):
        return app(x.a[0], (absolute(fx, x.a[1], val),), None)
    return app("abs", (x,), None)


def grouped(t):
    """the text whose groups of three from the right are joined by commas"""
    if T.const_str(t.a[2]) != "," and not (T.const_elems(t.a[2]) or [None])[0] is T.I(44):
        return None
    m = t.a[1]
    if is_app(m, "mapseq"):
        b = m.a[2]
        while b.op in ("refv", "deref", "box", "app") and b is not m.a[3]:
            if b.op == "app" and b.a[0] not in ("chars", "bytes", "refs", "vals"):
                return None
            b = b.a[0] if b.op != "app" else b.a[1]
        if b is not m.a[3]:
            return None
        m = m.a[1]
    if is_app(m, "rev") and is_app(m.a[1], "rchunks") and m.a[1].a[2] is T.I(3):
        s = m.a[1].a[1]
        while s.op in ("refv", "deref", "box", "app") and not (s.op == "app" and s.a[0] not in ("chars", "bytes", "refs", "vals")):
            s = s.a[0] if s.op != "app" else s.a[1]
        return s
    return None
