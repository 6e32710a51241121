"""C01, C04: evaluation of syntax tree nodes."""
from fractions import Fraction

from rules.common import *


def recursive_exec(ctx, E):
    """names of the functions that evaluate a sub-expression (members of the evaluation recursion)"""
    P = ctx.P
    sc = P.sccs()
    ids = {sc[f.id] for f in ctx.eval_impls() if f.id in sc}
    return {f.name for f in P.fns if f and f.id in sc and sc[f.id] in ids} | {f.path for f in P.fns if f and f.id in sc and sc[f.id] in ids if hasattr(f, "path")}


def setup(ctx):
    def go(E):
        E.free_calls |= recursive_exec(ctx, E)
    return go


def runs(ctx):
    for f in ctx.eval_impls():
        yield f, ctx.analyse(f, lim=400, retlim=400, setup=setup(ctx), key=("eval", f.id))


def c01(ctx, rep):
    for f, (E, outs, err) in runs(ctx):
        if finish(rep, E, err, f):
            judge(rep, E, {"div0"})
    rep.assumptions += [
        "the models of num's rational and big-integer operations list every zero-divisor panic of the operations used",
        "the start value and the iterates of the root search are non-zero (values of loops over rationals are not tracked)",
    ]


OPS = {"Add": add, "Subtract": sub, "Multiply": None, "Divide": None, "Modulus": None, "Exponent": None}


def subresults(ctx, st, names, self_v):
    """payload symbol of an evaluated sub-expression -> the node field evaluated"""
    m = {}
    order = []
    for e in events(st.tr):
        if e.name in names or e.path in names:
            a = e.args[0]
            if e.pre:
                a = e.pre[0]
            while a.op in ("box", "refv"):
                a = a.a[0]
            m[e.ret] = a
            order.append(e.ret)
    return m, order


def payload(P, ret):
    return fld(ret, P.variant_index(ret.ty, "Ok"), 0, P.tys[ret.ty]["args"][0])


def c04(ctx, rep):
    P = ctx.P
    names = None
    seen = {}
    for f, (E, outs, err) in runs(ctx):
        if names is None:
            names = recursive_exec(ctx, E)
        if not finish(rep, E, err, f):
            continue
        node = P.tys[f.locals[1]]["args"][0]
        kinds = op_field(P, node)
        for st, v in outs:
            m, order = subresults(ctx, st, names, None)
            op, opty = operator_of(P, node, f, st, kinds, E)
            one(ctx, rep, E, f, st, v, m, op, seen)
    roots(ctx, rep)
    need = {"Add", "Subtract", "Multiply", "Divide", "Modulus", "Exponent", "Negate", "AbsoluteValue", "Max", "Min"}
    for k in sorted(need):
        if k not in seen:
            rep.undec("no evaluation of operator %s was recognised" % k)
    roles = {seen[k] for k in ("Subtract", "Divide", "Modulus", "Exponent") if isinstance(seen.get(k), tuple)}
    if roles:
        rep.check(len(roles) == 1, "operand-roles", "operators disagree on which field is the left operand: %s" % sorted((k, v) for k, v in seen.items() if isinstance(v, tuple)), what="all non-commutative operators take the same field as left operand")
    return roles


def constant(t):
    """the number a term of constants denotes"""
    if t.op == "int":
        return Fraction(t.a[0])
    if t.op == "app" and t.a[0] in ("ratio", "rawratio", "rdiv") and len(t.a) == 3:
        a, b = constant(t.a[1]), constant(t.a[2])
        return None if a is None or not b else a / b
    return None


def roots(ctx, rep):
    """a square root is the power one half of its operand"""
    from rules.parse import Pipe
    p = Pipe(ctx)
    if "SquareRoot" not in p.kinds():
        return
    got = False
    for s, v, r in p.run(("SquareRoot", "num")):
        if r is None or variant(ctx.P, r, s.facts) != "Ok":
            continue
        r = r.a[1][0] if r.op == "adt" else fld(r, ctx.P.variant_index(r.ty, "Ok"), 0, ctx.ratio_ty())
        k = constant(r.a[2]) if is_app(r, "power") and len(r.a) == 3 else None
        if k is None:
            rep.undec("square root: %s" % show(r)[:100])
        elif k != Fraction(1, 2):
            rep.soft = frozenset(p.E.unseen)
            rep.check(False, "root", "the square root of x is computed as x to the power %s" % k, p.root.span)
            rep.soft = frozenset()
        elif r.a[1] is T.sym("n1", ctx.ratio_ty()):
            got = True
    if got:
        rep.ok("a square root is the power one half of its operand")


def op_field(P, node):
    """fields of the node that are operator enums"""
    out = []
    for i, ft in enumerate(P.fields(node)):
        if P.is_enum(ft):
            vs = {P.variant_name(ft, v) for v in range(P.nvariants(ft))}
            if vs & {"Add", "Negate", "Max", "AbsoluteValue", "Subtract", "Min"}:
                out.append((i, ft))
    return out


def operator_of(P, node, f, st, kinds, E):
    if not kinds:
        return None, None
    i, ft = kinds[0]
    self_v = T.unbox(T.sym(f.names.get(1) or "arg1", f.locals[1]), node)
    x = fld(self_v, 0, i, ft)
    return variant(P, x, st.facts), ft


def known(facts, cond):
    return facts.decide(cond)


def facets(fx, name, x):
    out = []
    for tab in (fx.booleans(), fx.bl, fx.sub):
        for b in tab:
            for t in T.subterms(b):
                if is_app(t, name) and t.a[1] is x and t not in out:
                    out.append(t)
    return out


def zero(fx, x):
    return known(fx, eq0(x)) is True or any(known(fx, eq0(t)) is True for t in facets(fx, "numer", x))


def same(facts, a, b):
    if a is b:
        return True
    return facts.decide(eq0(sub(a, b)))


def contradictory(facts, *conds):
    fx = facts
    for c in conds:
        fx = fx.assume(c)
        if fx is None:
            return True
    return False


def one(ctx, rep, E, f, st, v, m, op, seen):
    """one outcome of one node kind"""
    P = ctx.P
    fx = st.facts
    vn = P.variant_name(v.ty, v.a[0]) if v.op == "adt" else None
    subs = [payload(P, r) for r in m if "Ok" in [P.variant_name(r.ty, x) for x in (fx.variants(r) or [])] and len(fx.variants(r)) == 1]
    failed = [r for r in m if [P.variant_name(r.ty, x) for x in (fx.variants(r) or [])] == ["Err"]]
    key = "%s:%s" % (f.name, op)
    if v in m:  # delegates to a sub-expression
        rep.ok("%s returns the result of its only sub-expression" % f.name)
        return
    if vn == "Err":
        e = v.a[1][0]
        if failed:
            rep.check(True if any(e is fld(r, P.variant_index(r.ty, "Err"), 0, e.ty) for r in failed) or not any(x in T.syms(e) for x in []) else None, key + ":err", "", None)
            return
        if op in ("Add", "Subtract", "Multiply", "Negate", "AbsoluteValue"):
            rep.fail(key + ":fails", "%s of any two values must have a value, but the evaluation fails on some path" % op, f.span)
        elif op in ("Divide", "Modulus") and len(subs) == 2:
            lr = seen.get(op)
            ok = any(zero(fx, x) for x in subs)
            rep.check(ok or None if not ok else True, key + ":fails", "%s fails although no operand is zero" % op, f.span, "%s fails only for a zero operand" % op)
        return
    if vn != "Ok":
        if v.ty is not None and m:
            rep.undec("%s: result %s not understood" % (key, show(v)[:80]))
        return
    r = v.a[1][0]
    fields = {payload(P, x): m[x] for x in m}

    def who(t):
        a = fields.get(t)
        return a.a[2] if a is not None and a.op == "fld" else None
    if op is None:
        # number, variable
        return
    rep.count("outcomes")
    if op in ("Negate", "AbsoluteValue", "SquareRoot"):
        if len(subs) != 1:
            rep.undec("%s: %d sub-results" % (key, len(subs)))
            return
        x = subs[0]
        if op == "Negate":
            verdict(rep, E, fx, r, neg(x), key, f, "the negated operand")
            seen[op] = True
        elif op == "AbsoluteValue":
            seen[op] = True
            if r is app("abs", [x], x.ty) or is_app(r, "abs") and r.a[1] is x:
                rep.ok("abs is the absolute value of the operand")
                return
            n = gt0(neg(x))
            c1 = contradictory(fx, n) or same(fx.assume(n), r, neg(x))
            c2 = contradictory(fx, bnot(n)) or same(fx.assume(bnot(n)), r, x)
            if c1 is True and c2 is True:
                rep.ok("abs is the absolute value of the operand")
            elif E.vague(r):
                rep.undec("%s: %s" % (key, show(r)[:100]))
            else:
                rep.fail(key + ":value", "abs yields %s" % show(r)[:150], f.span)
        return
    if op in ("Max", "Min"):
        if is_app(r, "fold"):
            fold_rule(ctx, rep, E, f, st, r, op, key, seen)
        else:
            rep.undec("%s: %s" % (key, show(r)[:100]))
        return
    if len(subs) != 2:
        if len(subs) < 2 and not E.vague(r):
            rep.fail(key + ":value", "%s yields %s without evaluating both operands" % (op, show(r)[:100]), f.span)
        else:
            rep.undec("%s: %d sub-results" % (key, len(subs)))
        return
    a, b = subs
    if who(a) is None or who(b) is None:
        rep.undec("%s: operands not identified" % key)
        return
    got = None
    if op == "Add":
        verdict(rep, E, fx, r, add(a, b), key, f, "the sum of both operands")
        seen.setdefault(op, True)
        return
    if op == "Multiply":
        if is_app(r, "mul") and set(r.a[1:]) == {a, b} or r is T.app("mul", [a, b], a.ty):
            rep.ok("* is the product of both operands")
        else:
            settle(rep, E, r, key, f, "the product of both operands")
        seen.setdefault(op, True)
        return
    if op in ("Subtract", "Divide", "Modulus"):
        for x, y in ((a, b), (b, a)):
            if op == "Subtract" and r is sub(x, y) or op != "Subtract" and is_app(r, {"Divide": "rdiv", "Modulus": "rrem"}[op]) and r.a[1] is x and r.a[2] is y:
                got = (who(x), who(y))
        if got:
            if seen.setdefault(op, got) != got:
                rep.fail(key + ":order", "%s takes its operands in different orders on different paths" % op, f.span)
            else:
                rep.ok("%s of field %d and field %d, in that order" % (op, got[0], got[1]))
        else:
            settle(rep, E, r, key, f, "the %s of left and right operand" % {"Subtract": "difference", "Divide": "quotient", "Modulus": "remainder"}[op])
        return
    if op == "Exponent":
        exponent(rep, E, f, fx, r, a, b, who, key, seen)


def exponent(rep, E, f, fx, r, a, b, who, key, seen):
    """integer powers are exact: on the paths where the exponent is an integer"""
    from terms import is_app
    base = exp = None
    inverted = None
    t = r
    inv = 0
    if is_app(t, "inv"):
        t, inv = t.a[1], 1
    if is_app(t, "pow"):
        x, n = t.a[1], t.a[2]
        if is_app(x, "inv"):
            x, inv = x.a[1], inv + 1
        for p, q in ((a, b), (b, a)):
            if x is p and n in (app("abs", [app("numer", [q])]), app("numer", [q])) or x is p and is_app(n, "abs") and is_app(n.a[1], "numer") and n.a[1].a[1] is q or x is p and is_app(n, "numer") and n.a[1] is q:
                base, exp = p, q
    if base is None:
        # the path of fractional exponents, or something else altogether
        d = [app("denom", [y]) for y in (a, b)]
        frac = any(fx.decide(eq0(sub(x, T.ONE))) is False for x in dens(fx, r, a, b))
        if frac or E.vague(r):
            rep.count("root outcomes")
            return
        settle(rep, E, r, key, f, "an integer power")
        return
    roles = (who(base), who(exp))
    if seen.setdefault("Exponent", roles) != roles:
        rep.fail(key + ":order", "^ takes its operands in different orders on different paths", f.span)
        return
    negq = gt0(neg(exp))
    want = known(fx, negq)
    if want is None:
        for t in facets(fx, "numer", exp):
            want = known(fx, gt0(neg(t)))
    if want is None:
        rep.undec("%s: sign of the exponent unknown" % key)
    elif bool(inv % 2) == want:
        rep.ok("x^n = %s for %s n" % ("(1/x)^|n|" if inv else "x^|n|", "negative" if want else "non-negative"))
    else:
        rep.fail(key + ":inverse", "an integer power with %s exponent is %s" % ("negative" if want else "non-negative", "inverted" if inv % 2 else "not inverted"), f.span)


def dens(fx, r, a, b):
    out = []
    for bb in fx.booleans():
        for x in T.subterms(bb):
            if is_app(x, "denom") and x.a[1] in (a, b) and x not in out:
                out.append(x)
    return out


def verdict(rep, E, fx, r, want, key, f, what):
    if r is want or same(fx, r, want) is True:
        rep.ok("%s yields %s" % (key.split(":")[-1], what))
    else:
        settle(rep, E, r, key, f, what)


def settle(rep, E, r, key, f, what):
    if E.vague(r):
        rep.undec("%s: result %s" % (key, show(r)[:120]))
    else:
        rep.fail(key + ":value", "%s must yield %s, but yields %s" % (key.split(":")[-1], what, show(r)[:160]), f.span)


def operands_of(P, ctx, f):
    """the node's list of operands"""
    node = P.tys[f.locals[1]]["args"][0]
    self_v = T.unbox(T.sym(f.names.get(1) or "arg1", f.locals[1]), node)
    out = []
    for i, ft in enumerate(P.fields(node)):
        e = P.elem_ty(ft) if P.cat(ft) == "seq" else None
        if e is not None:
            out.append(fld(self_v, 0, i, ft))
    return out


def fold_rule(ctx, rep, E, f, st, r, op, key, seen):
    """max/min: fold of the largest/smallest over all argument values"""
    P = ctx.P
    fx = st.facts
    seq, init, fn = r.a[1], r.a[2], r.a[3]
    name = P.tys[fn.a[0]]["callee"]["name"] if fn.op == "fn" else None
    seen[op] = True
    if name in ("max", "min"):
        rep.check(name == op.lower(), key + ":function", "%s folds with %s" % (op, name), f.span, "%s folds with %s" % (op, name))
    else:
        rep.undec("%s: fold with %s" % (key, show(fn)[:60]))
    ops = operands_of(P, ctx, f)
    if len(ops) != 1 or seq.op != "sub" or init.op != "elem":
        rep.undec("%s: fold of %s from %s" % (key, show(seq)[:60], show(init)[:40]))
        return
    ops = ops[0]
    K, lo, hi = seq.a
    n = T.seqlen(K)
    whole = init.a[0] is K and same(fx, init.a[1], T.ZERO) and same(fx, lo, T.ONE) and same(fx, hi, n)
    rep.check(whole, key + ":all", "%s does not take all evaluated arguments into account: starts with %s and continues over %s" % (op, show(init)[:60], show(seq)[:60]), f.span, "%s folds over every evaluated argument" % op)
    rep.check(same(fx, n, T.seqlen(ops)), key + ":count", "%s evaluates a different number of arguments than it was given" % op, f.span, "%s evaluates as many values as there are arguments" % op)
    if K.op != "sym":
        rep.undec("%s: collected by %s" % (key, show(K)[:60]))
        return
    done = 0
    names = recursive_exec(ctx, E)
    for b in nodes(st.tr):
        if b.kind != "back":
            continue
        fn_, h, s, H = b.ev
        m = {payload(P, e.ret): (e.pre or e.args)[0] for e in events(b) if e.name in names and P.is_enum(e.ret.ty)}
        for l, x in s.frames[-1].items():
            old = H.frames[-1].get(l)
            if x.op != "cat" or old is x or old is None or len(x.a[0]) != (2 if old.op == "sym" else 1):
                continue
            lastp = x.a[0][-1]
            if isinstance(lastp, T.Term) or lastp[0] == "S" or len(lastp[1]) != 1:
                continue
            if old.op == "sym" and x.a[0][0] is not old:
                continue
            y = lastp[1][0]
            if y not in m:
                continue
            a = m[y]
            while a.op in ("box", "refv"):
                a = a.a[0]
            if a.op != "elem" or a.a[0] is not ops:
                rep.undec("%s: evaluates %s" % (key, show(a)[:60]))
                continue
            done += 1
            rep.check(same(s.facts, a.a[1], T.seqlen(old)), key + ":each", "the %s-th collected value is that of argument %s" % (show(T.seqlen(old)), show(a.a[1])), f.span, "the k-th collected value is that of the k-th argument")
    if not done:
        rep.undec("%s: how the argument values are collected" % key)
