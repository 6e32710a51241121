"""C06: number literals of every shape up to a length, with unknown digits and radix"""
import itertools
import terms as T
from engine import Engine
from ctx import Missing
from rules import line
from rules.common import *
from rules.exprs import each, aborts
from rules.settings import result_kind
from termeval import V, Unknown, feasible

# classes of characters: the ranges they stand for
CLASS = {"d": ("0", "9"), "h": ("a", "f"), "H": ("A", "F"), "z": ("g", "z"), "Z": ("G", "Z"), "ctl": ("\x01", "\x08")}
WS = {" ", "\t"}
OPS = set("+-*/%^()=,")


class Lex:
    """the function that splits text into tokens, run on texts whose characters are known by class"""

    def __init__(self, ctx):
        P = ctx.P
        self.ctx = ctx
        fs = line.lexers(ctx)
        fs = [f for f in fs if not any(g is not f and f.id in P.reach(g.id) for g in fs)] or fs
        self.f = f = ctx.the("function splitting a line into tokens", fs)
        self.E = E = Engine(P, opaque=lambda E, fid: False, budget=min(600, ctx.left()))
        E.LIM, E.RETLIM = 4096, 4096
        E.unroll = lambda fn: True
        E.unroll_max = 256
        E.scc = {}
        self.steps = E.steps
        E.entry = f.name
        self.text = self.radix = self.own = None
        for i in range(1, f.argc + 1):
            t = P.strip(f.locals[i])
            if P.tys[t]["s"] in ("str", "std::string::String"):
                self.text = i
            elif P.cat(t) == "int":
                self.radix = i
            elif P.k(f.locals[i]) == "ref" and P.is_struct(P.tys[f.locals[i]]["ty"]):
                self.own = i
        if self.text is None or self.radix is None:
            raise Missing("the text and the radix of the function splitting a line")
        self.st = E.start()
        self.me = None
        if self.own:
            t = P.tys[f.locals[self.own]]["ty"]
            new = [g for g in P.fns if g and g.local and g.argc == 0 and g.locals[0] == t and not g.closure]
            new = [g for g in new if not any(h is not g and g.id in P.reach(h.id) for h in new)]
            outs = E.run_fn(self.st, ctx.the("constructor of the splitter", new).id, [], f.span)
            if len(outs) != 1:
                raise Missing("the splitter's keywords")
            self.st, self.me = outs[0]
        self.R = T.sym("radix", f.locals[self.radix])

    def chars(self, labels):
        P, ch = self.ctx.P, self.ctx.P.ty_by_s.get("char")
        return [T.sym("c%d" % i, ch) if l in CLASS else T.I(ord(l)) for i, l in enumerate(labels)]

    def run(self, labels):
        """labels: the radix ('r' for any), then the classes of the characters"""
        E, f = self.E, self.f
        E.steps = self.steps
        st = self.st.fork()
        rad, cs = labels[0], labels[1:]
        fx = st.facts
        els = self.chars(cs)
        for x, l in zip(els, cs):
            if l in CLASS:
                lo, hi = CLASS[l]
                fx = fx.assume(ge0(sub(x, I(ord(lo))))).assume(ge0(sub(I(ord(hi)), x)))
        R = self.R if rad == "r" else I(int(rad))
        if rad == "r":
            fx = fx.assume(ge0(sub(R, I(2)))).assume(ge0(sub(I(16), R)))
        text = T.lit(els) if els else T.string("")
        st.facts = fx.with_all(text, "ascii")
        args = []
        for i in range(1, f.argc + 1):
            byref = self.ctx.P.k(f.locals[i]) == "ref"
            v = text if i == self.text else R if i == self.radix else self.me if i == self.own else E.symbolic("a%d" % i, f.locals[i])
            args.append(T.refv(v) if byref and i in (self.text, self.own) else v)
        return E.run_fn(st, f.id, args, f.span)


def chunks(cs):
    """(start, end) of the stretches between operators and blanks, and the number of operators"""
    out, start, ops = [], None, 0
    for i, l in enumerate(cs):
        if l in OPS or l in WS:
            ops += l in OPS
            if start is not None:
                out.append((start, i))
            start = None
        elif start is None:
            start = i
    if start is not None:
        out.append((start, len(cs)))
    return out, ops


def literal(p, fx, els, cs, a, b, R):
    """(is it a number in this state?, digits, digits after the point)"""
    clean, point = [], None
    for i in range(a, b):
        if cs[i] == "_":
            continue
        if cs[i] == "." and point is None:
            point = len(clean)
            continue
        clean.append(els[i])
    seq = T.lit(clean) if clean else T.string("")
    k = p.E.M.numeral(p.E, fx, seq, R, True)
    if k is None:
        k = fx.decide(app("isnum", (seq, R), p.ctx.P.ty_by_s.get("bool")))
    return k, seq, 0 if point is None else len(clean) - point


def is_value(p, fx, x, seq, after, R, els):
    """True, False or None: is x the number the literal denotes?"""
    n = None
    if is_app(x, "parseint"):
        n, d = x, T.ONE
    elif x.op == "app" and x.a[0] in ("ratio", "rdiv"):
        n, d = x.a[1], x.a[2]
    if n is not None and is_app(n, "parseint") and n.a[1] is seq and n.a[2] is R:
        want = T.ONE if not after else R if after == 1 else T.I(R.a[0] ** after) if R.op == "int" else app("pow", (R, T.I(after)))
        if d is want or is_app(d, "pow") and is_app(want, "pow") and d.a[1:] == want.a[1:]:
            return True
    # an instance on which the two differ
    tried = 0
    for r in ([R.a[0]] if R.op == "int" else [10, 16, 2, 7]):
        for pick in range(3):
            env = {} if R.op == "int" else {R: r}
            for i, e in enumerate(els):
                if e.op == "sym":
                    lo, hi = CLASS[p.labels[i]]
                    top = min(ord(hi), 47 + r) if lo == "0" else min(ord(hi), ord(lo) + r - 11)
                    if top < ord(lo):
                        break
                    env[e] = max(ord(lo), top - (pick * (i + 1)) % 7)
            else:
                if feasible(fx, env, set(env)) is not True:
                    continue
                v = V(env)
                try:
                    got = v.n(x)
                    want = v.n(app("ratio", (app("parseint", (seq, R)), app("pow", (R, T.I(after))))))
                except (Unknown, TypeError, ValueError, IndexError):
                    continue
                tried += 1
                if got != want:
                    return (v.text(T.lit(els)), r, got, want)
    return None


def shape(cs):
    return "".join({"ctl": "?"}.get(c, c) for c in cs)


def c06(ctx, rep):
    P = ctx.P
    p = Lex(ctx)
    tt, var = line.token_ty(ctx)
    rat = ctx.ratio_ty()
    numv = [j for j in range(P.nvariants(tt)) if line.payload_of(P, tt, j) == [rat]][0]
    li, lt, el = line.lex_shape(ctx, p.f)
    deep = ctx.tier == "thorough"
    seqs = set()
    digits = ["d", "h", "H", "_", ".", "z"]
    for n in range(1, 6 if deep else 5):
        seqs |= set(itertools.product(digits, repeat=n))
    for n in range(5, 9 if deep else 7):
        seqs |= set(itertools.product(["d", "_", "."], repeat=n))
    for n in (2, 3) + ((4,) if deep else ()):
        seqs |= {s for s in itertools.product(["d", ".", "_", "+", " ", "(", "$", "Z", "ctl", "#", "/"], repeat=n) if next((c for c in s if c not in WS), "") != "/"}
    for n in (12, 25, 45):
        for k in {0, 1, n // 2, n - 1, n}:
            s = ["d"] * n
            s.insert(k, ".")
            seqs |= {tuple(s), tuple(s[:3] + ["_"] + s[3:]), tuple(s + ["_"])}
        seqs |= {tuple(["d"] * n), tuple(["d"] * (n - 1) + ["h"]), tuple(["h", "."] + ["d"] * n)}
    texts = sorted(seqs)
    jobs = [(r,) + s for s in texts for r in ("r", "10", "16", "2")]

    def elements(st, v):
        x = v.a[1][0] if v.op == "adt" else None
        if x is not None and li is not None:
            x = x.a[1][0] if x.op == "adt" and x.a[0] == li else None
        if x is None:
            return None
        l = T.const_elems(x)
        if l is None:
            return None
        out = []
        for e in l:
            if e.op == "adt" and e.ty != tt:
                e = next((y for y in e.a[1] if y.ty == tt), None)
            if e is None or e.op != "adt":
                return None
            out.append(e)
        return out

    def judge1(nt, p, labels, outs):
        rad, cs = labels[0], labels[1:]
        p.labels = cs
        R = p.R if rad == "r" else I(int(rad))
        els = p.chars(cs)
        span = p.f.span
        parts, ops = chunks(cs)
        text = "a text of the form %s in %s" % (shape(cs), "any radix" if rad == "r" else "radix " + rad)
        for st, v in outs:
            fx = st.facts
            k = result_kind(P, fx, v)
            nums = [(a, b) for a, b in parts if cs[a] != "$"]
            lits = [literal(p, fx, els, cs, a, b, R) for a, b in nums]
            words = any(c in ("z", "Z") for c in cs)
            if k == "Err":
                if any(ok is False for ok, _, _ in lits):
                    nt.ok("%s: rejected only with an invalid literal" % ("literals" if len(parts) < 2 else "lines"))
                elif all(ok is True for ok, _, _ in lits):
                    nt.check(False, "rejected", "%s is rejected although its digits are valid" % text, span)
                else:
                    nt.undec("%s may be rejected" % text)
                continue
            toks = elements(st, v) if k == "Ok" else None
            if toks is None:
                nt.undec("%s gives %s" % (text, show(v)[:80]))
                continue
            got = [t.a[1][0] for t in toks if t.a[0] == numv]
            if len(toks) != len(parts) + ops:
                nt.check(False, "count", "%s gives %d tokens instead of %d" % (text, len(toks), len(parts) + ops), span)
                continue
            if len(got) != len(nums):
                if not words:
                    nt.check(False, "kind", "%s gives %d numbers instead of %d" % (text, len(got), len(nums)), span)
                continue
            for x, (ok, seq, after), (a, b) in zip(got, lits, nums):
                if ok is False:
                    nt.check(False, "accepted", "%s is read as %s although %s is no number" % (text, show(x)[:60], shape(cs[a:b])), span)
                    continue
                r = is_value(p, fx, x, seq, after, R, els)
                if r is True:
                    nt.ok("the value of a literal of %d characters" % (b - a))
                elif r is None:
                    nt.undec("%s is read as %s" % (text, show(x)[:80]))
                else:
                    nt.check(False, "value:" + ("point" if after else "integer"), "%s in radix %d is read as %s instead of %s" % (r[0], r[1], r[2], r[3]), span)
            for t, (a, b) in zip([t for t in toks if t.a[0] == var], [q for q in parts if cs[q[0]] == "$"]):
                want = T.lit(els[a:b])
                nm = t.a[1][0]
                r = p.E.M.eq_term(p.E, st, nm, want)
                nt.check(fx.decide(r) if isinstance(r, T.Term) else r, "name", "%s: the name is read as %s" % (text, show(nm)[:60]), span, "the name of a variable")
    obls = each(ctx, rep, "c06", p, judge1, jobs, "literals")
    aborts(rep, obls, "a literal")
