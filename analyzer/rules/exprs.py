"""C05, C28, C19: token sequences of every shape up to a length, with unknown numbers and names, against
the grammar of expressions."""
import multiprocessing
import os
import terms as T
from terms import add, app, is_app, neg, sub
from ctx import events
from rules import line
from rules.common import *
from rules.parse import Pipe
from rules.settings import result_kind
from rules.vars import contains_rat, known, methods, pair_ty, run, stores

LEVEL = {"Exponent": 0, "Modulus": 1, "Multiply": 2, "Divide": 2, "Add": 3, "Subtract": 3}
UNARY = ("SquareRoot", "AbsoluteValue")
FUNCTION = ("Max", "Min")
KNOWN = set(LEVEL) | set(UNARY) | set(FUNCTION) | {"num", "var", "AssignmentOperator", "Comma", "OpenParen", "CloseParen", "Negate"}


class Bad(Exception):
    pass


class Grammar:
    """line := [name =] chain;  chain := signed (op signed)*;  signed := -* atom;
    atom := number | name | (chain) | unary signed | function signed | function([chain (, chain)*])"""

    def __init__(self, labels):
        self.s, self.i = list(labels), 0
        self.empty = False
        self.target = None

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def take(self, x):
        if self.peek() != x:
            raise Bad("expected %s" % x)
        self.i += 1

    def line(self):
        if self.s[:2] == ["var", "AssignmentOperator"]:
            self.target, self.i = 0, 2
        t = self.chain()
        if self.peek() is not None:
            raise Bad("leftover")
        return t

    def chain(self):
        xs = [self.signed()]
        while self.peek() in LEVEL:
            o = self.peek()
            self.i += 1
            xs += [o, self.signed()]
        for lv in range(4):
            out = [xs[0]]
            for o, y in zip(xs[1::2], xs[2::2]):
                if LEVEL[o] == lv:
                    out[-1] = ("bin", o, out[-1], y)
                else:
                    out += [o, y]
            xs = out
        return xs[0]

    def signed(self):
        if self.peek() == "Subtract":
            self.i += 1
            return ("neg", self.signed())
        return self.atom()

    def atom(self):
        x, i = self.peek(), self.i
        if x in ("num", "var"):
            self.i += 1
            return (x, i)
        if x == "OpenParen":
            self.i += 1
            t = self.chain()
            self.take("CloseParen")
            return t
        if x in UNARY:
            self.i += 1
            return ("un", x, self.signed())
        if x in FUNCTION:
            self.i += 1
            if self.peek() != "OpenParen":
                return ("fn", x, [self.signed()])
            self.i += 1
            l = []
            if self.peek() == "CloseParen":
                self.i += 1
                self.empty = True
                return ("fn", x, l)
            while True:
                l.append(self.chain())
                if self.peek() == "Comma":
                    self.i += 1
                    continue
                self.take("CloseParen")
                return ("fn", x, l)
        raise Bad("no operand")


def grammar(labels):
    """('good' | 'empty' | 'bad', tree, index of the name assigned)"""
    g = Grammar(labels)
    try:
        t = g.line()
    except Bad:
        return "bad", None, None
    return "empty" if g.empty else "good", t, g.target


def value(p, t):
    """what a tree must evaluate to, or None where the operation has several results"""
    r = p.ctx.ratio_ty()
    if t[0] == "num":
        return T.sym("n%d" % t[1], r)
    if t[0] == "neg":
        x = value(p, t[1])
        return None if x is None else neg(x)
    if t[0] == "fn" and len(t[2]) == 1:
        return value(p, t[2][0])
    if t[0] == "bin":
        a, b = value(p, t[2]), value(p, t[3])
        if a is None or b is None:
            return None
        return {"Add": lambda: add(a, b), "Subtract": lambda: sub(a, b), "Multiply": lambda: p.E.M.mul(a, b, r), "Divide": lambda: app("rdiv", (a, b), r),
                "Modulus": lambda: app("rrem", (a, b), r), "Exponent": lambda: app("power", (a, b), r)}[t[1]]()
    return None


class Notes:
    """what a worker reports"""

    def __init__(self):
        self.l = []
        self.soft = frozenset()

    def check(self, r, key, msg, where=None, what=None):
        self.l.append(("check", r, key, msg, where, what))

    def ok(self, what):
        self.l.append(("check", True, "", "", None, what))

    def fail(self, key, msg, where=None, what=None):
        self.l.append(("check", False, key, msg, where, what))

    def undec(self, m):
        self.l.append(("undec", m))

    def count(self, k, n=1):
        self.l.append(("count", k, n))


JOB = {}


def work(args):
    job, chunk = args
    p, judge1 = JOB[job]
    rep = Notes()
    for labels in chunk:
        try:
            outs = p.run(labels)
        except Exception as e:
            if type(e).__name__ not in ("Budget", "Missing"):
                raise
            rep.undec("%s: %s" % (" ".join(map(str, labels)), e))
            continue
        rep.soft = frozenset(p.E.unseen)
        rep.count("token sequences")
        judge1(rep, p, labels, outs)
    obl = [(o.status, o.kind, o.fn, o.detail, o.span, list(o.stack), show(o.cond)[:120]) for o in p.E.obl.values()]
    return rep.l, obl, dict(p.E.fns_seen), sorted(p.E.unseen)


def each(ctx, rep, job, p, judge1, seqs, what):
    """every sequence through the parser and the evaluation, in parallel"""
    JOB[job] = (p, judge1)
    seqs = [tuple(s) for s in seqs]
    n = max(1, min(len(seqs), (os.cpu_count() or 1) * 6))
    chunks = [(job, seqs[i::n]) for i in range(n)]
    res = []
    if len(seqs) < 40:
        res = [work(c) for c in chunks]
    else:
        with multiprocessing.get_context("fork").Pool(os.cpu_count() or 1) as pool:
            it = pool.imap_unordered(work, chunks)
            for _ in chunks:
                try:
                    res.append(it.next(timeout=ctx.left()))
                except multiprocessing.TimeoutError:
                    rep.undec("%s: out of time" % what)
                    pool.terminate()
                    break
    obls, fns = {}, {}
    for l, obl, seen, unseen in res:
        rep.soft = frozenset(unseen)
        for x in l:
            getattr(rep, x[0])(*x[1:])
        for o in obl:
            if o[0] != "proven" or (o[1:4] not in obls):
                obls[o[1:4]] = o
        fns.update(seen)
    rep.count("functions", len(fns))
    return obls


def aborts(rep, obls, what):
    for (kind, fn, detail), (status, k, f, d, span, stack, cond) in sorted(obls.items(), key=lambda x: str(x[0])):
        if status == "proven":
            rep.ok("%s in %s cannot fail (%s)" % (kind, fn, what))
        elif status in ("fails", "unproven"):
            rep.check(False, "abort:%s:%s:%s" % (kind, fn, detail), "%s: %s can be reached by %s (through %s)" % (fn, detail or kind, what, " > ".join(stack)), span)
        else:
            rep.undec("%s in %s" % (kind, fn))


def binary_ops(p):
    ks = p.kinds()
    js = {ks[l][0] for l in LEVEL if l in ks}
    return [l for l, w in ks.items() if isinstance(w, tuple) and w[0] in js and w[1] is not None]


def nested(ks, depth, ops):
    """every nesting of parentheses, signs, functions and operators up to a depth around a number"""
    wraps = [(["OpenParen"], ["CloseParen"]), (["Subtract"], []), (["Max", "OpenParen"], ["CloseParen"]), (["Min"], []), (["AbsoluteValue"], []),
             (["Max", "OpenParen", "num", "Comma"], ["CloseParen"])] + [x for o in ops for x in (([], [o, "num"]), (["num", o], []))]
    wraps = [(a, b) for a, b in wraps if set(a + b) <= set(ks)]
    cur, out = [("num",)], set()
    for _ in range(depth):
        cur = [tuple(a) + x + tuple(b) for x in cur for a, b in wraps]
        out.update(cur)
    return out


def c05(ctx, rep):
    p = Pipe(ctx)
    ops = binary_ops(p)
    for o in LEVEL:
        rep.check(True if o in ops else None, "operator:" + o, "no token for the operator", None, "operator %s" % o)
    mine = [o for o in ops if o in LEVEL]
    seqs = []

    def chains(n, over):
        if n == 0:
            yield []
            return
        for r in chains(n - 1, over):
            for o in over:
                yield r + [o]
    deep = ctx.tier == "thorough"
    few = [[o for o in mine if LEVEL[o] == lv][-1] for lv in range(4) if any(LEVEL[o] == lv for o in mine)]
    for n, over in [(n, mine) for n in range(1, 6 if deep else 5)] + [(n, few) for n in range(5, 7 if deep else 6)]:
        for c in chains(n, over):
            seqs.append(["num"] + [y for o in c for y in (o, "num")])
    # other operands: negated, in parentheses, of a function
    shapes = [["Subtract", "num"], ["Subtract", "Subtract", "num"], ["Subtract", "OpenParen", "num", "CloseParen"], ["Max", "OpenParen", "num", "CloseParen"], ["Min", "num"]] + [["OpenParen", "num", o, "num", "CloseParen"] for o in mine] + [["OpenParen", "Subtract", "num", "CloseParen"]]
    for o in mine:
        for sh in shapes:
            seqs += [sh + [o, "num"], ["num", o] + sh]
    for c in chains(2, mine):
        for sh in shapes:
            for k in range(3):
                xs = [["num"], [c[0]], ["num"], [c[1]], ["num"]]
                xs[2 * k] = sh
                seqs.append([y for x in xs for y in x])
    if ctx.tier == "thorough":
        for c in chains(2, mine):
            for a in shapes[:5]:
                for b in shapes[:5]:
                    for d in shapes[:5]:
                        seqs.append(a + [c[0]] + b + [c[1]] + d)
    have = {tuple(s) for s in seqs}
    for sh in sorted(nested(p.kinds(), 4 if deep else 3, [o for o in ("Add", "Subtract", "Multiply") if o in mine])):
        if sh not in have and value(p, grammar(sh)[1]) is not None:
            seqs.append(list(sh))

    def judge1(nt, p, labels, outs):
        kind, t, target = grammar(labels)
        want = value(p, t)
        span = p.parser.span
        text = " ".join(labels)
        n = 0
        key = "group:" + " ".join(l for l in labels if l in LEVEL)
        for st, v, x in outs:
            if x is None:
                if result_kind(ctx.P, st.facts, v) == "Err":
                    nt.check(False, "rejects:" + " ".join(l for l in labels if l in LEVEL), "the parser rejects %s" % text, span)
                else:
                    nt.undec("parsing %s" % text)
                n += 1
                continue
            k = result_kind(ctx.P, st.facts, x)
            if k == "Err":
                continue
            if k != "Ok" or x.op != "adt":
                nt.undec("%s evaluates to %s" % (text, show(x)[:60]))
                continue
            n += 1
            r = x.a[1][0]
            if r is want or st.facts.decide(eq0(sub(r, want))) is True:
                nt.ok("%s groups as it must" % " ".join(l for l in labels if l in LEVEL))
            elif p.E.vague(r):
                nt.undec("%s evaluates to %s" % (text, show(r)[:80]))
            else:
                nt.check(False, key, "%s evaluates to %s instead of %s" % (text, show(r)[:80], show(want)[:80]), span)
        nt.check(True if n else None, "value:" + text, "%s has no value" % text, span)
    obls = each(ctx, rep, "c05", p, judge1, seqs, "operator chains")
    aborts(rep, obls, "an expression")
    # operators this rule knows no level of
    new = [o for o in ops if o not in LEVEL]
    if new:
        rep.undec("operators without a specified level: %s" % ", ".join(new))


CLASSES = ["num", "var", "AssignmentOperator", "Comma", "OpenParen", "CloseParen", "Subtract", "Multiply", "AbsoluteValue", "Max"]
TEMPLATES = ["var AssignmentOperator num Add Max OpenParen num Comma num Subtract num CloseParen Multiply OpenParen Subtract var CloseParen",
             "OpenParen OpenParen num Add num CloseParen Divide OpenParen num CloseParen CloseParen Exponent num",
             "Max OpenParen Min OpenParen num Comma num CloseParen Comma AbsoluteValue num Comma OpenParen num CloseParen CloseParen",
             "SquareRoot Subtract num Modulus Min Subtract num Subtract Subtract Max OpenParen num CloseParen"]


def c28(ctx, rep):
    p = Pipe(ctx)
    ks = p.kinds()
    every = [l for l in ks if l in KNOWN and l != "Negate"]
    classes = [l for l in CLASSES if l in ks]
    rep.check(True if len(classes) == len(CLASSES) else None, "tokens", "kinds of tokens are missing", None, "%d kinds of tokens" % len(every))
    seqs = set()

    def upto(n, over):
        cur = [()]
        for _ in range(n):
            cur = [s + (l,) for s in cur for l in over]
            seqs.update(cur)
    seqs.add(())
    upto(3, every)
    upto(5 if ctx.tier == "thorough" else 4, classes)
    upto(6 if ctx.tier == "thorough" else 5, [l for l in classes if l not in ("var", "AssignmentOperator", "AbsoluteValue")])
    for t in TEMPLATES:
        t = t.split()
        if not set(t) <= set(ks):
            continue
        seqs.add(tuple(t))
        for i in range(len(t) + 1):
            for l in classes:
                seqs.add(tuple(t[:i] + [l] + t[i:]))
                if i < len(t):
                    seqs.add(tuple(t[:i] + [l] + t[i + 1:]))
            if i < len(t):
                seqs.add(tuple(t[:i] + t[i + 1:]))
            seqs.add(tuple(t[:i]))
    seqs |= nested(ks, 4 if ctx.tier == "thorough" else 3, [o for o in ("Add", "Subtract", "Multiply") if o in ks])
    w = {f.name for f in setters(ctx)}

    def judge1(nt, p, labels, outs):
        kind, t, target = grammar(labels)
        span = p.parser.span
        text = " ".join(labels) or "nothing"
        if kind == "good":
            nt.count("well-formed")
            return
        nt.count("malformed")
        for st, v, x in outs:
            r = v if x is None else x
            k = result_kind(ctx.P, st.facts, r)
            evs = [e for e in events(st.tr) if e.tag in ("opaque", "failure")]
            if kind == "bad":
                nt.check(True if k == "Err" else (False if k == "Ok" else None), "accepts:" + text, "%s is accepted although it is malformed" % text, span, "malformed sequences are rejected")
                nt.check(not evs, "evaluates:" + text, "%s is malformed, but a variable in it is read or assigned" % text, span, "nothing of a malformed sequence is evaluated")
            else:
                nt.check(True if k == "Err" else (False if k == "Ok" else None), "empty:" + text, "%s has a value although a function has no arguments" % text, span, "functions without arguments are errors")
                nt.check(not any(e.name in w for e in evs), "assigns:" + text, "%s assigns although a function has no arguments" % text, span, "nothing is assigned from functions without arguments")
        if not outs and kind == "bad":
            nt.undec("%s has no outcome" % text)
    obls = each(ctx, rep, "c28", p, judge1, sorted(seqs), "token sequences")
    aborts(rep, obls, "a sequence of tokens")
    ok = rep.counts.get("well-formed", 0)
    rep.check(True if ok > 20 else None, "some", "no well-formed sequence", None)


def setters(ctx):
    """methods of the session's variables that store a value they are given"""
    def go():
        out = []
        for f in methods(ctx):
            if not any(contains_rat(ctx, ctx.P.strip(f.locals[i])) for i in range(2, f.argc + 1)):
                continue
            out.append(f)
        return out
    return ctx.memo("setters", go)


EXPRS = ["num", "var", "num Add var", "var Divide var", "Subtract var", "SquareRoot var", "AbsoluteValue num", "Max OpenParen var Comma num CloseParen", "Min OpenParen CloseParen",
         "OpenParen var CloseParen Modulus num", "var Exponent num", "var Multiply OpenParen num Subtract var CloseParen", "Min OpenParen num Comma SquareRoot num Comma var CloseParen", "num num", "OpenParen num"]


def c19(ctx, rep):
    P = ctx.P
    p = Pipe(ctx)
    ws = setters(ctx)
    rep.check(True if ws else None, "setter", "nothing stores the variables of a session", None, "%d functions store variables" % len(ws))
    w = {f.name: f for f in ws}
    ks = p.kinds()
    seqs = []
    for e in EXPRS:
        e = tuple(e.split())
        if set(e) <= set(ks):
            seqs += [e, ("var", "AssignmentOperator") + e, ("OpenParen", "var", "AssignmentOperator") + e + ("CloseParen",), ("var", "AssignmentOperator", "var", "AssignmentOperator") + e]

    def given(f, e):
        """name and value a setter is given"""
        nm = val = None
        for x in e.args[1:]:
            while x.op in ("box", "refv"):
                x = x.a[0]
            if not isinstance(x.ty, int):
                continue
            q = pair_ty(ctx, x.ty)
            if q:
                nm, val = fld(x, 0, q[0], P.fields(x.ty)[q[0]]), fld(x, 0, q[1], P.fields(x.ty)[q[1]])
            elif P.strip(x.ty) == ctx.ratio_ty():
                val = x
            elif P.cat(P.strip(x.ty)) == "str" or P.tys[P.strip(x.ty)]["s"] == "str":
                nm = x
        return nm, val

    def judge1(nt, p, labels, outs):
        kind, t, target = grammar(labels)
        text = " ".join(labels)
        span = p.root.span
        n = 0
        for st, v, x in outs:
            r = v if x is None else x
            k = result_kind(P, st.facts, r)
            evs = [e for e in events(st.tr) if e.name in w and e.tag == "opaque"]
            lost = {e.name for e in events(st.tr) if e.tag == "failure"}
            if k not in ("Ok", "Err"):
                nt.undec("%s: result %s" % (text, show(r)[:60]))
                continue
            if k == "Err":
                bad = [e for e in evs if e.name + "!" not in lost]
                nt.check(not bad, "failed:" + text, "%s fails, but assigns a variable" % text, span, "a failing evaluation assigns nothing")
                continue
            if target is None:
                nt.check(not evs, "assigns:" + text, "%s assigns a variable" % text, span, "an expression without assignment assigns nothing")
                continue
            n += 1
            if len(evs) != 1:
                nt.check(False, "times:" + text, "%s is assigned %d times" % (text, len(evs)), span)
                continue
            nm, val = given(w[evs[0].name], evs[0])
            want = T.sym("v%d" % target, payload_str(ctx, p))
            res = r.a[1][0] if r.op == "adt" and r.a[1] else None
            nm = p.E.strip(st, nm) if nm is not None else None
            nt.check(True if nm is want else (False if nm is not None and not p.E.vague(nm) else None), "name:" + text, "%s assigns another name than the one written" % text, span, "the name written is the one assigned")
            nt.check(True if res is not None and val is res else (None if res is None or val is None or p.E.vague(val) or p.E.vague(res) else False), "value:" + text, "%s assigns %s, but evaluates to %s" % (text, show(val)[:60] if val is not None else "?", show(res)[:60] if res is not None else "?"), span, "the value assigned is the one the expression evaluates to")
        if kind == "good" and target is not None and outs:
            nt.check(True if n else None, "never:" + text, "%s is never assigned" % text, span)
    obls = each(ctx, rep, "c19", p, judge1, seqs, "assignments")
    storing(ctx, rep, ws)
    lines(ctx, rep)


def payload_str(ctx, p):
    return line.payload_of(ctx.P, p.tt, p.vi)[0]


def storing(ctx, rep, ws):
    """what is stored is what was given, under the name given"""
    from rules.named import map_ops
    from rules.vars import name_value, rowkey, runs, saved, uses_db
    P = ctx.P
    N, V = name_value(ctx)
    for f in ws:
        done = {True: 0, False: 0}
        for d, n, st, v, b, a, t0, t1 in runs(ctx, rep, f):
            E = st.aux["E"]
            k = result_kind(P, st.facts, v)
            if b is None:
                rep.undec("the variables of %s" % f.name)
                continue
            ops = map_ops(b, a)
            if ops is None:
                rep.undec("%s changes the variables as a whole" % f.name)
                continue
            for key, val in ops:
                same = line.same(E, st, E.strip(st, key), N)
                rep.check(same, "%s:other" % f.name, "%s changes another variable than the one it is given" % f.name, f.span, "only the given variable changes in the session")
            last = ops[-1][1] if ops else None
            if k == "Ok":
                done[d] += 1
                rep.check(True if last is V else (False if last is None or known(last) else None), "%s:memory" % f.name, "%s can leave the session's variable without the value it is given" % f.name, f.span, "the session's variable gets the value given")
                if d:
                    old = {rowkey(q) for q in saved(t0)}
                    mine = [r for r in saved(t1) if rowkey(r) not in old]
                    rep.check(len(mine) == 1 and line.same(E, st, mine[0]["name"], N) is True, "%s:row" % f.name, "%s can leave the database without the value it is given" % f.name, f.span, "the value given is saved (%d inputs stored)" % n if isinstance(n, int) else "the value given is saved")
            else:
                rep.check(not ops or last is V or (None if last is not None and not known(last) else False), "%s:failing" % f.name, "%s fails and stores another value than the one it is given" % f.name, f.span, "a failing assignment stores nothing else")
        for d in (True, False):
            if (d and uses_db(ctx, f)) or (not d and uses_db(ctx, f) != "yes"):
                rep.check(True if done[d] else None, "%s:%s" % (f.name, d), "%s never succeeds %s a database" % (f.name, "with" if d else "without"), f.span)


def lines(ctx, rep):
    """a line that cannot be read, parsed or evaluated leaves the variables alone; the value shown is
    the one the evaluation gave"""
    from rules.named import map_ops
    from rules.session import evaluators
    from rules.settings import calc_fn
    from rules.vars import rowkey, saved
    P = ctx.P
    f = calc_fn(ctx)
    S = stores(ctx)
    ev = {g.name for g in evaluators(ctx)}
    rat = ctx.ratio_ty()
    LN = tuple((n, kind, k) for n in (0, 1, 2, None) for kind, k in (("unreadable", 0), ("tokens", 0), ("tokens", 1), ("tokens", 2)))
    shown = 0
    for n, kind, k, E, st, v, t0, t1 in line.line_outcomes(ctx, rep, LN):
        evs = events(st.tr)
        run_ = [e for e in evs if e.name in ev]
        good = [e for e in run_ if result_kind(P, st.facts, e.ret) == "Ok"]
        old = {rowkey(r) for r in saved(t0)}
        new = [r for r in saved(t1) if rowkey(r) not in old]
        rep.check(not new, "line:rows:" + kind, "a line saves a variable outside of its evaluation (%s)" % kind, f.span, "nothing outside of the evaluation saves a variable")
        if not run_:
            for i in range(1, f.argc + 1):
                t = f.locals[i]
                u = P.tys[t]["args"][0] if P.cat(t) == "option" else t
                if P.k(u) == "ref" and P.tys[u]["ty"] in S:
                    sy = T.sym(f.names.get(i) or "arg%d" % i, t)
                    ptr = fld(sy, P.variant_index(t, "Some"), 0, u) if u != t else sy
                    t2 = P.tys[u]["ty"]
                    from rules.settings import mk_cell
                    b, a = fld(mk_cell(P, ptr), 0, S[t2], P.fields(t2)[S[t2]]), fld(E.pointee(st, ptr), 0, S[t2], P.fields(t2)[S[t2]])
                    ops = map_ops(b, a)
                    rep.check(True if ops == [] else (False if ops else None), "line:memory:" + kind, "a line that is not evaluated changes the session's variables (%s)" % kind, f.span, "a line that is not evaluated leaves the session's variables alone")
        if kind == "tokens" and result_kind(P, st.facts, v) == "Ok":
            rep.check(len(good) == 1 and len(run_) == 1 or (k == 0 and not run_), "line:evaluated", "a line succeeds with %d evaluations" % len(run_), f.span, "a line is evaluated once")
            if len(good) != 1:
                continue
            want = fld(good[0].ret, P.variant_index(good[0].ret.ty, "Ok"), 0, rat)
            for e in evs:
                if e.name in ev or e.tag != "opaque":
                    continue
                for x in e.args:
                    y = E.strip(st, x)
                    if y.ty == rat or T.mentions(y, want):
                        shown += 1
                        rep.check(True if y is want else (None if E.vague(T.substitute(y, {want: T.sym("the_value", rat)})) else False), "line:shown", "the value shown is not the one the expression evaluated to", f.span, "the value shown is the one evaluated")
    rep.check(True if shown else None, "shown", "how the value is shown", f.span)
