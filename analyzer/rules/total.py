"""C03: no failed unwrap, index, slice or integer overflow while text is read, parsed and evaluated, a
command runs, or the database is used"""
import itertools
import terms as T
from terms import adt
from engine import Engine
from models import numden
from rules import arith, db, settings, store
from rules import vars as V
from rules.common import *
from rules.exprs import KNOWN, aborts, each
from rules.lexing import CLASS, Lex
from rules.line import token_ty, tokens_like
from rules.parse import Pipe

# decided by other properties: division by zero (C01), radix and digit-count conversions (C02)
OTHERS = ("div0",)


def lost(E, fx):
    """does the path depend on a value the analysis has lost track of?"""
    return any(E.vague(b) for b in fx.booleans()) or any(E.vague(t) for t in list(fx.var) + list(fx.exc))


def collect(ctx, rep, E, f, done):
    for (fn, kind, site), o in E.obl.items():
        if kind in OTHERS:
            continue
        k = (fn, kind, site)
        st = o.status
        if st in ("fails", "unproven") and kind in ("panic", "unreachable") and lost(E, o.facts):
            st = "undecided"
        rank = {"proven": 0, "undecided": 1, "unproven": 2, "fails": 3}
        if k not in done or rank[st] > rank[done[k][0]]:
            done[k] = (st, o, f, frozenset(E.unseen))


class Listed(Pipe):
    """the functions that read a list of values out of the tokens of a text"""

    def __init__(self, ctx, lex):
        P = ctx.P
        self.ctx, self.lex = ctx, lex
        self.tt, self.vi = token_ty(ctx)
        f = lex.f
        self.res = f.locals[0]
        self.ok = P.tys[self.res]["args"][0] if P.cat(self.res) == "result" else None
        self.var = None
        if self.ok is not None and P.is_enum(self.ok):
            for k in range(P.nvariants(self.ok)):
                p = P.fields(self.ok, k)
                if len(p) == 1 and tokens_like(ctx, p[0]):
                    self.var, self.el = k, tokens_like(ctx, p[0])
        elif self.ok is not None:
            self.el = tokens_like(ctx, self.ok)
        if self.ok is None or not self.el:
            raise Missing("the tokens of a text")
        self.fs = [g for g in P.fns if g and g.local and not g.closure and g.id != f.id and f.id in P.reach(g.id) and P.cat(g.locals[0]) == "result"
                   and P.cat(P.tys[g.locals[0]]["args"][0]) == "seq" and any(P.tys[P.strip(g.locals[i])]["s"] in ("str", "std::string::String") for i in range(1, g.argc + 1))]
        self.E = E = Engine(P, opaque=lambda E, fid: False, budget=min(600, ctx.left()))
        E.LIM, E.RETLIM = 4096, 4096
        E.unroll = lambda fn: True
        E.unroll_max = 256
        E.scc = {}
        self.steps = E.steps
        E.hooks[f.name] = self.split
        self.toks = None

    def split(self, E, st, c, args, cx):
        v = E.M.lit(self.toks)
        if self.var is not None:
            v = adt(self.ok, self.var, (v,))
        return [(st.fork(), E.M.ok(E, self.res, v))]

    def run(self, labels):
        E, P, ks = self.E, self.ctx.P, self.kinds()
        out = []
        ts = [self.token(i, ks[l]) for i, l in enumerate(labels)]
        self.toks = [self.place(i, t) for i, t in enumerate(ts)]
        for g in self.fs:
            E.steps = self.steps
            st = E.start()
            for i, l in enumerate(labels):
                if l == "num":
                    # the number of a text has no sign
                    st.facts = st.facts.assume(ge0(numden(E, st, T.sym("n%d" % i, self.ctx.ratio_ty()), "numer")))
            out += E.run_fn(st, g.id, [E.symbolic(g.names.get(i) or "p%d" % i, g.locals[i]) for i in range(1, g.argc + 1)], g.span)
        return out


class Worded(Lex):
    """the commands, run on arguments whose characters are known by class"""

    def __init__(self, ctx):
        P = ctx.P
        self.ctx = ctx
        self.fs = []
        serv = set()
        for t, impl in sorted(settings.command_trait(ctx).items()):
            f = impl["execute"]
            i, dty, j = settings.data_arg(ctx, f)
            serv |= settings.services(ctx, dty) if j is not None else set()
            xs = settings.text_args(ctx, f)
            at = [n for n in range(1, f.argc + 1) if xs and self.root(xs[-1]) is T.sym(f.names.get(n) or "arg%d" % n, f.locals[n])]
            if len(xs) == 2 and len(at) == 1 and P.k(f.locals[at[0]]) != "ref":
                self.fs.append((f, at[0]))

        def opq(E, fid):
            g = P.fns[fid]
            return any(P.k(g.locals[n]) == "ref" and P.tys[g.locals[n]]["ty"] in serv for n in range(1, g.argc + 1))
        self.E = E = Engine(P, opaque=opq, budget=min(600, ctx.left()))
        for g in P.fns:
            if g and g.local and opq(E, g.id):
                E.free_calls |= {g.name, g.path}
        E.LIM, E.RETLIM = 256, 256
        self.steps = E.steps

    def root(self, x):
        while x.op != "sym" and x.a and isinstance(x.a[0], T.Term):
            x = x.a[0]
        return x

    def run(self, labels):
        E, P = self.E, self.ctx.P
        els = self.chars(labels)
        text = T.lit(els) if els else T.string("")
        for f, at in self.fs:
            E.steps = self.steps
            E.entry = f.name
            st = E.start()
            fx = st.facts
            for x, l in zip(els, labels):
                if l in CLASS:
                    lo, hi = CLASS[l]
                    fx = fx.assume(ge0(sub(x, I(ord(lo))))).assume(ge0(sub(I(ord(hi)), x)))
            st.facts = fx.with_all(text, "ascii")
            args = []
            for n in range(1, f.argc + 1):
                t, name = f.locals[n], f.names.get(n) or "arg%d" % n
                if n != at:
                    args.append(E.symbolic(name, t))
                elif P.cat(t) == "str":
                    args.append(text)
                else:
                    x = T.sym(name, t)
                    args.append(adt(t, 0, [text if P.cat(y) == "str" else adt(y, 0, [I(10 if k == 0 else len(labels)) for k in range(len(P.fields(y)))])
                                           if P.is_struct(y) and all(P.cat(z) == "int" for z in P.fields(y)) else fld(x, 0, m, y) for m, y in enumerate(P.fields(t))]))
            E.run_fn(st, f.id, args, f.span)
        return []


def c03(ctx, rep):
    P = ctx.P
    done, seen = {}, set()

    def one(f, E, err):
        rep.count("entries")
        seen.update(E.fns_seen)
        if err:
            rep.undec("analysis of %s incomplete: %s" % (f.name, err))
        collect(ctx, rep, E, f, done)
    # token sequences through the parser and the evaluation
    p = Pipe(ctx)
    ks = p.kinds()
    every = [l for l in ks if l in KNOWN and l != "Negate"]
    few = [l for l in ("num", "Comma", "OpenParen", "CloseParen", "Subtract", "Multiply", "Max") if l in ks]
    seqs = [()] + [s for n in (1, 2, 3) for s in itertools.product(every, repeat=n)] + [s for n in (4, 5) for s in itertools.product(few, repeat=n)] if ctx.tier == "thorough" else \
        [()] + [s for n in (1, 2, 3) for s in itertools.product(every, repeat=n)] + [s for s in itertools.product(few, repeat=4)]
    obls = each(ctx, rep, "c03", p, lambda nt, p, labels, outs: nt.ok("%d tokens" % len(labels)), seqs, "token sequences")
    aborts(rep, {k: o for k, o in obls.items() if k[0] not in OTHERS}, "a sequence of tokens")
    parsing = {(o[2], o[1]) for o in obls.values()}
    # texts through the splitter, by the class of each character
    p = Lex(ctx)
    chars = ["d", "h", "z", "H", "Z", "ctl", " ", "\t", "$", "_", ".", "/", "+", "-", "*", "%", "^", "(", ")", "=", ",", "#"]
    some = ["d", "z", " ", "$", "_", ".", "/", "-", "("]
    texts = [()] + [s for n in (1, 2, 3) for s in itertools.product(chars, repeat=n)] if ctx.tier == "thorough" else \
        [()] + [s for n in (1, 2) for s in itertools.product(chars, repeat=n)] + [s for s in itertools.product(some, repeat=3)]
    texts += [("/",) + tuple(w) for l in texts if len(l) < 3 for w in [("l", "e", "t", " ") + l, ("z", "z", " ", "z", " ") + l]]
    obls = each(ctx, rep, "c03l", p, lambda nt, p, labels, outs: nt.ok("%d characters" % (len(labels) - 1)), [("r",) + s for s in texts], "texts")
    aborts(rep, {k: o for k, o in obls.items() if k[0] not in OTHERS}, "a text")
    parsing |= {(o[2], o[1]) for o in obls.values()}
    # lists of values read from the tokens of a text
    p = Listed(ctx, p)
    if p.fs:
        ks = [l for l in ("num", "var", "Subtract", "Add", "Comma", "Assign") if l in p.kinds()]
        seqs = [s for n in range(4) for s in itertools.product(ks, repeat=n)] + [(l,) for l in p.kinds()]
        obls = each(ctx, rep, "c03i", p, lambda nt, p, labels, outs: nt.ok("%d tokens" % len(labels)), seqs, "lists of values")
        aborts(rep, {k: o for k, o in obls.items() if k[0] not in OTHERS}, "a list of values")
        parsing |= {(o[2], o[1]) for o in obls.values()}
    # a line, the commands, the operations of the tree, the database and the variables
    f, (E, outs, err) = settings.run_calc(ctx)
    one(f, E, err)
    for t, impl in sorted(settings.command_trait(ctx).items()):
        f = impl["execute"]
        E, outs, err, _, _ = settings.run_command(ctx, f)
        one(f, E, err)
    for f, (E, outs, err) in arith.runs(ctx):
        one(f, E, err)
    opening, ops = store.db_ops(ctx)
    for f in (opening if isinstance(opening, list) else [opening]) + list(ops):
        E, outs, err = store.db_run(ctx, f)
        one(f, E, err)
    for f in V.entries(ctx):
        u = V.uses_db(ctx, f)
        for n in (0, 1):
            for d in (True, False):
                if d and not u or not d and (u == "yes" or n == 0):
                    continue
                E, outs, err = V.run(ctx, f, n, d)
                if E is not None:
                    one(f, E, err)
    # the commands, on short arguments
    p = Worded(ctx)
    if p.fs:
        seqs = [s for n in range(5 if ctx.tier == "thorough" else 4) for s in itertools.product(["z", "d", "-", " ", "$"], repeat=n)]
        obls = each(ctx, rep, "c03w", p, lambda nt, p, labels, outs: nt.ok("%d characters" % len(labels)), seqs, "arguments of commands")
        aborts(rep, {k: o for k, o in obls.items() if k[0] not in OTHERS and o[0] in ("proven", "fails")}, "the arguments of a command")
    # what the analyses above took as given of the types that only read their arguments
    opq = settings.service_methods(ctx)
    reach = set(P.reach(settings.calc_fn(ctx).id)) | {i for t, impl in settings.command_trait(ctx).items() for i in P.reach(impl["execute"].id)}
    changed = {P.tys[g.locals[1]]["ty"] for g in P.fns if g and g.local and g.argc and P.k(g.locals[1]) == "ref" and P.tys[g.locals[1]].get("mut")}
    for i in sorted(reach):
        f = P.fns[i]
        if not (f and f.local) or f.closure or f.name in seen or f.argc < 1 or not opq(None, i) or P.tys[f.locals[1]]["ty"] in changed:
            continue
        E, outs, err = ctx.analyse(f, opaque=lambda E, fid, f=f: fid != f.id and opq(E, fid), lim=16, retlim=64, key=("given", f.id), budget=300)
        ints = {T.sym(f.names.get(j) or "arg%d" % j, f.locals[j]) for j in range(1, f.argc + 1) if P.cat(f.locals[j]) == "int"}
        E.obl = {k: o for k, o in E.obl.items() if o.status == "proven" or not any(x in ints for x in T.subterms(o.cond))}
        one(f, E, err)
    for (fn, kind, site), (st, o, f, unseen) in sorted(done.items(), key=lambda x: str(x[0])):
        rep.soft = unseen
        rep.count("obligation:" + kind)
        what = "%s in %s: %s" % (kind, fn, o.detail or kind)
        if st == "proven":
            rep.ok(what)
        elif st == "undecided":
            if kind == "panic" and any(x == fn for x, _ in parsing):
                continue
            rep.undec("%s at %s: %s" % (what, o.span, show(o.cond)[:120]))
        else:
            rep.fail("%s:%s:%s" % (kind, fn, o.detail), "%s: %s is not ensured on the path through %s (needs %s)" % (fn, o.detail or kind, " > ".join(o.stack), show(o.cond)[:200]), o.span)
    rep.count("functions", len(seen))
