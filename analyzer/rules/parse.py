"""Token sequences followed through the parser and the evaluation: what an expression of a given shape,
with unknown numbers and names, evaluates to (C05, C19, C28)."""
import terms as T
from terms import adt, app, is_app
from ctx import events
from engine import Engine
from rules import line
from rules.common import *
from rules.line import payload_of, token_ty, tokens_like, tree_types
from rules.session import evaluators, store_param
from rules.settings import mk_cell, result_kind
from rules.store import db_ty
from rules.vars import contains_rat, methods, pair_ty, stores


def parsers(ctx):
    """the outermost function from a sequence of tokens to a tree that can be evaluated as a whole, and
    the evaluation of the tree"""
    def go():
        P = ctx.P
        top = {P.strip(f.locals[1]): f for f in roots(ctx)}
        out = []
        for f in P.fns:
            if f and f.local and not f.closure and "promoted" not in f.name and sum(bool(tokens_like(ctx, f.locals[i])) for i in range(1, f.argc + 1)) == 1 and P.cat(f.locals[0]) == "result" and P.tys[f.locals[0]]["args"][0] in top:
                out.append((f, top[P.tys[f.locals[0]]["args"][0]]))
        out = [(f, g) for f, g in out if not any(h is not f and f.id in P.reach(h.id) and h.id not in P.reach(f.id) for h, _ in out)]
        return ctx.the("parser", out)
    return ctx.memo("parsers", go)


def roots(ctx):
    """evaluations of a whole line: of a structure, not through the dynamic method"""
    P = ctx.P
    ids = {f.id for f in ctx.eval_impls()}
    return [f for f in evaluators(ctx) if f.id not in ids and f.argc >= 1 and P.is_struct(f.locals[1])]


def powers(ctx):
    """functions raising one rational to another, reached from the evaluation"""
    P, r = ctx.P, ctx.ratio_ty()
    reach = set()
    for f in evaluators(ctx):
        reach |= set(P.reach(f.id))
    out = []
    for i in reach:
        f = P.fns[i]
        if f and f.local and not f.closure and P.cat(f.locals[0]) == "result" and P.tys[f.locals[0]]["args"][0] == r and sum(P.strip(f.locals[j]) == r for j in range(1, f.argc + 1)) == 2 and any(P.cat(P.strip(f.locals[j])) == "int" for j in range(1, f.argc + 1)):
            out.append(f)
    # the outermost of them
    return [f for f in out if not any(g is not f and f.id in P.reach(g.id) and g.id not in P.reach(f.id) for g in out)]


class Pipe:
    """the parser and the evaluation run one after the other on a sequence of tokens"""
    nest = None

    def __init__(self, ctx, nodb=False):
        P = ctx.P
        self.ctx = ctx
        self.tt, self.vi = token_ty(ctx)
        self.parser, self.root = parsers(ctx)
        ms = {f.id: f for f in methods(ctx)}
        self.ms = ms
        self.E = E = Engine(P, opaque=lambda E, fid: fid in ms, budget=min(600, ctx.left()))
        E.LIM, E.RETLIM = 4096, 4096
        E.unroll = lambda fn: True
        E.unroll_max = 256
        E.scc = {}
        self.steps = E.steps
        E.fork_fallible = lambda fid: fid in ms
        for f in powers(ctx):
            E.hooks[f.name] = self.power(f)
        E.entry = self.parser.name
        self.param = [i for i in range(1, self.parser.argc + 1) if tokens_like(ctx, self.parser.locals[i])][0]
        self.el = tokens_like(ctx, self.parser.locals[self.param])

    def power(self, f):
        r = self.ctx.ratio_ty()
        P = self.ctx.P

        def h(E, st, c, args, cx):
            rs = [a for a, i in zip(args, range(1, f.argc + 1)) if P.strip(f.locals[i]) == r]
            rs = [E.strip(st, a) for a in rs]
            a, b = st.fork(), st.fork()
            e = E.default("powerr", E.M.payload_ty(E, cx.ty, "Err"))
            E.event(b, f.name, f.path, args, app("failed", (e,)), cx.span, c, "power")
            return [(a, E.M.ok(E, cx.ty, app("power", rs, r))), (b, E.M.err(E, cx.ty, e))]
        return h

    def token(self, i, what):
        """what: 'num', 'var', '=' , ',', '(', ')', or ('op' variant names)"""
        P, tt = self.ctx.P, self.tt
        if what == "num":
            k = [j for j in range(P.nvariants(tt)) if payload_of(P, tt, j) == [self.ctx.ratio_ty()]][0]
            return adt(tt, k, (T.sym("n%d" % i, self.ctx.ratio_ty()),))
        if what == "var":
            return adt(tt, self.vi, (T.sym("v%d" % i, payload_of(P, tt, self.vi)[0]),))
        if isinstance(what, tuple):
            j, k = what
            if k is None:
                return adt(tt, j, ())
            et = payload_of(P, tt, j)[0]
            return adt(tt, j, (adt(et, k, ()),))

    def kinds(self):
        """all the kinds of tokens: label -> what"""
        P, tt = self.ctx.P, self.tt
        out = {}
        for j in range(P.nvariants(tt)):
            p = payload_of(P, tt, j)
            if not p:
                out[P.variant_name(tt, j)] = (j, None)
            elif p == [self.ctx.ratio_ty()]:
                out["num"] = "num"
            elif j == self.vi:
                out["var"] = "var"
            elif len(p) == 1 and P.is_enum(p[0]):
                for k in range(P.nvariants(p[0])):
                    out[P.variant_name(p[0], k)] = (j, k)
        return out

    def place(self, i, t):
        """token with its place in the line"""
        P = self.ctx.P
        if self.el == t.ty:
            return t
        return adt(self.el, 0, [t if ft == t.ty else self.at(i, ft) for ft in P.fields(self.el)])

    def at(self, i, ft):
        P = self.ctx.P
        if P.is_struct(ft):
            return adt(ft, 0, [T.I(x) if P.cat(y) == "int" else T.sym("place%d" % i, y) for x, y in zip((2 * i, 1), P.fields(ft))])
        return T.sym("place%d" % i, ft)

    def run(self, labels):
        """[(state, parse result, evaluation result or None)]"""
        E, P, ctx = self.E, self.ctx.P, self.ctx
        E.steps = self.steps
        if self.nest is not None:
            E.max_nest = len(labels) + self.nest
        ks = self.kinds()
        st = E.start()
        toks = [self.token(i, ks[l]) for i, l in enumerate(labels)]
        seq = E.M.lit([self.place(i, t) for i, t in enumerate(toks)])
        res = []
        f = self.parser
        for s, v in E.run_fn(st, f.id, [seq if i == self.param else E.symbolic(f.names.get(i) or "p%d" % i, f.locals[i]) for i in range(1, f.argc + 1)], f.span):
            k = result_kind(P, s.facts, v)
            if k != "Ok":
                res.append((s, v, None))
                continue
            tree = v.a[1][0] if v.op == "adt" else fld(v, 0, 0, P.tys[v.ty]["args"][0])
            args = [tree]
            f = self.root
            s = s.fork()
            s.setaux("parsed", len(events(s.tr)))
            for i in range(2, f.argc + 1):
                t = f.locals[i]
                a = T.sym(f.names.get(i) or "a%d" % i, t)
                if P.cat(t) == "option":
                    fx = s.facts.know_variant(a, P.variant_index(t, "Some"))
                    s.facts = fx
                args.append(a)
            for s2, v2 in E.run_fn(s, f.id, args, f.span):
                res.append((s2, v, v2))
        return res
