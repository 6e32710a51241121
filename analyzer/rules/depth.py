"""C26: the call stack.  Every recursion in the program is found in the call graph (with the calls that
library code makes back) and named by what drives it; a recursion driven by the length or nesting of
the input is a violation.  Those that are there are known findings; each must at least get nearer to
its end with every turn, which the token sequences of C28 are followed for."""
import itertools
import re
import terms as T
from ctx import Missing
from rules import line
from rules.common import *
from rules.exprs import CLASSES, TEMPLATES, each, nested
from rules.parse import Pipe
from rules.session import main_fn

# operators in a row, and how deep the levels of precedence alone may nest
ROW = 12
LEVELS = 6

# library code that calls a method of a type it is given
BACK = ((r"new_display$|::to_string$|new_lower_hex$|new_upper_hex$", "std::fmt::Display"), (r"new_debug$|debug_\w+$", "std::fmt::Debug"), (r"[Cc]lone|cloned$|to_vec$|to_owned$", "std::clone::Clone"),
        (r"PartialEq|::eq$|::ne$|contains$", "std::cmp::PartialEq"), (r"Ord>?::|sort|::max$|::min$|::cmp$", "std::cmp::Ord"), (r"Ord>?::|sort|partial_cmp$", "std::cmp::PartialOrd"),
        (r"Hash|hash", "std::hash::Hash"), (r"collect$|extend|::fold$|::count$|::last$|::for_each$|::next$", "std::iter::Iterator"), (r"Default|default", "std::default::Default"))


def inside(P, t, out=None):
    """local data types in t"""
    out = set() if out is None else out
    x = P.tys[t]
    if t in out:
        return out
    if x["k"] == "adt" and x.get("local"):
        out.add(t)
        return out
    for a in x.get("args", []) or []:
        if isinstance(a, int):
            inside(P, a, out)
    for a in x.get("tys", []) or []:
        inside(P, a, out)
    if isinstance(x.get("ty"), int):
        inside(P, x["ty"], out)
    return out


def edges(ctx):
    P = ctx.P
    meth = {}
    for im in P.impls:
        meth.setdefault((im["trait"], im["self"]), []).extend(i for i in im["items"].values() if i is not None)
    out = {}
    for f in P.fns:
        if not f:
            continue
        es = {i for i in P.callee_ids(f) if P.fns[i]}
        for b, c, t in P.calls(f):
            if P.targets(c):
                continue
            path = c.get("rpath") or c.get("path") or ""
            tys = set()
            for a in c.get("args", []):
                if isinstance(a, int):
                    inside(P, a, tys)
            for pat, tr in BACK:
                if tys and re.search(pat, path):
                    for ty in tys:
                        es.update(i for i in meth.get((tr, ty), []) if P.fns[i])
        out[f.id] = es
    return out


def components(nodes, es):
    """sets of mutually reachable nodes on a cycle"""
    def reach(n):
        seen, todo = set(), [n]
        while todo:
            for k in es[todo.pop()]:
                if k in nodes and k not in seen:
                    seen.add(k)
                    todo.append(k)
        return seen
    far = {n: reach(n) for n in nodes}
    out, done = [], set()
    for n in sorted(nodes):
        if n in far[n] and n not in done:
            c = {k for k in far[n] if n in far[k]}
            done |= c
            out.append(c)
    return out


def driver(ctx, comp, es, trees):
    """what every cycle of the component goes through: (key, what drives it) or None"""
    P, r = ctx.P, ctx.ratio_ty()

    tok = line.token_ty(ctx)[0]

    def params(f):
        return [f.locals[i] for i in range(1, f.argc + 1)]

    def rest(pred):
        left = {i for i in comp if not pred(P.fns[i])}
        return len(left) < len(comp) and not components(left, es)

    def within(t, what):
        """t contains one of the types, itself or in the fields of a local struct"""
        todo, seen = [t], set()
        while todo:
            y = todo.pop()
            if y in what:
                return True
            if y in seen:
                continue
            seen.add(y)
            x = P.tys[y]
            todo += [a for a in list(x.get("args", []) or []) + list(x.get("tys", []) or []) + [x.get("ty")] if isinstance(a, int)]
            if x["k"] == "adt" and x.get("local"):
                todo += [fl["ty"] for v in x.get("variants", []) for fl in v["fields"]]
        return False

    def mut(t):
        return P.k(t) == "ref" and P.tys[t].get("mut")

    def tree(t):
        while P.k(t) in ("ref", "box") or P.cat(t) == "box":
            t = P.tys[t].get("ty", (P.tys[t].get("args") or [t])[0])
        return t in trees or any(x in trees for x in inside(P, t))

    def reads(f):
        ps = params(f)
        return any(mut(t) and within(P.tys[t]["ty"], {tok}) for t in ps) and (within(f.locals[0], trees) or any(mut(t) and within(P.tys[t]["ty"], trees) for t in ps))

    if rest(reads):
        return "parse", "the nesting of the tokens"
    if rest(lambda f: any(tree(t) for t in params(f)) and within(f.locals[0], {r})):
        return "evaluate", "the depth of the expression, which it evaluates"
    looks = [t for t in {P.fns[i].locals[0] for i in comp}]
    if len(looks) == 1 and P.is_struct(looks[0]) and rest(lambda f: any(P.k(t) == "ref" and not P.tys[t].get("mut") and tree(P.tys[t]["ty"]) for t in params(f))):
        return "look:" + P.tys[looks[0]]["s"].rsplit("::", 1)[-1], "the depth of the expression, of which it computes a %s" % P.tys[looks[0]]["s"].rsplit("::", 1)[-1]
    return None


def scalar(P, f):
    """f takes numbers (and what is written to) only"""
    ts = [f.locals[i] for i in range(1, f.argc + 1)]
    return bool(ts) and all(P.cat(t) in ("int", "bool", "char", "float") for t in ts)


def recursive_types(P):
    """groups of local data types that contain themselves"""
    es = {}
    for t, x in enumerate(P.tys):
        if x["k"] == "adt" and x.get("local"):
            es[t] = set()
            for v in x.get("variants", []):
                for fl in v["fields"]:
                    inside(P, fl["ty"], es[t])
    return components(set(es), {k: {y for y in v if y in es} for k, v in es.items()})


def c26(ctx, rep):
    P = ctx.P
    m = main_fn(ctx)
    es = edges(ctx)
    seen, todo = {m.id}, [m.id]
    while todo:
        for j in es.get(todo.pop(), ()):
            if j not in seen:
                seen.add(j)
                todo.append(j)
    rep.count("functions", len(seen))
    comps = components(seen, es)
    rec = recursive_types(P)
    trees = set(line.tree_types(ctx))
    for c in rec:
        if any(t in trees for t in c):
            trees |= c
    names = set()
    for n in sorted(seen):
        if not any(n in c for c in comps):
            rep.ok("%s does not call itself" % P.fns[n].name)
    for c in sorted(comps, key=lambda c: min(c)):
        fs = sorted({P.fns[i].name for i in c})
        if not any(P.fns[i].local for i in c):
            continue
        d = driver(ctx, c, es, trees)
        key = d[0] if d else "recursion:" + fs[0]
        while key in names:
            key += "+"
        names.add(key)
        span = P.fns[min(c)].span
        if d:
            rep.fail(key, "the call stack grows with %s: %s call each other without a limit" % (d[1], ", ".join(fs)), span)
        elif all(scalar(P, P.fns[i]) for i in c) and any(re.search(r"'(Div|Rem|Shr)'", str(P.fns[i].blocks)) for i in c):
            rep.undec("%s: how deep it calls itself depends on numbers" % " and ".join(fs))
        else:
            rep.fail(key, "%s call%s, without a limit on the depth" % (" and ".join(fs), " each other" if len(fs) > 1 else "s itself"), span)
    for c in rec:
        if any(t in trees or any(x in trees for x in c) for t in c):
            rep.fail("drop", "an expression is dropped by recursion over its depth (%s contain each other)" % ", ".join(sorted(P.tys[t]["s"] for t in c)), None)
        else:
            rep.undec("%s contain themselves" % ", ".join(sorted(P.tys[t]["s"] for t in c)))
    progress(ctx, rep, {i for c in comps for i in c if (driver(ctx, c, es, trees) or ('',))[0] == 'parse'})


def progress(ctx, rep, parsing):
    """no function of the parser or the evaluation is entered again and again without getting nearer to the end"""
    P = ctx.P
    p = Pipe(ctx)
    p.nest = 4
    p.E.deepest = {}
    ks = p.kinds()
    classes = [l for l in CLASSES if l in ks]
    n = 4 if ctx.tier == "thorough" else 3
    seqs = {s for k in range(n + 1) for s in itertools.product(classes, repeat=k)}
    few = [l for l in classes if l not in ("var", "AssignmentOperator")]
    seqs |= set(itertools.product(few, repeat=n + 1))
    for t in TEMPLATES:
        t = t.split()
        if set(t) <= set(ks):
            seqs.add(tuple(t))

    seqs |= nested(ks, n, [o for o in ("Subtract", "Multiply") if o in ks])
    # operators in a row, which nest nothing
    ops = [l for l in ("Add", "Subtract", "Multiply", "Divide", "Modulus", "Exponent") if l in ks]
    rows = [[o] * ROW for o in ops] + [list(itertools.islice(itertools.cycle(ops), ROW)), list(itertools.islice(itertools.cycle(ops[::-1]), ROW))]
    for r in rows:
        row = ["num"] + [x for o in r for x in (o, "num")]
        seqs |= {tuple(row), tuple(["var", "AssignmentOperator"] + row), tuple(["OpenParen"] + row + ["CloseParen"]), tuple(["AbsoluteValue", "OpenParen"] + row + ["CloseParen"]),
                 tuple(row + ["num"]), tuple(row + [r[0]])}
    seqs |= {("num",) * ROW, ("num", "Comma") * (ROW // 2), ("CloseParen",) * ROW}
    seqs = {s for s in seqs if set(s) <= set(ks)}
    local = {i: P.fns[i].name for i in parsing}

    def judge1(nt, p, labels, outs):
        if len(labels) >= ROW:
            far = sorted((local[i], v[1]) for i, v in p.E.deepest.items() if i in local and v[0] > LEVELS + sum(l not in ("num", "var", "AssignmentOperator", "CloseParen", "Comma", *ops) for l in labels))
            nt.check(not far, "long:" + (far[0][0] if far else ""), "the recursion of %s grows with the length of the input, without anything nested: %s" % (far[0][0] if far else "", " ".join(labels)),
                     far[0][1] if far else None, "nothing is nested by %s" % " ".join(labels))
        p.E.deepest = {}
        deep = sorted(p.E.too_deep)
        p.E.too_deep = set()
        if deep:
            nt.check(False, "endless:" + deep[0][0], "%s calls itself without coming to an end on %s" % (deep[0][0], " ".join(labels) or "nothing"), deep[0][1], "")
        else:
            nt.check(True, "", "", None, "the recursions end on %s" % (" ".join(labels) or "nothing"))
    each(ctx, rep, "c26", p, judge1, sorted(seqs), "token sequences")
