"""Abstract interpreter over monomorphic MIR.

Values are terms (terms.py), knowledge about them is a conjunction of facts (facts.py).  Branches whose
condition the facts decide are followed one way, others fork.  Loops are solved by generalising the
states that reach their head (anti-unification plus candidate relations, weakened until inductive).
Nothing is executed and no solver is called: every step is a transfer function on abstract states.
"""
import sys
import time

import facts as F
import terms as T
from facts import Facts
from program import Program
import os
# external code without a model that the rules know to carry nothing of interest
HARMLESS = ("std::path::", "<std::path::", "<&&&&&&clap", "<clap")
DUMP = os.environ.get("BCALC_DUMP_UNKNOWN")
from terms import *

sys.setrecursionlimit(20000)
ISIZE_MAX = 2**63 - 1


class Budget(Exception):
    pass


class Node:
    """trace DAG node; prev: list of Nodes"""
    __slots__ = ("kind", "prev", "ev", "id", "facts")
    _n = [0]

    def __init__(self, kind, prev, ev=None, facts=None):
        self.kind = kind
        self.prev = prev
        self.ev = ev
        self.facts = facts
        Node._n[0] += 1
        self.id = Node._n[0]


class Ev:
    __slots__ = ("name", "path", "args", "ret", "span", "stack", "c", "tag", "pre")

    def __init__(self, name, path, args, ret, span, stack, c=None, tag=None, pre=None):
        self.name = name
        self.path = path
        self.args = args
        self.ret = ret
        self.span = span
        self.stack = stack
        self.c = c
        self.tag = tag
        self.pre = pre

    def __repr__(self):
        return "%s(%s)@%s" % (self.path, ", ".join(show(a)[:60] for a in self.args), self.span)


class State:
    __slots__ = ("frames", "own", "heap", "facts", "tr", "aux")

    def __init__(self):
        self.frames = []
        self.own = set()
        self.heap = {}
        self.facts = Facts()
        self.tr = None
        self.aux = {}

    def fork(self):
        s = State.__new__(State)
        s.frames = list(self.frames)
        s.own = set()
        self.own = set()
        s.heap = self.heap
        s.facts = self.facts
        s.tr = self.tr
        s.aux = self.aux
        return s

    def setl(self, d, l, v):
        if d not in self.own:
            self.frames[d] = dict(self.frames[d])
            self.own.add(d)
        self.frames[d][l] = v

    def seth(self, k, v):
        self.heap = dict(self.heap)
        self.heap[k] = v

    def setaux(self, k, v):
        self.aux = dict(self.aux)
        self.aux[k] = v

    def with_facts(self, f):
        s = self.fork()
        s.facts = f
        return s


class Cx:
    __slots__ = ("c", "ty", "span", "argty", "fn")

    def __init__(self, c, ty, span, argty, fn):
        self.c = c
        self.ty = ty
        self.span = span
        self.argty = argty
        self.fn = fn


class Obligation:
    __slots__ = ("kind", "fn", "span", "status", "detail", "cond", "facts", "stack", "where")

    def __init__(self, kind, fn, span, status, detail, cond, facts, stack, where):
        self.kind = kind
        self.fn = fn
        self.span = span
        self.status = status
        self.detail = detail
        self.cond = cond
        self.facts = facts
        self.stack = stack
        self.where = where


class Engine:
    LIM = 12
    RETLIM = 12
    KEYLIM = 24

    def __init__(self, prog, opaque=None, budget=600.0, steps=4000000):
        self.P = prog
        self._vague = {}
        self.free_calls = set()
        self.unroll = None
        self.unroll_max = 64
        self.unseen = set()
        # deepest nesting of one function followed, and what went deeper
        self.max_nest = None
        self.too_deep = set()
        self.deepest = None
        self.peel = None
        self.on_drop = None
        self.loop_hook = None
        self.exits = []
        self.extra_key = None
        self.fork_fallible = None
        self.fail_key = False
        self.opaque = opaque or (lambda E, fid: False)
        self.rec = 1  # recording enabled (nesting of non-final loop passes disables it)
        self.obl = {}
        self.stack = []
        self.deadline = time.time() + budget
        self.steps = steps
        self.unknown = {}
        self.const_cache = {}
        self.entry = None
        self.scc = prog.sccs()
        us = prog.ty_by_s.get("usize")
        self.spans = {t for t in range(len(prog.tys)) if prog.is_struct(t) and prog.tys[t].get("local", True)
                      and list(prog.fields(t)) == [us, us]}
        self.inscc = None
        self.tmp = 0
        self.fns_seen = {}
        self.loop_hints = {}
        self.stats = {"blocks": 0, "calls": 0, "forks": 0, "loops": 0, "joins": 0, "models": 0}
        self.on_virtual = None
        self.on_fresh = None
        self.on_oblige = None
        self.observed = {}  # type -> class abstraction (adt.ADT)
        self.contracts = {}  # method fn id -> (ADT, fn id)
        self.hooks = {}
        import models
        self.M = models
        self._install()

    # ------------------------------------------------------------ hooks
    def _install(self):
        P = self.P
        T._tyname_hook[0] = lambda ty, v: (P.tys[ty]["s"].split("::")[-1] if P.k(ty) != "adt" or P.tys[ty]["adt"] == "struct" else P.tys[ty]["path"].split("::")[-1] + "::" + P.variant_name(ty, v)) if isinstance(ty, int) else str(ty)
        ty_cache = {}

        def is_int(t):
            ty = t.ty
            if ty is None:
                return True
            r = ty_cache.get(ty)
            if r is None:
                r = P.cat(ty) not in ("rat", "float")
                ty_cache[ty] = r
            return r

        rng = {}

        def bounds(a, facts):
            if a.op == "len":
                x = a.a[0]
                while x.op == "app" and x.a[0] in ("pad", "upper", "lower", "lower_ascii"):
                    x = x.a[1]
                # a number is written with at least one digit
                return (1 if x.op == "app" and x.a[0] == "radixstr" else 0, ISIZE_MAX)
            if a.op == "discr":
                p = facts.possible(a.a[0])
                if p:
                    return (min(p), max(p))
                return (None, None)
            if a.op == "app":
                n = a.a[0]
                if n in ("abs", "mag"):
                    return (0, None)
                if n == "denom":
                    return (1, None)
                if n == "irem" and a.a[2].op == "int" and a.a[2].a[0] > 0:
                    lo = 0
                    b = bounds(a.a[1], facts) if a.a[1].op not in ("int", "lin") else (None, None)
                    if b[0] is None or b[0] < 0:
                        lo = -(a.a[2].a[0] - 1)
                    return (lo, a.a[2].a[0] - 1)
                if n == "pow" and a.a[1].op == "int" and a.a[1].a[0] > 0:
                    return (1, None)
                if n == "indexof":
                    return (0, ISIZE_MAX)
            ty = a.ty
            if ty is None:
                return (None, None)
            r = rng.get(ty)
            if r is None:
                r = P.irange(ty) or (None, None)
                rng[ty] = r
            return r

        def variants(t):
            ty = t.ty
            if ty is None or not isinstance(ty, int) or not P.is_enum(ty):
                return None
            return list(range(P.nvariants(ty)))

        T._int_hook[0] = is_int
        F._bounds_hook[0] = bounds
        F._variants_hook[0] = variants
        F._discr_hook[0] = lambda t, v: P.discr(t.ty, v) if isinstance(t.ty, int) and P.is_enum(t.ty) else v
        F._nonzero_hook[0] = self.M.nonzero

    # ------------------------------------------------------------ recording
    def event(self, st, name, path, args, ret, span, c=None, tag=None, pre=None):
        st.tr = Node("ev", [st.tr], Ev(name, path, list(args), ret, span, self.where(), c, tag, pre), st.facts)

    def where(self):
        return tuple(f.name for f, _ in self.stack)

    def note(self, st, kind, data):
        st.tr = Node(kind, [st.tr], data, st.facts)

    def oblige(self, st, kind, cond, span, detail=""):
        """cond must hold here; returns the state with cond assumed, or None when it cannot hold"""
        r = st.facts.decide(cond)
        if r is None:
            st2 = self.span_axioms(st, cond)
            if st2 is not st:
                st = st2
                r = st.facts.decide(cond)
        if r is None and st.facts.assume(cond, False) is None:
            r = True
        if self.on_oblige:
            self.on_oblige(st, kind, cond, span, detail, r)
        if self.rec > 0:
            fn, site = self.site(span)
            key = (fn.name if fn else "?", kind, site)
            status = "proven" if r is True else ("fails" if r is False else "unproven")
            if status == "unproven" and not self.precise(cond, st.facts):
                status = "undecided"
            o = self.obl.get(key)
            rank = {"proven": 0, "undecided": 1, "unproven": 2, "fails": 3}
            if o is None or rank[status] > rank[o.status]:
                self.obl[key] = Obligation(kind, fn.name if fn else "?", site, status, detail, cond, st.facts, self.where(), self.entry)
        if r is True:
            return st
        f = st.facts.assume(cond)
        if f is None:
            return None
        s = st.fork()
        s.facts = f
        return s

    IMPRECISE = ("L", "join", "ret#", "mod:", "ext:", "const:", "hv")

    def vague(self, t):
        """does the term stand for a value the analysis has lost track of?"""
        r = self._vague.get(t)
        if r is None:
            r = False
            for x in T.subterms(t):
                if x.op == "sym":
                    n = x.a[0]
                    if n[:1] == "L" and n[1:2].isdigit() or n.startswith(self.IMPRECISE[1:]):
                        r = True
                        break
                    if n.startswith("ret:") and not self.free_result(n[4:].split("#")[0]):
                        r = True
                        break
                elif x.op == "app" and (x.a[0].startswith("ext:") or x.a[0].startswith("call:") and not self.free_result(x.a[0][5:])):
                    r = True
                    break
                elif x.op == "konst":
                    r = True
                    break
            self._vague[t] = r
        return r

    def free_result(self, name):
        """may a summarised call return every value of its type?"""
        return name in self.free_calls

    def precise(self, cond, facts):
        """is the condition, with all that is known about what it mentions, about values that the
        analysis represents exactly?"""
        if self.vague(cond):
            return False
        ss = {x for x in T.syms(cond)}
        for b in facts.booleans():
            if self.vague(b) and ss & set(T.syms(b)):
                return False
        for tab in (facts.var, facts.exc):
            for b in tab:
                if b.op != "sym" and self.vague(b) and ss & set(T.syms(b)):
                    return False
        for b, _ in facts.alls:
            if ss & set(T.syms(b)):
                return False
        return True

    def site(self, span):
        """innermost local function on the stack and the position in it"""
        fn = self.stack[-1][0] if self.stack else None
        site = span
        for f, sp in reversed(self.stack):
            if f.local:
                return f, site
            site = sp
        return fn, span

    # ------------------------------------------------------------ span values
    # A struct of exactly two usize fields is a (start, width) pair.  Every construction of one is
    # an obligation that start + width is a valid offset; every use may rely on it.
    def span_axioms(self, st, cond):
        seen = set()
        fx = st.facts
        for a in T.subterms(cond):
            if a.op == "fld" and a.a[1] == 0 and isinstance(a.ty, int) and self.P.tys[a.ty]["s"] == "usize":
                b = a.a[0]
                if b in seen:
                    continue
                seen.add(b)
                if isinstance(b.ty, int) and self.P.strip(b.ty) in self.spans:
                    fa, fb = fld(b, 0, 0, a.ty), fld(b, 0, 1, a.ty)
                    g = fx.assume(ge0(T.sub(I(ISIZE_MAX), add(fa, fb))))
                    if g is not None:
                        fx = g
        return st if fx is st.facts else st.with_facts(fx)

    # ------------------------------------------------------------ types of terms
    def tyof(self, t):
        if isinstance(t.ty, int):
            return t.ty
        return None

    def default(self, name, ty):
        """a fresh unknown value of type ty"""
        k = self.P.k(ty)
        if k == "tuple" and not self.P.tys[ty]["tys"]:
            return adt(ty, 0, ())
        if k == "tuple":
            return adt(ty, 0, [self.default(name + ".%d" % i, x) for i, x in enumerate(self.P.tys[ty]["tys"])])
        if k == "fndef":
            return mk("fn", (ty,), ty)
        if k == "closure" and not self.P.tys[ty]["tys"]:
            return adt(ty, 0, ())
        if self.P.is_struct(ty) and not self.P.fields(ty):
            return adt(ty, 0, ())
        return fresh(name, ty)

    # ------------------------------------------------------------ places
    def lval(self, st, d, place):
        """(base, path, ty): base ('L',d,l) | ('H',term) | ('T',n) | ('V',term)"""
        ent = place[0]
        base = ("L", d, ent[0])
        path = ()
        f = self.stack[-1][0]
        ty = f.locals[ent[0]]
        variant = 0
        for e in ent[1:]:
            k = e[0]
            if k == "*":
                v = self.load(st, base, path, ty)
                t0 = self.P.tys[ty] if self.P.k(ty) in ("ref", "ptr") else self.P.tys[e[1]]
                nty = t0["ty"] if t0["k"] in ("ref", "ptr") else (t0.get("args") or [None])[0]
                base, path = self.deref_lv(st, base, path, v, ty, nty)
                ty = nty
                variant = 0
            elif k == ".":
                path = path + (("f", variant, e[1], ty, e[2]),)
                ty = e[2]
                variant = 0
            elif k == "as":
                variant = e[1]
                ty = e[2] if e[2] is not None else ty
            elif k == "[]":
                idx = self.load(st, ("L", d, e[1]), (), f.locals[e[1]])
                ety = self.P.elem_ty(ty)
                path = path + (("e", idx, ety),)
                ty = ety
            elif k == "[c]":
                off, mn, fe = e[1], e[2], e[3]
                ety = self.P.elem_ty(ty)
                if fe:
                    v = self.load(st, base, path, ty)
                    idx = T.sub(seqlen(v), I(off))
                else:
                    idx = I(off)
                path = path + (("e", idx, ety),)
                ty = ety
            elif k == "[s]":
                fr, to, fe = e[1], e[2], e[3]
                v = self.load(st, base, path, ty)
                hi = T.sub(seqlen(v), I(to)) if fe else I(to)
                path = path + (("s", I(fr), hi),)
            else:
                pass
        return base, path, ty

    def deref_lv(self, st, base, path, v, ty, nty):
        if v.op == "refv":
            return ("V", v.a[0]), ()
        if v.op == "ptr":
            return v.a[0], v.a[1]
        if v.op == "box" or self.P.cat(ty) == "box":
            return base, path + (("b", nty),)
        if self.P.k(ty) == "ref" and self.P.tys[ty]["mut"] or self.P.k(ty) == "ptr":
            return ("H", v), ()
        return ("V", deref(v, nty)), ()

    def base_val(self, st, base):
        k = base[0]
        if k == "L":
            v = st.frames[base[1]].get(base[2])
            return UNINIT if v is None else v
        if k == "V":
            return base[1]
        v = st.heap.get(base)
        if v is None:
            if k == "H":
                t = base[1]
                ty = self.P.tys[t.ty]["ty"] if isinstance(t.ty, int) and self.P.k(t.ty) in ("ref", "ptr") else None
                v = mk("cell0", (t,), ty)
                st.seth(base, v)
            else:
                v = UNINIT
        return v

    def load(self, st, base, path, ty=None):
        v = self.base_val(st, base)
        for s in path:
            v = self.step(st, v, s)
        return v

    def step(self, st, v, s):
        k = s[0]
        if k == "f":
            if v.op == "uninit" or v.op == "moved":
                return v
            return self.field(st, v, s[1], s[2], s[4])
        if k == "b":
            return unbox(v, s[1])
        if k == "e":
            return self.elem(st, v, s[1], s[2])
        if k == "k":
            return self.M.map_value(self, st, v, s[1], s[2])
        return self.slice(st, v, s[1], s[2])

    def field(self, st, v, variant, idx, fty):
        return fld(v, variant, idx, fty)

    def store(self, st, base, path, val):
        k = base[0]
        if k == "V":
            return
        if not path:
            nv = val
        else:
            nv = self.update(st, self.base_val(st, base), path, 0, val)
        if k == "L":
            st.setl(base[1], base[2], nv)
        else:
            st.seth(base, nv)

    def update(self, st, cur, path, i, val):
        if i == len(path):
            return val
        s = path[i]
        k = s[0]
        if k == "f":
            v, idx, bty = s[1], s[2], s[3]
            if cur.op == "adt" and cur.a[0] == v and len(cur.a[1]) > idx:
                fs = list(cur.a[1])
                fs[idx] = self.update(st, fs[idx], path, i + 1, val)
                return adt(cur.ty, v, fs)
            ftys = self.P.fields(bty, v)
            n = max(len(ftys), idx + 1)
            ftys = list(ftys) + [None] * (n - len(ftys))
            und = cur.op in ("uninit", "moved")
            fs = [cur if und else fld(cur, v, j, ftys[j]) for j in range(n)]
            fs[idx] = self.update(st, fs[idx], path, i + 1, val)
            return adt(bty, v, fs)
        if k == "b":
            return box(self.update(st, unbox(cur, s[1]), path, i + 1, val))
        if k == "e":
            idx = s[1]
            old = self.elem(st, cur, idx, s[2])
            nv = self.update(st, old, path, i + 1, val)
            if nv is old:
                return cur
            return cat([self.slice(st, cur, ZERO, idx), ("L", (nv,)), self.slice(st, cur, add(idx, ONE), seqlen(cur))])
        if k == "k":
            old = self.M.map_value(self, st, cur, s[1], s[2])
            nv = self.update(st, old, path, i + 1, val)
            return cur if nv is old else app("mput", (cur, s[1], nv), cur.ty)
        if k == "s":
            lo, hi = s[1], s[2]
            nv = self.update(st, self.slice(st, cur, lo, hi), path, i + 1, val)
            return cat([self.slice(st, cur, ZERO, lo), nv, self.slice(st, cur, hi, seqlen(cur))])
        return cur

    # ------------------------------------------------------------ sequences with facts
    def value(self, st, t):
        return st.facts.value(t)

    def elem(self, st, seq, idx, ty):
        fx = st.facts
        idx = fx.value(idx)
        if seq.op == "sub":
            return self.elem(st, seq.a[0], add(seq.a[1], idx), ty)
        if seq.op == "app" and seq.a[0] in ("refs", "rev"):
            if seq.a[0] == "refs":
                return refv(self.elem(st, seq.a[1], idx, None if ty is None else self.P.strip(ty)))
            return self.elem(st, seq.a[1], T.sub(T.sub(seqlen(seq.a[1]), ONE), idx), ty)
        if seq.op == "app" and seq.a[0] == "vals":
            return deref(self.elem(st, seq.a[1], idx, None), ty)
        if seq.op == "app" and seq.a[0] == "mapseq":
            x = self.elem(st, seq.a[1], idx, seq.a[3].ty)
            return substitute(seq.a[2], {seq.a[3]: x})
        if seq.op == "app" and seq.a[0] == "repeat":
            return seq.a[1]
        if seq.op == "cat":
            off = ZERO
            for p in seq.a[0]:
                ln = seqlen(p) if isinstance(p, Term) else I(len(p[1]))
                rel = T.sub(idx, off)
                r = fx.decide(ge0(T.sub(rel, ln)))
                if r is True:
                    off = add(off, ln)
                    continue
                if r is False:
                    rel = fx.value(rel)
                    if isinstance(p, Term):
                        return self.elem(st, p, rel, ty)
                    if rel.op == "int":
                        return I(ord(p[1][rel.a[0]])) if p[0] == "S" else p[1][rel.a[0]]
                    if len(p[1]) == 1:
                        return I(ord(p[1][0])) if p[0] == "S" else p[1][0]
                    # all elements equal?
                    return mk("elem", (seq, idx), ty)
                break
        return mk("elem", (seq, idx), ty)

    def slice(self, st, seq, lo, hi):
        fx = st.facts
        lo = fx.value(lo)
        hi = fx.value(hi)
        if lo is hi or fx.decide(ge0(T.sub(lo, hi))) is True:
            return EMPTY
        if lo is ZERO and fx.value(seqlen(seq)) is hi:
            return seq
        if seq.op == "sub":
            return self.slice(st, seq.a[0], add(seq.a[1], lo), add(seq.a[1], hi))
        if seq.op == "app" and seq.a[0] == "refs":
            return refs(self.slice(st, seq.a[1], lo, hi))
        if seq.op == "cat":
            out = []
            off = ZERO
            ok = True
            for p in seq.a[0]:
                ln = seqlen(p) if isinstance(p, Term) else I(len(p[1]))
                end = add(off, ln)
                # entirely before lo / after hi
                if fx.decide(ge0(T.sub(lo, end))) is True:
                    off = end
                    continue
                if fx.decide(ge0(T.sub(off, hi))) is True:
                    break
                a = ZERO if fx.decide(ge0(T.sub(off, lo))) is True else (fx.value(T.sub(lo, off)) if fx.decide(ge0(T.sub(lo, off))) else None)
                b = ln if fx.decide(ge0(T.sub(hi, end))) is True else (fx.value(T.sub(hi, off)) if fx.decide(ge0(T.sub(end, hi))) else None)
                if a is None or b is None:
                    ok = False
                    break
                if isinstance(p, Term):
                    out.append(self.slice(st, p, a, b))
                elif a.op == "int" and b.op == "int":
                    out.append((p[0], p[1][a.a[0]:b.a[0]]))
                else:
                    ok = False
                    break
                off = end
            if ok:
                return cat(out)
            return mk("sub", (seq, lo, hi), seq.ty)
        return seqsub(seq, lo, hi)

    # ------------------------------------------------------------ operands
    def const(self, st, c, ty):
        P = self.P
        k = P.k(ty)
        if "int" in c:
            if k == "bool":
                return B(bool(c["int"]))
            return I(c["int"])
        if "str" in c:
            return refv(string(c["str"]))
        if "bytes" in c:
            return refv(lit([I(x) for x in c["bytes"]]))
        if "fn" in c or k == "fndef":
            return mk("fn", (ty,), ty)
        if "uneval" in c:
            return self.const_body(c["uneval"])
        if "ref" in c:
            return refv(self.const(st, c["ref"], c["rty"]))
        if "agg" in c and P.is_num(ty) and (c.get("name") or "").endswith("::ZERO"):
            return I(0)
        if "agg" in c:
            fs = [self.const(st, x, t) for x, t in c["agg"]]
            if k == "array":
                return lit(fs)
            return adt(ty, c.get("variant", 0), fs)
        if "zst" in c:
            return adt(ty, 0, ())
        return mk("konst", (str(c)[:200],), ty)

    def const_body(self, fid):
        r = self.const_cache.get(fid)
        if r is None:
            st = State()
            st.tr = Node("const", [])
            rec, self.rec = self.rec, 0
            sv, self.stack = self.stack, []
            outs = self.run_fn(st, fid, [], "const")
            self.rec = rec
            self.stack = sv
            if len(outs) == 1:
                r = outs[0][1]
            else:
                f = self.P.fns[fid]
                r = fresh("const:" + f.name, f.locals[0])
            self.const_cache[fid] = r
        return r

    def operand(self, st, d, o):
        if o[0] == "const":
            return self.const(st, o[1], o[2])
        base, path, ty = self.lval(st, d, o[1])
        v = self.load(st, base, path, ty)
        if o[0] == "move" and self.M.tracked(self.P, ty) and base[0] != "V":
            self.store(st, base, path, MOVED)
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, d, rv, dty, span):
        k = rv[0]
        if k == "use":
            return self.operand(st, d, rv[1])
        if k == "ref":
            base, path, ty = self.lval(st, d, rv[1])
            if rv[2]:
                if base[0] == "V":
                    return refv(self.load(st, base, path, ty))
                return mk("ptr", (base, path), dty)
            return refv(self.load(st, base, path, ty))
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, d, rv[2]), rv[3], rv[4])
        if k == "bin":
            return self.binop(st, rv[1], self.operand(st, d, rv[2]), self.operand(st, d, rv[3]), rv[4], dty)
        if k == "un":
            v = self.operand(st, d, rv[2])
            if rv[1] == "Not":
                if self.P.k(rv[3]) == "bool":
                    return bnot(v)
                return app("bitnot", (v,), dty)
            if rv[1] == "Neg":
                return neg(v)
            if rv[1] == "PtrMetadata":
                return seqlen(self.pointee(st, v))
            return app("un" + rv[1], (v,), dty)
        if k == "discr":
            base, path, ty = self.lval(st, d, rv[1])
            v = self.load(st, base, path, ty)
            return self.discr(st, v, ty)
        if k == "agg":
            fs = [self.operand(st, d, o) for o in rv[2]]
            kn = rv[1]
            if kn == "array":
                return lit(fs)
            if kn == "adt":
                if len(rv) > 5 and rv[5] is not None:
                    n = [UNINIT] * (rv[5] + 1)
                    n[rv[5]] = fs[0]
                    return adt(rv[3], rv[4], n)
                if len(fs) == 1 and self.P.cat(rv[3]) == "str":
                    return fs[0]
                if rv[3] in self.spans and self.rec > 0:
                    self.oblige(st, "span", ge0(T.sub(I(ISIZE_MAX), add(fs[0], fs[1]))), span)
                return adt(rv[3], rv[4], fs)
            if kn == "closure":
                return adt(rv[3], 0, fs)
            return adt(dty, 0, fs)
        if k == "repeat":
            v = self.operand(st, d, rv[1])
            n = rv[2]
            if n <= 64:
                return lit([v] * n)
            return app("repeat", (v, I(n)), dty)
        return fresh("rv", dty)

    def discr(self, st, v, ty):
        if v.op == "adt":
            return I(self.P.discr(ty, v.a[0])) if self.P.is_enum(ty) else I(v.a[0])
        p = st.facts.possible(v)
        if p is not None and len(p) == 1:
            return I(next(iter(p)))
        return mk("discr", (v,), None)

    def pointee(self, st, v, ty=None):
        """the value a reference/box-like term points to"""
        if v.op == "refv":
            return v.a[0]
        if v.op == "ptr":
            return self.load(st, v.a[0], v.a[1])
        if v.op == "box":
            return v.a[0]
        t = self.tyof(v)
        if t is not None and self.P.k(t) in ("ref", "ptr"):
            it = self.P.tys[t]["ty"]
            if self.P.tys[t].get("mut"):
                return self.base_val(st, ("H", v))
            return deref(v, it)
        return v

    def strip(self, st, v):
        """through any number of references"""
        for _ in range(8):
            if v.op in ("refv", "ptr"):
                v = self.pointee(st, v)
                continue
            t = self.tyof(v)
            if t is not None and self.P.k(t) in ("ref", "ptr") and v.op != "adt":
                v = self.pointee(st, v)
                continue
            break
        return v

    def set_pointee(self, st, p, val):
        """write through a &mut term"""
        if p.op == "ptr":
            self.store(st, p.a[0], p.a[1], val)
        elif p.op == "refv":
            pass
        else:
            st.seth(("H", p), val)

    def newcell(self, st, val, ty=None):
        """a fresh memory cell; returns the &mut to it"""
        self.tmp += 1
        b = ("T", self.tmp)
        st.seth(b, val)
        return mk("ptr", (b, ()), None)

    def cast(self, st, kind, v, dty, sty):
        P = self.P
        if kind == "IntToInt":
            if P.k(sty) == "bool":
                if v.op == "bool":
                    return I(1 if v.a[0] else 0)
                return mk("ofbool", (v,), dty)
            rg = P.irange(dty)
            sr = P.irange(sty)
            if rg is None:
                return v
            if v.op == "int":
                x = v.a[0]
                if rg[0] <= x <= rg[1]:
                    return v
                m = rg[1] - rg[0] + 1
                return I((x - rg[0]) % m + rg[0])
            if sr and sr[0] >= rg[0] and sr[1] <= rg[1]:
                return v
            if v.op == "discr" and False:
                return v
            if st.facts.decide(ge0(T.sub(v, I(rg[0])))) is True and st.facts.decide(ge0(T.sub(I(rg[1]), v))) is True:
                return v
            return app("wrap", (v,), dty)
        if kind in ("FloatToInt", "IntToFloat", "FloatToFloat"):
            return app(kind, (v,), dty)
        return v

    def inrange(self, v, ty):
        rg = self.P.irange(ty)
        if rg is None:
            return TRUE
        r = ge0(T.sub(v, I(rg[0])))
        if rg[1] is not None:
            r = band(r, ge0(T.sub(I(rg[1]), v)))
        return r

    def binop(self, st, op, x, y, ty, dty):
        P = self.P
        k = P.k(ty)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if k == "bool":
                if op in ("Eq", "Ne"):
                    if x.op == "bool":
                        r = y if x.a[0] else bnot(y)
                    elif y.op == "bool":
                        r = x if y.a[0] else bnot(x)
                    elif x is y:
                        r = TRUE
                    else:
                        r = app("beq", sorted((x, y)), dty)
                    return r if op == "Eq" else bnot(r)
                return app("bcmp" + op, (x, y), dty)
            if k in ("int", "char"):
                if op == "Eq":
                    return eq0(T.sub(x, y))
                if op == "Ne":
                    return bnot(eq0(T.sub(x, y)))
                if op == "Lt":
                    return ge0(T.sub(T.sub(y, x), ONE))
                if op == "Le":
                    return ge0(T.sub(y, x))
                if op == "Gt":
                    return ge0(T.sub(T.sub(x, y), ONE))
                return ge0(T.sub(x, y))
            if x is y:
                return B(op in ("Eq", "Le", "Ge"))
            return app("cmp" + op, (x, y), dty)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul") and k in ("int", "char"):
            if base == "Add":
                r = add(x, y)
            elif base == "Sub":
                r = T.sub(x, y)
            else:
                r = self.M.mul(x, y, ty)
            if op.endswith("WithOverflow"):
                return adt(dty, 0, (r, bnot(self.inrange(r, ty))))
            if op.endswith("Unchecked") or st.facts.decide(self.inrange(r, ty)) is True:
                return r
            return app("wrap", (r,), ty)
        if base in ("Div", "Rem") and k == "int":
            return self.M.intdiv(self, st, base, x, y, ty)
        if base in ("BitAnd", "BitOr", "BitXor") and k == "bool":
            if base == "BitAnd":
                return band(x, y)
            if base == "BitOr":
                return bor(x, y)
            if x.op == "bool":
                return bnot(y) if x.a[0] else y
            if y.op == "bool":
                return bnot(x) if y.a[0] else x
            return app("xor", sorted((x, y)), dty)
        if x.op == "int" and y.op == "int":
            a, b = x.a[0], y.a[0]
            if base == "BitAnd":
                return I(a & b)
            if base == "BitOr":
                return I(a | b)
            if base == "BitXor":
                return I(a ^ b)
            if base == "Shl" and 0 <= b < 64:
                return self.cast(st, "IntToInt", I(a << b), ty, ty)
            if base == "Shr" and 0 <= b < 64:
                return I(a >> b)
        return app("op" + op, (x, y), dty)

    # ------------------------------------------------------------ running functions
    def run_fn(self, st, fid, args, span):
        P = self.P
        f = P.fns[fid]
        if f is None:
            raise Budget("no body")
        P.cfg(f)
        if len(self.stack) > 70:
            raise Budget("call depth")
        self.stats["calls"] += 1
        self.fns_seen[f.name] = self.fns_seen.get(f.name, 0) + 1
        fr = {i + 1: a for i, a in enumerate(args)}
        st = st.fork()
        st.frames.append(fr)
        d = len(st.frames) - 1
        st.own.add(d)
        self.stack.append((f, span))
        try:
            rets, exits, backs = self.region(f, d, set(f.rpo), None, {0: [st]})
        finally:
            self.stack.pop()
        outs = []
        for s in rets:
            fr = s.frames[d]
            v = fr.get(0, UNINIT)
            s.frames = s.frames[:d]
            s.own.discard(d)
            outs.append((s, v))
        if len(outs) > self.RETLIM:
            outs = self.merge_outs(outs, f)
        return outs

    def merge_outs(self, outs, f):
        groups = {}
        for s, v in outs:
            groups.setdefault(self.shape(s, v, 2), []).append((s, v))
        res = []
        for k, g in groups.items():
            if len(g) == 1:
                res.append(g[0])
                continue
            self.stats["joins"] += 1
            for s, v in g:
                s.own.discard(len(s.frames))
                s.frames = s.frames + [{0: v}]
            h, _ = self.generalise([s for s, _ in g], None, {0: f.locals[0]}, "ret")
            v = h.frames[-1].get(0, UNINIT)
            h.frames = h.frames[:-1]
            h.own = set()
            res.append((h, v))
        return res

    def shape(self, st, v, depth):
        v2 = v
        if v2.op == "adt":
            if self.P.is_enum(v2.ty) or self.P.is_struct(v2.ty):
                return (v2.a[0],) + (tuple(self.shape(st, x, depth - 1) for x in v2.a[1][:6]) if depth > 0 else ())
        if v2.op == "bool":
            return v2.a[0]
        vs = st.facts.variants(v2) if isinstance(v2.ty, int) and self.P.is_enum(v2.ty) else None
        if vs and len(vs) == 1:
            return (vs[0],)
        return None

    def region(self, f, d, blocks, head, incoming):
        """run states through a loop-free view of `blocks`; inner loops are solved as one step.
        returns (return states, exits {block: [states]}, states at the back edge to head)"""
        pend = {b: list(l) for b, l in incoming.items()}
        rets, exits, backs = [], {}, []
        order = f.rpopos
        import heapq
        hq = [(order[b], b) for b in pend]
        heapq.heapify(hq)
        queued = set(pend)

        def send(t, s):
            if t == head:
                backs.append(s)
            elif t not in blocks:
                exits.setdefault(t, []).append(s)
            else:
                pend.setdefault(t, []).append(s)
                if t not in queued:
                    queued.add(t)
                    heapq.heappush(hq, (order[t], t))

        start = True
        while hq:
            _, b = heapq.heappop(hq)
            queued.discard(b)
            sts = pend.pop(b, [])
            if not sts:
                continue
            if b in f.loops and b != head:
                body = f.loops[b]
                r2, e2 = self.loop(f, d, b, body, sts)
                rets.extend(r2)
                for t, l in e2.items():
                    for s in l:
                        send(t, s)
                continue
            if len(sts) > self.LIM:
                sts = self.merge_at(f, d, b, sts)
            for s in sts:
                for kind, t, s2 in self.block(f, d, b, s):
                    if kind == "ret":
                        rets.append(s2)
                    else:
                        send(t, s2)
        return rets, exits, backs

    def merge_at(self, f, d, b, sts):
        groups = {}
        live = f.live_in[b]
        for s in sts:
            groups.setdefault(self.key(f, d, live, s), []).append(s)
        if len(groups) > self.LIM:
            g2 = {}
            for k, l in groups.items():
                g2.setdefault(self.key(f, d, live, l[0], shallow=True), []).extend(l)
            groups = g2
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.extend(g)
            else:
                self.stats["joins"] += 1
                h, _ = self.generalise(g, live, None, "join", f)
                out.append(h)
        return out

    def key(self, f, d, live, st, shallow=False):
        out = []
        fr = st.frames[d]
        for l in sorted(live):
            v = fr.get(l)
            if v is None:
                continue
            k = self.keyval(st, v, 0 if shallow else 2)
            if k is not None:
                out.append((l, k))
        ex = st.aux.get("key")
        if self.extra_key is not None:
            ex = (ex, self.extra_key(st))
        return (tuple(out), ex)

    def keyval(self, st, v, depth):
        if v.op == "bool":
            return v.a[0]
        if self.observed and v.op in ("ge0", "gt0", "eq0", "not", "and") and st.facts.decide(v) is not None:
            return st.facts.decide(v)
        if v.op == "moved":
            return "M"
        if v.op == "adt":
            if self.P.k(v.ty) == "closure":
                return None
            if self.P.is_enum(v.ty):
                sub = tuple(self.keyval(st, x, depth - 1) for x in v.a[1]) if depth > 0 else ()
                return (v.a[0], sub)
            if depth > 0:
                r = tuple(self.keyval(st, x, depth - 1) for x in v.a[1])
                return r if any(x is not None for x in r) else None
            return None
        if v.op == "iter":
            n = self.M.iter_const_len(v)
            if n is not None:
                return ("it", n)
            return None
        if isinstance(v.ty, int) and self.P.is_enum(v.ty):
            vs = st.facts.variants(v)
            if vs and len(vs) == 1:
                return (vs[0], ())
        if v.op in ("not", "ge0", "eq0", "gt0", "and") or (v.op in ("app", "sym", "fld", "cell0") and isinstance(v.ty, int) and self.P.k(v.ty) == "bool"):
            r = st.facts.decide(v)
            if r is not None:
                return r
        return None

    # ------------------------------------------------------------ loops
    def loop(self, f, d, h, body, entry):
        self.stats["loops"] += 1
        if self.unroll and self.unroll(f):
            return self.unrolled(f, d, h, body, entry)
        if self.loop_hook and entry:
            r = self.loop_hook(self, f, d, h, body, entry)
            if r is not None:
                return r
        if self.peel and entry and self.peel(f, h, body, entry):
            # the first iteration apart from the others
            rets, exits, bk = self.region(f, d, body, h, {h: list(entry)})
            rets = list(rets)
            exits = {t: list(l) for t, l in exits.items()}
            if bk:
                p, self.peel = self.peel, None
                try:
                    r, e = self.loop(f, d, h, body, bk)
                finally:
                    self.peel = p
                rets.extend(r)
                for t, l in e.items():
                    exits.setdefault(t, []).extend(l)
            return rets, exits
        live = f.live_in[h]
        for s in entry:
            for l in list(s.frames[d]):
                if l not in live and l not in range(1, f.argc + 1):
                    if d not in s.own:
                        s.frames[d] = dict(s.frames[d])
                        s.own.add(d)
                    del s.frames[d][l]
            self.gc(s)
        site = (tuple(x.id for x, _ in self.stack), h)
        heads = {}  # key -> dict(state, sources)
        coarse = [False]

        def keyfn(s):
            return self.key(f, d, live, s, shallow=coarse[0])

        work = []
        for s in entry:
            work.append((s, "entry"))
        rec, self.rec = self.rec, self.rec
        self.rec = 0
        groups = {}
        for s in entry:
            groups.setdefault(keyfn(s), []).append(s)
        if len(groups) > self.KEYLIM:
            coarse[0] = True
            groups = {}
            for s in entry:
                groups.setdefault(keyfn(s), []).append(s)
        dirty = []
        for k, g in groups.items():
            hd, mp = self.generalise(g, live, None, "L%d" % h, f)
            heads[k] = {"st": hd, "n": 0, "drop": False}
            dirty.append(k)
        rounds = 0
        results = {}
        try:
            while dirty:
                k = dirty.pop(0)
                self.tick()
                hd = heads[k]
                hd["n"] += 1
                s0 = hd["st"].fork()
                s0.tr = Node("tmp", [])
                r, e, bk = self.region(f, d, body, h, {h: [s0]})
                byk = {}
                for s in bk:
                    fr = s.frames[d]
                    nf = {l: v for l, v in fr.items() if l in live or 1 <= l <= f.argc}
                    s.frames[d] = nf
                    s.own.add(d)
                    self.gc(s)
                    byk.setdefault(keyfn(s), []).append(s)
                for k2, l in byk.items():
                    if k2 not in heads:
                        if len(heads) >= self.KEYLIM and not coarse[0]:
                            # too many partitions: start again without them
                            coarse[0] = True
                            groups = {}
                            for s in entry:
                                groups.setdefault(keyfn(s), []).append(s)
                            heads.clear()
                            dirty[:] = []
                            for k3, g in groups.items():
                                hd3, _ = self.generalise(g, live, None, "L%d" % h, f)
                                heads[k3] = {"st": hd3, "n": 0, "drop": False}
                                dirty.append(k3)
                            break
                        hd2, _ = self.generalise(l, live, None, "L%d" % h, f)
                        heads[k2] = {"st": hd2, "n": 0, "drop": False}
                        dirty.append(k2)
                    else:
                        H = heads[k2]
                        new = self.widen(f, d, h, live, H, l)
                        if new is not None:
                            H["st"] = new
                            if k2 not in dirty:
                                dirty.append(k2)
        finally:
            self.rec = rec
        # final pass: every head once, recording
        rets, exits = [], {}
        nodes = {}
        for k, H in heads.items():
            nodes[k] = Node("head", [], (f.name, h), H["st"].facts)
        for s in entry:
            n = nodes.get(keyfn(s))
            if n is not None:
                n.prev.append(s.tr)
        for k, H in heads.items():
            s0 = H["st"].fork()
            s0.tr = nodes[k]
            r, e, bk = self.region(f, d, body, h, {h: [s0]})
            rets.extend(r)
            for t, l in e.items():
                exits.setdefault(t, []).extend(l)
            for s in bk:
                fr = s.frames[d]
                s.frames[d] = {l: v for l, v in fr.items() if l in live or 1 <= l <= f.argc}
                s.own.add(d)
                self.gc(s)
                n = nodes.get(keyfn(s))
                if n is not None:
                    self.note(s, "back", (f.name, h, s, H["st"]))
                    n.prev.append(s.tr)
        return rets, exits

    def unrolled(self, f, d, h, body, entry):
        """loops over constants: iteration by iteration, nothing joined"""
        rets, exits = [], {}
        cur = list(entry)
        for _ in range(200):
            if not cur:
                return rets, exits
            nxt = []
            for s in cur:
                r, e, bk = self.region(f, d, body, h, {h: [s]})
                rets.extend(r)
                for t, l in e.items():
                    exits.setdefault(t, []).extend(l)
                nxt.extend(bk)
            if len(nxt) > self.unroll_max:
                raise Budget("constant loop in %s branches" % f.name)
            cur = nxt
        raise Budget("constant loop in %s does not end" % f.name)

    def gc(self, s):
        """forget heap cells of anonymous references no live value can reach"""
        dead = {}
        for b in s.heap:
            if b[0] == "H" and T.syms(b[1]) and all("#" in x.a[0] for x in T.syms(b[1]) if x.op == "sym"):
                dead[b[1]] = b
        if not dead:
            return
        seen = set()
        work = [v for fr in s.frames for v in fr.values()] + [v for b, v in s.heap.items() if b[1] not in dead]
        for v in work:
            for x in T.subterms(v, seen):
                pass
        ch = True
        while ch and dead:
            ch = False
            for t, b in list(dead.items()):
                if t in seen:
                    del dead[t]
                    for x in T.subterms(s.heap[b], seen):
                        pass
                    ch = True
        if dead:
            s.heap = {b: v for b, v in s.heap.items() if b not in set(dead.values())}

    def widen(self, f, d, h, live, H, l):
        """None if every state of l is covered by head H, else the weaker head"""
        hs = H["st"]
        bad = []
        fbad = []
        for s in l:
            m = {}
            if not self.match_state(hs, s, m):
                bad.append(s)
                continue
            if not self.facts_hold(hs, s, m):
                fbad.append((s, m))
        if not bad and not fbad:
            return None
        if H["n"] > 14:
            raise Budget("loop does not stabilise in %s" % f.name)
        if not bad:
            # same shape, weaker facts
            g = hs.fork()
            g.facts = self.filter_facts(hs, [(s, m) for s, m in fbad])
            return g
        g, _ = self.generalise([hs] + l, live, None, "L%d" % h, f, weak=H["n"] > 6, carry=hs.aux.get("gen", frozenset()))
        return g

    # pattern matching: is s an instance of head state hs?
    def match_state(self, hs, s, m):
        if len(hs.frames) != len(s.frames):
            return False
        own = hs.aux.get("gen", frozenset())
        for d, fr in enumerate(hs.frames):
            fs = s.frames[d]
            if fr is fs:
                continue
            for l, t in fr.items():
                v = fs.get(l)
                if v is None:
                    if t.op in ("uninit",):
                        continue
                    return False
                if not self.match(t, v, m, own):
                    return False
        for b, t in hs.heap.items():
            v = s.heap.get(b)
            if v is None or not self.match(t, v, m, own):
                return False
        for b in s.heap:
            if b not in hs.heap and b[0] == "H":
                v = s.heap[b]
                if v.op != "cell0" or v.a[0] is not b[1]:
                    return False
        return True

    def match(self, t, v, m, own):
        if t in own:
            o = m.get(t)
            if o is None:
                m[t] = v
                return True
            return o is v
        if t is v:
            return not (T.syms(t) & own) or self._bind_id(t, m, own)
        if not (T.syms(t) & own):
            return False
        if t.op == "lin":
            # solve for a single owned symbol
            c, dd = lin(t)
            o = [a for a in dd if a in own]
            unb = [a for a in o if a not in m]
            if len(unb) == 1 and abs(dd[unb[0]]) == 1 and all((a in m) or not (T.syms(a) & own) or a is unb[0] for a in dd):
                r = T.sub(v, I(c))
                for a, k in dd.items():
                    if a is not unb[0]:
                        r = T.sub(r, scale(m.get(a, a), k))
                if dd[unb[0]] == -1:
                    r = neg(r)
                m[unb[0]] = r
                return True
            return substitute(t, m) is v
        if t.op != v.op:
            # a struct pattern against a symbolic struct
            if t.op == "adt" and t.a[0] == 0 and isinstance(t.ty, int) and self.P.is_struct(t.ty) and v.op in ("sym", "fld", "elem", "deref", "unbox", "cell0", "app"):
                fts = self.P.fields(t.ty)
                return all(self.match(x, fld(v, 0, i, fts[i] if i < len(fts) else None), m, own) for i, x in enumerate(t.a[1]))
            if t.op in ("sub", "len", "elem"):
                return substitute(t, m) is v if all(s in m for s in T.syms(t) & own) else False
            return False
        if t.op == "cat":
            return self.match_cat(t, v, m, own)
        return self._match_args(t.a, v.a, m, own)

    def _bind_id(self, t, m, own):
        for s in T.syms(t) & own:
            o = m.get(s)
            if o is None:
                m[s] = s
            elif o is not s:
                return False
        return True

    def _match_args(self, a, b, m, own):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, Term):
                if not isinstance(y, Term) or not self.match(x, y, m, own):
                    return False
            elif isinstance(x, tuple):
                if not isinstance(y, tuple) or not self._match_args(x, y, m, own):
                    return False
            elif x != y:
                return False
        return True

    def match_cat(self, t, v, m, own):
        return self._match_args(t.a, v.a, m, own) if len(t.a[0]) == len(v.a[0]) else False

    def facts_hold(self, hs, s, m):
        return all(self.fact_holds(b, s, m) for b in self.fact_list(hs.facts))

    def fact_list(self, fx):
        """facts as (kind, payload) pairs"""
        out = [("b", b) for b in fx.booleans()]
        for t, v in fx.var.items():
            out.append(("var", (t, v)))
        for t, e in fx.exc.items():
            out.append(("exc", (t, e)))
        for (sq, pr) in fx.alls:
            out.append(("all", (sq, pr)))
        for (t, v), bs in fx.guard.items():
            out.append(("guard", (t, v, bs)))
        return out

    def subst_fact(self, b, m):
        k, x = b
        if k == "b":
            return (k, substitute(x, m))
        if k in ("var", "exc"):
            return (k, (substitute(x[0], m), x[1]))
        if k == "all":
            return (k, (substitute(x[0], m), x[1] if not isinstance(x[1], Term) else substitute(x[1], m)))
        if k == "guard":
            return (k, (substitute(x[0], m), x[1], tuple(substitute(y, m) for y in x[2])))
        return b

    def fact_holds(self, b, s, m):
        k, x = self.subst_fact(b, m)
        fx = s.facts
        if k == "b":
            return fx.decide(x) is True
        if k == "var":
            t = x[0]
            if t.op == "elem" and t.a[1] is ZERO and t.a[0].op == "cat":
                vs = self.first_variants(s, t.a[0], t.ty)
            else:
                vs = fx.variants(t)
            return vs is not None and vs == [x[1]]
        if k == "exc":
            vs = fx.variants(x[0])
            return vs is not None and not (set(vs) & set(x[1]))
        if k == "all":
            return self.M.all_holds(self, s, x[0], x[1])
        if k == "guard":
            have = fx.guard.get((x[0], x[1]), ())
            if all(y in have for y in x[2]):
                return True
            vs = fx.variants(x[0])
            if vs is not None and x[1] not in vs:
                return True
            g = fx.know_variant(x[0], x[1])
            return g is None or all(g.decide(y) is True for y in x[2])
        return False

    def first_variants(self, st, seq, ety):
        """possible variants of the first element, by cases over which part is empty"""
        if seq.op != "cat":
            return st.facts.variants(self.elem(st, seq, ZERO, ety))
        out = set()
        fx = st.facts
        for p in seq.a[0]:
            if not isinstance(p, Term):
                if p[0] == "S":
                    return None
                v = fx.variants(p[1][0])
                return None if v is None else sorted(out | set(v))
            n = seqlen(p)
            g = fx.assume(ge0(T.sub(n, ONE)))
            if g is not None:
                v = g.variants(self.elem(st.with_facts(g), p, ZERO, ety))
                if v is None:
                    return None
                out |= set(v)
            fx = fx.assume(eq0(n))
            if fx is None:
                return sorted(out)
        return sorted(out)

    def assume_fact(self, fx, b):
        k, x = b
        if k == "b":
            return fx.assume(x)
        if k == "var":
            return fx.know_variant(x[0], x[1])
        if k == "exc":
            return fx.exclude_variants(x[0], x[1])
        if k == "all":
            return fx.with_all(x[0], x[1])
        if k == "guard":
            return fx.with_guard(*x)
        return fx

    def filter_facts(self, hs, l):
        keep = []
        for b in self.fact_list(hs.facts):
            for h in self.halves(b, lambda b: all(self.fact_holds(b, s, m) for s, m in l)):
                keep.append(h)
        return self.build_facts(keep)

    def halves(self, b, ok):
        """b if it holds, else the half of an equality that does"""
        if ok(b):
            return [b]
        if b[0] == "b" and b[1].op == "eq0":
            x = b[1].a[0]
            return [h for h in (("b", ge0(x)), ("b", ge0(neg(x)))) if T.is_intlike(x) and ok(h)]
        return []

    def build_facts(self, bs):
        fx = Facts()
        # variants first (they give bounds to discriminants), then equalities, then the rest
        rank = {"guard": -1, "var": 0, "exc": 1, "b": 2, "all": 3}
        for b in sorted(bs, key=lambda b: (rank[b[0]], 0 if b[0] == "b" and b[1].op == "eq0" else 1)):
            g = self.assume_fact(fx, b)
            if g is not None:
                fx = g
        return fx

    # ------------------------------------------------------------ generalisation
    def generalise(self, states, live, tys, tag, f=None, weak=False, carry=frozenset()):
        if len(states) == 1:
            g = states[0].fork()
            g.setaux("gen", frozenset())
            return g, [{}]
        n = len(states)
        memo = {}
        own = []
        maps = [dict() for _ in states]

        def new(vals, ty):
            t = memo.get(vals)
            if t is not None:
                return t
            if ty is None:
                for v in vals:
                    if isinstance(v.ty, int) and v.op not in ("ge0", "eq0", "gt0", "not", "and"):
                        ty = v.ty
                        break
            t = fresh(tag, ty)
            memo[vals] = t
            own.append(t)
            for i, v in enumerate(vals):
                maps[i][t] = v
            return t

        P = self.P

        def gen(vals, ty):
            v0 = vals[0]
            if all(v is v0 for v in vals):
                return v0
            t = memo.get(vals)
            if t is not None:
                return t
            if any(v.op in ("moved", "uninit") for v in vals):
                if all(v.op in ("moved", "uninit") for v in vals):
                    return UNINIT
                if any(v.op == "moved" for v in vals):
                    return mk("maymoved", ())
                return UNINIT
            ops = {v.op for v in vals}
            if self.observed and ops <= {"bool", "ge0", "gt0", "eq0", "not", "and"}:
                ds = {s.facts.decide(v) for v, s in zip(vals, states)}
                if len(ds) == 1 and None not in ds:
                    return TRUE if ds.pop() else FALSE
            if self.observed and any(isinstance(v.ty, int) and v.ty in self.observed for v in vals):
                return new(vals, next(v.ty for v in vals if isinstance(v.ty, int) and v.ty in self.observed))
            if ops == {"adt"}:
                if v0.ty in self.spans and all(v.ty == v0.ty for v in vals):
                    return new(vals, v0.ty)
                if all(v.ty == v0.ty and v.a[0] == v0.a[0] and len(v.a[1]) == len(v0.a[1]) for v in vals):
                    fts = P.fields(v0.ty, v0.a[0]) if isinstance(v0.ty, int) else []
                    return adt(v0.ty, v0.a[0], [
                        gen(tuple(v.a[1][i] for v in vals), fts[i] if i < len(fts) else None) for i in range(len(v0.a[1]))])
                return new(vals, ty if ty is not None else v0.ty)
            if ops == {"refv"}:
                it = P.tys[ty]["ty"] if ty is not None and P.k(ty) in ("ref", "ptr") else None
                return refv(gen(tuple(v.a[0] for v in vals), it))
            if ops == {"box"}:
                return box(gen(tuple(v.a[0] for v in vals), None))
            if ops == {"ptr"} and all(v.a[0] == v0.a[0] and len(v.a[1]) == len(v0.a[1]) for v in vals):
                path = []
                ok = True
                for steps in zip(*[v.a[1] for v in vals]):
                    if all(s == steps[0] for s in steps):
                        path.append(steps[0])
                    elif all(s[0] == "e" for s in steps):
                        path.append(("e", gen(tuple(s[1] for s in steps), usize), steps[0][2]))
                    else:
                        ok = False
                        break
                if ok:
                    return mk("ptr", (v0.a[0], tuple(path)), v0.ty)
            if ops == {"iter"} and all(v.a[0] == v0.a[0] and len(v.a) == len(v0.a) for v in vals):
                return mk("iter", (v0.a[0],) + tuple(
                    gen(tuple(v.a[i] for v in vals), None) if isinstance(v0.a[i], Term) else v0.a[i] for i in range(1, len(v0.a))), v0.ty)
            # subsequences of one base
            if ops <= {"sub", "cat", "sym", "fld", "app", "deref", "cell0", "unbox", "elem"} and "sub" in ops:
                base = next(v.a[0] for v in vals if v.op == "sub")
                lo, hi = [], []
                for v in vals:
                    if v.op == "sub" and v.a[0] is base:
                        lo.append(v.a[1])
                        hi.append(v.a[2])
                    elif v is base:
                        lo.append(ZERO)
                        hi.append(seqlen(base))
                    elif v is EMPTY:
                        lo.append(None)
                        hi.append(None)
                    else:
                        lo = None
                        break
                if lo is not None:
                    hs = [x for x in hi if x is not None]
                    ls = [x for x in lo if x is not None]
                    if all(x is hs[0] for x in hs):
                        lo = [hs[0] if x is None else x for x in lo]
                        hi = [hs[0]] * len(lo)
                    elif all(x is ls[0] for x in ls):
                        hi = [ls[0] if x is None else x for x in hi]
                        lo = [ls[0]] * len(lo)
                    if None not in lo:
                        return seqsub(base, gen(tuple(lo), usize), gen(tuple(hi), usize))
            if ops == {"app"} and all(v.a[0] == v0.a[0] and len(v.a) == len(v0.a) and v.ty == v0.ty for v in vals) and v0.a[0] in ("refs", "vals", "rev"):
                return mk("app", (v0.a[0],) + tuple(gen(tuple(v.a[i] for v in vals), None) for i in range(1, len(v0.a))), v0.ty)
            tt = ty
            if tt is None:
                for v in vals:
                    if isinstance(v.ty, int):
                        tt = v.ty
                        break
            if tt is not None and P.is_struct(tt) and any(v.op == "adt" for v in vals):
                fts = P.fields(tt)
                return adt(tt, 0, [gen(tuple(fld(v, 0, i, fts[i]) for v in vals), fts[i]) for i in range(len(fts))])
            return new(vals, tt)

        usize = P.ty_by_s.get("usize")
        g = State()
        top = len(states[0].frames) - 1
        for d in range(top + 1):
            frs = [s.frames[d] for s in states]
            if all(x is frs[0] for x in frs):
                g.frames.append(frs[0])
                continue
            fr = {}
            fn = None
            if d == top:
                fn = f
            elif d < len(self.stack):
                fn = self.stack[d - (top + 1 - len(self.stack))][0] if len(self.stack) == top + 1 else None
            for l in frs[0]:
                vals = tuple(x.get(l) for x in frs)
                if any(v is None for v in vals):
                    continue
                if d == top and live is not None and l not in live and f is not None and not (1 <= l <= f.argc):
                    continue
                ty = None
                if d == top and tys is not None:
                    ty = tys.get(l)
                elif fn is not None and l < len(fn.locals):
                    ty = fn.locals[l]
                fr[l] = gen(vals, ty)
            g.frames.append(fr)
        keys = set()
        for s in states:
            keys |= set(s.heap)
        for b in sorted(keys, key=lambda b: (b[0], b[1].id if isinstance(b[1], Term) else b[1])):
            vals = []
            for s in states:
                v = s.heap.get(b)
                if v is None:
                    if b[0] == "H":
                        t = b[1]
                        v = mk("cell0", (t,), P.tys[t.ty]["ty"] if isinstance(t.ty, int) and P.k(t.ty) in ("ref", "ptr") else None)
                    else:
                        v = None
                vals.append(v)
            if any(v is None for v in vals):
                continue
            g.heap[b] = gen(tuple(vals), vals[0].ty if isinstance(vals[0].ty, int) else None)
        if carry:
            alive = set()
            for fr in g.frames:
                for v in fr.values():
                    alive |= T.syms(v)
            for v in g.heap.values():
                alive |= T.syms(v)
            for t in sorted(carry & alive, key=lambda t: t.id):
                if t not in own:
                    own.append(t)
                    for mp in maps:
                        mp[t] = t
        # ---------------- facts
        cands = []
        seen = set()

        def cand(b):
            if b not in seen:
                seen.add(b)
                cands.append(b)

        inv = []
        for i in range(n):
            mm = {}
            dup = set()
            for t, v in maps[i].items():
                if v.op in ("int", "bool") or v in mm:
                    continue
                mm[v] = t
            inv.append(mm)
        for b in self.fact_list(states[0].facts):
            cand(b)
            if inv[0]:
                b2 = self.subst_fact(b, inv[0])
                if b2 != b:
                    cand(b2)
        if self.observed:
            for s in states[1:]:
                for b in self.fact_list(s.facts):
                    if b[0] == "b":
                        cand(b)
        if self.observed:
            syms_ = [t for t in own if isinstance(t.ty, int) and P.cat(t.ty) == "int"]
            if len(syms_) <= 6:
                for i, s in enumerate(states[:8]):
                    for b in self.fact_list(s.facts):
                        if b[0] != "b" or b[1].op != "ge0" or not any(y.op == "len" for y in T.lin(b[1].a[0])[1]):
                            continue
                        x = b[1].a[0]
                        if inv[i]:
                            x = self.subst_fact(("b", ge0(x)), inv[i])[1]
                            if x.op != "ge0":
                                continue
                            x = x.a[0]
                        d = T.lin(x)[1]
                        for t in syms_:
                            v = maps[i][t] if t in maps[i] else None
                            if v is None:
                                continue
                            dv = T.lin(v)[1]
                            ks = {1, -1} if not dv else {k for k in (d.get(a, 0) // c for a, c in dv.items() if d.get(a, 0) % c == 0) if k}
                            for k in ks:
                                cand(("b", ge0(add(x, T.scale(T.sub(t, v), k)))))
        if not weak or self.observed:
            for i in range(1, min(n, 4)):
                if inv[i]:
                    for b in self.fact_list(states[i].facts):
                        b2 = self.subst_fact(b, inv[i])
                        if b2 != b:
                            cand(b2)
            for b in self.templates(g, own, maps, states):
                cand(b)
        keep = []
        for b in cands:
            keep.extend(self.halves(b, lambda b: all(self.fact_holds(b, s, maps[i]) for i, s in enumerate(states))))
        if carry:
            stale = carry - alive
            keep = [b for b in keep if not stale or not (T.syms(b[1] if b[0] == "b" else b[1][0]) & stale)]
        g.facts = self.build_facts(keep)
        g.aux = dict(states[0].aux)
        for k in list(g.aux):
            if any(s.aux.get(k) != g.aux[k] for s in states):
                del g.aux[k]
        g.aux["gen"] = frozenset(own)
        g.tr = Node("join", [s.tr for s in states if s.tr is not None])
        return g, maps

    def templates(self, g, own, maps, states):
        """candidate relations between generalised numbers and the numbers of the state"""
        out = []
        P = self.P
        nums = []
        seqs = []
        ownset = set(own)
        for t in own:
            if t.ty is None or not isinstance(t.ty, int):
                continue
            c = P.cat(t.ty)
            if c in ("int", "char", "big"):
                nums.append(t)
            elif c in ("str", "seq"):
                seqs.append(t)
            elif c == "rat":
                out.append(("b", mk("gt0", (t,))))
                out.append(("b", ge0(t)))
                out.append(("b", bnot(eq0(t))))
        if self.observed:
            import adt as A
            for t in own:
                if t.ty in self.observed:
                    o = A.observed(self, self.observed[t.ty], t)
                    nums.append(seqlen(o))
                    out.append(("all", (o, "ascii")))
        for s in seqs:
            nums.append(seqlen(s))
            et = P.elem_ty(s.ty) if isinstance(s.ty, int) else None
            if et is not None and P.is_enum(et):
                vs = set()
                for m, st in zip(maps, states):
                    w = m[s]
                    v = self.first_variants(st, w, et) if w is not EMPTY else None
                    vs.add(v[0] if v is not None and len(v) == 1 else None)
                if len(vs) == 1 and None not in vs:
                    out.append(("var", (self.elem(g, s, ZERO, et), vs.pop())))
            for pr in self.M.PREDS:
                out.append(("all", (s, pr)))
        # other quantities of the state: lengths and numbers reachable from live values
        others = []
        seen = set()
        fr = g.frames[-1] if g.frames else {}
        stack = [(v, 0) for v in fr.values()]
        for b in g.heap.values():
            stack.append((b, 0))
        while stack:
            v, dep = stack.pop()
            if v in seen or len(seen) > 400:
                continue
            seen.add(v)
            if isinstance(v.ty, int) and v.ty in self.observed:
                import adt as A
                others.append(seqlen(A.observed(self, self.observed[v.ty], v)))
                continue
            if v.op == "adt":
                if dep < 4:
                    stack.extend((x, dep + 1) for x in v.a[1])
                continue
            if v.op in ("refv", "box"):
                stack.append((v.a[0], dep))
                continue
            if v.op == "ptr":
                continue
            if v.op == "iter":
                for x in v.a[1:]:
                    if isinstance(x, Term):
                        stack.append((x, dep))
                continue
            if v.op == "app" and v.a[0] in ("refs", "chars", "bytes", "vals", "rev"):
                stack.append((v.a[1], dep))
                if v.a[0] == "chars":
                    others.append(seqlen(v))
                continue
            if v.op == "sub":
                others.append(v.a[1])
                others.append(v.a[2])
                others.append(seqlen(v.a[0]))
                for pr in self.M.PREDS:
                    if T.syms(v.a[1]) & ownset:
                        out.append(("all", (seqsub(v.a[0], ZERO, v.a[1]), pr)))
                continue
            if v.op == "cat":
                others.append(seqlen(v))
                continue
            if isinstance(v.ty, int):
                c = P.cat(v.ty)
                if c == "int":
                    others.append(v)
                elif c in ("str", "seq"):
                    others.append(seqlen(v))
            elif v.op in ("len", "lin"):
                others.append(v)
        oth = []
        for t in nums + others:
            if t.op != "int" and t not in oth:
                oth.append(t)
        for x in nums:
            vals = [substitute(x, m) for m in maps]
            ints = [v.a[0] for v in vals if v.op == "int"]
            lo = None
            top = 0
            for v, s in zip(vals, states):
                if top is not None:
                    c, dd = s.facts.norm(v)
                    for a, k in dd.items():
                        l, h = s.facts.bounds(a)
                        q = h if k > 0 else l
                        if q is None:
                            c = None
                            break
                        c += k * q
                    top = None if c is None else max(top, c)
            if self.observed and top is not None:
                for w in (255, 65535, 2**32 - 1):
                    if top <= w:
                        out.append(("b", ge0(T.sub(I(w), x))))
                        break
            for v, s in zip(vals, states):
                if v.op == "int":
                    b = v.a[0]
                else:
                    c, dd = s.facts.norm(v)
                    b = c
                    for a, k in dd.items():
                        l, h = s.facts.bounds(a)
                        q = l if k > 0 else h
                        if q is None:
                            b = None
                            break
                        b += k * q
                if b is None:
                    lo = None
                    break
                lo = b if lo is None else min(lo, b)
            if lo is not None and lo > -2**62:
                out.append(("b", ge0(T.sub(x, I(lo)))))
            if len(ints) == len(vals) and ints:
                out.append(("b", ge0(T.sub(I(max(ints)), x))))
            elif ints:
                out.append(("b", ge0(T.sub(x, I(min(ints))))))
        for i, x in enumerate(nums):
            for y in oth:
                if y is x:
                    continue
                diffs = []
                for m, s in zip(maps, states):
                    dv = s.facts.value(T.sub(substitute(x, m), substitute(y, m)))
                    diffs.append(dv)
                if all(v is diffs[0] for v in diffs) and diffs[0].op == "int":
                    out.append(("b", eq0(T.sub(T.sub(x, y), diffs[0]))))
                    continue
                out.append(("b", ge0(T.sub(T.sub(y, x), ONE))))
                out.append(("b", ge0(T.sub(y, x))))
                out.append(("b", ge0(T.sub(x, y))))
                cs = [v.a[0] for v in diffs if v.op == "int"]
                if cs:
                    if max(cs) > 0:
                        out.append(("b", ge0(T.sub(add(y, I(max(cs))), x))))
                    if min(cs) > 0:
                        out.append(("b", ge0(T.sub(T.sub(x, y), I(min(cs))))))
        # x <= len a + len b
        own_ = [x for x in nums if x.op == "sym"]
        lens = [x for x in nums if x.op == "len"]
        if len(own_) <= 6 and len(lens) <= 6:
            for x in own_:
                for i, a in enumerate(lens):
                    for b in lens[:i]:
                        out.append(("b", ge0(T.sub(add(a, b), x))))
        if self.observed and len(own_) <= 8:
            # x + y <= z
            zs = [z for z in oth if z.op == "len"]
            for i, x in enumerate(own_):
                for y in own_[:i]:
                    for z in zs:
                        out.append(("b", ge0(T.sub(T.sub(z, x), y))))
        # three-term equalities x + y = z / x = y + z + c
        if len(nums) <= 8 and len(oth) <= 24:
            sv = [(x, [s.facts.value(substitute(x, m)) for m, s in zip(maps, states)]) for x in oth]
            for i in range(len(sv)):
                if sv[i][0] not in nums:
                    continue
                for j in range(len(sv)):
                    for k in range(j + 1, len(sv)):
                        if i in (j, k):
                            continue
                        dd = [s.facts.value(T.sub(T.sub(a, b), c)) for a, b, c, s in zip(sv[i][1], sv[j][1], sv[k][1], states)]
                        if dd[0].op == "int" and all(x is dd[0] for x in dd):
                            out.append(("b", eq0(T.sub(T.sub(T.sub(sv[i][0], sv[j][0]), sv[k][0]), dd[0]))))
        return out

    # ------------------------------------------------------------ blocks
    def tick(self):
        if time.time() > self.deadline:
            raise Budget("time")

    def block(self, f, d, b, st):
        self.stats["blocks"] += 1
        self.steps -= 1
        if self.steps < 0:
            raise Budget("steps")
        if self.stats["blocks"] % 256 == 0:
            self.tick()
        st = st.fork()
        blk = f.blocks[b]
        for s in blk["s"]:
            if s[0] == "=":
                dty = s[1][1]
                v = self.rvalue(st, d, s[2], dty, s[3])
                if len(s[1][0]) == 1:
                    st.setl(d, s[1][0][0], v)
                else:
                    base, path, _ = self.lval(st, d, s[1])
                    self.store(st, base, path, v)
            elif s[0] == "setdiscr":
                base, path, ty = self.lval(st, d, s[1])
                cur = self.load(st, base, path, ty)
                if cur.op == "adt" and cur.a[0] != s[2]:
                    cur = adt(ty, s[2], [UNINIT] * len(self.P.fields(ty, s[2])))
                    self.store(st, base, path, cur)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [("go", t[1], st)]
        if k == "return":
            return [("ret", None, st)]
        if k == "switch":
            return self.switch(f, d, st, t)
        if k == "drop":
            return self.drop(f, d, st, t)
        if k == "assert":
            c = self.operand(st, d, t[1])
            cond = c if t[2] else bnot(c)
            kind = t[3]
            s = self.oblige(st, self.assert_kind(kind), cond, t[6], kind if isinstance(kind, str) else str(kind))
            return [("go", t[5], s)] if s is not None else []
        if k == "call":
            return self.do_call(f, d, st, t)
        return []

    def assert_kind(self, kind):
        s = kind if isinstance(kind, str) else str(kind)
        if "Overflow" in s or "overflow" in s:
            return "overflow"
        if "Bounds" in s:
            return "bounds"
        if "Zero" in s:
            return "div0"
        return "assert"

    def switch(self, f, d, st, t):
        v = self.operand(st, d, t[1])
        out = []
        if v.op == "bool" or (len(t) > 5 and t[5] is not None and self.P.k(t[5]) == "bool"):
            r = st.facts.decide(v)
            for val, tgt in [(x, b) for x, b in t[2]] + [(None, t[3])]:
                if val is None:
                    # otherwise: values not listed
                    listed = {x for x, _ in t[2]}
                    rest = [x for x in (0, 1) if x not in listed]
                    if tgt is None or not rest:
                        continue
                    val = rest[0]
                want = bool(val)
                if r is not None:
                    if r == want:
                        return [("go", tgt, st)]
                    continue
                fx = st.facts.assume(v, want)
                if fx is not None:
                    s = st.fork()
                    s.facts = fx
                    out.append(("go", tgt, s))
            self.stats["forks"] += len(out) > 1
            return out
        v = st.facts.value(v)
        if v.op == "int":
            for x, b in t[2]:
                if x == v.a[0]:
                    return [("go", b, st)]
            return [("go", t[3], st)] if t[3] is not None else []
        fx = st.facts
        other = fx
        for x, b in t[2]:
            if other is None:
                break
            c = eq0(T.sub(v, I(x)))
            g = other.assume(c)
            if g is not None:
                s = st.fork()
                s.facts = g
                out.append(("go", b, s))
            other = other.assume(c, False)
        if other is not None and t[3] is not None:
            # an enum value outside the listed discriminants
            s = st.fork()
            s.facts = other
            if not (v.op == "discr" and other.variants(v.a[0]) == []):
                if f.blocks[t[3]]["t"][0] != "unreachable":
                    out.append(("go", t[3], s))
        self.stats["forks"] += len(out) > 1
        return out

    def drop(self, f, d, st, t):
        base, path, ty = self.lval(st, d, t[1])
        if self.M.tracked(self.P, ty):
            v = self.load(st, base, path, ty)
            sts = self.drop_value(st, v, ty, base, path, t[3])
            return [("go", t[2], s) for s in sts]
        return [("go", t[2], st)]

    def drop_value(self, st, v, ty, base, path, span):
        """run the destructors this analysis cares about"""
        if v.op in ("moved", "uninit"):
            return [st]
        P = self.P
        p = P.path(ty)
        di = P.drop_impl(ty)
        if di is not None:
            ptr = mk("ptr", (base, path), None)
            sts = [s for s, _ in self.run_fn(st, di, [ptr], span)]
        elif p is not None and self.M.is_resource(p):
            s = st.fork()
            self.event(s, "drop", "drop:" + p, [v], UNINIT, span)
            if self.on_drop:
                s = self.on_drop(self, s, p)
            return [s]
        else:
            sts = [st]
        # fields
        if P.is_enum(ty) or P.is_struct(ty):
            out = []
            for s in sts:
                v2 = self.load(s, base, path, ty)
                vs = [v2.a[0]] if v2.op == "adt" else (s.facts.variants(v2) if P.is_enum(ty) else [0])
                for vi in vs or []:
                    s2 = s
                    if v2.op != "adt" and P.is_enum(ty):
                        fx = s.facts.know_variant(v2, vi)
                        if fx is None:
                            continue
                        s2 = s.with_facts(fx)
                    cur = [s2]
                    for i, ft in enumerate(P.fields(ty, vi)):
                        if self.M.tracked(P, ft):
                            nxt = []
                            for q in cur:
                                fp = path + (("f", vi, i, ty, ft),)
                                nxt.extend(self.drop_value(q, self.load(q, base, fp, ft), ft, base, fp, span))
                            cur = nxt
                    out.extend(cur)
            return out
        return sts

    # ------------------------------------------------------------ calls
    def do_call(self, f, d, st, t):
        c = t[1]
        span = t[5]
        args = [self.operand(st, d, a) for a in t[2]]
        argty = [a[2] if a[0] == "const" else a[1][1] for a in t[2]]
        dty = t[3][1]
        kind = c.get("kind")
        if kind == "indirect":
            fv = self.operand(st, d, c["op"])
            outs = self.apply(st, fv, args, dty, span)
        else:
            outs = self.call(st, c, args, Cx(c, dty, span, argty, f))
        res = []
        tgt = t[4]
        for s, v in outs:
            if tgt is None or v is None:
                continue
            if len(t[3][0]) == 1:
                s = s.fork()
                s.setl(d, t[3][0][0], v)
            else:
                s = s.fork()
                base, path, _ = self.lval(s, d, t[3])
                self.store(s, base, path, v)
            res.append(("go", tgt, s))
        self.stats["forks"] += len(res) > 1
        return res

    def call(self, st, c, args, cx):
        kind = c.get("kind")
        if isinstance(kind, dict) and "ctor" in kind:
            x = kind["ctor"]
            return [(st, adt(x["adt"], x["variant"], args))]
        hook = self.hooks.get(c.get("path")) or self.hooks.get(c.get("name") if c.get("inst") is None else None)
        if hook:
            r = hook(self, st, c, args, cx)
            if r is not None:
                return r
        if kind == "virtual":
            return self.virtual(st, c, args, cx)
        r = self.M.call(self, st, c, args, cx)
        if r is not None:
            self.stats["models"] += 1
            if isinstance(r, Term):
                return [(st, r)]
            return r
        inst = c.get("inst")
        if inst is not None and inst < len(self.P.fns) and self.P.fns[inst] is not None:
            return self.call_inst(st, inst, c, args, cx)
        return self.unknown_call(st, c, args, cx)

    def call_inst(self, st, inst, c, args, cx):
        g = self.P.fns[inst]
        h = self.hooks.get(g.name)
        if h:
            r = h(self, st, c, args, cx)
            if r is not None:
                return r
        k = self.contracts.get(inst)
        if k:
            import adt as A
            r = A.apply_contract(self, st, k[0], k[1], c, args, cx)
            if r is not None:
                return r
        if inst in self.scc and any(x.id in self.scc and self.scc[x.id] == self.scc[inst] for x, _ in self.stack):
            return self.opaque_call(st, [inst], c, args, cx, "recursive")
        if g.local and self.opaque(self, inst):
            return self.opaque_call(st, [inst], c, args, cx, "opaque")
        if self.max_nest is not None and g.local:
            k = sum(x.id == inst for x, _ in self.stack)
            if k > self.max_nest:
                self.too_deep.add((g.name, cx.span))
                return []
            if self.deepest is not None and k > self.deepest.get(inst, (0,))[0]:
                self.deepest[inst] = (k, cx.span)
        if c.get("name") in ("call_once", "call_mut", "call") and g.closure:
            return self.apply(st, args[0], self.untuple(st, args[1]), cx.ty, cx.span)
        return self.run_fn(st, inst, args, cx.span)

    def untuple(self, st, t):
        if t.op == "adt":
            return list(t.a[1])
        ty = self.tyof(t)
        if ty is not None and self.P.k(ty) == "tuple":
            return [fld(t, 0, i, x) for i, x in enumerate(self.P.tys[ty]["tys"])]
        return [t]

    def apply(self, st, fv, args, dty, span):
        """call a function value"""
        v = fv
        for _ in range(4):
            if v.op in ("refv", "ptr"):
                v = self.pointee(st, v)
            else:
                break
        P = self.P
        if v.op == "fn":
            c = P.tys[v.a[0]]["callee"]
            argty = [a.ty if isinstance(a.ty, int) else None for a in args]
            return self.call(st, c, args, Cx(c, dty, span, argty, None))
        ty = v.ty
        if isinstance(ty, int) and P.k(ty) == "closure":
            inst = P.tys[ty].get("inst")
            if inst is not None and inst < len(P.fns) and P.fns[inst] is not None:
                g = P.fns[inst]
                t1 = g.locals[1]
                st = st.fork()
                if P.k(t1) == "ref":
                    if P.tys[t1]["mut"]:
                        self_arg = fv if fv.op == "ptr" else self.newcell(st, v)
                    else:
                        self_arg = refv(v)
                else:
                    self_arg = v
                if g.spread is not None:
                    return self.run_fn(st, inst, [self_arg] + [adt(None, 0, args)], span)
                return self.run_fn(st, inst, [self_arg] + list(args), span)
        if isinstance(ty, int) and P.k(ty) == "fndef":
            c = P.tys[ty]["callee"]
            return self.call(st, c, args, Cx(c, dty, span, [None] * len(args), None))
        return self.unknown_call(st, {"path": "<fn value>", "name": "?"}, args, Cx({}, dty, span, [a.ty for a in args], None))

    def virtual(self, st, c, args, cx):
        """dynamic dispatch: to the implementation when the receiver's concrete type is known"""
        P = self.P
        v = args[0]
        raw = v
        for _ in range(5):
            if v.op in ("refv", "ptr", "box"):
                v = self.pointee(st, v)
                continue
            break
        ty = v.ty if isinstance(v.ty, int) else None
        if self.on_virtual:
            r = self.on_virtual(self, st, c, args, cx, v)
            if r is not None:
                return r
        if ty is not None and P.k(ty) != "dyn":
            # boxed concrete value may be symbolic: unwrap static reference layers of its type
            t2 = ty
            while P.k(t2) in ("ref", "ptr") or P.cat(t2) == "box":
                t2 = P.tys[t2]["ty"] if P.k(t2) in ("ref", "ptr") else P.tys[t2]["args"][0]
            im = P.impl_of(c["trait"], t2)
            if im and c["name"] in im["items"]:
                inst = im["items"][c["name"]]
                return self.call_inst(st, inst, c, args, cx)
        insts = P.targets(c)
        return self.opaque_call(st, insts, c, args, cx, "virtual")

    def opaque_call(self, st, insts, c, args, cx, why):
        r = self.opaque_one(st, insts, c, args, cx, why)
        if self.fork_fallible is None or self.P.cat(cx.ty) != "result" or not any(self.fork_fallible(i) for i in insts):
            return r
        # succeeds or fails: told apart at once, with an event on the failing side
        out = []
        et = self.P.tys[cx.ty]["args"][1]
        for s, ret in r:
            for vi in (0, 1):
                fx = s.facts.know_variant(ret, vi)
                if fx is None:
                    continue
                s2 = s.fork()
                s2.facts = fx
                if vi == 1:
                    name = self.P.fns[insts[0]].name if len(insts) == 1 else c.get("path") or "?"
                    self.event(s2, name + "!", name, args, app("failed", (fld(ret, 1, 0, et),)), cx.span, c, "failure")
                    if self.fail_key:
                        # kept apart by what failed and by the kind of error
                        e = fld(ret, 1, 0, et)
                        kinds = [None]
                        if self.P.is_enum(et) and self.P.tys[et].get("local", True) and self.P.nvariants(et) <= 4:
                            kinds = range(self.P.nvariants(et))
                        for k in kinds:
                            fx = s2.facts.know_variant(e, k) if k is not None else s2.facts
                            if fx is not None:
                                s3 = s2.fork()
                                s3.facts = fx
                                s3.setaux("key", ("failed", name, k))
                                out.append((s3, ret))
                        continue
                out.append((s2, ret))
        return out

    def opaque_one(self, st, insts, c, args, cx, why):
        """summarised call: result unknown, everything the callee may write is forgotten"""
        P = self.P
        mods = set()
        for i in insts:
            mods |= P.mods(i)
        st = st.fork()
        name = c.get("path") or "?"
        if insts and len(insts) == 1:
            name = P.fns[insts[0]].name
        ext = set()
        effect = False
        for i in insts:
            for e in P.externals(i):
                if self.M.is_effect(e):
                    effect = True
        anymut = any(a is not None and P.contains(a, lambda t: P.k(t) == "ref" and P.tys[t]["mut"], "mutref") for a in cx.argty)
        if not effect and not anymut and why != "virtual":
            fargs = [self.freeze(st, a) for a in args]
            ret = app("call:" + name, fargs, cx.ty)
            if P.k(cx.ty) == "tuple" and not P.tys[cx.ty]["tys"]:
                ret = adt(cx.ty, 0, ())
        else:
            pre = [self.snapshot(st, a) for a in args]
            for a in args:
                self.havoc_through(st, a, mods, "mod:" + name)
            ret = self.default("ret:" + name, cx.ty)
            self.event(st, name, name, args, ret, cx.span, c, why, pre)
            return [(st, ret)]
        self.event(st, name, name, args, ret, cx.span, c, why, None)
        return [(st, ret)]

    def freeze(self, st, a):
        """argument as a value (pointers replaced by what they point to)"""
        if a.op == "ptr":
            return refv(self.freeze(st, self.pointee(st, a)))
        if a.op == "adt" and any(x.op == "ptr" for x in a.a[1]):
            return adt(a.ty, a.a[0], [self.freeze(st, x) for x in a.a[1]])
        return a

    def snapshot(self, st, a):
        if a.op == "ptr":
            return self.pointee(st, a)
        if isinstance(a.ty, int) and self.P.k(a.ty) == "ref" and self.P.tys[a.ty]["mut"] and a.op != "refv":
            return self.base_val(st, ("H", a))
        return a

    def havoc_through(self, st, a, mods, name, depth=0):
        """forget what can be written through the references inside a"""
        P = self.P
        if depth > 4:
            return
        if a.op == "ptr":
            v = self.load(st, a.a[0], a.a[1])
            nv = self.havoc_val(st, v, None, mods, name, depth)
            if nv is not v:
                self.store(st, a.a[0], a.a[1], nv)
            return
        if a.op == "adt":
            for x in a.a[1]:
                self.havoc_through(st, x, mods, name, depth + 1)
            return
        if a.op == "refv":
            return
        if a.op == "box":
            self.havoc_through(st, a.a[0], mods, name, depth + 1)
            return
        ty = self.tyof(a)
        if ty is None:
            return
        if P.k(ty) == "ref" and P.tys[ty]["mut"]:
            b = ("H", a)
            v = self.base_val(st, b)
            nv = self.havoc_val(st, v, P.tys[ty]["ty"], mods, name, depth)
            if nv is not v:
                st.seth(b, nv)
            return
        if P.is_enum(ty):
            vs = st.facts.variants(a)
            for v in vs or []:
                for i, ft in enumerate(P.fields(ty, v)):
                    if P.contains(ft, lambda t: P.k(t) == "ref" and P.tys[t]["mut"], "mutref"):
                        self.havoc_through(st, fld(a, v, i, ft), mods, name, depth + 1)
        elif P.is_struct(ty):
            for i, ft in enumerate(P.fields(ty)):
                if P.contains(ft, lambda t: P.k(t) == "ref" and P.tys[t]["mut"], "mutref"):
                    self.havoc_through(st, fld(a, 0, i, ft), mods, name, depth + 1)

    def havoc_val(self, st, v, ty, mods, name, depth):
        P = self.P
        if ty is None:
            ty = self.tyof(v)
        if ty is None:
            return fresh(name, None) if v.op not in ("uninit", "moved") else v
        if ("ty", ty) in mods:
            return self.default(name, ty)
        if ty in self.observed:
            return fresh("lines", ty) if mods else v
        if P.is_struct(ty) and depth < 6:
            fts = P.fields(ty)
            path = P.path(ty)
            out = []
            ch = False
            for i, ft in enumerate(fts):
                x = fld(v, 0, i, ft)
                if path is not None and ("f", path, 0, i) in mods:
                    nx = self.default(name, ft)
                else:
                    nx = self.havoc_val(st, x, ft, mods, name, depth + 1)
                    if P.k(ft) == "ref" and P.tys[ft]["mut"]:
                        self.havoc_through(st, x, mods, name, depth + 1)
                        nx = x
                ch = ch or nx is not x
                out.append(nx)
            return adt(ty, 0, out) if ch else v
        if P.is_enum(ty):
            # a write to a payload field or to a type inside
            path = P.path(ty)
            if any(m[0] == "f" and m[1] == path for m in mods) or self.inner_mod(ty, mods):
                return self.default(name, ty)
            return v
        if self.inner_mod(ty, mods):
            return self.default(name, ty)
        return v

    def inner_mod(self, ty, mods):
        P = self.P
        tyset = {m[1] for m in mods if m[0] == "ty"}
        fset = {m[1] for m in mods if m[0] == "f"}
        k = P.k(ty)
        if k in ("int", "bool", "char", "ref", "fndef", "never"):
            return False
        if k in ("closure",):
            return False
        for a in P.tys[ty].get("args", []) or []:
            if isinstance(a, int) and (a in tyset or P.path(a) in fset):
                return True
        return False

    def unknown_call(self, st, c, args, cx):
        """external code without a model"""
        st = st.fork()
        P = self.P
        path = c.get("rpath") or c.get("path") or "?"
        if not self.M.is_effect(path):
            self.unknown[path] = self.unknown.get(path, 0) + 1
            if not path.startswith(HARMLESS):
                self.unseen.add(path)
            if DUMP:
                open(DUMP, "a").write(path + "\n")
        anymut = False
        for a, t in zip(args, cx.argty):
            if t is not None and P.k(t) == "ref" and P.tys[t]["mut"]:
                anymut = True
                self.set_pointee(st, a, self.default("ext:" + (c.get("name") or "?"), P.tys[t]["ty"]))
            elif a.op == "ptr":
                anymut = True
                v = self.pointee(st, a)
                if isinstance(v.ty, int):
                    self.set_pointee(st, a, self.default("ext:" + (c.get("name") or "?"), v.ty))
        fn_arg = any(a.op in ("fn",) or (isinstance(a.ty, int) and P.k(a.ty) == "closure") for a in args)
        for a in args:
            if isinstance(a.ty, int) and P.k(a.ty) == "closure":
                g = P.tys[a.ty].get("inst")
                if g is not None and g < len(P.fns) and P.fns[g] is not None and P.fns[g].local and not self.M.harmless_closure(self, a):
                    # run an unknown number of times, unseen
                    self.unseen.add(path)
                    if st.aux.get("db") is not None and not st.aux["db"].lost:
                        import sqldb
                        st = sqldb.lose(st, "closure given to %s" % path)
                    for x in T.subterms(a):
                        if x.op == "ptr":
                            v = self.pointee(st, x)
                            if isinstance(v.ty, int):
                                self.set_pointee(st, x, self.default("ext:" + (c.get("name") or "?"), v.ty))
        if P.k(cx.ty) == "never":
            self.event(st, c.get("name"), path, args, UNINIT, cx.span, c, "diverges")
            if self.rec > 0:
                self.exits.append((st, path, args))
            return []
        if not anymut and not fn_arg and not self.M.is_effect(path):
            ret = app("ext:" + path, [self.freeze(st, a) for a in args], cx.ty)
            if P.k(cx.ty) == "tuple" and not P.tys[cx.ty]["tys"]:
                ret = adt(cx.ty, 0, ())
        elif P.cat(cx.ty) == "result" and self.M.fallible(path):
            # succeeds or fails: told apart at once, so that every later join keeps the two apart in the trace
            x, e = P.tys[cx.ty]["args"][:2]
            x, e = self.default("ext:" + (c.get("name") or "?"), x), self.default("err:" + (c.get("name") or "?"), e)
            s2 = st.fork()
            self.event(st, c.get("name"), path, args, x, cx.span, c, "external")
            self.event(s2, c.get("name"), path, args, app("failed", (e,)), cx.span, c, "external")
            return [(st, adt(cx.ty, 0, [x])), (s2, adt(cx.ty, 1, [e]))]
        else:
            ret = self.default("ext:" + (c.get("name") or "?"), cx.ty)
        self.event(st, c.get("name"), path, args, ret, cx.span, c, "external")
        return [(st, ret)]

    # ------------------------------------------------------------ entries
    def start(self):
        st = State()
        st.tr = Node("start", [])
        return st

    def analyse(self, fid, args=None, pre=None, name=None):
        f = self.P.fns[fid]
        self.entry = name or f.name
        st = self.start()
        if args is None:
            args = []
            for i in range(1, f.argc + 1):
                nm = f.names.get(i) or "arg%d" % i
                args.append(self.symbolic(nm, f.locals[i]))
        if pre:
            pre(self, st, f, args)
        return self.run_fn(st, fid, args, f.span)

    def symbolic(self, name, ty):
        k = self.P.k(ty)
        if k == "tuple":
            return adt(ty, 0, [self.symbolic("%s.%d" % (name, i), x) for i, x in enumerate(self.P.tys[ty]["tys"])])
        if self.P.is_struct(ty) and not self.P.fields(ty):
            return adt(ty, 0, ())
        return sym(name, ty)
