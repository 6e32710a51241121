"""What is known on a path: a conjunction over variants, linear (in)equalities, opaque booleans and
element-wise predicates, with a built-in entailment test (Fourier-Motzkin elimination)."""
from math import gcd
from terms import *
import terms as T

MAXFM = 260

# hooks set by the engine
_bounds_hook = [lambda atom, facts: (None, None)]
_nonzero_hook = [lambda t, facts: None]
_discr_hook = [lambda t, v: v]  # (term, variant) -> discriminant value
_variants_hook = [lambda t: None]  # term -> number of variants or None


def keyof(d):
    return tuple(sorted(((k, v) for k, v in d.items() if v), key=lambda kv: kv[0].id))


class Facts:
    __slots__ = ("var", "exc", "bl", "ineq", "sub", "ne", "alls", "guard", "cache", "idx")

    def __init__(self):
        self.var = {}
        self.exc = {}
        self.bl = {}
        self.ineq = {}
        self.sub = {}
        self.ne = ()
        self.alls = {}
        self.guard = {}
        self.cache = {}
        self.idx = None

    def copy(self):
        f = Facts.__new__(Facts)
        f.var = self.var
        f.exc = self.exc
        f.bl = self.bl
        f.ineq = self.ineq
        f.sub = self.sub
        f.ne = self.ne
        f.alls = self.alls
        f.guard = self.guard
        f.cache = {}
        f.idx = None
        return f

    # ------------------------------------------------------------ linear part
    def norm(self, t):
        """(c, d) of t with known equalities substituted"""
        c, d = lin(t)
        if self.sub:
            s = self.sub
            if any(k in s for k in d):
                d2 = {}
                for k, v in d.items():
                    r = s.get(k)
                    if r is None:
                        d2[k] = d2.get(k, 0) + v
                    else:
                        c += v * r[0]
                        for k2, v2 in r[1].items():
                            d2[k2] = d2.get(k2, 0) + v * v2
                d = {k: v for k, v in d2.items() if v}
        return c, d

    def value(self, t):
        """t with equalities substituted, as a term"""
        c, d = self.norm(t)
        return from_lin(c, d)

    def bounds(self, a):
        lo, hi = _bounds_hook[0](a, self)
        r = self.ineq.get(((a, 1),))
        if r is not None and (lo is None or -r[0] > lo):
            lo = -r[0]
        r = self.ineq.get(((a, -1),))
        if r is not None and (hi is None or r[0] < hi):
            hi = r[0]
        return lo, hi

    def _index(self):
        if self.idx is None:
            ix = {}
            for key, (c, s) in self.ineq.items():
                for a, _ in key:
                    ix.setdefault(a, []).append(key)
            self.idx = ix
        return self.idx

    def entails_ge(self, c, d, strict=False):
        """is  c + sum d  >= 0 (> 0 if strict) implied?"""
        if not d:
            return c > 0 or (c == 0 and not strict)
        isint = all(T._int_hook[0](k) for k in d)
        if isint:
            if strict:
                c, strict = c - 1, False
            g = 0
            for v in d.values():
                g = gcd(g, v)
            if g > 1:
                c = c // g
                d = {k: v // g for k, v in d.items()}
        key = keyof(d)
        ck = (key, c, strict)
        r = self.cache.get(ck)
        if r is None:
            r = self._entails(key, c, strict, isint)
            self.cache[ck] = r
        return r

    def _entails(self, key, c, strict, isint):
        k = self.ineq.get(key)
        if k is not None and (k[0] < c or (k[0] == c and (k[1] or not strict))):
            return True
        # interval
        lo = c
        for a, v in key:
            l, h = self.bounds(a)
            b = l if v > 0 else h
            if b is None:
                lo = None
                break
            lo += v * b
        if lo is not None and (lo > 0 or (lo == 0 and not strict)):
            return True
        # collect relevant constraints
        ix = self._index()
        atoms = {a for a, _ in key}
        seen = set()
        frontier = list(atoms)
        cons = []
        for _ in range(6):
            nxt = []
            for a in frontier:
                for kk in ix.get(a, ()):
                    if kk in seen:
                        continue
                    seen.add(kk)
                    cc, ss = self.ineq[kk]
                    cons.append((cc, dict(kk), ss))
                    for b, _ in kk:
                        if b not in atoms:
                            atoms.add(b)
                            nxt.append(b)
            frontier = nxt
            if not nxt or len(cons) > 70:
                break
        if not cons and lo is None:
            return False
        for a in atoms:
            l, h = _bounds_hook[0](a, self)
            if l is not None:
                cons.append((-l, {a: 1}, False))
            if h is not None:
                cons.append((h, {a: -1}, False))
        d = dict(key)
        # negation:  -(c + d) > 0   i.e. for integers  -c-d-1 >= 0
        if isint and not strict:
            cons.append((-c - 1, {k: -v for k, v in d.items()}, False))
        elif not strict:
            cons.append((-c, {k: -v for k, v in d.items()}, True))
        else:
            cons.append((-c, {k: -v for k, v in d.items()}, False))
        if infeasible(cons):
            return True
        # one case split on a relevant disequality
        n = 0
        for t in self.ne:
            nc, nd = self.norm(t)
            if not nd or not any(k in atoms for k in nd):
                continue
            n += 1
            if n > 3:
                break
            ii = all(T._int_hook[0](k) for k in nd)
            if ii:
                a1 = (nc - 1, nd, False)
                a2 = (-nc - 1, {k: -v for k, v in nd.items()}, False)
            else:
                a1 = (nc, nd, True)
                a2 = (-nc, {k: -v for k, v in nd.items()}, True)
            if infeasible(cons + [a1]) and infeasible(cons + [a2]):
                return True
        return False

    # ------------------------------------------------------------ decide
    def decide(self, b):
        """True / False / None"""
        op = b.op
        if op == "bool":
            return b.a[0]
        if op == "ge0":
            c, d = self.norm(b.a[0])
            if self.entails_ge(c, d):
                return True
            nd = {k: -v for k, v in d.items()}
            if self.entails_ge(-c, nd, True):
                return False
            return None
        if op == "gt0":
            c, d = self.norm(b.a[0])
            if self.entails_ge(c, d, True):
                return True
            if self.entails_ge(-c, {k: -v for k, v in d.items()}):
                return False
            return None
        if op == "eq0":
            c, d = self.norm(b.a[0])
            if not d:
                return c == 0
            if len(d) == 1:
                (a, v), = d.items()
                if a.op == "discr":
                    if (-c) % v:
                        return False
                    r = self.discr_is(a.a[0], -c // v)
                    if r is not None:
                        return r
            elif len(d) == 2 and c == 0:
                (a1, v1), (a2, v2) = d.items()
                if a1.op == "discr" and a2.op == "discr" and v1 == -v2:
                    e1 = self.possible(a1.a[0])
                    e2 = self.possible(a2.a[0])
                    if e1 is not None and e2 is not None:
                        if not (e1 & e2):
                            return False
            t = from_lin(c, d)
            for n in self.ne:
                nc, nd = self.norm(n)
                x = from_lin(nc, nd)
                if x is t or x is neg(t):
                    return False
            if self.bl.get(b) is not None:
                return self.bl[b]
            nz = _nonzero_hook[0](t, self)
            if nz is True:
                return False
            if nz is False:
                return True
            nd = {k: -v for k, v in d.items()}
            if self.entails_ge(c, d, True) or self.entails_ge(-c, nd, True):
                return False
            if self.entails_ge(c, d) and self.entails_ge(-c, nd):
                return True
            return None
        if op == "not":
            r = self.decide(b.a[0])
            return None if r is None else not r
        if op == "and":
            x = self.decide(b.a[0])
            if x is False:
                return False
            y = self.decide(b.a[1])
            if y is False:
                return False
            return True if x and y else None
        r = self.bl.get(b)
        if r is None and b.op == "app" and b.a[0] == "eq":
            return self.equality(b.a[1], b.a[2], b.ty)
        return r

    def equality(self, x, y, ty):
        """equality of two values by way of others"""
        ps = self.cache.get("eqs")
        if ps is None:
            ps = self.cache["eqs"] = [k.a for k, v in self.bl.items() if v is True and k.op == "app" and k.a[0] == "eq"]
        if not ps:
            return None
        cs = []
        for a in (x, y):
            out = [a]
            for u in out:
                for p in ps:
                    for l, r in ((p[1], p[2]), (p[2], p[1])):
                        if l is u and r not in out:
                            out.append(r)
            cs.append(out)
        if y in cs[0]:
            return True
        for u in cs[0]:
            for w in cs[1]:
                if self.bl.get(T.app("eq", tuple(sorted((u, w))), ty)) is False:
                    return False
                cu, cw = T.const_str(u), T.const_str(w)
                if cu is not None and cw is not None and cu != cw:
                    return False
        return None

    def discr_is(self, t, val):
        p = self.possible(t)
        if p is None:
            return None
        if val not in p:
            return False
        if len(p) == 1:
            return True
        return None

    def possible(self, t):
        """set of possible discriminant values of an enum term"""
        if t.op == "adt":
            return {_discr_hook[0](t, t.a[0])}
        v = self.var.get(t)
        if v is not None:
            return {_discr_hook[0](t, v)}
        vs = self.variants(t)
        if vs is None:
            return None
        return {_discr_hook[0](t, v) for v in vs}

    def variants(self, t):
        """possible variant indices"""
        if t.op == "adt":
            return [t.a[0]]
        v = self.var.get(t)
        if v is not None:
            return [v]
        if t.op == "elem":
            v = self._alias(t)
            if v is not None:
                return [v]
        if t.op == "cho":
            vs = [x for x, _ in t.a[1]]
        else:
            n = _variants_hook[0](t)
            if n is None:
                return None
            vs = n
        e = self.exc.get(t)
        if e:
            vs = [x for x in vs if x not in e]
        return vs

    # ------------------------------------------------------------ assume
    def assume(self, b, val=True):
        """new Facts with b == val, or None when contradictory"""
        r = self.decide(b)
        if r is not None:
            return self if r == val else None
        if b.op == "not":
            return self.assume(b.a[0], not val)
        if b.op == "and":
            if val:
                f = self.assume(b.a[0])
                return None if f is None else f.assume(b.a[1])
            # not (x and y): if one is known true the other is false
            x = self.decide(b.a[0])
            if x is True:
                return self.assume(b.a[1], False)
            y = self.decide(b.a[1])
            if y is True:
                return self.assume(b.a[0], False)
            f = self.copy()
            f.bl = dict(f.bl)
            f.bl[b] = False
            return f
        if b.op == "ge0":
            if val:
                return self._add_ge(b.a[0], False)
            return self._add_ge(neg(b.a[0]), True)
        if b.op == "gt0":
            if val:
                return self._add_ge(b.a[0], True)
            return self._add_ge(neg(b.a[0]), False)
        if b.op == "eq0":
            if val:
                return self._add_eq(b.a[0])
            return self._add_ne(b.a[0])
        f = self.copy()
        f.bl = dict(f.bl)
        f.bl[b] = val
        return f

    def _add_ge(self, t, strict):
        c, d = self.norm(t)
        if not d:
            return self if (c > 0 or (c == 0 and not strict)) else None
        f = self.copy()
        f.ineq = dict(self.ineq)
        f._put(c, d, strict)
        # equality?
        nd = {k: -v for k, v in d.items()}
        if not strict and f.entails_ge(-c, nd):
            g = f._add_eq(t)
            return g
        if strict or True:
            # strengthen by disequalities
            f2 = f
            for n in f.ne:
                nc, ndd = f.norm(n)
                if not ndd:
                    if nc == 0:
                        return None
                    continue
                if not any(k in d for k in ndd):
                    continue
                neg_d = {k: -v for k, v in ndd.items()}
                if f.entails_ge(nc, ndd):
                    if not f.entails_ge(nc, ndd, True):
                        f2 = f2.copy()
                        f2.ineq = dict(f2.ineq)
                        f2._put(nc, ndd, True)
                elif f.entails_ge(-nc, neg_d):
                    if not f.entails_ge(-nc, neg_d, True):
                        f2 = f2.copy()
                        f2.ineq = dict(f2.ineq)
                        f2._put(-nc, neg_d, True)
            f = f2
        return f

    def _put(self, c, d, strict):
        if all(T._int_hook[0](k) for k in d):
            if strict:
                c, strict = c - 1, False
            g = 0
            for v in d.values():
                g = gcd(g, v)
            if g > 1:
                c //= g
                d = {k: v // g for k, v in d.items()}
        key = keyof(d)
        o = self.ineq.get(key)
        if o is None or c < o[0] or (c == o[0] and strict and not o[1]):
            self.ineq[key] = (c, strict)
        self.idx = None

    def _add_eq(self, t):
        c, d = self.norm(t)
        if not d:
            return self if c == 0 else None
        if len(d) == 1:
            (a, v), = d.items()
            if a.op == "discr":
                if (-c) % v:
                    return None
                f = self._know_discr(a.a[0], -c // v)
                return f
        cand = [a for a, v in d.items() if abs(v) == 1]
        # infeasibility with current bounds
        if self.entails_ge(c, d, True) or self.entails_ge(-c, {k: -v for k, v in d.items()}, True):
            return None
        f = self.copy()
        if not cand:
            f.ineq = dict(self.ineq)
            f._put(c, d, False)
            f._put(-c, {k: -v for k, v in d.items()}, False)
            return f
        # do not eliminate an atom occurring inside another atom of the equation
        def rank(a):
            return (a.op in ("discr",), a.id)
        x = max(cand, key=rank)
        for cnd in sorted(cand, key=rank, reverse=True):
            if not any(cnd is not o and mentions(o, cnd) for o in d):
                x = cnd
                break
        v = d[x]
        # x = -(c + rest)/v
        rc = -c * v
        rd = {k: -w * v for k, w in d.items() if k is not x}
        f.sub = {}
        for k, (kc, kd) in self.sub.items():
            w = kd.get(x)
            if w:
                kd = dict(kd)
                del kd[x]
                kc += w * rc
                for k2, v2 in rd.items():
                    kd[k2] = kd.get(k2, 0) + w * v2
                kd = {k2: v2 for k2, v2 in kd.items() if v2}
            f.sub[k] = (kc, kd)
        f.sub[x] = (rc, rd)
        f.ineq = {}
        for key, (kc, ks) in self.ineq.items():
            if any(a is x for a, _ in key):
                kd = dict(key)
                w = kd.pop(x)
                kc += w * rc
                for k2, v2 in rd.items():
                    kd[k2] = kd.get(k2, 0) + w * v2
                kd = {k2: v2 for k2, v2 in kd.items() if v2}
                if not kd:
                    if kc < 0 or (kc == 0 and ks):
                        return None
                    continue
                f._put(kc, kd, ks)
            else:
                o = f.ineq.get(key)
                if o is None or kc < o[0]:
                    f.ineq[key] = (kc, ks)
        # bounds of the eliminated atom survive on its definition
        lo, hi = _bounds_hook[0](x, self)
        if rd:
            if lo is not None:
                f._put(rc - lo, dict(rd), False)
            if hi is not None:
                f._put(hi - rc, {k: -w for k, w in rd.items()}, False)
        elif (lo is not None and rc < lo) or (hi is not None and rc > hi):
            return None
        for n in f.ne:
            nc, nd = f.norm(n)
            if not nd and nc == 0:
                return None
        return f if f._aliases_agree() else None

    def _alias(self, t):
        """known variant of another element term that denotes the same element"""
        for o, v in self.var.items():
            if o.op == "elem" and o.a[0] is t.a[0] and o is not t:
                d = self.value(sub(o.a[1], t.a[1]))
                if d.op == "int" and d.a[0] == 0:
                    return v
        return None

    def _aliases_agree(self):
        es = [(o, v) for o, v in self.var.items() if o.op == "elem"]
        for i, (o, v) in enumerate(es):
            for p, w in es[:i]:
                if v != w and o.a[0] is p.a[0]:
                    d = self.value(sub(o.a[1], p.a[1]))
                    if d.op == "int" and d.a[0] == 0:
                        return False
        return True

    def _add_ne(self, t):
        c, d = self.norm(t)
        if not d:
            return self if c != 0 else None
        if len(d) == 1:
            (a, v), = d.items()
            if a.op == "discr" and (-c) % v == 0:
                f = self._exclude_discr(a.a[0], -c // v)
                return f
        nd = {k: -v for k, v in d.items()}
        if self.entails_ge(c, d):
            return self._add_ge(t, True)
        if self.entails_ge(-c, nd):
            return self._add_ge(neg(t), True)
        f = self.copy()
        f.ne = self.ne + (t,)
        return f

    def _vidx(self, t, dv):
        vs = self.variants(t)
        if vs is None:
            return None
        for v in vs:
            if _discr_hook[0](t, v) == dv:
                return v
        return None

    def _know_discr(self, t, dv):
        v = self._vidx(t, dv)
        if v is None:
            return None
        return self.know_variant(t, v)

    def _exclude_discr(self, t, dv):
        v = self._vidx(t, dv)
        if v is None:
            return self
        vs = [x for x in self.variants(t) if x != v]
        if not vs:
            return None
        if len(vs) == 1:
            return self.know_variant(t, vs[0])
        f = self.copy()
        f.exc = dict(self.exc)
        f.exc[t] = self.exc.get(t, frozenset()) | {v}
        return f

    def know_variant(self, t, v):
        if t.op == "adt":
            return self if t.a[0] == v else None
        if t in self.var:
            return self if self.var[t] == v else None
        vs = self.variants(t)
        if vs is not None and v not in vs:
            return None
        f = self.copy()
        f.var = dict(self.var)
        f.var[t] = v
        g = f.guard.get((t, v))
        if g:
            for b in g:
                f = f.assume(b)
                if f is None:
                    return None
        return f

    def exclude_variants(self, t, ex):
        vs = self.variants(t)
        if vs is None:
            return self
        rest = [x for x in vs if x not in ex]
        if not rest:
            return None
        if len(rest) == 1:
            return self.know_variant(t, rest[0])
        f = self.copy()
        f.exc = dict(self.exc)
        f.exc[t] = self.exc.get(t, frozenset()) | frozenset(ex)
        return f

    def with_guard(self, t, v, bs):
        f = self.copy()
        f.guard = dict(self.guard)
        f.guard[(t, v)] = f.guard.get((t, v), ()) + tuple(bs)
        return f

    def with_all(self, seq, pred):
        f = self.copy()
        f.alls = dict(self.alls)
        f.alls[(seq, pred)] = True
        return f

    # ------------------------------------------------------------ listing (for joins and reports)
    def booleans(self):
        """all facts as boolean terms (linear and opaque)"""
        out = []
        for key, (c, s) in self.ineq.items():
            t = from_lin(c, dict(key))
            out.append(mk("gt0", (t,)) if s else mk("ge0", (t,)))
        for k, (c, d) in self.sub.items():
            out.append(eq0(T.sub(k, from_lin(c, d))))
        for n in self.ne:
            out.append(bnot(eq0(n)))
        for b, v in self.bl.items():
            out.append(b if v else bnot(b))
        return out


def infeasible(cons):
    """Fourier-Motzkin over the rationals with integer tightening; True if no solution"""
    work = {}

    def put(w, c, d, s):
        if not d:
            return c < 0 or (c == 0 and s)
        if all(T._int_hook[0](k) for k in d):
            if s:
                c, s = c - 1, False
            g = 0
            for v in d.values():
                g = gcd(g, v)
            if g > 1:
                c //= g
                d = {k: v // g for k, v in d.items()}
        key = keyof(d)
        o = w.get(key)
        if o is None or c < o[0] or (c == o[0] and s and not o[1]):
            w[key] = (c, s)
            # opposite pair check
            nk = tuple((a, -v) for a, v in key)
            o2 = w.get(nk)
            if o2 is not None:
                t = o2[0] + c
                if t < 0 or (t == 0 and (s or o2[1])):
                    return True
        return False

    for c, d, s in cons:
        if put(work, c, d, s):
            return True
    while work:
        pos, ng = {}, {}
        for key in work:
            for a, v in key:
                if v > 0:
                    pos[a] = pos.get(a, 0) + 1
                else:
                    ng[a] = ng.get(a, 0) + 1
        best, bc = None, None
        for a in set(pos) | set(ng):
            cst = pos.get(a, 0) * ng.get(a, 0) - pos.get(a, 0) - ng.get(a, 0)
            if bc is None or (cst, a.id) < bc:
                best, bc = a, (cst, a.id)
        P, N, R = [], [], {}
        for key, (c, s) in work.items():
            co = 0
            for a, v in key:
                if a is best:
                    co = v
                    break
            if co > 0:
                P.append((key, c, s, co))
            elif co < 0:
                N.append((key, c, s, -co))
            else:
                R[key] = (c, s)
        if len(P) * len(N) + len(R) > MAXFM:
            return False
        for pk, pc, ps, pv in P:
            for nk, nc, ns, nv in N:
                d = {}
                for a, v in pk:
                    if a is not best:
                        d[a] = v * nv
                for a, v in nk:
                    if a is not best:
                        x = d.get(a, 0) + v * pv
                        if x:
                            d[a] = x
                        else:
                            d.pop(a, None)
                if put(R, pc * nv + nc * pv, d, ps or ns):
                    return True
        work = R
    return False
