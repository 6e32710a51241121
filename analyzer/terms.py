"""Hash-consed value terms: the abstract values of the interpreter.

A term denotes one value.  Two syntactically different computations of the same value get the same
term where the normal forms below see it (linear arithmetic, sequence concatenation, references to
values), which is what makes the rules independent of how the code is written.
"""

_tab = {}
_cnt = [0]


class Term:
    __slots__ = ("op", "a", "ty", "id", "_lin", "_syms")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, a=(), ty=None):
    k = (op, a, ty)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.ty = ty
        _cnt[0] += 1
        t.id = _cnt[0]
        t._lin = None
        t._syms = None
        _tab[k] = t
    return t


TRUE = mk("bool", (True,))
FALSE = mk("bool", (False,))
MOVED = mk("moved")
UNINIT = mk("uninit")
_fresh = [0]


def B(b):
    return TRUE if b else FALSE


def I(n):
    return mk("int", (n,))


ZERO = I(0)
ONE = I(1)


def sym(name, ty):
    return mk("sym", (name,), ty)


def fresh(name, ty):
    _fresh[0] += 1
    return mk("sym", ("%s#%d" % (name, _fresh[0]),), ty)


def app(name, args, ty=None):
    return mk("app", (name,) + tuple(args), ty)


def is_app(t, name):
    return t.op == "app" and t.a[0] == name


def adt(ty, variant, fields):
    fields = tuple(fields)
    # eta: a struct rebuilt from all the fields of one value is that value
    if fields and fields[0].op == "fld":
        b = fields[0].a[0]
        if b.ty == ty and all(
            f.op == "fld" and f.a[0] is b and f.a[1] == variant and f.a[2] == i for i, f in enumerate(fields)
        ) and variant == 0 and b.op != "cho":
            return b
    return mk("adt", (variant, fields), ty)


def fld(t, variant, idx, ty):
    if t.op == "adt":
        if t.a[0] == variant and idx < len(t.a[1]):
            return t.a[1][idx]
    if t.op == "cho":
        for v, fs in t.a[1]:
            if v == variant:
                return fs[idx]
    return mk("fld", (t, variant, idx), ty)


def refv(t):
    if t.op == "deref":
        return t.a[0]
    return mk("refv", (t,))


def deref(t, ty):
    if t.op == "refv":
        return t.a[0]
    return mk("deref", (t,), ty)


def box(t):
    if t.op == "unbox":
        return t.a[0]
    return mk("box", (t,))


def unbox(t, ty):
    if t.op == "box":
        return t.a[0]
    return mk("unbox", (t,), ty)


# ---------------------------------------------------------------- linear arithmetic
def lin(t):
    """(const, {atom: coef}) of a numeric term."""
    r = t._lin
    if r is None:
        if t.op == "int":
            r = (t.a[0], {})
        elif t.op == "lin":
            r = (t.a[0], dict(t.a[1]))
        else:
            r = (0, {t: 1})
        t._lin = r
    return r


def from_lin(c, d, ty=None):
    items = [(k, v) for k, v in d.items() if v != 0]
    if not items:
        return I(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda kv: kv[0].id)
    return mk("lin", (c, tuple(items)))


def add(x, y):
    if x.op == "int" and y.op == "int":
        return I(x.a[0] + y.a[0])
    c1, d1 = lin(x)
    c2, d2 = lin(y)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + v
    return from_lin(c1 + c2, d)


def scale(x, n):
    c, d = lin(x)
    return from_lin(c * n, {k: v * n for k, v in d.items()})


def sub(x, y):
    if x is y:
        return ZERO
    if x.op == "int" and y.op == "int":
        return I(x.a[0] - y.a[0])
    c1, d1 = lin(x)
    c2, d2 = lin(y)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) - v
    return from_lin(c1 - c2, d)


def neg(x):
    return scale(x, -1)


def is_const(t):
    return t.op == "int"


# ---------------------------------------------------------------- boolean terms
def ge0(t):
    if t.op == "int":
        return B(t.a[0] >= 0)
    return mk("ge0", (t,))


def gt0(t):
    """strict: for rationals; integers use ge0(t-1)"""
    if t.op == "int":
        return B(t.a[0] > 0)
    s = _sign_arg(t)
    if s is not None:
        return gt0(s)
    if is_intlike(t):
        return ge0(sub(t, ONE))
    return mk("gt0", (t,))


def _sign_arg(t):
    """x when t is a multiple of numer(x): same sign, same zero"""
    c, d = lin(t)
    if c == 0 and len(d) == 1:
        (a, v), = d.items()
        if a.op == "app" and a.a[0] == "numer":
            return scale(a.a[1], 1 if v > 0 else -1)
    return None


def eq0(t):
    if t.op == "int":
        return B(t.a[0] == 0)
    c, d = lin(t)
    if c == 0 and len(d) == 1:
        (a, v), = d.items()
        if a.op == "app" and a.a[0] in ("numer", "abs", "inv"):
            return eq0(a.a[1])
    if d:
        k = min(d, key=lambda a: a.id)
        if d[k] < 0:
            t = neg(t)
    return mk("eq0", (t,))


def bnot(t):
    if t.op == "bool":
        return B(not t.a[0])
    if t.op == "not":
        return t.a[0]
    if t.op == "ge0":
        if is_intlike(t.a[0]):
            return ge0(sub(neg(t.a[0]), ONE))
        return mk("gt0", (neg(t.a[0]),))
    if t.op == "gt0":
        return mk("ge0", (neg(t.a[0]),))
    return mk("not", (t,))


def band(x, y):
    if x is FALSE or y is FALSE:
        return FALSE
    if x is TRUE:
        return y
    if y is TRUE or x is y:
        return x
    return mk("and", tuple(sorted((x, y))))


def bor(x, y):
    return bnot(band(bnot(x), bnot(y)))


# integer-ness of atoms is decided by a hook installed by the program module
_int_hook = [lambda t: True]


def is_intlike(t):
    for k in lin(t)[1]:
        if not _int_hook[0](k):
            return False
    return True


# ---------------------------------------------------------------- sequences
# ('cat', parts): part is ('S', str) | ('L', (terms...)) | Term (symbolic sequence)
# ('sub', base, a, b): elements a..b of symbolic base
EMPTY = mk("cat", ((),))


def _isS(t):
    return t.op == "int" and 0 <= t.a[0] < 0x110000 and not (0xD800 <= t.a[0] < 0xE000)


def lit(elems):
    return cat([("L", tuple(elems))])


def string(s):
    return cat([("S", s)])


def parts(t):
    if t.op == "cat":
        return t.a[0]
    return (t,)


def cat(ps):
    out = []
    for p in ps:
        if isinstance(p, Term):
            if p.op == "cat":
                sub_ps = p.a[0]
            else:
                sub_ps = (p,)
        elif p[0] == "L":
            sub_ps = []
            for e in p[1]:
                if _isS(e):
                    sub_ps.append(("S", chr(e.a[0])))
                else:
                    sub_ps.append(("L", (e,)))
        else:
            sub_ps = (p,)
        for q in sub_ps:
            if isinstance(q, Term):
                if q.op == "sub":
                    b, lo, hi = q.a
                    if lo is hi:
                        continue
                    if out and isinstance(out[-1], Term) and out[-1].op == "sub" and out[-1].a[0] is b and out[-1].a[2] is lo:
                        q = seqsub(b, out[-1].a[1], hi)
                        out.pop()
                        if q.op == "cat":
                            out.extend(q.a[0])
                            continue
                    elif out and not isinstance(out[-1], Term) and out[-1][0] == "L" and len(out[-1][1]) and out[-1][1][-1].op == "elem" and out[-1][1][-1].a[0] is b and add(out[-1][1][-1].a[1], ONE) is lo:
                        # ... elem(b, lo-1), sub(b, lo, hi): absorb the element back into the run
                        e = out[-1][1][-1]
                        rest = out[-1][1][:-1]
                        out.pop()
                        if rest:
                            out.append(("L", rest))
                        q = seqsub(b, e.a[1], hi)
                        out2 = cat(out + [q])
                        out = list(out2.a[0]) if out2.op == "cat" else [out2]
                        continue
                out.append(q)
            else:
                if not q[1]:
                    continue
                if out and not isinstance(out[-1], Term) and out[-1][0] == q[0]:
                    out[-1] = (q[0], out[-1][1] + q[1])
                else:
                    out.append(q)
                # sub(b, lo, i), elem(b, i): absorb
                if q[0] == "L" and len(out) >= 2 and len(out[-1][1]) >= 1:
                    e = out[-1][1][0]
                    pv = out[-2]
                    if e.op == "elem" and isinstance(pv, Term) and pv.op == "sub" and pv.a[0] is e.a[0] and pv.a[2] is e.a[1]:
                        rest = out[-1][1][1:]
                        out.pop()
                        out.pop()
                        q2 = seqsub(pv.a[0], pv.a[1], add(e.a[1], ONE))
                        out2 = cat(out + [q2] + ([("L", rest)] if rest else []))
                        out = list(out2.a[0]) if out2.op == "cat" else [out2]
    if len(out) == 1 and isinstance(out[0], Term):
        return out[0]
    return mk("cat", (tuple(out),))


def seqlen(t):
    if t.op == "cat":
        c = 0
        r = None
        for p in t.a[0]:
            if isinstance(p, Term):
                l = seqlen(p)
                r = l if r is None else add(r, l)
            else:
                c += len(p[1])
        if r is None:
            return I(c)
        return add(r, I(c)) if c else r
    if t.op == "sub":
        return sub(t.a[2], t.a[1])
    if t.op == "app":
        n = t.a[0]
        if n in SAMELEN:
            return seqlen(t.a[SAMELEN[n]])
    return mk("len", (t,))


SAMELEN = {"upper": 1, "lower_ascii": 1, "rev": 1, "mapseq": 1, "sorted": 1, "refs": 1, "vals": 1, "bytes": 1}


def seqsub(t, lo, hi):
    """elements lo..hi (no facts used)"""
    if lo is hi:
        return EMPTY
    if lo is ZERO and hi is seqlen(t):
        return t
    if t.op == "sub":
        return seqsub(t.a[0], add(t.a[1], lo), add(t.a[1], hi))
    if t.op == "app" and t.a[0] == "refs":
        return refs(seqsub(t.a[1], lo, hi))
    if t.op == "cat":
        r = _catsub(t, lo, hi)
        if r is not None:
            return r
    return mk("sub", (t, lo, hi), t.ty)


def _catsub(t, lo, hi):
    # try to resolve with offsets that are syntactically comparable
    ps = t.a[0]
    bounds = [ZERO]
    for p in ps:
        l = seqlen(p) if isinstance(p, Term) else I(len(p[1]))
        bounds.append(add(bounds[-1], l))

    def locate(x):
        for i, b in enumerate(bounds):
            d = sub(x, b)
            if d.op == "int":
                k = d.a[0]
                if k == 0:
                    return (i, 0)
                if k > 0 and i < len(ps) and not isinstance(ps[i], Term) and k <= len(ps[i][1]):
                    return (i, k)
                if k < 0 and i > 0 and not isinstance(ps[i - 1], Term) and -k <= len(ps[i - 1][1]):
                    return (i - 1, len(ps[i - 1][1]) + k)
        return None

    a = locate(lo)
    b = locate(hi)
    if a is None or b is None or a > b:
        return None
    out = []
    for i in range(a[0], min(b[0] + 1, len(ps))):
        p = ps[i]
        if isinstance(p, Term):
            if i == b[0]:
                break
            out.append(p)
        else:
            s = a[1] if i == a[0] else 0
            e = b[1] if i == b[0] else len(p[1])
            out.append((p[0], p[1][s:e]))
    return cat(out)


def refs(seq):
    """the sequence of references to the elements of seq"""
    if seq is EMPTY:
        return EMPTY
    if seq.op == "cat":
        out = []
        for p in seq.a[0]:
            if isinstance(p, Term):
                out.append(refs(p))
            elif p[0] == "S":
                out.append(("L", tuple(refv(I(ord(c))) for c in p[1])))
            else:
                out.append(("L", tuple(refv(e) for e in p[1])))
        return cat(out)
    if seq.op == "app" and seq.a[0] == "vals":
        return seq.a[1]
    return app("refs", (seq,))


def vals(seq):
    """dereference every element"""
    if seq.op == "cat":
        out = []
        for p in seq.a[0]:
            if isinstance(p, Term):
                out.append(vals(p))
            elif p[0] == "S":
                return app("vals", (seq,))
            else:
                if all(e.op == "refv" for e in p[1]):
                    out.append(("L", tuple(e.a[0] for e in p[1])))
                else:
                    return app("vals", (seq,))
        return cat(out)
    if seq.op == "app" and seq.a[0] == "refs":
        return seq.a[1]
    return app("vals", (seq,))


def elem_raw(seq, idx, ty):
    if seq.op == "sub":
        return elem_raw(seq.a[0], add(seq.a[1], idx), ty)
    if seq.op == "app" and seq.a[0] == "refs":
        return refv(elem_raw(seq.a[1], idx, None))
    if seq.op == "app" and seq.a[0] == "rev":
        return elem_raw(seq.a[1], sub(sub(seqlen(seq.a[1]), ONE), idx), ty)
    if seq.op == "cat" and idx.op == "int":
        k = idx.a[0]
        for p in seq.a[0]:
            if isinstance(p, Term):
                break
            if k < len(p[1]):
                return I(ord(p[1][k])) if p[0] == "S" else p[1][k]
            k -= len(p[1])
    return mk("elem", (seq, idx), ty)


def const_str(t):
    """python str of a constant string term, or None"""
    if t.op == "cat":
        ps = t.a[0]
        if not ps:
            return ""
        if len(ps) == 1 and not isinstance(ps[0], Term) and ps[0][0] == "S":
            return ps[0][1]
    return None


def const_elems(t):
    """list of element terms of a literal sequence, or None"""
    if t.op != "cat":
        return None
    out = []
    for p in t.a[0]:
        if isinstance(p, Term):
            return None
        if p[0] == "S":
            out.extend(I(ord(c)) for c in p[1])
        else:
            out.extend(p[1])
    return out


# ---------------------------------------------------------------- traversal
def children(t):
    out = []
    st = [t.a]
    while st:
        x = st.pop()
        for y in x:
            if isinstance(y, Term):
                out.append(y)
            elif isinstance(y, tuple):
                st.append(y)
    return out


def syms(t):
    """frozenset of leaf atoms (sym terms and heap refs) of t"""
    r = t._syms
    if r is None:
        if t.op == "sym" or t.op == "cho":
            r = {t}
        else:
            r = set()
        for c in children(t):
            r |= syms(c)
        r = frozenset(r)
        t._syms = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def mentions(t, s):
    return any(x is s for x in subterms(t))


def substitute(t, m, memo=None):
    """replace terms by the mapping m (term -> term), re-normalising"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    a = t.a
    if op in ("int", "bool", "sym", "fn", "moved", "uninit"):
        r = t
    elif op == "lin":
        r = I(a[0])
        for k, v in a[1]:
            r = add(r, scale(_subst(k, m, memo), v))
    elif op == "cat":
        out = []
        for p in a[0]:
            if isinstance(p, Term):
                out.append(_subst(p, m, memo))
            elif p[0] == "L":
                out.append(("L", tuple(_subst(e, m, memo) for e in p[1])))
            else:
                out.append(p)
        r = cat(out)
    elif op == "adt":
        r = adt(t.ty, a[0], [_subst(x, m, memo) for x in a[1]])
    elif op == "fld":
        r = fld(_subst(a[0], m, memo), a[1], a[2], t.ty)
    elif op == "refv":
        r = refv(_subst(a[0], m, memo))
    elif op == "deref":
        r = deref(_subst(a[0], m, memo), t.ty)
    elif op == "box":
        r = box(_subst(a[0], m, memo))
    elif op == "unbox":
        r = unbox(_subst(a[0], m, memo), t.ty)
    elif op == "elem":
        r = elem_raw(_subst(a[0], m, memo), _subst(a[1], m, memo), t.ty)
    elif op == "sub":
        r = seqsub(_subst(a[0], m, memo), _subst(a[1], m, memo), _subst(a[2], m, memo))
    elif op == "len":
        r = seqlen(_subst(a[0], m, memo))
    elif op == "ge0":
        r = ge0(_subst(a[0], m, memo))
    elif op == "gt0":
        r = gt0(_subst(a[0], m, memo))
    elif op == "eq0":
        r = eq0(_subst(a[0], m, memo))
    elif op == "not":
        r = bnot(_subst(a[0], m, memo))
    elif op == "and":
        r = band(_subst(a[0], m, memo), _subst(a[1], m, memo))
    else:
        r = mk(op, _subst_args(a, m, memo), t.ty)
    memo[t] = r
    return r


def _subst_args(a, m, memo):
    return tuple(
        _subst(x, m, memo) if isinstance(x, Term) else (_subst_args(x, m, memo) if isinstance(x, tuple) else x) for x in a
    )


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if d > 12:
        return "..."
    o = t.op
    a = t.a
    s = lambda x: show(x, d + 1)
    if o == "int":
        return str(a[0])
    if o == "bool":
        return "true" if a[0] else "false"
    if o == "sym":
        return a[0]
    if o == "lin":
        out = "+".join(("%d*" % v if v != 1 else "") + s(k) for k, v in a[1])
        return "(" + out + ("%+d" % a[0] if a[0] else "") + ")"
    if o == "cat":
        r = []
        for p in a[0]:
            if isinstance(p, Term):
                r.append(s(p))
            elif p[0] == "S":
                r.append(repr(p[1] if len(p[1]) < 60 else p[1][:57] + "..."))
            else:
                r.append("[" + ", ".join(s(e) for e in p[1]) + "]")
        return "cat(" + " ++ ".join(r) + ")" if len(r) != 1 else r[0]
    if o == "adt":
        return "%s{%s}" % (_tyname(t.ty, a[0]), ", ".join(s(x) for x in a[1]))
    if o == "fld":
        return "%s.%s%d" % (s(a[0]), ("v%d." % a[1]) if a[1] else "", a[2])
    if o == "refv":
        return "&" + s(a[0])
    if o == "deref":
        return "*" + s(a[0])
    if o == "elem":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "sub":
        return "%s[%s..%s]" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "app":
        return "%s(%s)" % (a[0], ", ".join(s(x) if isinstance(x, Term) else str(x) for x in a[1:]))
    if o == "ge0":
        return "%s>=0" % s(a[0])
    if o == "gt0":
        return "%s>0" % s(a[0])
    if o == "eq0":
        return "%s==0" % s(a[0])
    if o == "not":
        return "!" + s(a[0])
    if o == "cho":
        return "cho%s" % a[0]
    return "%s(%s)" % (o, ", ".join(s(x) if isinstance(x, Term) else str(x)[:80] for x in a))


_tyname_hook = [None]


def _tyname(ty, v):
    if _tyname_hook[0]:
        return _tyname_hook[0](ty, v)
    return "adt%s#%s" % (ty, v)
