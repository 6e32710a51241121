"""Transfer functions of external (std, num, rusqlite, ...) operations on abstract values."""
import terms as T
from terms import *

ISIZE_MAX = 2**63 - 1
PREDS = ("ascii",)
EFFECT = ("rusqlite", "crossterm", "std::env", "std::fs", "std::io", "clap", "std::process", "<rusqlite", "<crossterm",
          "<std::io", "<clap", "<std::fs", "dirs", "std::thread", "std::time")
_NOEFF = ("std::io::Error", "crossterm::event::_", "crossterm::event::KeyModifiers", "rusqlite::OptionalExtension",
          "std::io::Write::by_ref", "<std::io::Error", "std::io::error")


def is_effect(path):
    return bool(path) and path.startswith(EFFECT) and not path.startswith(_NOEFF)


def fallible(path):
    return is_effect(path) and not path.startswith(("clap", "<clap"))


def is_resource(path):
    return path.endswith("::Transaction") and path.startswith("rusqlite")


def tracked(P, ty):
    def pred(t):
        p = P.path(t)
        return p is not None and (is_resource(p) or P.tys[t].get("local") and P.drop_impl(t) is not None)
    return P.contains(ty, pred, "tracked")


# ---------------------------------------------------------------- arithmetic helpers
def mul(x, y, ty):
    if x.op == "int":
        return scale(y, x.a[0])
    if y.op == "int":
        return scale(x, y.a[0])
    return app("mul", tuple(sorted((x, y))), ty)


def nonzero(t, facts):
    c, d = facts.norm(t)
    if c != 0 or len(d) != 1:
        return None
    (a, _), = d.items()
    return _nz(a, facts, 0)


def _nz(a, facts, dep):
    if a.op == "app" and dep < 6:
        n = a.a[0]
        if n in ("pow", "inv", "rdiv", "ratio", "numer", "abs", "mag"):
            if n == "pow" and a.a[2] is ZERO:
                return True
            x = a.a[1]
            r = facts.decide(eq0(x))
            if r is False:
                return True
            if r is True and n != "pow":
                return False
            return None
        if n == "denom":
            return True
        if n == "mul":
            r = [facts.decide(eq0(x)) for x in a.a[1:]]
            if any(x is True for x in r):
                return False
            if all(x is False for x in r):
                return True
    return None


def intdiv(E, st, base, x, y, ty):
    if x.op == "int" and y.op == "int" and y.a[0] != 0:
        a, b = x.a[0], y.a[0]
        q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
        return I(q) if base == "Div" else I(a - q * b)
    return divmod_term(E, st, base, x, y, ty)


def divmod_term(E, st, base, x, y, ty):
    """truncated quotient / remainder; learns the usual bounds when the operands are non-negative"""
    r = app("idiv" if base == "Div" else "irem", (x, y), ty)
    fx = st.facts
    if fx.decide(ge0(x)) is True and fx.decide(ge0(T.sub(y, ONE))) is True:
        new = fx
        for b in (ge0(r), ge0(T.sub(T.sub(y, r), ONE)) if base == "Rem" else ge0(T.sub(x, r)),
                  ge0(T.sub(x, r))):
            n2 = new.assume(b)
            if n2 is not None:
                new = n2
        if base == "Div" and y.op == "int":
            n2 = new.assume(ge0(T.sub(x, scale(r, y.a[0]))))
            if n2 is not None:
                new = n2
            n2 = new.assume(ge0(T.sub(add(scale(r, y.a[0]), I(y.a[0] - 1)), x)))
            if n2 is not None:
                new = n2
        st.facts = new
    return r


# ---------------------------------------------------------------- small constructors
def vidx(E, ty, name):
    return E.P.variant_index(ty, name)


def some(E, ty, x):
    return adt(ty, vidx(E, ty, "Some"), (x,))


def none(E, ty):
    return adt(ty, vidx(E, ty, "None"), ())


def ok(E, ty, x):
    return adt(ty, vidx(E, ty, "Ok"), (x,))


def err(E, ty, x):
    return adt(ty, vidx(E, ty, "Err"), (x,))


def payload_ty(E, ty, name):
    i = vidx(E, ty, name)
    return E.P.fields(ty, i)[0]


def unit(E):
    return adt(E.P.ty_by_s.get("()"), 0, ())


def cases(E, st, cond):
    """[(state, truth)] for a boolean term"""
    r = st.facts.decide(cond)
    if r is not None:
        return [(st, r)]
    out = []
    for v in (True, False):
        f = st.facts.assume(cond, v)
        if f is not None:
            out.append((st.with_facts(f), v))
    return out


# ---------------------------------------------------------------- element-wise predicates
VIEWS = ("chars", "bytes", "refs")


def _known(fx, seq, pred):
    if (seq, pred) in fx.alls:
        return True
    for n in VIEWS:
        for (s, p) in fx.alls:
            if p == pred and s.op == "app" and s.a[0] == n and s.a[1] is seq:
                return True
    return False


def _elem_ok(st, e, pred):
    if pred == "ascii":
        if e.op == "refv":
            e = e.a[0]
        if e.ty is None or not isinstance(e.ty, int):
            return st.facts.decide(ge0(T.sub(I(127), e))) is True if e.op in ("elem", "int", "sym") else False
        return st.facts.decide(ge0(T.sub(I(127), e))) is True
    return False


def all_holds(E, st, seq, pred):
    fx = st.facts
    if _known(fx, seq, pred):
        return True
    if seq is EMPTY:
        return True
    if pred != "ascii":
        if seq.op == "sub":
            return _sub_all(E, st, seq.a[0], seq.a[1], seq.a[2], pred)
        if seq.op == "cat":
            return all(isinstance(p, Term) and all_holds(E, st, p, pred) for p in seq.a[0])
        return False
    if seq.op == "cat":
        for p in seq.a[0]:
            if isinstance(p, Term):
                if not all_holds(E, st, p, pred):
                    return False
            elif p[0] == "S":
                if not p[1].isascii():
                    return False
            else:
                for e in p[1]:
                    if not elem_ok(E, st, e, pred):
                        return False
        return True
    if seq.op in ("fld", "unbox", "deref", "elem") and elem_ok_part(E, st, seq, pred):
        return True
    if seq.op == "sub":
        return all_holds(E, st, seq.a[0], pred) or _sub_all(E, st, seq.a[0], seq.a[1], seq.a[2], pred)
    if seq.op == "app":
        n = seq.a[0]
        if n in ("upper", "lower_ascii", "rev", "trimmed", "radixstr", "sorted") + VIEWS:
            if n == "radixstr" or all_holds(E, st, seq.a[1], pred):
                return True
        if n == "pad":
            return all_holds(E, st, seq.a[1], pred)
        if n == "display":
            t = seq.a[1].ty
            return isinstance(t, int) and E.P.cat(t) in ("int", "rat", "big")
        if n == "col":
            # assumption: text in the database was written by this program, which stores ASCII
            return True
    return _sub_all(E, st, seq, ZERO, seqlen(seq), pred)


def elem_ok_part(E, st, e, pred):
    """a string that is part of a structure, all of whose strings satisfy the predicate"""
    for _ in range(8):
        if e.op == "elem":
            s = e.a[0]
            if _known(st.facts, s, pred) or s.op == "app" and s.a[0] in VIEWS and _known(st.facts, s.a[1], pred) or _sub_all(E, st, s, e.a[1], T.add(e.a[1], T.ONE), pred, True):
                return True
            e = s
        elif e.op in ("fld", "unbox", "deref"):
            e = e.a[0]
        else:
            return False
    return False


def elem_ok(E, st, e, pred, depth=0):
    """does the predicate hold of one element value (of every string inside it, for a structure)"""
    if e.op in ("refv", "box"):
        e = e.a[0]
    if e.op == "int" or e.op == "lin":
        return _elem_ok(st, e, pred)
    if e.op in ("cat", "sub"):
        return all_holds(E, st, e, pred)
    if e.op == "bool":
        return True
    if e.op == "adt":
        return depth < 6 and all(elem_ok(E, st, x, pred, depth + 1) for x in e.a[1])
    ty = e.ty if isinstance(e.ty, int) else None
    if ty is not None:
        cc = E.P.cat(ty)
        if cc in ("str", "seq"):
            if all_holds(E, st, e, pred):
                return True
        elif cc in ("int", "char"):
            if E.P.tys[ty]["s"] not in ("u8", "char") and depth:
                return True
            if _elem_ok(st, e, pred):
                return True
        elif not E.P.contains(ty, lambda t: E.P.cat(t) in ("str", "char") or E.P.tys[t]["s"] == "u8", "text"):
            return True
    elif _elem_ok(st, e, pred):
        return True
    # part of a larger value of which it holds
    if e.op == "fld" or e.op == "unbox" or e.op == "deref":
        return elem_ok(E, st, e.a[0], pred, depth + 1)
    # an element of a sequence all of whose elements satisfy it
    if e.op == "elem":
        s = e.a[0]
        if s.op == "app" and s.a[0] in VIEWS:
            return all_holds(E, st, s, pred) or all_holds(E, st, s.a[1], pred)
        return all_holds(E, st, s, pred)
    return False


def _sub_all(E, st, b, lo, hi, pred, known=False):
    fx = st.facts
    for (s, p) in fx.alls:
        if p != pred:
            continue
        if s.op == "sub" and (s.a[0] is b or (s.a[0].op == "app" and s.a[0].a[0] in VIEWS and s.a[0].a[1] is b and lo is ZERO)):
            base = s.a[0]
            h2 = hi
            if base is not b:
                if hi is not seqlen(b):
                    continue
                h2 = seqlen(base)
            if fx.decide(ge0(T.sub(lo, s.a[1]))) is not True:
                continue
            if fx.decide(ge0(T.sub(s.a[2], h2))) is True:
                return True
            if fx.value(T.sub(T.sub(h2, s.a[2]), T.ONE)) is ZERO and _elem_ok(st, elem_at(E, st, base, s.a[2]), pred):
                return True
        elif s is b:
            return True
    # a window of one element
    if not known and fx.value(T.sub(T.sub(hi, lo), T.ONE)) is ZERO:
        return _elem_ok(st, elem_at(E, st, b, lo), pred)
    return False


def elem_at(E, st, b, i):
    ty = None
    if b.op == "app" and b.a[0] == "chars":
        ty = E.P.ty_by_s.get("char")
    elif isinstance(b.ty, int):
        ty = E.P.elem_ty(b.ty)
    return T.elem_raw(b, i, ty)


def boundary(E, st, s, i):
    """is byte i of string s a character boundary (given i <= len)"""
    if i is ZERO or st.facts.value(T.sub(seqlen(s), i)) is ZERO:
        return TRUE
    if all_holds(E, st, s, "ascii"):
        return TRUE
    if s.op != "cat":
        for lo, hi in ((ZERO, i), (i, seqlen(s))):
            if st.facts.decide(ge0(T.sub(hi, lo))) is True and st.facts.decide(ge0(T.sub(seqlen(s), hi))) is True and all_holds(E, st, E.slice(st, s, lo, hi), "ascii"):
                return TRUE
    return app("boundary", (s, i), E.P.ty_by_s.get("bool"))


# ---------------------------------------------------------------- iterators
def it_seq(seq, ty=None):
    return mk("iter", ("seq", seq), ty)


def iter_const_len(t):
    if t.op != "iter":
        return None
    if t.a[0] == "range":
        d = T.sub(t.a[2], t.a[1])
        return d.a[0] if d.op == "int" and d.a[0] <= 24 else None
    if t.a[0] == "seq":
        n = seqlen(t.a[1])
        if n.op == "int" and n.a[0] <= 64:
            # a literal sequence, or a window of one
            s = t.a[1]
            if s.op == "app" and s.a[0] in ("refs", "rev", "vals"):
                s = s.a[1]
            if s.op == "sub":
                s = s.a[0]
            return n.a[0]
        return None
    for x in t.a[1:]:
        if isinstance(x, Term) and x.op == "iter":
            return iter_const_len(x)
    return None


def elem_type_of(E, seq):
    ty = seq.ty
    if isinstance(ty, int):
        return E.P.elem_ty(E.P.strip(ty))
    if seq.op in ("sub", "app") and isinstance(seq.a[0 if seq.op == "sub" else 1], Term):
        return elem_type_of(E, seq.a[0 if seq.op == "sub" else 1])
    return None


def seq_rev(s):
    c = const_elems(s)
    if c is not None:
        return lit(list(reversed(c)))
    if s.op == "app" and s.a[0] == "rev":
        return s.a[1]
    return app("rev", (s,), s.ty)


def to_iter(E, st, v, ity):
    """iterator term of an IntoIterator value; ity: type of the item if known"""
    if v.op == "iter":
        return v
    P = E.P
    if v.op == "ptr" or (v.op != "adt" and isinstance(v.ty, int) and P.k(v.ty) == "ref" and P.tys[v.ty]["mut"]):
        inner = E.pointee(st, v)
        if inner.op == "iter":
            return inner
        # iter_mut: give element pointers when the length is known
        n = seqlen(inner)
        if v.op == "ptr" and n.op == "int" and n.a[0] <= 32:
            return it_seq(lit([mk("ptr", (v.a[0], v.a[1] + (("e", I(i), P.elem_ty(inner.ty) if isinstance(inner.ty, int) else None),))) for i in range(n.a[0])]))
        return None
    if v.op == "refv" or (isinstance(v.ty, int) and P.k(v.ty) == "ref"):
        inner = E.strip(st, v)
        c = P.cat(inner.ty) if isinstance(inner.ty, int) else None
        if inner.op in ("cat", "sub") or c in ("seq", "str"):
            return it_seq(refs(inner))
        if inner.op == "iter":
            return inner
        if c == "map" or is_app(inner, "mput") or is_app(inner, "mempty"):
            return None
        if inner.op == "app" and inner.a[0] in SEQAPPS:
            return it_seq(refs(inner))
        return None
    if v.op == "adt" and isinstance(v.ty, int):
        p = P.path(v.ty) or ""
        if p.endswith("ops::Range"):
            return mk("iter", ("range", v.a[1][0], v.a[1][1]), None)
        if p.endswith("option::Option"):
            return it_seq(lit(v.a[1]))
    if v.op == "app" and v.a[0] == "rangeincl":
        return mk("iter", ("range", v.a[1], add(v.a[2], ONE)), None)
    if v.op in ("cat", "sub"):
        return it_seq(v)
    if isinstance(v.ty, int) and P.cat(v.ty) in ("seq", "str"):
        return it_seq(v)
    if isinstance(v.ty, int) and (P.path(v.ty) or "").endswith("ops::Range"):
        ft = P.fields(v.ty)
        if len(ft) == 2:
            return mk("iter", ("range", fld(v, 0, 0, ft[0]), fld(v, 0, 1, ft[1])), None)
    if isinstance(v.ty, int) and P.cat(v.ty) == "set":
        return it_seq(app("setseq", (v,), v.ty))
    if v.op == "app" and v.a[0] in SEQAPPS:
        return it_seq(v)
    return None


SEQAPPS = ("mapseq", "refs", "vals", "rev", "sorted", "upper", "lower", "trimmed", "chars", "bytes", "splitseq", "keys",
           "setseq", "chunks", "radixstr", "display", "pad", "toset", "join", "repeat")


def it_next(E, st, it, item_ty):
    """[(state, item or None, iterator')]"""
    k = it.a[0]
    if k == "seq":
        s = it.a[1]
        n = seqlen(s)
        out = []
        for s2, empty in cases(E, st, eq0(n)):
            if empty:
                out.append((s2, None, it))
            else:
                x = E.elem(s2, s, ZERO, item_ty)
                out.append((s2, x, mk("iter", ("seq", E.slice(s2, s, ONE, n)), it.ty)))
        return out
    if k == "range":
        out = []
        lo, hi = it.a[1], it.a[2]
        for s2, more in cases(E, st, ge0(T.sub(T.sub(hi, lo), ONE))):
            if more:
                out.append((s2, lo, mk("iter", ("range", add(lo, ONE), hi), it.ty)))
            else:
                out.append((s2, None, it))
        return out
    if k == "enum":
        out = []
        ity = E.P.fields(item_ty)[1] if item_ty is not None and E.P.k(item_ty) == "tuple" else None
        for s2, x, n in it_next(E, st, it.a[1], ity):
            if x is None:
                out.append((s2, None, it))
            else:
                out.append((s2, adt(item_ty, 0, (it.a[2], x)), mk("iter", ("enum", n, add(it.a[2], ONE)), it.ty)))
        return out
    if k == "map":
        out = []
        for s2, x, n in it_next(E, st, it.a[1], it.a[3]):
            if x is None:
                out.append((s2, None, it))
            else:
                for s3, v in E.apply(s2, it.a[2], [x], item_ty, ""):
                    out.append((s3, v, mk("iter", ("map", n, it.a[2], it.a[3]), it.ty)))
        return out
    if k == "fmap":
        out = []
        cur = [(st, it.a[1])]
        n = iter_const_len(it)
        for _ in range((n or 0) + 1):
            nxt = []
            for s1, inner in cur:
                for s2, x, nn in it_next(E, s1, inner, it.a[3]):
                    if x is None:
                        out.append((s2, None, it))
                        continue
                    for s3, v in E.apply(s2, it.a[2], [x], it.a[4], ""):
                        for s4, go, y in _try_split(E, s3, v, it.a[4]):
                            if go:
                                out.append((s4, y, mk("iter", ("fmap", nn) + tuple(it.a[2:]), it.ty)))
                            else:
                                nxt.append((s4, nn))
            cur = nxt
            if not cur:
                break
        return out
    if k == "filter":
        out = []
        cur = [(st, it.a[1])]
        n = iter_const_len(it)
        for _ in range((n or 0) + 1):
            nxt = []
            for s1, inner in cur:
                for s2, x, nn in it_next(E, s1, inner, item_ty):
                    if x is None:
                        out.append((s2, None, it))
                        continue
                    for s3, v in E.apply(s2, it.a[2], [refv(x)], None, ""):
                        for s4, b in cases(E, s3, v):
                            if b:
                                out.append((s4, x, mk("iter", ("filter", nn, it.a[2]), it.ty)))
                            else:
                                nxt.append((s4, nn))
            cur = nxt
            if n is None and cur:
                # unknown number of rejected elements: the next accepted one, if any, is arbitrary
                s1, inner = cur[0]
                x = E.default("filtered", item_ty) if item_ty is not None else fresh("filtered", None)
                for s3, v in E.apply(s1, it.a[2], [refv(x)], None, ""):
                    for s4, b in cases(E, s3, v):
                        if b:
                            rest = fresh("rest", None)
                            out.append((s4, x, mk("iter", ("filter", it_seq(rest), it.a[2]), it.ty)))
                out.append((s1, None, it))
                break
            if not cur:
                break
        return out
    if k == "chain":
        out = []
        for s2, x, n in it_next(E, st, it.a[1], item_ty):
            if x is None:
                for s3, y, m in it_next(E, s2, it.a[2], item_ty):
                    out.append((s3, y, mk("iter", ("chain", it_seq(EMPTY), m), it.ty)))
            else:
                out.append((s2, x, mk("iter", ("chain", n, it.a[2]), it.ty)))
        return out
    if k == "zip":
        out = []
        ft = E.P.fields(item_ty) if item_ty is not None and E.P.k(item_ty) == "tuple" else [None, None]
        for s2, x, n in it_next(E, st, it.a[1], ft[0]):
            if x is None:
                out.append((s2, None, it))
                continue
            for s3, y, m in it_next(E, s2, it.a[2], ft[1]):
                if y is None:
                    out.append((s3, None, it))
                else:
                    out.append((s3, adt(item_ty, 0, (x, y)), mk("iter", ("zip", n, m), it.ty)))
        return out
    # unknown iterator
    x = E.default("item", item_ty) if item_ty is not None else fresh("item", None)
    s2 = st.fork()
    return [(st, None, it), (s2, x, it)]


def it_seqterm(E, st, it):
    """the remaining items as one sequence term, or None"""
    k = it.a[0]
    if k == "seq":
        return it.a[1]
    if k == "map":
        inner = it_seqterm(E, st, it.a[1])
        if inner is None:
            return None
        r = lam(E, st, it.a[2], it.a[3])
        if r is None:
            s = fresh("mapped", None)
            return app("mapseq?", (inner, s), None)
        p, body = r
        return app("mapseq", (inner, body, p), None)
    if k == "chain":
        a, b = it_seqterm(E, st, it.a[1]), it_seqterm(E, st, it.a[2])
        if a is not None and b is not None:
            return cat([a, b])
    return None


def lam(E, st, f, pty):
    """(parameter symbol, result term) of a single-outcome pure function value, or None"""
    p = sym("λ", pty)
    rec, E.rec = E.rec, 0
    try:
        s = st.fork()
        outs = E.apply(s, f, [p], None, "")
    finally:
        E.rec = rec
    if len(outs) == 1:
        return p, outs[0][1]
    return None


def drain(E, st, it, item_ty, limit=80):
    """all items of an iterator of known length: [(state, [items])] or None"""
    n = iter_const_len(it)
    if n is None or n > limit:
        return None
    cur = [(st, it, [])]
    done = []
    for _ in range(n + 1):
        nxt = []
        for s, i, acc in cur:
            for s2, x, i2 in it_next(E, s, i, item_ty):
                if x is None:
                    done.append((s2, acc))
                else:
                    nxt.append((s2, i2, acc + [x]))
        cur = nxt
        if not cur:
            break
        if len(cur) > 64:
            return None
    return done if not cur else None


# ---------------------------------------------------------------- formatting
def decode_template(bs):
    out = []
    i = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(("lit", bytes(bs[i:i + b]).decode("utf8", "replace")))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(("lit", bytes(bs[i:i + n]).decode("utf8", "replace")))
            i += n
        else:
            d = {}
            if b & 1:
                d["flags"] = bs[i] | bs[i + 1] << 8 | bs[i + 2] << 16 | bs[i + 3] << 24
                i += 4
            if b & 2:
                d["width"] = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 4:
                d["prec"] = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 8:
                d["arg"] = bs[i] | bs[i + 1] << 8
                i += 2
            d["wi"] = bool(b & 16)
            d["pi"] = bool(b & 32)
            out.append(("arg", d))
    return out


def fmt_args(E, st, tmpl, args):
    bs = const_elems(E.strip(st, tmpl))
    av = const_elems(E.strip(st, args))
    if bs is None or av is None or any(b.op != "int" for b in bs):
        return fresh("fmt", E.P.ty_by_s.get("std::string::String"))
    out = []
    nxt = 0
    for k, d in decode_template([b.a[0] for b in bs]):
        if k == "lit":
            out.append(("S", d))
            continue
        i = d.get("arg", nxt)
        nxt = i + 1
        if i >= len(av):
            return fresh("fmt", E.P.ty_by_s.get("std::string::String"))
        s = shown(E, st, av[i])
        if "width" in d or d.get("flags"):
            w = I(d.get("width", 0))
            if d["wi"]:
                x = av[d.get("width", 0)]
                w = x.a[2] if is_app(x, "fmtarg") else x
            s = app("pad", (s, w, I(d.get("flags", 0))), None)
        if "prec" in d:
            s = app("prec", (s, I(d["prec"])), None)
        out.append(s)
    return cat(out)


def shown(E, st, a):
    if is_app(a, "fmtarg"):
        v = E.strip(st, a.a[2])
        if a.a[1] == "display":
            return display(E, st, v)
        return app("fmt_" + a.a[1], (v,), None)
    return fresh("shown", None)


def display(E, st, v):
    v = E.strip(st, v)
    if v.op in ("cat", "sub"):
        return v
    t = v.ty
    if isinstance(t, int):
        c = E.P.cat(t)
        if c == "str":
            return v
        if c == "char":
            return lit([v])
        if E.P.cat(t) == "box":
            return display(E, st, unbox(v, None))
    if v.op == "app" and v.a[0] in SEQAPPS:
        return v
    if v.op == "box":
        return display(E, st, v.a[0])
    if v.op == "int":
        return string(str(v.a[0]))
    return app("display", (v,), E.P.ty_by_s.get("std::string::String"))


# ---------------------------------------------------------------- maps
def map_get(E, st, m, k, hit, miss, vty):
    """outcomes of looking key k up; hit(state, value) / miss(state) build results"""
    if is_app(m, "mempty"):
        return [(st, miss(st))]
    if is_app(m, "mput"):
        out = []
        for s, same in cases(E, st, eq_term(E, st, m.a[2], k)):
            if same:
                out.append((s, hit(s, m.a[3])))
            else:
                out.extend(map_get(E, s, m.a[1], k, hit, miss, vty))
        return out
    if is_app(m, "mdel"):
        out = []
        for s, same in cases(E, st, eq_term(E, st, m.a[2], k)):
            if same:
                out.append((s, miss(s)))
            else:
                out.extend(map_get(E, s, m.a[1], k, hit, miss, vty))
        return out
    out = []
    for s, has in cases(E, st, app("mhas", (m, k), E.P.ty_by_s.get("bool"))):
        if has:
            out.append((s, hit(s, app("mget", (m, k), vty))))
        else:
            out.append((s, miss(s)))
    return out


def eq_term(E, st, x, y):
    """boolean: structural equality of two values"""
    if x is y:
        return TRUE
    cx, cy = const_str(x), const_str(y)
    if cx is not None and cy is not None:
        return B(cx == cy)
    if (cx == "" or cy == "") and (cx is not None or cy is not None):
        return eq0(seqlen(y if cx == "" else x))
    if x.op in ("int", "lin") or y.op in ("int", "lin"):
        return eq0(T.sub(x, y))
    P = E.P
    tx = x.ty if isinstance(x.ty, int) else None
    ty = y.ty if isinstance(y.ty, int) else None
    t = tx if tx is not None else ty
    if t is not None and P.cat(t) in ("int", "char", "big", "rat"):
        return eq0(T.sub(x, y))
    if x.op == "adt" and y.op == "adt" and x.ty == y.ty:
        if x.a[0] != y.a[0]:
            return FALSE
        r = TRUE
        for a, b in zip(x.a[1], y.a[1]):
            r = band(r, eq_term(E, st, E.strip(st, a), E.strip(st, b)))
        return r
    if t is not None and tx in (None, t) and ty in (None, t) and P.is_struct(t) and len(P.fields(t)) == 1 and (P.path(t) or "").startswith("crossterm::"):
        ft = P.fields(t)[0]
        return eq_term(E, st, fld(x, 0, 0, ft), fld(y, 0, 0, ft))
    if t is not None and P.is_enum(t) and all(not P.fields(t, i) for i in range(P.nvariants(t))):
        dx, dy = E.discr(st, x, t), E.discr(st, y, t)
        return eq0(T.sub(dx, dy))
    ex, ey = const_elems(x), const_elems(y)
    if ex is not None and ey is not None:
        if len(ex) != len(ey):
            return FALSE
        r = TRUE
        for a, b in zip(ex, ey):
            r = band(r, eq_term(E, st, a, b))
        return r
    if (x.op in ("cat", "sub") or y.op in ("cat", "sub")) and st.facts.decide(eq0(T.sub(seqlen(x), seqlen(y)))) is False:
        return FALSE
    # one-character comparisons
    for a, b in ((x, y), (y, x)):
        ca = const_elems(a)
        if ca is not None and len(ca) == 1:
            return band(eq0(T.sub(seqlen(b), ONE)), eq0(T.sub(E.elem(st, b, ZERO, P.ty_by_s.get("char")), ca[0])))
    return app("eq", tuple(sorted((x, y))), P.ty_by_s.get("bool"))


# ---------------------------------------------------------------- dispatch
def call(E, st, c, args, cx):
    P = E.P
    name = c.get("name")
    path = c.get("path") or ""
    rpath = c.get("rpath") or path
    inst = c.get("inst")
    if inst is not None and inst < len(P.fns) and P.fns[inst] is not None:
        g = P.fns[inst]
        if g.local and not g.derived and not g.closure:
            return None
    h = NAMED.get(rpath) or NAMED.get(path)
    if h:
        r = h(E, st, c, args, cx)
        if r is not None:
            return r
    if name in PANICS and (path.startswith(("std::rt", "core::panicking", "std::panicking", "core::option", "std::option", "core::result", "std::result", "core::slice", "core::str", "alloc::", "std::process::abort"))):
        E.oblige(st, "panic", FALSE, cx.span, name)
        return []
    ty0 = cx.argty[0] if cx.argty and cx.argty[0] is not None else (args[0].ty if args and isinstance(args[0].ty, int) else None)
    if c.get("self") is not None and isinstance(c["self"], int):
        sty = c["self"]
    else:
        sty = None
    base = P.strip(ty0) if ty0 is not None else sty
    cat0 = P.cat(base) if base is not None else None
    if name == "clone" and (c.get("derived") or c.get("inst") is None or kind_is(c, "clone_shim")):
        return E.pointee(st, args[0]) if args else None
    for key in ((cat0, name), ("*", name)):
        h = TABLE.get(key)
        if h:
            r = h(E, st, c, args, cx)
            if r is not None:
                return r
    if base is not None and name is not None:
        p = P.path(base) or ""
        h = BYTYPE.get((p.rsplit("::", 1)[-1], name))
        if h:
            r = h(E, st, c, args, cx)
            if r is not None:
                return r
    return None


def kind_is(c, k):
    return c.get("kind") == k


PANICS = {"panic_fmt", "panic", "unwrap_failed", "expect_failed", "assert_failed", "panic_display", "panic_str_2015",
          "unreachable_display", "panic_explicit", "begin_panic", "panic_nounwind", "abort", "panic_const_div_by_zero",
          "handle_error", "assert_failed_inner"}
NAMED = {}
TABLE = {}
BYTYPE = {}


def model(*keys):
    def deco(f):
        for k in keys:
            if isinstance(k, str):
                NAMED[k] = f
            elif k[0] == "T":
                for n in k[2].split():
                    BYTYPE[(k[1], n)] = f
            else:
                for cc in k[0].split():
                    for n in k[1].split():
                        TABLE[(cc, n)] = f
        return f
    return deco


def val(E, st, a):
    return E.strip(st, a)


# ---- panics handled above; identity-like operations
@model(("str seq", "to_string to_owned as_str as_bytes into_bytes as_slice to_vec into_string as_mut_slice into_boxed_str as_bytes_mut"))
def m_ident(E, st, c, args, cx):
    if E.P.k(cx.ty) == "ref":
        return args[0] if args[0].op in ("refv", "ptr") else (args[0] if isinstance(args[0].ty, int) and E.P.k(args[0].ty) == "ref" else refv(args[0]))
    return val(E, st, args[0])


@model(("*", "as_ref borrow"))
def m_asref(E, st, c, args, cx):
    if c.get("trait") and E.P.k(cx.ty) == "ref":
        return refv(val(E, st, args[0]))
    return None


def flag_bits(E, t):
    while E.P.is_struct(t.ty) and len(E.P.fields(t.ty)) == 1:
        t = fld(t, 0, 0, E.P.fields(t.ty)[0])
    return t


@model(("T", "Range", "contains"), ("T", "RangeInclusive", "contains"), ("T", "RangeFrom", "contains"), ("T", "RangeTo", "contains"), ("T", "RangeToInclusive", "contains"))
def m_range_contains(E, st, c, args, cx):
    r, x = val(E, st, args[0]), val(E, st, args[1])
    p = (E.P.path(r.ty) or "").rsplit("::", 1)[-1] if isinstance(r.ty, int) else ""
    parts = r.a[1:3] if is_app(r, "rangeincl") else (r.a[1] if r.op == "adt" else [fld(r, 0, i, t) for i, t in enumerate(E.P.fields(r.ty))] if p else ())
    parts = [E.strip(st, v) for v in parts[:2]]
    if not T.is_intlike(x) or not parts or not all(T.is_intlike(v) for v in parts):
        return None
    conds = []
    if p in ("Range", "RangeInclusive", "RangeFrom"):
        conds.append(ge0(sub(x, parts[0])))
    if p in ("Range", "RangeTo"):
        conds.append(gt0(sub(parts[-1], x)))
    elif p in ("RangeInclusive", "RangeToInclusive"):
        conds.append(ge0(sub(parts[-1], x)))
    cur, out = [st], []
    for cnd in conds:
        nxt = []
        for s in cur:
            for s2, b in cases(E, s, cnd):
                if b:
                    nxt.append(s2)
                else:
                    out.append((s2, FALSE))
        cur = nxt
    return [(s, TRUE) for s in cur] + out


@model(("T", "KeyModifiers", "is_empty bits contains intersects"))
def m_flags(E, st, c, args, cx):
    a = flag_bits(E, val(E, st, args[0]))
    if c["name"] == "bits":
        return a
    if c["name"] == "is_empty":
        return eq0(a)
    b = flag_bits(E, val(E, st, args[1]))
    if a.op == b.op == "int":
        return B(a.a[0] & b.a[0] == b.a[0] if c["name"] == "contains" else a.a[0] & b.a[0] != 0)
    return None


@model("std::io::Error::kind")
def m_iokind(E, st, c, args, cx):
    return app("iokind", (val(E, st, args[0]),), cx.ty)


@model(("*", "must_use black_box"))
def m_id(E, st, c, args, cx):
    return args[0]


@model(("*", "by_ref"))
def m_byref(E, st, c, args, cx):
    return args[0]


@model(("*", "deref deref_mut"))
def m_deref(E, st, c, args, cx):
    P = E.P
    a = args[0]
    ty = cx.argty[0]
    if ty is None:
        return None
    inner = P.tys[ty]["ty"] if P.k(ty) == "ref" else ty
    cc = P.cat(inner)
    if cc in ("str", "seq"):
        return a
    if cc == "box":
        if a.op == "ptr":
            return mk("ptr", (a.a[0], a.a[1] + (("b", P.tys[inner]["args"][0]),)), None)
        v = E.pointee(st, a)
        return refv(unbox(v, P.tys[inner]["args"][0]))
    if cc == "ref":
        v = E.pointee(st, a)
        return v
    p = P.path(inner) or ""
    if p.endswith("Transaction"):
        return refv(app("txconn", (E.pointee(st, a),), None))
    return None


@model(("*", "into_iter iter iter_mut"))
def m_into_iter(E, st, c, args, cx):
    a = args[0]
    if a.op == "iter":
        return a
    name = c.get("name")
    if name == "iter" and a.op not in ("refv", "ptr") and not (isinstance(a.ty, int) and E.P.k(a.ty) == "ref"):
        a = refv(a)
    if name == "iter" and a.op == "ptr":
        a = refv(E.pointee(st, a))
    v = E.strip(st, a)
    es = set_elems(v)
    if es is not None:
        return it_seq(lit(es)) if a is v else it_seq(refs(lit(es)))
    if isinstance(v.ty, int) and E.P.cat(v.ty) in ("map", "set") or (v.op == "app" and v.a[0] in ("mput", "mempty", "mdel", "toset", "sput", "sempty")):
        s = app("setseq", (v,), v.ty) if a is v else refs(app("setseq", (v,), v.ty))
        return it_seq(s)
    return to_iter(E, st, a, None)


@model(("*", "next"))
def m_next(E, st, c, args, cx):
    it = E.pointee(st, args[0])
    if it.op != "iter":
        it2 = to_iter(E, st, it, None)
        if it2 is None:
            return None
        it = it2
    ity = payload_ty(E, cx.ty, "Some")
    out = []
    for s, x, n in it_next(E, st, it, ity):
        s = s.fork()
        E.set_pointee(s, args[0], n)
        out.append((s, none(E, cx.ty) if x is None else some(E, cx.ty, x)))
    return out


@model(("*", "next_back"))
def m_next_back(E, st, c, args, cx):
    it = E.pointee(st, args[0])
    if it.op != "iter" or it.a[0] != "seq":
        return None
    s = it.a[1]
    n = seqlen(s)
    out = []
    ity = payload_ty(E, cx.ty, "Some")
    for s2, empty in cases(E, st, eq0(n)):
        s2 = s2.fork()
        if empty:
            out.append((s2, none(E, cx.ty)))
        else:
            last = T.sub(n, ONE)
            x = E.elem(s2, s, last, ity)
            E.set_pointee(s2, args[0], it_seq(E.slice(s2, s, ZERO, last)))
            out.append((s2, some(E, cx.ty, x)))
    return out


def _iter_arg(E, st, a):
    it = a if a.op == "iter" else None
    if it is None:
        v = E.strip(st, a)
        it = v if v.op == "iter" else to_iter(E, st, a, None)
    return it


@model(("*", "map"))
def m_map(E, st, c, args, cx):
    if args[0].op != "iter":
        return None
    pty = None
    f = args[1]
    if isinstance(f.ty, int) and E.P.k(f.ty) == "closure":
        inst = E.P.tys[f.ty].get("inst")
        if inst is not None and inst < len(E.P.fns):
            pty = E.P.fns[inst].locals[2]
    return mk("iter", ("map", args[0], f, pty), cx.ty)


@model(("*", "filter"))
def m_filter(E, st, c, args, cx):
    if args[0].op != "iter":
        return None
    return mk("iter", ("filter", args[0], args[1]), cx.ty)


@model(("*", "enumerate"))
def m_enumerate(E, st, c, args, cx):
    if args[0].op != "iter":
        return None
    return mk("iter", ("enum", args[0], ZERO), cx.ty)


@model(("*", "chain"))
def m_chain(E, st, c, args, cx):
    b = _iter_arg(E, st, args[1])
    if args[0].op != "iter" or b is None:
        return None
    return mk("iter", ("chain", args[0], b), cx.ty)


@model(("*", "zip"))
def m_zip(E, st, c, args, cx):
    b = _iter_arg(E, st, args[1])
    if args[0].op != "iter" or b is None:
        return None
    return mk("iter", ("zip", args[0], b), cx.ty)


@model(("*", "rev"))
def m_rev(E, st, c, args, cx):
    it = args[0]
    if it.op != "iter":
        it = to_iter(E, st, it, None)
        if it is None:
            return None
    if it.a[0] == "seq":
        return it_seq(seq_rev(it.a[1]), cx.ty)
    if it.a[0] == "map":
        i = it.a[1]
        if i.a[0] == "seq":
            return mk("iter", ("map", it_seq(seq_rev(i.a[1])), it.a[2], it.a[3]), cx.ty)
    if it.a[0] == "range":
        d = T.sub(it.a[2], it.a[1])
        if d.op == "int" and d.a[0] <= 64:
            return it_seq(lit([add(it.a[1], I(i)) for i in reversed(range(max(0, d.a[0])))]), cx.ty)
    return None


@model(("*", "cloned copied"))
def m_cloned(E, st, c, args, cx):
    it = args[0]
    if it.op == "iter" and it.a[0] == "seq":
        return it_seq(vals(it.a[1]), cx.ty)
    if it.op == "iter":
        return None
    # Option<&T>::cloned
    return None


@model(("*", "take"))
def m_take(E, st, c, args, cx):
    it = args[0]
    if it.op != "iter":
        # Option::take(&mut self)
        if E.P.cat(cx.ty) == "option" and args[0].op in ("ptr", "sym", "fld"):
            v = E.pointee(st, args[0])
            st = st.fork()
            E.set_pointee(st, args[0], none(E, cx.ty))
            return [(st, v)]
        if c.get("path", "").endswith("mem::take"):
            v = E.pointee(st, args[0])
            st = st.fork()
            t = cx.ty
            cc = E.P.cat(t)
            nv = EMPTY if cc in ("str", "seq") else none(E, t) if cc == "option" else app("mempty", (), t) if cc == "map" else app("sempty", (), t) if cc == "set" else FALSE if cc == "bool" else ZERO if cc in ("int", "big", "rat") else None
            if nv is None:
                return None
            E.set_pointee(st, args[0], nv)
            return [(st, v)]
        return None
    if it.a[0] == "seq":
        s = it.a[1]
        if is_app(s, "forever"):
            n = args[1]
            if n.op == "int" and n.a[0] <= 64:
                return it_seq(lit([s.a[1]] * n.a[0]), cx.ty)
            return it_seq(app("repeat", (s.a[1], n), None), cx.ty)
        out = []
        n = seqlen(s)
        for s2, lt in cases(E, st, ge0(T.sub(n, args[1]))):
            out.append((s2, it_seq(E.slice(s2, s, ZERO, args[1]), cx.ty) if lt else it))
        return out
    return None


@model(("*", "skip"))
def m_skip(E, st, c, args, cx):
    it = args[0]
    if it.op == "iter" and it.a[0] == "seq":
        s = it.a[1]
        out = []
        n = seqlen(s)
        for s2, lt in cases(E, st, ge0(T.sub(n, args[1]))):
            out.append((s2, it_seq(E.slice(s2, s, args[1], n), cx.ty) if lt else it_seq(EMPTY, cx.ty)))
        return out
    return None


@model("std::iter::repeat")
def m_repeat(E, st, c, args, cx):
    return it_seq(app("forever", (args[0],), None), cx.ty)


@model("std::iter::repeat_n")
def m_repeat_n(E, st, c, args, cx):
    if args[1].op == "int" and args[1].a[0] <= 64:
        return it_seq(lit([args[0]] * args[1].a[0]), cx.ty)
    return it_seq(app("repeat", (args[0], args[1]), None), cx.ty)


def flatten_strs(E, st, items):
    return cat([display(E, st, x) for x in items])


@model(("*", "collect from_iter"))
def m_collect(E, st, c, args, cx):
    it = _iter_arg(E, st, args[0])
    if it is None:
        return None
    P = E.P
    cc = P.cat(cx.ty)
    ity = None
    if cc in ("result", "option"):
        return collect_try(E, st, it, cx)
    if cc in ("seq", "set"):
        ity = P.tys[cx.ty]["args"][0]
    if cc in ("seq", "str", "set"):
        ds = drain(E, st, it, ity)
        if ds is not None:
            out = []
            for s, items in ds:
                if cc == "str":
                    out.append((s, flatten_strs(E, s, items)))
                elif cc == "set":
                    m = app("sempty", (), cx.ty)
                    for x in items:
                        m = app("sput", (m, x), cx.ty)
                    out.append((s, m))
                else:
                    out.append((s, lit(items)))
            return out
        s = it_seqterm(E, st, it)
        if s is not None:
            if cc == "seq":
                if is_app(s, "mapseq?"):
                    r = fresh("mapped", cx.ty)
                    f = st.facts.assume(eq0(T.sub(seqlen(r), seqlen(s.a[1]))))
                    return [(st.with_facts(f), r)] if f is not None else None
                return s
            if cc == "set":
                return app("toset", (s,), cx.ty)
            if cc == "str":
                et = elem_type_of(E, s)
                x = s
                if is_app(x, "refs"):
                    x = x.a[1]
                if et is not None and P.cat(P.strip(et)) == "char" or is_app(x, "chars") or (x.op == "app" and x.a[0] == "rev") or x.op == "cat":
                    return x
                return app("concat", (s,), cx.ty)
        if it.a[0] == "split" and cc == "seq":
            r = app("splitseq", (it.a[1], it.a[2], it.a[3]), cx.ty)
            if it.a[2] is ZERO and (T.const_str(it.a[3]) or "").startswith("split:"):
                fx = st.facts.assume(ge0(T.sub(seqlen(r), ONE)))
                if fx is None:
                    return []
                return [(st.with_facts(fx), r)]
            return r
        r = fresh("collected", cx.ty)
        if it.a[0] == "filter":
            inner = it_seqterm(E, st, it.a[1])
            if inner is not None and cc in ("seq", "str"):
                f = st.facts.assume(ge0(T.sub(seqlen(inner), seqlen(r))))
                st = st.with_facts(f) if f is not None else st
                if cc == "str" and all_holds(E, st, inner.a[1] if is_app(inner, "refs") else inner, "ascii"):
                    st = st.with_facts(st.facts.with_all(r, "ascii"))
        return [(st, r)]
    return None


@model(("*", "fold"))
def m_fold(E, st, c, args, cx):
    it = _iter_arg(E, st, args[0])
    if it is None:
        return None
    ity = None
    ds = drain(E, st, it, ity, 24)
    if ds is not None:
        out = []
        for s, items in ds:
            cur = [(s, args[1])]
            for x in items:
                nxt = []
                for s2, acc in cur:
                    nxt.extend(E.apply(s2, args[2], [acc, x], cx.ty, cx.span))
                cur = nxt
                if len(cur) > 32:
                    return [(st, E.default("fold", cx.ty))]
            out.extend(cur)
        return out
    s = it_seqterm(E, st, it)
    if s is not None:
        return app("fold", (s, args[1], args[2]), cx.ty)
    return None


@model(("*", "reduce max_by min_by"))
def m_reduce(E, st, c, args, cx):
    return None


def harmless_closure(E, a):
    """a closure that only computes a value: it captures nothing it could change"""
    f = E.P.fns[E.P.tys[a.ty]["inst"]]
    t = f.locals[1]
    if E.P.k(t) == "ref" and E.P.tys[t]["mut"] and not all(E.P.k(x) == "ref" and not E.P.tys[x]["mut"] for x in E.P.fields(a.ty)):
        return False
    return not any(x.op == "ptr" or isinstance(x.ty, int) and E.P.k(x.ty) == "ref" and E.P.tys[x.ty]["mut"] for x in T.subterms(a))


def lazy(E, st, it, step, end, limit=24):
    """feed the items of an iterator of known length one by one: step(state, item, acc) ->
    [(state, acc, result or None)]; end(state, acc) -> result"""
    n = iter_const_len(it)
    if n is None or n > limit:
        return None
    out = []
    cur = [(st, it, None)]
    for _ in range(n + 1):
        nxt = []
        for s, i, acc in cur:
            for s2, x, i2 in it_next(E, s, i, None):
                if x is None:
                    out.append((s2, end(s2, acc)))
                    continue
                for s3, acc2, r in step(s2, x, acc):
                    if r is not None:
                        out.append((s3, r))
                    else:
                        nxt.append((s3, i2, acc2))
        cur = nxt
        if not cur:
            break
        if len(cur) > 2048:
            return None
    return out if not cur else None


def _try_end(E, t, x):
    P = E.P
    return ok(E, t, x) if P.cat(t) == "result" else some(E, t, x) if P.cat(t) == "option" else None


def _try_split(E, s, v, t):
    """(state, continues?, value) of a Try value"""
    P = E.P
    good = P.variant_index(t, "Ok" if P.cat(t) == "result" else "Some")
    out = []
    for vi in range(2):
        fx = s.facts.know_variant(v, vi)
        if fx is None:
            continue
        s2 = s.with_facts(fx)
        if vi == good:
            pt = payload_ty(E, t, "Ok" if P.cat(t) == "result" else "Some")
            out.append((s2, True, fld(v, vi, 0, pt)))
        else:
            out.append((s2, False, v))
    return out


def collect_try(E, st, it, cx):
    """collect into Result<collection, _> or Option<collection>: up to the first failure"""
    P = E.P
    res = P.cat(cx.ty) == "result"
    good = "Ok" if res else "Some"
    ct = payload_ty(E, cx.ty, good)
    cc = P.cat(ct)
    if cc not in ("seq", "str", "set"):
        return None
    vt = None
    if it.a[0] == "map":
        f = it.a[2]
        if isinstance(f.ty, int) and P.k(f.ty) == "closure" and P.tys[f.ty].get("inst") is not None:
            vt = P.fns[P.tys[f.ty]["inst"]].locals[0]

    def step(s, x, acc):
        t = vt if vt is not None else x.ty
        if not isinstance(t, int) or P.cat(t) != P.cat(cx.ty):
            raise Untyped()
        out = []
        for s2, go, v in _try_split(E, s, x, t):
            if go:
                out.append((s2, (acc or ()) + (v,), None))
            else:
                out.append((s2, None, err(E, cx.ty, fld(x, P.variant_index(t, "Err"), 0, payload_ty(E, t, "Err"))) if res else none(E, cx.ty)))
        return out

    def end(s, acc):
        items = list(acc or ())
        if cc == "str":
            v = flatten_strs(E, s, items)
        elif cc == "set":
            v = app("sempty", (), ct)
            for x in items:
                v = app("sput", (v, x), ct)
        else:
            v = lit(items)
        return _try_end(E, cx.ty, v)
    try:
        return lazy(E, st, it, step, end)
    except Untyped:
        return None


class Untyped(Exception):
    pass


@model(("*", "try_for_each"))
def m_try_for_each(E, st, c, args, cx):
    if E.P.cat(cx.ty) not in ("result", "option"):
        return None
    a = args[0]
    it = _iter_arg(E, st, a) if a.op == "iter" else E.pointee(st, a)
    if it is None or it.op != "iter":
        return None
    unit = adt(payload_ty(E, cx.ty, "Ok" if E.P.cat(cx.ty) == "result" else "Some"), 0, ())

    def step(s, x, acc):
        return [(s3, None, None if go else v) for s2, r in E.apply(s, args[1], [x], cx.ty, cx.span) for s3, go, v in _try_split(E, s2, r, cx.ty)]
    return lazy(E, st, it, step, lambda s, acc: _try_end(E, cx.ty, unit))


@model(("*", "try_fold"))
def m_try_fold(E, st, c, args, cx):
    if E.P.cat(cx.ty) not in ("result", "option"):
        return None
    a = args[0]
    it = _iter_arg(E, st, a) if a.op == "iter" else E.pointee(st, a)
    if it is None or it.op != "iter":
        return None

    def step(s, x, acc):
        return [(s3, v if go else None, None if go else v) for s2, r in E.apply(s, args[2], [args[1] if acc is None else acc, x], cx.ty, cx.span) for s3, go, v in _try_split(E, s2, r, cx.ty)]
    return lazy(E, st, it, step, lambda s, acc: _try_end(E, cx.ty, args[1] if acc is None else acc))


@model(("*", "find_map"))
def m_find_map(E, st, c, args, cx):
    a = args[0]
    it = _iter_arg(E, st, a) if a.op == "iter" else E.pointee(st, a)
    if it is None or it.op != "iter" or E.P.cat(cx.ty) != "option":
        return None

    def step(s, x, acc):
        return [(s3, None, r if go else None) for s2, r in E.apply(s, args[1], [x], cx.ty, cx.span) for s3, go, v in _try_split(E, s2, r, cx.ty)]
    return lazy(E, st, it, step, lambda s, acc: none(E, cx.ty))


@model(("*", "filter_map"))
def m_filter_map(E, st, c, args, cx):
    if args[0].op != "iter":
        return None
    f = args[1]
    pty = oty = None
    if isinstance(f.ty, int) and E.P.k(f.ty) == "closure":
        inst = E.P.tys[f.ty].get("inst")
        if inst is not None and inst < len(E.P.fns):
            pty, oty = E.P.fns[inst].locals[2], E.P.fns[inst].locals[0]
    if oty is None or E.P.cat(oty) != "option" or iter_const_len(args[0]) is None:
        return None
    return mk("iter", ("fmap", args[0], f, pty, oty), cx.ty)


@model(("*", "take_while skip_while map_while inspect"))
def m_whiles(E, st, c, args, cx):
    it = args[0]
    if it.op != "iter" or iter_const_len(it) is None:
        return None
    ds = drain(E, st, it, None, 24)
    if ds is None:
        return None
    nm = c["name"]
    out = []
    for s, items in ds:
        cur = [(s, [], nm == "skip_while", False)]  # (state, kept, skipping, stopped)
        for x in items:
            nxt = []
            for s2, kept, sk, stop in cur:
                if stop:
                    nxt.append((s2, kept, sk, stop))
                    continue
                if nm == "inspect":
                    nxt.extend((q, kept + [x], sk, stop) for q, _ in E.apply(s2, args[1], [refv(x)], None, cx.span))
                    continue
                if nm == "map_while":
                    return None
                if nm == "skip_while" and not sk:
                    nxt.append((s2, kept + [x], sk, stop))
                    continue
                for q, v in E.apply(s2, args[1], [refv(x)], None, cx.span):
                    for q2, b in cases(E, q, v):
                        if nm == "take_while":
                            nxt.append((q2, kept + [x] if b else kept, sk, not b))
                        else:
                            nxt.append((q2, kept if b else kept + [x], b, stop))
            cur = nxt
        out.extend((s2, it_seq(lit(kept), cx.ty)) for s2, kept, sk, stop in cur)
    return out


@model(("*", "for_each"))
def m_foreach(E, st, c, args, cx):
    it = _iter_arg(E, st, args[0])
    if it is None:
        return None
    ds = drain(E, st, it, None, 24)
    if ds is None:
        return None
    out = []
    for s, items in ds:
        cur = [s]
        for x in items:
            nxt = []
            for s2 in cur:
                nxt.extend(q for q, _ in E.apply(s2, args[1], [x], cx.ty, cx.span))
            cur = nxt
        out.extend((q, adt(cx.ty, 0, ())) for q in cur)
    return out


def _search(E, st, c, args, cx, name):
    it = _iter_arg(E, st, args[0])
    if it is None:
        return None
    f = args[1]
    byref = name in ("find",)
    item_ty = payload_ty(E, cx.ty, "Some") if name == "find" else None
    n = iter_const_len(it)
    P = E.P
    if n is not None and n <= 100:
        out = []
        cur = [(st, it, 0)]
        for _ in range(n + 1):
            nxt = []
            for s, i, k in cur:
                for s2, x, i2 in it_next(E, s, i, item_ty):
                    if x is None:
                        if name == "position":
                            out.append((s2, none(E, cx.ty)))
                        elif name == "find":
                            out.append((s2, none(E, cx.ty)))
                        elif name == "any":
                            out.append((s2, FALSE))
                        else:
                            out.append((s2, TRUE))
                        continue
                    for s3, v in E.apply(s2, f, [refv(x) if byref else x], None, cx.span):
                        for s4, b in cases(E, s3, v):
                            if name == "all":
                                b = not b
                            if b:
                                r = {"position": lambda: some(E, cx.ty, I(k)), "find": lambda: some(E, cx.ty, x),
                                     "any": lambda: TRUE, "all": lambda: FALSE}[name]()
                                out.append((s4, r))
                            else:
                                nxt.append((s4, i2, k + 1))
            cur = nxt
            if len(cur) > 40:
                return None
        return out
    s = it_seqterm(E, st, it)
    if s is None:
        return None
    ln = seqlen(s)
    pred = ("pred", f)
    npred = ("npred", f)
    out = []
    # no element matches (any: false, all: true)
    stop, cont = (npred, pred) if name == "all" else (pred, npred)
    s1 = st.with_facts(st.facts.with_all(s, cont))
    # understood character-wise predicate: all elements ascii
    if name == "all":
        for s1 in [s1]:
            s1 = learn_all(E, s1, s, f)
    et = elem_type_of(E, s)
    if is_app(unview(s)[0], "sub") or s.op == "sub":
        d = None
    else:
        base, back = unview(s)
        chars = s.op == "app" and "chars" in (s.a[0], s.a[1].a[0] if s.a[1].op == "app" else None)
        d = predicate(E, st, f, P.ty_by_s.get("char") if chars else et, byref)
    i = fresh("pos", P.ty_by_s.get("usize"))
    there = None
    if d is not None:
        hit, miss = (d[1], d[0]) if name == "all" else d
        there = app("exists", (base, hit), P.ty_by_s.get("bool"))
        us = P.ty_by_s.get("usize")
        fst, lst = app("firstidx", (base, hit), us), app("lastidx", (base, hit), us)
        # places among characters are places among bytes when everything skipped is ASCII
        placed = not chars or only_ascii(E, miss)
        if placed:
            i = T.sub(T.sub(seqlen(base), lst), ONE) if back else fst
        fx = s1.facts.assume(there, False)
        s1 = None if fx is None else s1.with_facts(fx)
    if s1 is not None:
        out.append((s1, {"position": lambda: none(E, cx.ty), "find": lambda: none(E, cx.ty), "any": lambda: FALSE, "all": lambda: TRUE}[name]()))
    fx = st.facts.assume(ge0(T.sub(T.sub(seqlen(base) if there is not None and placed else ln, i), ONE)))
    if fx is not None and there is not None:
        fx = fx.assume(there)
        for b in (ge0(fst), ge0(T.sub(lst, fst)), ge0(T.sub(T.sub(seqlen(base), lst), ONE))):
            fx = fx.assume(b) if fx is not None else None
    if fx is not None:
        s2 = st.with_facts(fx)
        if there is not None and placed:
            part = E.slice(s2, base, T.add(lst, ONE), seqlen(base)) if back else E.slice(s2, base, ZERO, fst)
            if only_ascii(E, miss):
                s2 = s2.with_facts(s2.facts.with_all(part, "ascii"))
        x = E.elem(s2, s, i, et)
        for s3, v in E.apply(s2, f, [refv(x) if byref else x], None, cx.span):
            fx = s3.facts.assume(v, name != "all")
            if fx is None:
                continue
            s4 = s3.with_facts(fx.with_all(E.slice(s3, s, ZERO, i), cont))
            r = {"position": lambda: some(E, cx.ty, i), "find": lambda: some(E, cx.ty, x), "any": lambda: TRUE, "all": lambda: FALSE}[name]()
            out.append((s4, r))
    return out


def predicate(E, st, f, ty, byref):
    """(what holds of an element the function accepts, of one it rejects), as terms over one symbol
    for the element; functions written differently that accept the same get the same terms"""
    p = sym("λe", ty)
    rec, E.rec = E.rec, 0
    try:
        outs = E.apply(st.fork(), f, [refv(p) if byref else p], None, "")
    except Exception:
        return None
    finally:
        E.rec = rec
    yes, no = [], []
    old = set(st.facts.booleans())
    for s, v in outs:
        for val_, into in ((True, yes), (False, no)):
            fx = s.facts.assume(v, val_)
            if fx is not None:
                into.append(tuple(sorted((b for b in fx.booleans() if b not in old and T.mentions(b, p)), key=lambda b: b.id)))
    if not yes or not no:
        return None
    dnf = lambda l: app("dnf", tuple(app("all", c, None) for c in sorted(set(l), key=lambda c: [b.id for b in c])), None)
    return dnf(yes), dnf(no)


def unview(s):
    """(sequence without views, is it seen in reverse)"""
    rev = False
    while s.op == "app" and s.a[0] in VIEWS + ("rev",):
        rev ^= s.a[0] == "rev"
        s = s.a[1]
    return s, rev


def only_ascii(E, d):
    """do the conditions admit only ASCII characters?"""
    from facts import Facts
    p = None
    for c in d.a[1:]:
        f = Facts()
        for b in c.a[1:]:
            f = f.assume(b) if f is not None else None
        if f is None:
            continue
        if p is None:
            p = next((x for b in c.a[1:] for x in T.subterms(b) if x.op == "sym" and x.a[0] == "λe"), None)
        if p is None or f.decide(ge0(T.sub(I(127), p))) is not True:
            return False
    return True


def learn_all(E, st, s, f):
    base = s.a[1] if is_app(s, "refs") else s
    p = sym("λc", E.P.ty_by_s.get("char"))
    r = None
    rec, E.rec = E.rec, 0
    try:
        outs = E.apply(st.fork(), f, [refv(p) if is_app(s, "refs") else p], None, "")
        if outs:
            ok_ = True
            for s2, v in outs:
                fx = s2.facts.assume(v)
                if fx is not None and fx.decide(ge0(T.sub(I(127), p))) is not True:
                    ok_ = False
            r = ok_
    finally:
        E.rec = rec
    if r:
        return st.with_facts(st.facts.with_all(base, "ascii"))
    return st


for _n in ("position", "any", "all", "find"):
    model(("*", _n))(lambda E, st, c, args, cx, _n=_n: _search(E, st, c, args, cx, _n) if len(args) == 2 and c.get("trait") else None)


@model(("*", "count"), "std::iter::ExactSizeIterator::len")
def m_count(E, st, c, args, cx):
    it = _iter_arg(E, st, args[0])
    if it is None:
        return None
    s = it_seqterm(E, st, it)
    if s is not None:
        return seqlen(s)
    return E.default("count", cx.ty)


# ---- sequences and strings
@model(("str seq", "new with_capacity"))
def m_newseq(E, st, c, args, cx):
    return None


@model(("*", "new with_capacity default"))
def m_new(E, st, c, args, cx):
    P = E.P
    cc = P.cat(cx.ty)
    if c.get("name") == "new" and cc == "box":
        return box(args[0])
    if cc in ("seq", "str") and (not args or c.get("name") == "with_capacity"):
        return EMPTY
    if cc == "map" and not [a for a in args if a.op != "int"]:
        return app("mempty", (), cx.ty)
    if cc == "set":
        return app("sempty", (), cx.ty)
    if c.get("name") == "default" and cc == "int":
        return ZERO
    if c.get("name") == "default" and cc == "bool":
        return FALSE
    if c.get("name") == "default" and cc == "option":
        return none(E, cx.ty)
    return None


@model(("str seq", "len"))
def m_len(E, st, c, args, cx):
    return seqlen(val(E, st, args[0]))


@model(("map set", "len"))
def m_maplen(E, st, c, args, cx):
    return app("msize", (val(E, st, args[0]),), cx.ty)


@model(("str seq", "is_empty"))
def m_empty(E, st, c, args, cx):
    return eq0(seqlen(val(E, st, args[0])))


def mutate(E, st, p, f):
    """apply f to the pointed-to value; f(state, value) -> [(state, new value, result)]"""
    v = E.strip(st, p)
    out = []
    for s, nv, r in f(st, v):
        s = s.fork()
        E.set_pointee(s, p, nv)
        out.append((s, r))
    return out


def U(cx):
    return adt(cx.ty, 0, ())


@model(("seq", "push push_back"), ("str", "push"))
def m_push(E, st, c, args, cx):
    return mutate(E, st, args[0], lambda s, v: [(s, cat([v, ("L", (args[1],))]), U(cx))])


@model(("seq", "push_front"))
def m_push_front(E, st, c, args, cx):
    return mutate(E, st, args[0], lambda s, v: [(s, cat([("L", (args[1],)), v]), U(cx))])


@model(("str", "push_str"), ("seq", "extend_from_slice append"))
def m_push_str(E, st, c, args, cx):
    x = val(E, st, args[1])
    r = mutate(E, st, args[0], lambda s, v: [(s, cat([v, x]), U(cx))])
    if c.get("name") == "append":
        for s, _ in r:
            E.set_pointee(s, args[1], EMPTY)
    return r


@model(("str seq", "extend"))
def m_extend(E, st, c, args, cx):
    it = _iter_arg(E, st, args[1])
    if it is None:
        return None
    ds = drain(E, st, it, None)
    if ds is not None:
        out = []
        for s, items in ds:
            v = E.strip(s, args[0])
            s = s.fork()
            E.set_pointee(s, args[0], cat([v, flatten_strs(E, s, items)]) if E.P.cat(E.P.strip(cx.argty[0])) == "str" else cat([v, ("L", tuple(items))]))
            out.append((s, U(cx)))
        return out
    sq = it_seqterm(E, st, it)
    if sq is None or is_app(sq, "mapseq?"):
        return None
    if E.P.cat(E.P.strip(cx.argty[0])) == "str":
        sq = sq.a[1] if is_app(sq, "refs") else sq
    return mutate(E, st, args[0], lambda s, v: [(s, cat([v, sq]), U(cx))])


@model(("str seq", "clear"))
def m_clear(E, st, c, args, cx):
    return mutate(E, st, args[0], lambda s, v: [(s, EMPTY, U(cx))])


def _pop(E, st, args, cx, front):
    def f(s, v):
        n = seqlen(v)
        out = []
        for s2, e in cases(E, s, eq0(n)):
            if e:
                out.append((s2, v, none(E, cx.ty)))
            elif front:
                out.append((s2, E.slice(s2, v, ONE, n), some(E, cx.ty, E.elem(s2, v, ZERO, payload_ty(E, cx.ty, "Some")))))
            else:
                l = T.sub(n, ONE)
                out.append((s2, E.slice(s2, v, ZERO, l), some(E, cx.ty, E.elem(s2, v, l, payload_ty(E, cx.ty, "Some")))))
        return out
    return mutate(E, st, args[0], f)


@model(("str seq", "pop pop_back"))
def m_pop(E, st, c, args, cx):
    return _pop(E, st, args, cx, False)


@model(("seq", "pop_front"))
def m_pop_front(E, st, c, args, cx):
    return _pop(E, st, args, cx, True)


@model(("str seq", "insert"))
def m_insert(E, st, c, args, cx):
    v = val(E, st, args[0])
    i = args[1]
    s = E.oblige(st, "insert", ge0(T.sub(seqlen(v), i)), cx.span, "insert index")
    if s is None:
        return []
    if E.P.cat(E.P.strip(cx.argty[0])) == "str":
        s = E.oblige(s, "boundary", boundary(E, s, v, i), cx.span, "insert at a character boundary")
        if s is None:
            return []
    s = s.fork()
    E.set_pointee(s, args[0], cat([E.slice(s, v, ZERO, i), ("L", (args[2],)), E.slice(s, v, i, seqlen(v))]))
    return [(s, U(cx))]


@model(("str", "insert_str"))
def m_insert_str(E, st, c, args, cx):
    v = val(E, st, args[0])
    i = args[1]
    s = E.oblige(st, "insert", ge0(T.sub(seqlen(v), i)), cx.span, "insert index")
    if s is None:
        return []
    s = E.oblige(s, "boundary", boundary(E, s, v, i), cx.span, "insert at a character boundary")
    if s is None:
        return []
    s = s.fork()
    E.set_pointee(s, args[0], cat([E.slice(s, v, ZERO, i), val(E, s, args[2]), E.slice(s, v, i, seqlen(v))]))
    return [(s, U(cx))]


@model(("str seq", "remove"))
def m_remove(E, st, c, args, cx):
    v = val(E, st, args[0])
    i = args[1]
    P = E.P
    if P.cat(cx.ty) == "option" and "VecDeque" in (P.path(P.strip(cx.argty[0])) or ""):
        out = []
        for s, inb in cases(E, st, ge0(T.sub(T.sub(seqlen(v), i), ONE))):
            s = s.fork()
            if inb:
                x = E.elem(s, v, i, payload_ty(E, cx.ty, "Some"))
                E.set_pointee(s, args[0], cat([E.slice(s, v, ZERO, i), E.slice(s, v, add(i, ONE), seqlen(v))]))
                out.append((s, some(E, cx.ty, x)))
            else:
                out.append((s, none(E, cx.ty)))
        return out
    s = E.oblige(st, "remove", ge0(T.sub(T.sub(seqlen(v), i), ONE)), cx.span, "remove index")
    if s is None:
        return []
    isstr = P.cat(P.strip(cx.argty[0])) == "str"
    if isstr:
        s = E.oblige(s, "boundary", boundary(E, s, v, i), cx.span, "remove at a character boundary")
        if s is None:
            return []
    s = s.fork()
    x = E.elem(s, v, i, cx.ty)
    E.set_pointee(s, args[0], cat([E.slice(s, v, ZERO, i), E.slice(s, v, add(i, ONE), seqlen(v))]))
    return [(s, x)]


@model(("str seq", "truncate"))
def m_truncate(E, st, c, args, cx):
    def f(s, v):
        return [(s2, E.slice(s2, v, ZERO, args[1]) if b else v, U(cx)) for s2, b in cases(E, s, ge0(T.sub(seqlen(v), args[1])))]
    return mutate(E, st, args[0], f)


@model(("seq", "split_off"))
def m_split_off(E, st, c, args, cx):
    v = val(E, st, args[0])
    s = E.oblige(st, "bounds", ge0(T.sub(seqlen(v), args[1])), cx.span, "split_off index")
    if s is None:
        return []
    s = s.fork()
    E.set_pointee(s, args[0], E.slice(s, v, ZERO, args[1]))
    return [(s, E.slice(s, v, args[1], seqlen(v)))]


@model(("seq", "swap"))
def m_swap_seq(E, st, c, args, cx):
    v = val(E, st, args[0])
    s = E.oblige(st, "bounds", band(ge0(T.sub(T.sub(seqlen(v), args[1]), ONE)), ge0(T.sub(T.sub(seqlen(v), args[2]), ONE))), cx.span, "swap indices")
    if s is None:
        return []
    s = s.fork()
    E.set_pointee(s, args[0], app("swapped", (v, args[1], args[2]), v.ty))
    return [(s, U(cx))]


@model(("seq", "get first last front back"), ("seq", "get_mut first_mut last_mut front_mut back_mut"))
def m_get(E, st, c, args, cx):
    v = val(E, st, args[0])
    n = seqlen(v)
    name = c["name"].replace("_mut", "")
    if name == "get":
        i = args[1]
        if i.op == "adt":
            return None
    elif name in ("first", "front"):
        i = ZERO
    else:
        i = T.sub(n, ONE)
    out = []
    ety = E.P.strip(payload_ty(E, cx.ty, "Some"))
    for s, inb in cases(E, st, ge0(T.sub(T.sub(n, i), ONE)) if name == "get" else bnot(eq0(n))):
        if inb:
            if c["name"].endswith("_mut"):
                r = elem_ptr(E, s, args[0], i, ety)
            else:
                r = refv(E.elem(s, v, i, ety))
            out.append((s, some(E, cx.ty, r)))
        else:
            out.append((s, none(E, cx.ty)))
    return out


def elem_ptr(E, st, p, i, ety):
    if p.op == "ptr":
        return mk("ptr", (p.a[0], p.a[1] + (("e", i, ety),)), None)
    return mk("ptr", (("H", p), (("e", i, ety),)), None)


def range_bounds(E, st, r, n):
    """(lo, hi) of a range-like index value, or None"""
    P = E.P
    ty = r.ty
    if r.op == "app" and r.a[0] == "rangeincl":
        return r.a[1], add(r.a[2], ONE)
    if isinstance(ty, int):
        p = (P.path(ty) or "").rsplit("::", 1)[-1]
        ft = P.fields(ty)
        if p == "Range" and len(ft) == 2:
            return fld(r, 0, 0, ft[0]), fld(r, 0, 1, ft[1])
        if p == "RangeFrom" and ft:
            return fld(r, 0, 0, ft[0]), n
        if p == "RangeTo" and ft:
            return ZERO, fld(r, 0, 0, ft[0])
        if p == "RangeToInclusive" and ft:
            return ZERO, add(fld(r, 0, 0, ft[0]), ONE)
        if p == "RangeFull":
            return ZERO, n
    return None


@model(("str seq", "index index_mut"))
def m_index(E, st, c, args, cx):
    P = E.P
    v = val(E, st, args[0])
    n = seqlen(v)
    i = args[1]
    rb = range_bounds(E, st, i, n)
    mutable = c["name"] == "index_mut"
    if rb is not None:
        lo, hi = rb
        s = E.oblige(st, "slice", ge0(T.sub(hi, lo)), cx.span, "slice start <= end")
        if s is None:
            return []
        s = E.oblige(s, "slice", ge0(T.sub(n, hi)), cx.span, "slice end <= len")
        if s is None:
            return []
        if P.cat(P.strip(cx.argty[0])) == "str":
            for b in (lo, hi):
                s = E.oblige(s, "boundary", boundary(E, s, v, b), cx.span, "slice at a character boundary")
                if s is None:
                    return []
        if mutable:
            p = args[0]
            step = ("s", lo, hi)
            return [(s, mk("ptr", (p.a[0], p.a[1] + (step,)) if p.op == "ptr" else (("H", p), (step,)), None))]
        return [(s, refv(E.slice(s, v, lo, hi)))]
    ety = P.strip(cx.ty)
    s = E.oblige(st, "bounds", ge0(T.sub(T.sub(n, i), ONE)), cx.span, "index < len")
    if s is None:
        return []
    if mutable:
        return [(s, elem_ptr(E, s, args[0], i, ety))]
    return [(s, refv(E.elem(s, v, i, ety)))]


@model(("str", "get"))
def m_str_get(E, st, c, args, cx):
    v = val(E, st, args[0])
    n = seqlen(v)
    rb = range_bounds(E, st, args[1], n)
    if rb is None:
        return None
    lo, hi = rb
    cond = band(band(ge0(T.sub(hi, lo)), ge0(T.sub(n, hi))), band(boundary(E, st, v, lo), boundary(E, st, v, hi)))
    return [(s, some(E, cx.ty, refv(E.slice(s, v, lo, hi))) if b else none(E, cx.ty)) for s, b in cases(E, st, cond)]


@model(("seq", "contains"))
def m_contains(E, st, c, args, cx):
    v = val(E, st, args[0])
    x = val(E, st, args[1])
    es = const_elems(v)
    if es is not None and len(es) <= 24:
        out = []
        cur = [st]
        for e in es:
            nxt = []
            for s in cur:
                for s2, b in cases(E, s, eq_term(E, s, E.strip(s, e), x)):
                    if b:
                        out.append((s2, TRUE))
                    else:
                        nxt.append(s2)
            cur = nxt
        out.extend((s, FALSE) for s in cur)
        return out
    return app("contains", (v, x), cx.ty)


@model(("map", "contains_key"))
def m_contains_key(E, st, c, args, cx):
    m = val(E, st, args[0])
    return map_get(E, st, m, val(E, st, args[1]), lambda s, v: TRUE, lambda s: FALSE, None)


@model(("map", "get"))
def m_mapget(E, st, c, args, cx):
    m = val(E, st, args[0])
    vty = E.P.strip(payload_ty(E, cx.ty, "Some"))
    return map_get(E, st, m, val(E, st, args[1]), lambda s, v: some(E, cx.ty, refv(v)), lambda s: none(E, cx.ty), vty)


@model(("map", "index"))
def m_mapindex(E, st, c, args, cx):
    m = val(E, st, args[0])
    out = []
    for s, r in map_get(E, st, m, val(E, st, args[1]), lambda s, v: refv(v), lambda s: None, E.P.strip(cx.ty)):
        if r is None:
            # a key taken from the map itself is present
            k = val(E, s, args[1])
            if from_keys(k, m):
                continue
            E.oblige(s, "mapkey", FALSE, cx.span, "key present")
        else:
            out.append((s, r))
    return out


def from_keys(k, m):
    for t in subterms(k):
        if is_app(t, "keys") and t.a[1] is m:
            return True
    return False


@model(("map", "insert"))
def m_mapinsert(E, st, c, args, cx):
    m = val(E, st, args[0])
    vty = payload_ty(E, cx.ty, "Some")
    mty = E.P.strip(cx.argty[0]) if cx.argty[0] is not None else m.ty
    out = []
    for s, r in map_get(E, st, m, args[1], lambda s, v: some(E, cx.ty, v), lambda s: none(E, cx.ty), vty):
        s = s.fork()
        E.set_pointee(s, args[0], app("mput", (m, args[1], args[2]), mty))
        out.append((s, r))
    return out


@model(("map", "remove"))
def m_mapremove(E, st, c, args, cx):
    m = val(E, st, args[0])
    k = val(E, st, args[1])
    vty = payload_ty(E, cx.ty, "Some")
    out = []
    for s, r in map_get(E, st, m, k, lambda s, v: some(E, cx.ty, v), lambda s: none(E, cx.ty), vty):
        s = s.fork()
        E.set_pointee(s, args[0], app("mdel", (m, k), m.ty))
        out.append((s, r))
    return out


@model(("map", "keys into_keys"))
def m_keys(E, st, c, args, cx):
    m = val(E, st, args[0])
    ks = []
    x = m
    while is_app(x, "mput"):
        ks.append(x.a[2])
        x = x.a[1]
    if is_app(x, "mempty"):
        ks.reverse()
        return it_seq(refs(lit(ks)), cx.ty)
    kty = None
    if isinstance(m.ty, int):
        kty = E.P.tys[m.ty]["args"][0]
    vt = next((i for i, t in enumerate(E.P.tys) if t["k"] == "adt" and t["path"].endswith("vec::Vec") and t["args"] and t["args"][0] == kty), None)
    return it_seq(refs(app("keys", (m,), vt)), cx.ty)


@model(("set", "insert"))
def m_setinsert(E, st, c, args, cx):
    m = val(E, st, args[0])
    out = []
    for s, has in set_has(E, st, m, args[1]):
        s = s.fork()
        if not has:
            E.set_pointee(s, args[0], app("sput", (m, args[1]), m.ty))
        out.append((s, B(not has)))
    return out


def set_elems(v):
    """the elements of a set built from nothing, in some order"""
    es = []
    while is_app(v, "sput"):
        es.append(v.a[2])
        v = v.a[1]
    return es[::-1] if is_app(v, "sempty") else None


def set_has(E, st, m, k):
    if is_app(m, "sempty"):
        return [(st, False)]
    if is_app(m, "sput"):
        out = []
        for s, same in cases(E, st, eq_term(E, st, m.a[2], k)):
            if same:
                out.append((s, True))
            else:
                out.extend(set_has(E, s, m.a[1], k))
        return out
    return cases(E, st, app("shas", (m, k), E.P.ty_by_s.get("bool")))


@model(("set", "contains"))
def m_setcontains(E, st, c, args, cx):
    return [(s, B(b)) for s, b in set_has(E, st, val(E, st, args[0]), val(E, st, args[1]))]


@model(("seq", "sort_by sort_by_key sort_unstable_by sort_unstable_by_key sort_by_cached_key"))
def m_sort_by(E, st, c, args, cx):
    def f(s, v):
        es = const_elems(v)
        if es is not None and len(es) < 2:
            return [(s, v, U(cx))]
        if es is not None and len(es) <= 3 and harmless_closure(E, args[1]):
            import itertools
            return [(s, lit(list(p)), U(cx)) for p in itertools.permutations(es)]
        return None
    if const_elems(val(E, st, args[0])) is None or f(st, val(E, st, args[0])) is None:
        return None
    return mutate(E, st, args[0], f)


@model(("seq", "dedup"))
def m_dedup(E, st, c, args, cx):
    es = const_elems(val(E, st, args[0]))
    if es is None or len(es) > 6:
        return None
    cur = [(st, [])]
    for e in es:
        nxt = []
        for s, l in cur:
            if not l:
                nxt.append((s, [e]))
                continue
            for s2, b in cases(E, s, eq_term(E, s, E.strip(s, l[-1]), E.strip(s, e))):
                nxt.append((s2, l if b else l + [e]))
        cur = nxt
    out = []
    for s, l in cur:
        out.extend(mutate(E, s, args[0], lambda s2, v, l=l: [(s2, lit(l), U(cx))]))
    return out


@model(("seq", "sort sort_unstable"))
def m_sort(E, st, c, args, cx):
    def f(s, v):
        es = const_elems(v)
        if es is not None:
            ks = [const_str(e) for e in es]
            if all(k is not None for k in ks):
                return [(s, lit([e for _, e in sorted(zip(ks, es), key=lambda p: p[0].encode())]), U(cx))]
            if all(e.op == "int" for e in es):
                return [(s, lit(sorted(es, key=lambda e: e.a[0])), U(cx))]
        if es is not None and len(es) < 2:
            return [(s, v, U(cx))]
        if es is not None and len(es) <= 3 and not any(e.op in ("int", "lin") or isinstance(e.ty, int) and E.P.cat(e.ty) == "int" for e in es):
            # any of the orders
            import itertools
            return [(s, lit(list(p)), U(cx)) for p in itertools.permutations(es)]
        r = app("sorted", (v,), v.ty)
        if es is not None and 0 < len(es) <= 8:
            fx = s.facts
            et = next((e.ty for e in es if isinstance(e.ty, int)), None)
            for i in range(len(es) - 1):
                g = fx.assume(ge0(T.sub(T.elem_raw(r, I(i + 1), et), T.elem_raw(r, I(i), et))))
                fx = g or fx
            for bound in (2**63 - 1,):
                s2 = s.with_facts(fx)
                for e in es:
                    s2 = E.span_axioms(s2, e)
                if all(s2.facts.decide(ge0(T.sub(I(bound), e))) is True for e in es):
                    g = s2.facts.assume(ge0(T.sub(I(bound), T.elem_raw(r, I(len(es) - 1), et))))
                    s2 = s2.with_facts(g) if g is not None else s2
                s = s2
        return [(s, r, U(cx))]
    return mutate(E, st, args[0], f)


@model(("seq", "reverse"))
def m_reverse(E, st, c, args, cx):
    return mutate(E, st, args[0], lambda s, v: [(s, seq_rev(v), U(cx))])


@model(("seq", "rchunks chunks windows"))
def m_chunks(E, st, c, args, cx):
    v = val(E, st, args[0])
    s = E.oblige(st, "chunk", bnot(eq0(args[1])), cx.span, "chunk size is not zero")
    if s is None:
        return []
    return [(s, it_seq(app(c["name"], (v, args[1]), None), cx.ty))]


@model(("seq", "join concat"), ("*", "join"))
def m_join(E, st, c, args, cx):
    if E.P.cat(cx.ty) != "str":
        return None
    v = val(E, st, args[0])
    sep = val(E, st, args[1]) if len(args) > 1 else EMPTY
    es = const_elems(v)
    if es is not None:
        out = []
        for i, e in enumerate(es):
            if i:
                out.append(sep)
            out.append(E.strip(st, e))
        return cat(out)
    return app("join", (v, sep), cx.ty)


# ---- strings
@model(("str", "chars"))
def m_chars(E, st, c, args, cx):
    v = val(E, st, args[0])
    if all_holds(E, st, v, "ascii") or const_str(v) is not None or const_elems(v) is not None:
        return it_seq(v, cx.ty)
    return it_seq(app("chars", (v,), None), cx.ty)


@model(("str", "bytes"))
def m_bytes(E, st, c, args, cx):
    return it_seq(val(E, st, args[0]), cx.ty)


@model(("str", "char_indices"))
def m_char_indices(E, st, c, args, cx):
    v = val(E, st, args[0])
    if all_holds(E, st, v, "ascii"):
        return mk("iter", ("enum", it_seq(v), ZERO), cx.ty)
    return None


@model(("str", "is_ascii"))
def m_str_is_ascii(E, st, c, args, cx):
    v = val(E, st, args[0])
    if all_holds(E, st, v, "ascii"):
        return TRUE
    s1 = st.with_facts(st.facts.with_all(v, "ascii"))
    return [(s1, TRUE), (st.fork(), FALSE)]


def trim_model(E, st, v, front, back, pred, cx, ret_ref=True):
    """a window of v; what was cut satisfies pred"""
    cs = const_str(v)
    if cs is not None and pred == "ws":
        r = cs
        if front:
            r = r.lstrip()
        if back:
            r = r.rstrip()
        return [(st, refv(string(r)))]
    els = const_elems(v)
    if els is not None and len(els) <= 100 and (pred == "ws" or pred[:1] == "c") and all_holds(E, st, v, "ascii"):
        isw = lambda x: bor(eq0(T.sub(x, I(32))), band(ge0(T.sub(x, I(9))), ge0(T.sub(I(13), x)))) if pred == "ws" else eq0(T.sub(x, I(int(pred[1:]))))
        cur = [(st, 0, len(els))]
        for side in ((0,) if front else ()) + ((1,) if back else ()):
            done = []
            while cur:
                s, lo, hi = cur.pop()
                if lo == hi:
                    done.append((s, lo, hi))
                    continue
                for s2, b in cases(E, s, isw(els[hi - 1] if side else els[lo])):
                    if not b:
                        done.append((s2, lo, hi))
                    else:
                        cur.append((s2, lo, hi - 1) if side else (s2, lo + 1, hi))
            cur = done
        return [(s, refv(E.slice(s, v, I(lo), I(hi)))) for s, lo, hi in cur]
    us = E.P.ty_by_s.get("usize")
    n = seqlen(v)
    lo = fresh("trimlo", us) if front else ZERO
    hi = fresh("trimhi", us) if back else n
    if front and not back:
        lo = app("trim_lo:" + str(pred), (v,), us)
    elif back and not front:
        hi = app("trim_hi:" + str(pred), (v,), us)
    else:
        lo = app("trim_lo:" + str(pred), (v,), us)
        hi = app("trim_hi2:" + str(pred), (v,), us)
    fx = st.facts
    for b in (ge0(T.sub(n, hi)), ge0(T.sub(hi, lo)), ge0(lo)):
        fx2 = fx.assume(b)
        if fx2 is not None:
            fx = fx2
    s = st.with_facts(fx)
    return [(s, refv(E.slice(s, v, lo, hi)))]


@model(("str", "trim trim_ascii"))
def m_trim(E, st, c, args, cx):
    return trim_model(E, st, val(E, st, args[0]), True, True, "ws", cx)


@model(("str", "trim_start trim_ascii_start trim_left"))
def m_trim_start(E, st, c, args, cx):
    return trim_model(E, st, val(E, st, args[0]), True, False, "ws", cx)


@model(("str", "trim_end trim_ascii_end trim_right"))
def m_trim_end(E, st, c, args, cx):
    return trim_model(E, st, val(E, st, args[0]), False, True, "ws", cx)


@model(("str", "trim_matches"))
def m_trim_matches(E, st, c, args, cx):
    return trim_model(E, st, val(E, st, args[0]), True, True, pat_key(E, st, args[1]), cx)


@model(("str", "trim_end_matches"))
def m_trim_end_matches(E, st, c, args, cx):
    return trim_model(E, st, val(E, st, args[0]), False, True, pat_key(E, st, args[1]), cx)


@model(("str", "trim_start_matches"))
def m_trim_start_matches(E, st, c, args, cx):
    return trim_model(E, st, val(E, st, args[0]), True, False, pat_key(E, st, args[1]), cx)


def pat_key(E, st, p):
    p = E.strip(st, p)
    if p.op == "int":
        return "c%d" % p.a[0]
    s = const_str(p)
    if s is not None:
        return "s" + s
    return "p%d" % p.id


def pat_str(E, st, p):
    p = E.strip(st, p)
    if p.op == "int":
        return string(chr(p.a[0]))
    if p.op in ("cat", "sub") or (isinstance(p.ty, int) and E.P.cat(p.ty) == "str"):
        return p
    if isinstance(p.ty, int) and E.P.cat(p.ty) == "char":
        return lit([p])
    return None


@model(("str", "strip_prefix strip_suffix"))
def m_strip_prefix(E, st, c, args, cx):
    v = val(E, st, args[0])
    p = pat_str(E, st, args[1])
    if p is None:
        return None
    pre = c["name"] == "strip_prefix"
    out = []
    for s, b in cases(E, st, starts(E, st, v, p, pre)):
        if b:
            n, k = seqlen(v), seqlen(p)
            fx = s.facts.assume(ge0(T.sub(n, k)))
            if fx is None:
                continue
            s = s.with_facts(fx)
            out.append((s, some(E, cx.ty, refv(E.slice(s, v, k, n) if pre else E.slice(s, v, ZERO, T.sub(n, k))))))
        else:
            out.append((s, none(E, cx.ty)))
    return out


def starts(E, st, v, p, pre=True):
    cv, cp = const_str(v), const_str(p)
    if cv is not None and cp is not None:
        return B(cv.startswith(cp) if pre else cv.endswith(cp))
    pe = const_elems(p)
    n = seqlen(v)
    if pe is not None and len(pe) == 1:
        ch = E.P.ty_by_s.get("char")
        i = ZERO if pre else T.sub(n, ONE)
        return band(bnot(eq0(n)), eq0(T.sub(E.elem(st, v, i, ch), pe[0])))
    return app("starts_with" if pre else "ends_with", (v, p), E.P.ty_by_s.get("bool"))


@model(("str seq", "starts_with ends_with"))
def m_starts(E, st, c, args, cx):
    p = pat_str(E, st, args[1])
    if p is None:
        return None
    return starts(E, st, val(E, st, args[0]), p, c["name"] == "starts_with")


@model(("str", "contains"))
def m_str_contains(E, st, c, args, cx):
    p = pat_str(E, st, args[1])
    if p is None:
        return None
    return app("str_contains", (val(E, st, args[0]), p), cx.ty)


def places(E, st, v, pat, span, last=False):
    """[(state, index of the first (last) character of a literal text that matches, or None)]"""
    els = const_elems(v)
    if els is None or len(els) > 100 or not all_holds(E, st, v, "ascii"):
        return None
    p = E.strip(st, pat)
    k = const_elems(p)
    if k is not None and len(k) == 1:
        p = k[0]
    elif k is not None:
        return None
    test = (lambda s, x: [(s, eq0(T.sub(x, p)))]) if p.op in ("int", "sym") and T.is_intlike(p) or p.op == "int" else (lambda s, x: E.apply(s, pat, [x], None, span))
    if p.op == "app":
        return None
    out, cur = [], [st]
    order = range(len(els) - 1, -1, -1) if last else range(len(els))
    for i in order:
        nxt = []
        for s in cur:
            for s2, v2 in test(s, els[i]):
                for s3, b in cases(E, s2, v2):
                    if b:
                        out.append((s3, i))
                    else:
                        nxt.append(s3)
        cur = nxt
        if len(cur) > 40:
            return None
    return out + [(s, None) for s in cur]


@model(("str", "find rfind"))
def m_str_find(E, st, c, args, cx):
    v = val(E, st, args[0])
    l = places(E, st, v, args[1], cx.span, c["name"] == "rfind")
    if l is not None:
        return [(s, none(E, cx.ty) if i is None else some(E, cx.ty, I(i))) for s, i in l]
    p = pat_str(E, st, args[1])
    us = E.P.ty_by_s.get("usize")
    i = app("indexof:" + c["name"], (v, p if p is not None else args[1]), us)
    out = [(st.fork(), none(E, cx.ty))]
    k = seqlen(p) if p is not None else ONE
    fx = st.facts.assume(ge0(T.sub(T.sub(seqlen(v), i), k)))
    if fx is not None:
        out.append((st.with_facts(fx), some(E, cx.ty, i)))
    return out


@model(("str", "split_once"))
def m_split_once(E, st, c, args, cx):
    v = val(E, st, args[0])
    l = places(E, st, v, args[1], cx.span)
    if l is not None:
        tt = payload_ty(E, cx.ty, "Some")
        return [(s, none(E, cx.ty) if i is None else some(E, cx.ty, adt(tt, 0, (refv(E.slice(s, v, ZERO, I(i))), refv(E.slice(s, v, I(i + 1), seqlen(v))))))) for s, i in l]
    p = pat_str(E, st, args[1])
    us = E.P.ty_by_s.get("usize")
    key = p if p is not None else args[1]
    i = app("indexof:find", (v, key), us)
    has = app("str_contains", (v, key), E.P.ty_by_s.get("bool"))
    out = []
    k = seqlen(p) if p is not None else ONE
    tt = payload_ty(E, cx.ty, "Some")
    for s, b in cases(E, st, has):
        if not b:
            out.append((s, none(E, cx.ty)))
            continue
        fx = s.facts.assume(ge0(T.sub(T.sub(seqlen(v), i), k)))
        if fx is None:
            continue
        s = s.with_facts(fx)
        out.append((s, some(E, cx.ty, adt(tt, 0, (refv(E.slice(s, v, ZERO, i)), refv(E.slice(s, v, add(i, k), seqlen(v))))))))
    return out


@model(("str", "split split_whitespace split_ascii_whitespace lines"))
def m_split(E, st, c, args, cx):
    v = val(E, st, args[0])
    key = c["name"] + ":" + (pat_key(E, st, args[1]) if len(args) > 1 else "")
    t = app("splitseq", (v, string(key)), None)
    # pieces are windows of v; consumers see arbitrary ones, in order
    return mk("iter", ("split", v, ZERO, string(key)), cx.ty)


_old_next = it_next


def it_next(E, st, it, item_ty):  # noqa: F811
    if it.a[0] == "split":
        v, pos = it.a[1], it.a[2]
        n = seqlen(v)
        us = E.P.ty_by_s.get("usize")
        out = []
        # done; `split` itself ends only after a piece that reaches the end of the text
        nm = T.const_str(it.a[3]) or ""
        fx = st.facts.assume(ge0(T.sub(T.sub(pos, n), ONE))) if nm.startswith("split:") else st.facts
        if fx is not None:
            out.append((st.with_facts(fx), None, it))
        # a piece v[pos..e], next position is e+1 (or past the end)
        e = fresh("piece_end", us)
        fx = st.facts
        for b in (ge0(T.sub(n, pos)), ge0(T.sub(e, pos)), ge0(T.sub(n, e))):
            fx = fx.assume(b) if fx is not None else None
        if fx is not None:
            s = st.with_facts(fx)
            out.append((s, refv(E.slice(s, v, pos, e)), mk("iter", ("split", v, add(e, ONE), it.a[3]), it.ty)))
        return out
    return _old_next(E, st, it, item_ty)


@model(("str", "to_lowercase to_uppercase to_ascii_lowercase to_ascii_uppercase"))
def m_case(E, st, c, args, cx):
    v = val(E, st, args[0])
    s = const_str(v)
    low = "lower" in c["name"]
    if s is not None:
        return string(s.lower() if low else s.upper())
    if "ascii" in c["name"] or all_holds(E, st, v, "ascii"):
        return app("lower_ascii" if low else "upper", (v,), cx.ty)
    return app("lower" if low else "upper_u", (v,), cx.ty)


@model(("str", "eq_ignore_ascii_case"))
def m_eqic(E, st, c, args, cx):
    l = []
    for a in args[:2]:
        v = val(E, st, a)
        s = const_str(v)
        l.append(string(s.lower()) if s is not None and s.isascii() else app("lower_ascii", (v,), E.P.ty_by_s.get("std::string::String")))
    return eq_term(E, st, l[0], l[1])


@model(("str seq", "make_ascii_uppercase make_ascii_lowercase"))
def m_make_case(E, st, c, args, cx):
    up = "upper" in c["name"]
    return mutate(E, st, args[0], lambda s, v: [(s, app("upper" if up else "lower_ascii", (v,), v.ty if v.ty is not None else E.P.ty_by_s.get("std::string::String")), U(cx))])


@model(("*", "eq ne"))
def m_eq(E, st, c, args, cx):
    P = E.P
    t0 = cx.argty[0]
    if t0 is None:
        return None
    b = P.strip(t0)
    cc = P.cat(b)
    if c.get("inst") is not None and cc not in ("str", "seq", "rat", "big", "int", "char", "bool"):
        return None
    x, y = E.strip(st, args[0]), E.strip(st, args[1])
    if cc == "bool":
        r = E.binop(st, "Eq", x, y, b, cx.ty)
    else:
        r = eq_term(E, st, x, y)
    return bnot(r) if c["name"] == "ne" else r


def cmp_pair(E, st, args):
    return E.strip(st, args[0]), E.strip(st, args[1])


@model(("rat big int char", "lt le gt ge"))
def m_lt(E, st, c, args, cx):
    x, y = cmp_pair(E, st, args)
    n = c["name"]
    d = T.sub(y, x)
    return {"lt": lambda: gt0(d), "le": lambda: ge0(d), "gt": lambda: gt0(neg(d)), "ge": lambda: ge0(neg(d))}[n]()


@model(("rat big int char", "cmp partial_cmp"))
def m_cmp(E, st, c, args, cx):
    x, y = cmp_pair(E, st, args)
    P = E.P
    oty = cx.ty
    if c["name"] == "partial_cmp":
        oty = payload_ty(E, cx.ty, "Some")
    out = []
    for nm, cond in (("Less", gt0(T.sub(y, x))), ("Equal", eq0(T.sub(x, y))), ("Greater", gt0(T.sub(x, y)))):
        fx = st.facts.assume(cond)
        if fx is not None:
            r = adt(oty, P.variant_index(oty, nm), ())
            out.append((st.with_facts(fx), some(E, cx.ty, r) if oty != cx.ty else r))
    return out


@model(("rat big int char", "max min"))
def m_max(E, st, c, args, cx):
    x, y = args[0], args[1]
    if x.op == "refv" or y.op == "refv" or x.op == "iter":
        return None
    out = []
    for s, b in cases(E, st, ge0(T.sub(y, x))):
        # ties: max returns the second, min the first argument
        if c["name"] == "max":
            out.append((s, y if b else x))
        else:
            out.append((s, x if b else y))
    return out


@model(("int", "clamp"))
def m_clamp(E, st, c, args, cx):
    x, lo, hi = args
    s = E.oblige(st, "assert", ge0(T.sub(hi, lo)), cx.span, "clamp min <= max")
    if s is None:
        return []
    out = []
    for s1, b in cases(E, s, gt0(T.sub(lo, x))):
        if b:
            out.append((s1, lo))
            continue
        for s2, b2 in cases(E, s1, gt0(T.sub(x, hi))):
            out.append((s2, hi if b2 else x))
    return out


# ---- numbers
def num_args(E, st, args):
    return [E.strip(st, a) for a in args]


def numty(E, cx, args):
    return E.P.strip(cx.ty)


@model(("rat big", "add sub mul neg div rem"))
def m_arith(E, st, c, args, cx):
    n = c["name"]
    v = num_args(E, st, args)
    ty = numty(E, cx, args)
    if n == "neg":
        return neg(v[0])
    x, y = v
    if n == "add":
        r = add(x, y)
    elif n == "sub":
        r = T.sub(x, y)
        p = (E.P.path(ty) or "")
        if p.endswith("BigUint"):
            s = E.oblige(st, "underflow", ge0(r), cx.span, "unsigned big subtraction")
            return [(s, r)] if s is not None else []
    elif n == "mul":
        r = mul(x, y, ty)
    else:
        s = E.oblige(st, "div0", bnot(eq0(y)), cx.span, "divisor is not zero")
        if s is None:
            return []
        if E.P.cat(ty) == "rat":
            if n == "div":
                r = x if y is ONE else app("rdiv", (x, y), ty)
            else:
                r = app("rrem", (x, y), ty)
        else:
            s = s.fork()
            r = intdiv(E, s, "Div" if n == "div" else "Rem", x, y, ty)
        return [(s, r)]
    return r


@model(("rat big int", "add_assign sub_assign mul_assign div_assign rem_assign"))
def m_arith_assign(E, st, c, args, cx):
    n = c["name"][:3]
    x = E.pointee(st, args[0])
    y = E.strip(st, args[1])
    bt = E.P.strip(cx.argty[0])
    ops = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}
    if E.P.cat(bt) == "int":
        return None
    from engine import Cx
    r = m_arith(E, st, {"name": n}, [x, y], Cx(c, bt, cx.span, [bt, bt], cx.fn))
    if isinstance(r, Term):
        r = [(st, r)]
    out = []
    for s, v in r:
        s = s.fork()
        E.set_pointee(s, args[0], v)
        out.append((s, U(cx)))
    return out


@model(("str", "add"))
def m_str_add(E, st, c, args, cx):
    return cat([val(E, st, args[0]), val(E, st, args[1])])


@model(("str", "add_assign"))
def m_str_add_assign(E, st, c, args, cx):
    x = val(E, st, args[1])
    return mutate(E, st, args[0], lambda s, v: [(s, cat([v, x]), U(cx))])


@model(("rat big int", "pow"))
def m_pow(E, st, c, args, cx):
    x, n = num_args(E, st, args)
    ty = numty(E, cx, args)
    if E.P.cat(ty) == "int":
        if x.op == "int" and n.op == "int" and n.a[0] < 200:
            r = I(x.a[0] ** n.a[0])
        else:
            r = app("pow", (x, n), None)
        s = E.oblige(st, "overflow", E.inrange(r, ty), cx.span, "integer power")
        return [(s, r)] if s is not None else []
    if n is ZERO:
        return ONE
    if n is ONE:
        return x
    s = st
    if E.P.cat(ty) == "rat" and st.facts.decide(ge0(n)) is not True:
        s = E.oblige(st, "div0", bor(bnot(eq0(x)), ge0(n)), cx.span, "zero to a negative power")
        if s is None:
            return []
    if x.op == "int" and n.op == "int" and 0 <= n.a[0] < 64:
        return [(s, I(x.a[0] ** n.a[0]))]
    r = app("pow", (x, n), ty)
    s = s.fork()
    if E.P.cat(ty) == "big" and s.facts.decide(ge0(T.sub(x, ONE))) is True:
        fx = s.facts.assume(ge0(T.sub(r, ONE)))
        if fx is not None:
            s.facts = fx
    return [(s, r)]


@model(("rat", "inv recip"))
def m_inv(E, st, c, args, cx):
    x = num_args(E, st, args)[0]
    s = E.oblige(st, "div0", bnot(eq0(x)), cx.span, "reciprocal of a non-zero number")
    return [(s, app("inv", (x,), numty(E, cx, args)))] if s is not None else []


@model(("T", "Ratio", "new"))
def m_ratio_new(E, st, c, args, cx):
    return None


@model(("*", "new_raw"))
def m_ratio_raw(E, st, c, args, cx):
    if E.P.cat(cx.ty) == "rat":
        if is_app(args[0], "numer") and is_app(args[1], "denom") and args[0].a[1] is args[1].a[1]:
            return args[0].a[1]
        return app("rawratio", (args[0], args[1]), cx.ty)
    return None


def ratio(E, st, n, d, cx):
    s = E.oblige(st, "div0", bnot(eq0(d)), cx.span, "denominator is not zero")
    if s is None:
        return []
    if d is ONE:
        return [(s, n)]
    if is_app(n, "numer") and is_app(d, "denom") and n.a[1] is d.a[1]:
        return [(s, n.a[1])]
    return [(s, app("ratio", (n, d), cx.ty))]


_m_new_prev = TABLE[("*", "new")]


@model(("*", "new"))
def m_new2(E, st, c, args, cx):
    if E.P.cat(cx.ty) == "rat" and len(args) == 2:
        return ratio(E, st, args[0], args[1], cx)
    if (E.P.path(cx.ty) or "").endswith("RangeInclusive"):
        return app("rangeincl", (args[0], args[1]), cx.ty)
    return _m_new_prev(E, st, c, args, cx)


@model(("rat", "numer denom"))
def m_numer(E, st, c, args, cx):
    x = num_args(E, st, args)[0]
    return refv(numden(E, st, x, c["name"]))


def bigty(E):
    return next((i for i, t in enumerate(E.P.tys) if t["k"] == "adt" and t["path"].endswith("BigInt")), None)


def numden(E, st, x, which):
    if x.op == "int" or T.is_intlike(x):
        return x if which == "numer" else ONE
    return app(which, (x,), bigty(E))


@model(("rat", "into_raw into_parts"))
def m_into_raw(E, st, c, args, cx):
    x = args[0]
    return adt(cx.ty, 0, (numden(E, st, x, "numer"), numden(E, st, x, "denom")))


@model(("rat big int", "is_zero"))
def m_is_zero(E, st, c, args, cx):
    return eq0(num_args(E, st, args)[0])


@model(("rat big int", "is_one"))
def m_is_one(E, st, c, args, cx):
    return eq0(T.sub(num_args(E, st, args)[0], ONE))


@model(("rat big int", "is_negative"))
def m_is_neg(E, st, c, args, cx):
    return gt0(neg(num_args(E, st, args)[0]))


@model(("rat big int", "is_positive"))
def m_is_pos(E, st, c, args, cx):
    return gt0(num_args(E, st, args)[0])


@model("num::Zero::zero", "num::traits::Zero::zero", "num::zero")
def m_zero(E, st, c, args, cx):
    return ZERO


@model("num::One::one", "num::traits::One::one", "num::one")
def m_one(E, st, c, args, cx):
    return ONE


@model(("rat big int", "abs magnitude unsigned_abs"))
def m_abs(E, st, c, args, cx):
    x = num_args(E, st, args)[0]
    fx = st.facts
    if fx.decide(ge0(x)) is True:
        r = x
    elif fx.decide(ge0(neg(x))) is True:
        r = neg(x)
    else:
        if x.op == "lin" and lin(x)[0] == 0 and all(v < 0 for v in lin(x)[1].values()):
            x = neg(x)
        r = app("abs", (x,), numty(E, cx, args))
    if E.P.cat(E.P.strip(cx.ty)) == "int":
        s = E.oblige(st, "overflow", E.inrange(r, E.P.strip(cx.ty)), cx.span, "abs")
        return [(s, r)] if s is not None else []
    return refv(r) if E.P.k(cx.ty) == "ref" else r


@model(("rat big int", "signum"))
def m_signum(E, st, c, args, cx):
    x = num_args(E, st, args)[0]
    out = []
    for cond, v in ((gt0(x), ONE), (eq0(x), ZERO), (gt0(neg(x)), I(-1))):
        fx = st.facts.assume(cond)
        if fx is not None:
            out.append((st.with_facts(fx), v))
    return out


@model(("*", "from_integer"))
def m_from_integer(E, st, c, args, cx):
    if E.P.cat(cx.ty) == "rat":
        return E.strip(st, args[0])
    return None


@model(("big", "div_rem div_floor mod_floor div_mod_floor div_euclid rem_euclid"))
def m_div_rem(E, st, c, args, cx):
    n = c["name"]
    x, y = num_args(E, st, args)
    s = E.oblige(st, "div0", bnot(eq0(y)), cx.span, "divisor is not zero")
    if s is None:
        return []
    if n != "div_rem" and not (s.facts.decide(ge0(x)) is True and s.facts.decide(ge0(y)) is True):
        return None
    ty = E.P.strip(cx.argty[0])
    s = s.fork()
    if n in ("div_floor", "div_euclid"):
        return [(s, intdiv(E, s, "Div", x, y, ty))]
    if n in ("mod_floor", "rem_euclid"):
        return [(s, intdiv(E, s, "Rem", x, y, ty))]
    q = intdiv(E, s, "Div", x, y, ty)
    return [(s, adt(cx.ty, 0, (q, intdiv(E, s, "Rem", x, y, ty))))]


@model(("rat", "is_integer"))
def m_isint(E, st, c, args, cx):
    x = num_args(E, st, args)[0]
    if T.is_intlike(x):
        return TRUE
    return app("isint", (x,), cx.ty)


@model(("rat", "to_integer round floor ceil trunc fract"))
def m_toint(E, st, c, args, cx):
    x = num_args(E, st, args)[0]
    n = c["name"]
    if T.is_intlike(x):
        return ZERO if n == "fract" else x
    if n == "to_integer":
        if x.op == "app" and x.a[0] in ("round", "floor", "ceil", "trunc"):
            return x
        n = "trunc"
    # integers, whatever their nominal type
    return app(n, (x,), bigty(E) if n != "fract" else cx.ty)


@model(("big int", "is_even is_odd"))
def m_even(E, st, c, args, cx):
    x = num_args(E, st, args)[0]
    r = app("even", (x,), cx.ty)
    return r if c["name"] == "is_even" else bnot(r)


@model(("big int", "to_biguint"))
def m_to_biguint(E, st, c, args, cx):
    x = num_args(E, st, args)[0]
    return [(s, some(E, cx.ty, x) if b else none(E, cx.ty)) for s, b in cases(E, st, ge0(x))]


@model(("big int rat", "to_bigint"))
def m_to_bigint(E, st, c, args, cx):
    return some(E, cx.ty, num_args(E, st, args)[0])


@model(("big int", "to_u8 to_u16 to_u32 to_u64 to_usize to_i8 to_i16 to_i32 to_i64 to_isize to_u128 to_i128"))
def m_to_prim(E, st, c, args, cx):
    x = num_args(E, st, args)[0]
    t = payload_ty(E, cx.ty, "Some")
    return [(s, some(E, cx.ty, x) if b else none(E, cx.ty)) for s, b in cases(E, st, E.inrange(x, t))]


@model(("*", "from into"))
def m_from(E, st, c, args, cx):
    P = E.P
    if len(args) != 1:
        return None
    d = P.cat(cx.ty)
    at = cx.argty[0] if cx.argty[0] is not None else args[0].ty
    s = P.cat(at) if isinstance(at, int) else None
    if d in ("int", "big", "rat", "char") and s in ("int", "big", "rat", "char"):
        return args[0]
    if d == "int" and s == "bool":
        return E.cast(st, "IntToInt", args[0], cx.ty, at)
    if d == "rat" and isinstance(at, int) and P.k(at) == "tuple":
        t = args[0]
        ft = P.fields(at)
        return ratio(E, st, fld(t, 0, 0, ft[0]), fld(t, 0, 1, ft[1]), cx)
    b = P.cat(P.strip(at)) if isinstance(at, int) else None
    if d == "str":
        if b == "str":
            return val(E, st, args[0])
        if b == "char":
            return lit([val(E, st, args[0])])
    if d == "seq" and b in ("seq", "str"):
        return val(E, st, args[0])
    if at == cx.ty:
        return args[0]
    if d == "box":
        return box(args[0])
    if d == "option":
        return some(E, cx.ty, args[0])
    if d in ("seq",) and s == "seq":
        return args[0]
    if c.get("name") == "into" and c.get("inst") is not None:
        return None
    return None


@model(("*", "try_from try_into"))
def m_try_from(E, st, c, args, cx):
    P = E.P
    if c.get("inst") is not None and P.cat(cx.argty[0] or cx.ty) not in ("int", "char", "big"):
        return None
    if P.cat(cx.ty) != "result":
        return None
    t = payload_ty(E, cx.ty, "Ok")
    if P.cat(t) not in ("int", "char", "big"):
        return None
    x = E.strip(st, args[0])
    out = []
    for s, b in cases(E, st, E.inrange(x, t)):
        out.append((s, ok(E, cx.ty, x) if b else err(E, cx.ty, E.default("tryfrom_err", payload_ty(E, cx.ty, "Err")))))
    return out


@model(("int", "checked_add checked_sub checked_mul checked_div checked_rem checked_pow"))
def m_checked(E, st, c, args, cx):
    n = c["name"][8:]
    x, y = args
    t = payload_ty(E, cx.ty, "Some")
    if n in ("div", "rem"):
        out = []
        for s, z in cases(E, st, eq0(y)):
            if z:
                out.append((s, none(E, cx.ty)))
            else:
                s = s.fork()
                out.append((s, some(E, cx.ty, intdiv(E, s, "Div" if n == "div" else "Rem", x, y, t))))
        return out
    r = {"add": lambda: add(x, y), "sub": lambda: T.sub(x, y), "mul": lambda: mul(x, y, t),
         "pow": lambda: I(x.a[0] ** y.a[0]) if x.op == "int" and y.op == "int" and y.a[0] < 200 else app("pow", (x, y), t)}[n]()
    return [(s, some(E, cx.ty, r) if b else none(E, cx.ty)) for s, b in cases(E, st, E.inrange(r, t))]


@model(("int", "saturating_add saturating_sub saturating_mul"))
def m_saturating(E, st, c, args, cx):
    n = c["name"][11:]
    x, y = args
    r = {"add": lambda: add(x, y), "sub": lambda: T.sub(x, y), "mul": lambda: mul(x, y, cx.ty)}[n]()
    lo, hi = E.P.irange(cx.ty)
    out = []
    for s, b in cases(E, st, ge0(T.sub(r, I(lo)))):
        if not b:
            out.append((s, I(lo)))
            continue
        for s2, b2 in cases(E, s, ge0(T.sub(I(hi), r))):
            out.append((s2, r if b2 else I(hi)))
    return out


@model(("int", "wrapping_add wrapping_sub wrapping_mul"))
def m_wrapping(E, st, c, args, cx):
    n = c["name"][9:]
    x, y = args
    r = {"add": lambda: add(x, y), "sub": lambda: T.sub(x, y), "mul": lambda: mul(x, y, cx.ty)}[n]()
    if st.facts.decide(E.inrange(r, cx.ty)) is True:
        return r
    if r.op == "int":
        return E.cast(st, "IntToInt", r, cx.ty, cx.ty)
    return app("wrap", (r,), cx.ty)


@model(("int", "abs_diff"))
def m_abs_diff(E, st, c, args, cx):
    x, y = args
    return [(s, T.sub(x, y) if b else T.sub(y, x)) for s, b in cases(E, st, ge0(T.sub(x, y)))]


@model(("big", "to_str_radix"))
def m_to_str_radix(E, st, c, args, cx):
    x = num_args(E, st, args[:1])[0]
    r = args[1]
    s = E.oblige(st, "radix", band(ge0(T.sub(r, I(2))), ge0(T.sub(I(36), r))), cx.span, "radix within 2..=36")
    return [(s, app("radixstr", (x, r), cx.ty))] if s is not None else []


def written(E, st, v, radix, t):
    """the integer a string is known to be the representation of in this radix"""
    while v.op == "app" and v.a[0] in ("upper", "lower_ascii", "lower") + VIEWS and len(v.a) == 2:
        v = v.a[1]
    if is_app(v, "radixstr") and v.a[2] is radix:
        return v.a[1]
    if is_app(v, "display") and radix is I(10) and isinstance(v.a[1].ty, int) and E.P.cat(v.a[1].ty) in ("int", "big") and len(v.a) == 2 and E.P.cat(t) == E.P.cat(v.a[1].ty):
        return v.a[1]
    return None


def digit(E, fx, e, r):
    """is the character a digit in the radix?  None: depends"""
    maybe = False
    for lo, hi, off in ((48, 57, 48), (97, 122, 87), (65, 90, 55)):
        a, b, c = fx.decide(ge0(T.sub(e, I(lo)))), fx.decide(ge0(T.sub(I(hi), e))), fx.decide(gt0(T.sub(T.add(r, I(off)), e)))
        if a is True and b is True and c is True:
            return True
        if not (a is False or b is False or c is False):
            maybe = True
    return None if maybe else False


def numeral(E, fx, v, r, big):
    """is the literal text an integer in the radix?"""
    els = const_elems(v)
    if els is None:
        return None
    if not els:
        return False
    ds = [digit(E, fx, e, r) for e in els]
    if all(d is True for d in ds):
        return True if big else None
    for i, (e, d) in enumerate(zip(els, ds)):
        # a sign may come first; underscores may follow a digit
        other = (43, 45) if i == 0 and len(els) > 1 else (95,) if i and big else ()
        if d is False and all(fx.decide(eq0(T.sub(e, I(k)))) is False for k in other):
            return False
    return None


def num_cases(E, st, okb, v, r, big):
    k = numeral(E, st.facts, v, r, big)
    if k is None:
        return cases(E, st, okb)
    fx = st.facts.assume(okb, k)
    return [(st if fx is None else st.with_facts(fx), k)]


@model(("*", "parse_bytes"))
def m_parse_bytes(E, st, c, args, cx):
    v = val(E, st, args[0])
    s = E.oblige(st, "radix", band(ge0(T.sub(args[1], I(2))), ge0(T.sub(I(36), args[1]))), cx.span, "radix within 2..=36")
    if s is None:
        return []
    w = written(E, st, v, args[1], payload_ty(E, cx.ty, "Some"))
    if w is not None and E.P.cat(payload_ty(E, cx.ty, "Some")) == "big":
        return [(s, some(E, cx.ty, w))]
    okb = app("isnum", (v, args[1]), E.P.ty_by_s.get("bool"))
    return [(s2, some(E, cx.ty, app("parseint", (v, args[1]), payload_ty(E, cx.ty, "Some"))) if b else none(E, cx.ty)) for s2, b in num_cases(E, s, okb, v, args[1], True)]


@model(("*", "from_str_radix"))
def m_from_str_radix(E, st, c, args, cx):
    v = val(E, st, args[0])
    s = E.oblige(st, "radix", band(ge0(T.sub(args[1], I(2))), ge0(T.sub(I(36), args[1]))), cx.span, "radix within 2..=36")
    if s is None:
        return []
    t = payload_ty(E, cx.ty, "Ok")
    w = written(E, st, v, args[1], t)
    if w is not None and E.P.cat(t) == "big":
        return [(s, ok(E, cx.ty, w))]
    okb = app("isnum:" + E.P.tys[t]["s"], (v, args[1]), E.P.ty_by_s.get("bool"))
    return [(s2, ok(E, cx.ty, app("parseint", (v, args[1]), t)) if b else err(E, cx.ty, E.default("parse_err", payload_ty(E, cx.ty, "Err")))) for s2, b in num_cases(E, s, okb, v, args[1], E.P.cat(t) == "big")]


@model(("str", "parse"))
def m_parse(E, st, c, args, cx):
    v = val(E, st, args[0])
    t = payload_ty(E, cx.ty, "Ok")
    if E.P.cat(t) not in ("int", "big"):
        return None
    w = written(E, st, v, I(10), t)
    if w is not None and E.P.cat(t) == "big":
        return ok(E, cx.ty, w)
    okb = app("isnum:" + E.P.tys[t]["s"], (v, I(10)), E.P.ty_by_s.get("bool"))
    return [(s2, ok(E, cx.ty, app("parseint", (v, I(10)), t)) if b else err(E, cx.ty, E.default("parse_err", payload_ty(E, cx.ty, "Err")))) for s2, b in num_cases(E, st, okb, v, I(10), E.P.cat(t) == "big")]


@model(("*", "from_utf8"))
def m_from_utf8(E, st, c, args, cx):
    v = val(E, st, args[0])
    r = ok(E, cx.ty, refv(v) if E.P.k(payload_ty(E, cx.ty, "Ok")) == "ref" else v)
    if all_holds(E, st, v, "ascii"):
        return r
    return [(st.fork(), r), (st.fork(), err(E, cx.ty, E.default("utf8_err", payload_ty(E, cx.ty, "Err"))))]


# ---- chars
def between(c, a, b):
    return band(ge0(T.sub(c, I(ord(a)))), ge0(T.sub(I(ord(b)), c)))


def charval(E, st, a):
    return E.strip(st, a)


@model(("char int", "is_ascii"))
def m_is_ascii(E, st, c, args, cx):
    return ge0(T.sub(I(127), charval(E, st, args[0])))


@model(("char int", "is_ascii_digit"))
def m_is_digit(E, st, c, args, cx):
    return between(charval(E, st, args[0]), "0", "9")


@model(("char int", "is_ascii_lowercase"))
def m_is_lower(E, st, c, args, cx):
    return between(charval(E, st, args[0]), "a", "z")


@model(("char int", "is_ascii_uppercase"))
def m_is_upper(E, st, c, args, cx):
    return between(charval(E, st, args[0]), "A", "Z")


def fork_any(E, st, conds):
    """[(state, bool)]: true iff one of the conditions holds"""
    out = []
    cur = st
    for b in conds:
        nxt = None
        for s, v in cases(E, cur, b):
            if v:
                out.append((s, TRUE))
            else:
                nxt = s
        if nxt is None:
            return out
        cur = nxt
    out.append((cur, FALSE))
    return out


@model(("char int", "is_ascii_alphabetic"))
def m_is_alpha(E, st, c, args, cx):
    x = charval(E, st, args[0])
    return fork_any(E, st, [between(x, "a", "z"), between(x, "A", "Z")])


@model(("char int", "is_ascii_alphanumeric"))
def m_is_alnum(E, st, c, args, cx):
    x = charval(E, st, args[0])
    return fork_any(E, st, [between(x, "a", "z"), between(x, "A", "Z"), between(x, "0", "9")])


@model(("char int", "is_ascii_whitespace"))
def m_is_ws(E, st, c, args, cx):
    x = charval(E, st, args[0])
    return fork_any(E, st, [eq0(T.sub(x, I(k))) for k in (32, 9, 10, 12, 13)])


@model(("char", "is_whitespace"))
def m_is_uws(E, st, c, args, cx):
    x = charval(E, st, args[0])
    if st.facts.decide(ge0(T.sub(I(127), x))) is True:
        return fork_any(E, st, [eq0(T.sub(x, I(k))) for k in (32, 9, 10, 11, 12, 13)])
    return app("is_whitespace", (x,), cx.ty)


@model(("char int", "to_ascii_uppercase to_ascii_lowercase"))
def m_char_upper(E, st, c, args, cx):
    x = charval(E, st, args[0])
    up = "upper" in c["name"]
    out = []
    for s, b in cases(E, st, between(x, "a", "z") if up else between(x, "A", "Z")):
        out.append((s, T.sub(x, I(32)) if up else add(x, I(32))) if b else (s, x))
    return out


@model(("char", "to_digit"))
def m_to_digit(E, st, c, args, cx):
    x = args[0]
    r = args[1]
    s = E.oblige(st, "radix", ge0(T.sub(I(36), r)), cx.span, "digit radix")
    if s is None:
        return []
    d = app("digit", (x,), payload_ty(E, cx.ty, "Some"))
    isd = app("isdigit", (x, r), E.P.ty_by_s.get("bool"))
    out = []
    for s2, b in cases(E, s, isd):
        if b:
            fx = s2.facts.assume(ge0(T.sub(T.sub(r, d), ONE)))
            if fx is not None:
                out.append((s2.with_facts(fx), some(E, cx.ty, d)))
        else:
            out.append((s2, none(E, cx.ty)))
    return out


@model(("char", "is_digit"))
def m_char_isdigit(E, st, c, args, cx):
    s = E.oblige(st, "radix", ge0(T.sub(I(36), args[1])), cx.span, "digit radix")
    return [(s, app("isdigit", (args[0], args[1]), cx.ty))] if s is not None else []


# ---- display / formatting
@model(("*", "to_string"))
def m_to_string(E, st, c, args, cx):
    v = E.strip(st, args[0])
    if v.op == "bool":
        return string("true" if v.a[0] else "false")
    return display(E, st, v)


@model("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug",
       "core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_upper_hex",
       "core::fmt::rt::Argument::<'_>::new_octal", "core::fmt::rt::Argument::<'_>::new_binary")
def m_arg(E, st, c, args, cx):
    return mk("app", ("fmtarg", c["name"][4:], args[0]), None)


@model("core::fmt::rt::Argument::<'_>::from_usize")
def m_arg_usize(E, st, c, args, cx):
    return mk("app", ("fmtarg", "usize", E.strip(st, args[0])), None)


@model("std::fmt::Arguments::<'a>::new")
def m_fmtnew(E, st, c, args, cx):
    return app("fmt", (fmt_args(E, st, args[0], args[1]),), cx.ty)


@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def m_fmtstr(E, st, c, args, cx):
    return app("fmt", (val(E, st, args[0]),), cx.ty)


@model("std::fmt::format", "alloc::fmt::format")
def m_format(E, st, c, args, cx):
    a = args[0]
    return a.a[1] if is_app(a, "fmt") else fresh("formatted", cx.ty)


# ---- memory
@model("std::mem::swap", "core::mem::swap")
def m_swap(E, st, c, args, cx):
    x, y = E.pointee(st, args[0]), E.pointee(st, args[1])
    st = st.fork()
    E.set_pointee(st, args[0], y)
    E.set_pointee(st, args[1], x)
    return [(st, U(cx))]


@model("std::mem::replace", "core::mem::replace")
def m_replace(E, st, c, args, cx):
    x = E.pointee(st, args[0])
    st = st.fork()
    E.set_pointee(st, args[0], args[1])
    return [(st, x)]


@model("std::mem::take", "core::mem::take")
def m_mtake(E, st, c, args, cx):
    return m_take(E, st, c, args, cx)


@model("std::mem::drop", "core::mem::drop")
def m_drop(E, st, c, args, cx):
    ty = cx.argty[0]
    if ty is not None and tracked(E.P, ty):
        st = st.fork()
        p = E.newcell(st, args[0])
        return [(s, U(cx)) for s in E.drop_value(st, args[0], ty, p.a[0], p.a[1], cx.span)]
    return U(cx)


@model("std::mem::forget", "core::mem::forget")
def m_forget(E, st, c, args, cx):
    return U(cx)


@model(("option", "replace"))
def m_optreplace(E, st, c, args, cx):
    x = E.pointee(st, args[0])
    st = st.fork()
    E.set_pointee(st, args[0], some(E, cx.ty, args[1]))
    return [(st, x)]


@model(("option", "insert"))
def m_optinsert(E, st, c, args, cx):
    oty = E.P.strip(cx.argty[0])
    p = args[0]
    out = []
    vi = vidx(E, oty, "Some")
    pt = E.P.fields(oty, vi)[0]
    fp = lambda: mk("ptr", (p.a[0], p.a[1] + (("f", vi, 0, oty, pt),)) if p.op == "ptr" else (("H", p), (("f", vi, 0, oty, pt),)), None)
    st = st.fork()
    if c["name"] == "insert":
        E.set_pointee(st, p, some(E, oty, args[1]))
        return [(st, fp())]
    return None


@model("std::intrinsics::discriminant_value", "core::intrinsics::discriminant_value", "std::mem::discriminant")
def m_discr(E, st, c, args, cx):
    v = E.strip(st, args[0])
    t = v.ty if isinstance(v.ty, int) else E.P.strip(cx.argty[0])
    return E.discr(st, v, t)


@model("std::boxed::Box::<T>::new_uninit")
def m_new_uninit(E, st, c, args, cx):
    return box(UNINIT)


@model("std::boxed::box_assume_init_into_vec_unsafe")
def m_into_vec(E, st, c, args, cx):
    v = args[0]
    v = v.a[0] if v.op == "box" else unbox(v, None)
    # MaybeUninit { value: ManuallyDrop { value: [T; N] } }
    for _ in range(6):
        if v.op == "adt" and v.a[1]:
            fs = [x for x in v.a[1] if x.op not in ("uninit",)]
            if len(fs) >= 1:
                v = fs[-1]
                continue
        break
    return v


@model(("*", "into_vec"))
def m_into_vec2(E, st, c, args, cx):
    v = args[0]
    return v.a[0] if v.op == "box" else unbox(v, None)


@model("std::intrinsics::cold_path", "core::intrinsics::cold_path")
def m_cold(E, st, c, args, cx):
    return U(cx)


# ---- rusqlite
@model("rusqlite::Connection::query_row", "rusqlite::Connection::query_row_and_then")
def m_query_row(E, st, c, args, cx):
    from engine import Cx
    rowty = None
    f = args[3]
    if isinstance(f.ty, int) and E.P.k(f.ty) == "closure":
        inst = E.P.tys[f.ty].get("inst")
        if inst is not None:
            rowty = E.P.strip(E.P.fns[inst].locals[2])
    row = fresh("row", rowty)
    s1, s2 = st.fork(), st.fork()
    E.event(s1, "query_row", "rusqlite::Connection::query_row", args, row, cx.span, c, "db")
    et = payload_ty(E, cx.ty, "Err")
    x = E.default("dberr", et)
    out = []
    nr = E.P.variant_index(et, "QueryReturnedNoRows") if E.P.is_enum(et) else None
    if nr is not None:
        s3 = st.fork()
        E.event(s3, "query_row", "rusqlite::Connection::query_row", args, app("norows", ()), cx.span, c, "db")
        out.append((s3, err(E, cx.ty, adt(et, nr, ()))))
        s2.facts = s2.facts.exclude_variants(x, {nr})
    E.event(s2, "query_row", "rusqlite::Connection::query_row", args, app("failed", (x,)), cx.span, c, "db_err")
    out.append((s2, err(E, cx.ty, x)))
    out.extend(E.apply(s1, f, [refv(row)], cx.ty, cx.span))
    return out


@model(("T", "Row", "get get_unwrap"))
def m_row_get(E, st, c, args, cx):
    row = E.strip(st, args[0])
    i = E.strip(st, args[1])
    if c["name"] == "get_unwrap":
        x = app("col", (row, i), cx.ty)
        s = E.oblige(st, "unwrap", app("column_reads", (row, i), E.P.ty_by_s.get("bool")), cx.span, "the column holds a value of the type read")
        return [(s, x)] if s is not None else []
    if E.P.cat(cx.ty) != "result":
        return None
    t = payload_ty(E, cx.ty, "Ok")
    x = app("col", (row, i), t)
    s1, s2 = st.fork(), st.fork()
    if E.P.cat(t) == "str":
        # text of the history: only typed ASCII lines are ever stored (see DESIGN.md)
        s1.facts = s1.facts.with_all(x, "ascii")
    et = payload_ty(E, cx.ty, "Err")
    e = E.default("colerr", et)
    nr = E.P.variant_index(et, "QueryReturnedNoRows") if E.P.is_enum(et) else None
    if nr is not None:
        # reading a column of a row never reports that there are no rows
        s2.facts = s2.facts.exclude_variants(e, {nr})
    E.event(s2, "get", "rusqlite::Row::get", args, app("failed", (e,)), cx.span, c, "db_err")
    return [(s1, ok(E, cx.ty, x)), (s2, err(E, cx.ty, e))]


@model("rusqlite::OptionalExtension::optional")
def m_optional(E, st, c, args, cx):
    v = args[0]
    P = E.P
    t = v.ty
    out = []
    for nm in ("Ok", "Err"):
        vi = vidx(E, t, nm)
        fx = st.facts.know_variant(v, vi)
        if fx is None:
            continue
        s = st.with_facts(fx)
        x = fld(v, vi, 0, P.fields(t, vi)[0])
        oty = payload_ty(E, cx.ty, "Ok")
        if nm == "Ok":
            out.append((s, ok(E, cx.ty, some(E, oty, x))))
        else:
            nr = P.variant_index(x.ty, "QueryReturnedNoRows")
            f2 = s.facts.know_variant(x, nr)
            if f2 is not None:
                out.append((s.with_facts(f2), ok(E, cx.ty, none(E, oty))))
            f2 = s.facts.exclude_variants(x, {nr})
            if f2 is not None:
                out.append((s.with_facts(f2), err(E, cx.ty, x)))
    return out


# ---- crossterm
def m_queue(E, st, c, args, cx):
    """QueueableCommand::queue / ExecutableCommand::execute: an effect that may fail, returning self"""
    P = E.P
    if P.cat(cx.ty) != "result":
        return None
    cmd = E.freeze(st, args[1]) if len(args) > 1 else UNINIT
    return io_fork(E, st, c, [args[0], cmd], cx, args[0])


def io_fork(E, st, c, args, cx, value):
    """an external operation that succeeds or fails; the event's result says which"""
    P = E.P
    s1 = st.fork()
    s2 = st.fork()
    e = E.default("ioerr", payload_ty(E, cx.ty, "Err"))
    for s, b in ((s1, TRUE), (s2, app("failed", (e,)))):
        E.event(s, c["name"], c.get("rpath") or c.get("path"), args, b, cx.span, c, "external")
    return [(s1, ok(E, cx.ty, value)), (s2, err(E, cx.ty, e))]


def m_io_unit(E, st, c, args, cx):
    if E.P.cat(cx.ty) != "result":
        return None
    t = payload_ty(E, cx.ty, "Ok")
    if E.P.k(t) != "tuple" or E.P.tys[t]["tys"]:
        return None
    return io_fork(E, st, c, [E.freeze(st, a) if a.op == "ptr" and i else a for i, a in enumerate(args)], cx, adt(t, 0, ()))


for _p in ("crossterm::terminal::enable_raw_mode", "crossterm::terminal::disable_raw_mode", "<std::io::Stdout as std::io::Write>::flush", "<&std::io::Stdout as std::io::Write>::flush",
           "<std::io::StdoutLock<'_> as std::io::Write>::flush"):
    NAMED[_p] = m_io_unit


for _p in ("crossterm::QueueableCommand::queue", "crossterm::ExecutableCommand::execute", "<T as crossterm::QueueableCommand>::queue", "<T as crossterm::ExecutableCommand>::execute"):
    NAMED[_p] = m_queue


@model(("*", "is_empty"))
def m_flags_empty(E, st, c, args, cx):
    """bitflags-style newtype: no bit set"""
    P = E.P
    v = E.strip(st, args[0])
    t = v.ty if isinstance(v.ty, int) else (P.strip(cx.argty[0]) if cx.argty and cx.argty[0] is not None else None)
    for _ in range(4):
        if t is None or not P.is_struct(t):
            break
        fs = P.fields(t)
        if len(fs) != 1:
            break
        v = fld(v, 0, 0, fs[0])
        t = fs[0]
    if t is not None and P.cat(t) == "int" and v.op != "adt":
        return eq0(v)
    return None


# ---- places inside maps
def map_place(E, p, k, vty):
    """pointer to the value under a key"""
    s = (("k", k, vty),)
    return mk("ptr", (p.a[0], p.a[1] + s), None) if p.op == "ptr" else mk("ptr", (("H", p), s), None)


def map_value(E, st, m, k, vty):
    """the value under a key that is present"""
    while is_app(m, "mput") or is_app(m, "mdel"):
        t = eq_term(E, st, m.a[2], k)
        b = t if t in (True, False) else st.facts.decide(t)
        if is_app(m, "mput") and (m.a[2] is k or b is True):
            return m.a[3]
        if b is not False:
            break
        m = m.a[1]
    return app("mget", (m, k), vty)


@model(("map", "get_mut"))
def m_mapgetmut(E, st, c, args, cx):
    m = val(E, st, args[0])
    k = val(E, st, args[1])
    vty = E.P.strip(payload_ty(E, cx.ty, "Some"))
    return map_get(E, st, m, k, lambda s, v: some(E, cx.ty, map_place(E, args[0], k, vty)), lambda s: none(E, cx.ty), vty)


@model(("map", "entry"))
def m_entry(E, st, c, args, cx):
    return app("mentry", (args[0], args[1]), cx.ty)


@model(("T", "Entry", "or_insert or_insert_with or_default or_insert_with_key and_modify insert_entry"))
def m_orinsert(E, st, c, args, cx):
    e = args[0]
    if not is_app(e, "mentry"):
        return None
    P = E.P
    p, k = e.a[1], e.a[2]
    m = E.strip(st, p)
    mty = m.ty if isinstance(m.ty, int) else E.tyof(p) and P.strip(E.tyof(p))
    vty = P.tys[mty]["args"][1] if isinstance(mty, int) and P.cat(mty) == "map" else None
    nm = c["name"]
    out = []
    for s, had in map_get(E, st, m, k, lambda s, v: True, lambda s: False, vty):
        if nm == "and_modify":
            if not had:
                out.append((s, e))
                continue
            for s2, _ in E.apply(s, args[1], [map_place(E, p, k, vty)], None, cx.span):
                out.append((s2, e))
            continue
        if nm == "insert_entry":
            return None
        if had:
            out.append((s, map_place(E, p, k, vty)))
            continue
        if nm == "or_insert":
            new = [(s, args[1])]
        elif nm == "or_default":
            cc = P.cat(vty) if isinstance(vty, int) else None
            d = EMPTY if cc in ("str", "seq") else none(E, vty) if cc == "option" else FALSE if cc == "bool" else ZERO if cc in ("int", "big", "rat") else None
            if d is None:
                return None
            new = [(s, d)]
        else:
            new = E.apply(s, args[1], [refv(k)] if nm == "or_insert_with_key" else [], vty, cx.span)
        for s2, v in new:
            s2 = s2.fork()
            E.set_pointee(s2, p, app("mput", (E.strip(s2, p), k, v), mty))
            out.append((s2, map_place(E, p, k, vty)))
    return out


@model(("*", "nth"))
def m_nth(E, st, c, args, cx):
    """the k-th item of an iterator, k known"""
    k = args[1]
    if k.op != "int" or k.a[0] > 64:
        return None
    it = E.pointee(st, args[0])
    if it.op != "iter":
        it = to_iter(E, st, it, None)
    if it is None or E.P.cat(cx.ty) != "option":
        return None
    ity = payload_ty(E, cx.ty, "Some")
    out = []
    cur = [(st, it)]
    for i in range(k.a[0] + 1):
        nxt = []
        for s, j in cur:
            for s2, x, j2 in it_next(E, s, j, ity):
                if x is None or i == k.a[0]:
                    s2 = s2.fork()
                    E.set_pointee(s2, args[0], j2)
                    out.append((s2, none(E, cx.ty) if x is None else some(E, cx.ty, x)))
                else:
                    nxt.append((s2, j2))
        cur = nxt
    return out


@model(("option", "get_or_insert get_or_insert_with"))
def m_get_or_insert(E, st, c, args, cx):
    P = E.P
    oty = P.strip(cx.argty[0])
    p = args[0]
    sv, nv = vidx(E, oty, "Some"), vidx(E, oty, "None")
    pt = P.fields(oty, sv)[0]
    fp = mk("ptr", (p.a[0], p.a[1] + (("f", sv, 0, oty, pt),)) if p.op == "ptr" else (("H", p), (("f", sv, 0, oty, pt),)), None)
    v = E.strip(st, p)
    out = []
    for k, vi in ((True, sv), (False, nv)):
        s = st.fork()
        if v.op == "adt":
            if v.a[0] != vi:
                continue
        else:
            fx = s.facts.know_variant(v, vi)
            if fx is None:
                continue
            s.facts = fx
        if k:
            out.append((s, fp))
            continue
        for s2, x in ([(s, args[1])] if c["name"] == "get_or_insert" else E.apply(s, args[1], [], pt, cx.span)):
            s2 = s2.fork()
            E.set_pointee(s2, p, some(E, oty, x))
            out.append((s2, fp))
    return out


# ---------------------------------------------------------------- less common library functions
@model(("rat", "reduced"))
def m_reduced(E, st, c, args, cx):
    return num_args(E, st, args)[0]


@model(("rat", "checked_add checked_sub checked_mul checked_div"))
def m_rat_checked(E, st, c, args, cx):
    x, y = num_args(E, st, args)[:2]
    n = c["name"][8:]
    t = payload_ty(E, cx.ty, "Some")
    if n == "div":
        return [(s, none(E, cx.ty) if z else some(E, cx.ty, app("rdiv", (x, y), t))) for s, z in cases(E, st, eq0(y))]
    return some(E, cx.ty, {"add": lambda: add(x, y), "sub": lambda: T.sub(x, y), "mul": lambda: mul(x, y, t)}[n]())


@model(("map set", "clear"))
def m_mapclear(E, st, c, args, cx):
    t = E.P.strip(cx.argty[0]) if cx.argty[0] is not None else E.strip(st, args[0]).ty
    return mutate(E, st, args[0], lambda s, v: [(s, app("mempty" if E.P.cat(t) == "map" else "sempty", (), t), U(cx))])


@model(("map set", "is_empty"))
def m_mapempty(E, st, c, args, cx):
    m = val(E, st, args[0])
    if is_app(m, "mempty") or is_app(m, "sempty"):
        return TRUE
    if is_app(m, "mput") or is_app(m, "sput"):
        return FALSE
    return eq0(app("msize", (m,), E.P.ty_by_s.get("usize")))


@model(("map", "remove_entry"))
def m_mapremove_entry(E, st, c, args, cx):
    m, k = val(E, st, args[0]), val(E, st, args[1])
    pt = payload_ty(E, cx.ty, "Some")
    out = []
    for s, r in map_get(E, st, m, k, lambda s, v: some(E, cx.ty, adt(pt, 0, (k, v))), lambda s: none(E, cx.ty), E.P.fields(pt)[1]):
        s = s.fork()
        E.set_pointee(s, args[0], app("mdel", (m, k), m.ty))
        out.append((s, r))
    return out


_set_has = set_has


def set_has(E, st, m, k):  # noqa: F811
    if is_app(m, "sdel"):
        out = []
        for s, same in cases(E, st, eq_term(E, st, m.a[2], k)):
            out.extend([(s, False)] if same else set_has(E, s, m.a[1], k))
        return out
    return _set_has(E, st, m, k)


@model(("set", "remove"))
def m_setremove(E, st, c, args, cx):
    m, k = val(E, st, args[0]), val(E, st, args[1])
    out = []
    for s, has in set_has(E, st, m, k):
        if has:
            s = s.fork()
            E.set_pointee(s, args[0], app("sdel", (m, k), m.ty))
        out.append((s, B(has)))
    return out


@model(("seq str", "retain"), ("map set", "retain"))
def m_retain(E, st, c, args, cx):
    """elements of a known list one by one; else something shorter"""
    f = args[1]
    if not (isinstance(f.ty, int) and E.P.k(f.ty) == "closure") or not harmless_closure(E, f):
        return None
    v = E.strip(st, args[0])
    es = const_elems(v)
    if es is not None and len(es) <= 8 and not is_app(v, "mempty"):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, l in cur:
                for s2, r in E.apply(s, f, [e if E.P.cat(E.P.strip(cx.argty[0])) == "str" else refv(e)], E.P.ty_by_s.get("bool"), cx.span):
                    for s3, b in cases(E, s2, r):
                        nxt.append((s3, l + [e] if b else l))
            cur = nxt
        out = []
        for s, l in cur:
            out.extend(mutate(E, s, args[0], lambda s2, v, l=l: [(s2, lit(l), U(cx))]))
        return out
    r = fresh("retained", v.ty)
    if E.P.cat(E.P.strip(cx.argty[0])) in ("seq", "str"):
        fx = st.facts.assume(ge0(T.sub(seqlen(v), seqlen(r))))
        if fx is None:
            return []
        if all_holds(E, st, v, "ascii"):
            fx = fx.with_all(r, "ascii")
        st = st.with_facts(fx)
    return mutate(E, st, args[0], lambda s, v: [(s, r, U(cx))])


def cut(E, st, v, r, cx, text):
    """the states in which the range lies within v: [(state, lo, hi)]"""
    rb = range_bounds(E, st, r, seqlen(v))
    if rb is None:
        return None
    lo, hi = rb
    s = E.oblige(st, "slice", ge0(T.sub(hi, lo)), cx.span, "slice start <= end")
    s = s and E.oblige(s, "slice", ge0(T.sub(seqlen(v), hi)), cx.span, "slice end <= len")
    if s is not None and text:
        for b in (lo, hi):
            s = s and E.oblige(s, "boundary", boundary(E, s, v, b), cx.span, "slice at a character boundary")
    return [(s, lo, hi)] if s is not None else []


@model(("seq str", "drain"))
def m_drain(E, st, c, args, cx):
    v = E.strip(st, args[0])
    text = E.P.cat(E.P.strip(cx.argty[0])) == "str"
    ps = cut(E, st, v, args[1], cx, text)
    if ps is None:
        return None
    out = []
    for s, lo, hi in ps:
        s = s.fork()
        E.set_pointee(s, args[0], T.cat([E.slice(s, v, ZERO, lo), E.slice(s, v, hi, seqlen(v))]))
        out.append((s, it_seq(E.slice(s, v, lo, hi), cx.ty)))
    return out


@model(("str", "replace_range"))
def m_replace_range(E, st, c, args, cx):
    v = E.strip(st, args[0])
    ps = cut(E, st, v, args[1], cx, True)
    if ps is None:
        return None
    out = []
    for s, lo, hi in ps:
        s = s.fork()
        E.set_pointee(s, args[0], T.cat([E.slice(s, v, ZERO, lo), val(E, s, args[2]), E.slice(s, v, hi, seqlen(v))]))
        out.append((s, U(cx)))
    return out


@model(("str", "split_off"))
def m_str_split_off(E, st, c, args, cx):
    v = val(E, st, args[0])
    s = E.oblige(st, "boundary", boundary(E, st, v, args[1]), cx.span, "split at a character boundary")
    s = s and E.oblige(s, "bounds", ge0(T.sub(seqlen(v), args[1])), cx.span, "split_off index")
    if s is None:
        return []
    s = s.fork()
    E.set_pointee(s, args[0], E.slice(s, v, ZERO, args[1]))
    return [(s, E.slice(s, v, args[1], seqlen(v)))]


@model(("seq str", "split_at"))
def m_split_at(E, st, c, args, cx):
    v = val(E, st, args[0])
    s = E.oblige(st, "bounds", ge0(T.sub(seqlen(v), args[1])), cx.span, "split_at index")
    if s is not None and E.P.cat(E.P.strip(cx.argty[0])) == "str":
        s = E.oblige(s, "boundary", boundary(E, s, v, args[1]), cx.span, "split at a character boundary")
    if s is None:
        return []
    return [(s, adt(cx.ty, 0, (refv(E.slice(s, v, ZERO, args[1])), refv(E.slice(s, v, args[1], seqlen(v))))))]


@model(("seq", "split_first split_last"))
def m_split_first(E, st, c, args, cx):
    v = val(E, st, args[0])
    n = seqlen(v)
    pt = payload_ty(E, cx.ty, "Some")
    et = E.P.strip(E.P.fields(pt)[0])
    out = []
    for s, empty in cases(E, st, eq0(n)):
        if empty:
            out.append((s, none(E, cx.ty)))
        elif c["name"] == "split_first":
            out.append((s, some(E, cx.ty, adt(pt, 0, (refv(E.elem(s, v, ZERO, et)), refv(E.slice(s, v, ONE, n)))))))
        else:
            l = T.sub(n, ONE)
            out.append((s, some(E, cx.ty, adt(pt, 0, (refv(E.elem(s, v, l, et)), refv(E.slice(s, v, ZERO, l)))))))
    return out


@model(("seq", "swap_remove"))
def m_swap_remove(E, st, c, args, cx):
    v = val(E, st, args[0])
    n = seqlen(v)
    s = E.oblige(st, "bounds", ge0(T.sub(T.sub(n, args[1]), ONE)), cx.span, "swap_remove index")
    if s is None:
        return []
    out = []
    last = T.sub(n, ONE)
    for s2, same in cases(E, s, eq0(T.sub(args[1], last))):
        s2 = s2.fork()
        x = E.elem(s2, v, args[1], cx.ty)
        nv = E.slice(s2, v, ZERO, last) if same else T.cat([E.slice(s2, v, ZERO, args[1]), lit([E.elem(s2, v, last, cx.ty)]), E.slice(s2, v, add(args[1], ONE), last)])
        E.set_pointee(s2, args[0], nv)
        out.append((s2, x))
    return out


@model(("seq", "resize"))
def m_resize(E, st, c, args, cx):
    def f(s, v):
        out = []
        for s2, b in cases(E, s, ge0(T.sub(seqlen(v), args[1]))):
            if b:
                out.append((s2, E.slice(s2, v, ZERO, args[1]), U(cx)))
            else:
                d = T.sub(args[1], seqlen(v))
                if d.op != "int" or d.a[0] > 64:
                    return None
                out.append((s2, T.cat([v, lit([args[2]] * d.a[0])]), U(cx)))
        return out
    if f(st, E.strip(st, args[0])) is None:
        return None
    return mutate(E, st, args[0], f)


@model("std::char::from_digit", "std::char::methods::<impl char>::from_digit", "core::char::methods::<impl char>::from_digit", "core::char::from_digit")
def m_from_digit(E, st, c, args, cx):
    d, r = args
    s = E.oblige(st, "radix", ge0(T.sub(I(36), r)), cx.span, "digit radix")
    if s is None:
        return []
    t = payload_ty(E, cx.ty, "Some")
    out = []
    for s2, b in cases(E, s, ge0(T.sub(T.sub(r, d), ONE))):
        if not b:
            out.append((s2, none(E, cx.ty)))
            continue
        for s3, small in cases(E, s2, ge0(T.sub(I(9), d))):
            out.append((s3, some(E, cx.ty, add(d, I(48 if small else 87)))))
    return out


@model(("int", "div_ceil rem_euclid div_euclid"))
def m_int_div(E, st, c, args, cx):
    x, y = args
    s = E.oblige(st, "div0", bnot(eq0(y)), cx.span, "divisor is not zero")
    if s is None:
        return []
    if s.facts.decide(ge0(x)) is not True or s.facts.decide(ge0(y)) is not True:
        return None
    s = s.fork()
    n = c["name"]
    if n == "div_ceil":
        return [(s, intdiv(E, s, "Div", T.sub(add(x, y), ONE), y, cx.ty))]
    return [(s, intdiv(E, s, "Rem" if n == "rem_euclid" else "Div", x, y, cx.ty))]


@model(("int", "checked_add_signed checked_sub_signed checked_add_unsigned checked_sub_unsigned"))
def m_checked_signed(E, st, c, args, cx):
    r = add(*args) if "add" in c["name"] else T.sub(*args)
    t = payload_ty(E, cx.ty, "Some")
    return [(s, some(E, cx.ty, r) if b else none(E, cx.ty)) for s, b in cases(E, st, E.inrange(r, t))]


@model(("int", "saturating_add_signed saturating_sub_signed saturating_add_unsigned saturating_sub_unsigned"))
def m_saturating_signed(E, st, c, args, cx):
    r = add(*args) if "add" in c["name"] else T.sub(*args)
    lo, hi = E.P.irange(cx.ty)
    out = []
    for s, b in cases(E, st, ge0(T.sub(r, I(lo)))):
        if not b:
            out.append((s, I(lo)))
            continue
        for s2, b2 in cases(E, s, ge0(T.sub(I(hi), r))):
            out.append((s2, r if b2 else I(hi)))
    return out


@model(("int", "overflowing_add overflowing_sub overflowing_mul"))
def m_overflowing(E, st, c, args, cx):
    n = c["name"][12:]
    x, y = args
    t = E.P.fields(cx.ty)[0]
    r = {"add": lambda: add(x, y), "sub": lambda: T.sub(x, y), "mul": lambda: mul(x, y, t)}[n]()
    return [(s, adt(cx.ty, 0, (r if b else app("wrap", (r,), t), B(not b)))) for s, b in cases(E, st, E.inrange(r, t))]


@model(("char int", "is_ascii_hexdigit"))
def m_is_hex(E, st, c, args, cx):
    x = charval(E, st, args[0])
    return bnot(band(band(bnot(between(x, "0", "9")), bnot(between(x, "a", "f"))), bnot(between(x, "A", "F"))))


@model(("str", "repeat"))
def m_str_repeat(E, st, c, args, cx):
    v = val(E, st, args[0])
    if args[1].op == "int" and args[1].a[0] <= 64:
        return T.cat([v] * args[1].a[0]) if args[1].a[0] else EMPTY
    return None


@model(("*", "sum product"))
def m_sum(E, st, c, args, cx):
    it = args[0]
    if it.op != "iter" or E.P.cat(cx.ty) not in ("int", "rat", "big"):
        return None
    ds = drain(E, st, it, None, 24)
    if ds is None:
        return None
    out = []
    for s, xs in ds:
        r = ZERO if c["name"] == "sum" else ONE
        for x in xs:
            x = E.strip(s, x)
            r = add(r, x) if c["name"] == "sum" else mul(r, x, cx.ty)
            if E.P.cat(cx.ty) == "int" and s is not None:
                s = E.oblige(s, "overflow", E.inrange(r, cx.ty), cx.span, "sum")
        if s is not None:
            out.append((s, r))
    return out


@model(("*", "peekable"))
def m_peekable(E, st, c, args, cx):
    it = args[0]
    if it.op != "iter":
        it = to_iter(E, st, it, None)
    if it is None:
        return None
    return mk("iter", ("peek", it), cx.ty)


@model(("*", "peek next_if next_if_eq"))
def m_peek(E, st, c, args, cx):
    it = E.pointee(st, args[0])
    if it.op != "iter" or it.a[0] != "peek":
        return None
    pt = payload_ty(E, cx.ty, "Some")
    nm = c["name"]
    out = []
    if it.a[1].a[0] not in ("seq", "range", "enum", "split"):
        return None  # the closures of the others must not run twice
    for s, x, n in it_next(E, st, it.a[1], E.P.tys[pt]["ty"] if nm == "peek" and E.P.k(pt) == "ref" else pt):
        if x is None:
            out.append((s, none(E, cx.ty)))
            continue
        if nm == "peek":
            out.append((s, some(E, cx.ty, refv(x))))
            continue
        r = [(s, eq_term(E, s, E.strip(s, x), E.strip(s, args[1])))] if nm == "next_if_eq" else E.apply(s, args[1], [refv(x)], E.P.ty_by_s.get("bool"), cx.span)
        for s2, b in r:
            for s3, yes in cases(E, s2, b):
                if yes:
                    s3 = s3.fork()
                    E.set_pointee(s3, args[0], mk("iter", ("peek", n), it.ty))
                    out.append((s3, some(E, cx.ty, x)))
                else:
                    out.append((s3, none(E, cx.ty)))
    return out


_next2 = it_next


def it_next(E, st, it, item_ty):  # noqa: F811
    if it.a[0] == "peek":
        return [(s, x, mk("iter", ("peek", n), it.ty)) for s, x, n in it_next(E, st, it.a[1], item_ty)]
    return _next2(E, st, it, item_ty)


_const_len2 = iter_const_len


def iter_const_len(it):  # noqa: F811
    return iter_const_len(it.a[1]) if it.a[0] == "peek" else _const_len2(it)


_seqterm2 = it_seqterm


def it_seqterm(E, st, it):  # noqa: F811
    return it_seqterm(E, st, it.a[1]) if it.a[0] == "peek" else _seqterm2(E, st, it)
