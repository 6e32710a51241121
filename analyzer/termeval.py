"""Value of a term when the values of its symbols are given: decides whether two summaries differ."""
from fractions import Fraction
from math import floor
import terms as T

WS = " \t\n\r\x0b\x0c"
DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"


class Unknown(Exception):
    pass


def to_radix(n, r):
    s, m = "", abs(n)
    while True:
        s = DIGITS[m % r] + s
        m //= r
        if m == 0:
            return ("-" if n < 0 else "") + s


def half_away(x):
    return (1 if x >= 0 else -1) * floor(abs(x) + Fraction(1, 2))


def trunc(x):
    return int(x)


def num(x):
    if isinstance(x, bool) or not isinstance(x, (int, Fraction)):
        raise Unknown()
    return x.numerator if isinstance(x, Fraction) and x.denominator == 1 else x


def pad(s, w, flags):
    fill, al = chr(flags & 0x1fffff) if flags & 0x1fffff else " ", (flags >> 29) & 3
    n = w - len(s)
    if n <= 0:
        return s
    if al == 1:
        return fill * n + s
    if al == 2:
        return fill * (n // 2) + s + fill * (n - n // 2)
    return s + fill * n


class V:
    def __init__(self, env, limit=4000):
        self.env = dict(env)
        self.memo = {}
        self.limit = limit

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        r = self._ev(t)
        self.memo[t] = r
        return r

    def text(self, t):
        x = self.ev(t)
        if isinstance(x, list):
            if all(isinstance(y, int) for y in x):
                return "".join(map(chr, x))
            raise Unknown()
        if not isinstance(x, str):
            raise Unknown()
        return x

    def n(self, t):
        return num(self.ev(t))

    def i(self, t):
        x = self.n(t)
        if not isinstance(x, int):
            raise Unknown()
        return x

    def _ev(self, t):
        o, a = t.op, t.a
        if o in ("int", "bool"):
            return a[0]
        if o in ("refv", "deref", "box", "unbox"):
            return self.ev(a[0])
        if o == "cat":
            out, l, flat = "", [], True
            for p in a[0]:
                if not isinstance(p, tuple):
                    x = self.ev(p)
                elif p[0] == "S":
                    x = p[1]
                else:
                    x = [self.ev(e) for e in p[1]]
                l.append(x)
            if all(isinstance(x, str) or all(isinstance(y, int) and not isinstance(y, bool) and not any(isinstance(z, list) for z in l) for y in x) for x in l) and any(isinstance(x, str) for x in l):
                return "".join(x if isinstance(x, str) else "".join(map(chr, x)) for x in l)
            return [y for x in l for y in (map(ord, x) if isinstance(x, str) else x)]
        if o == "lin":
            return num(a[0] + sum(n * self.n(k) for k, n in a[1]))
        if o == "len":
            x = self.ev(a[0])
            if not isinstance(x, (str, list)):
                raise Unknown()
            return len(x)
        if o == "elem":
            x, i = self.ev(a[0]), self.i(a[1])
            if not 0 <= i < len(x):
                raise Unknown()
            return ord(x[i]) if isinstance(x, str) else x[i]
        if o == "sub":
            x = self.ev(a[0])
            return x[self.i(a[1]):self.i(a[2])]
        if o == "ge0":
            return self.n(a[0]) >= 0
        if o == "gt0":
            return self.n(a[0]) > 0
        if o == "eq0":
            return self.n(a[0]) == 0
        if o == "not":
            x = self.ev(a[0])
            if not isinstance(x, bool):
                raise Unknown()
            return not x
        if o in ("and", "or"):
            bad, unk = o == "or", False
            for x in a:
                try:
                    y = self.ev(x)
                except Unknown:
                    unk = True
                    continue
                if y is bad:
                    return bad
            if unk:
                raise Unknown()
            return not bad
        if o == "app":
            return self.app(a[0], a[1:], t)
        raise Unknown()

    def app(self, n, a, t):
        if n == "eq" and len(a) == 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            return x == y
        if n == "abs":
            return abs(self.n(a[0]))
        if n == "mul":
            r = 1
            for x in a:
                r = r * self.n(x)
            return num(r)
        if n in ("rdiv", "idiv", "irem", "rrem"):
            x, y = self.n(a[0]), self.n(a[1])
            if y == 0:
                raise Unknown()
            q = Fraction(x) / Fraction(y)
            if n == "rdiv":
                return num(q)
            return trunc(q) if n == "idiv" else num(x - trunc(q) * y)
        if n == "inv":
            x = self.n(a[0])
            if x == 0:
                raise Unknown()
            return num(1 / Fraction(x))
        if n == "pow":
            x, y = self.n(a[0]), self.i(a[1])
            if abs(y) > self.limit or y < 0 and x == 0:
                raise Unknown()
            return num(Fraction(x) ** y)
        if n == "ratio":
            x, y = self.n(a[0]), self.n(a[1])
            if y == 0:
                raise Unknown()
            return num(Fraction(x) / Fraction(y))
        if n == "isnum":
            x, r = self.ev(a[0]), self.i(a[1])
            x = x if isinstance(x, str) else "".join(map(chr, x))
            if any(c in "+-_" for c in x):
                raise Unknown()
            return bool(x) and all(c.lower() in DIGITS[:r] for c in x)
        if n == "parseint":
            x = self.ev(a[0])
            x = x if isinstance(x, str) else "".join(map(chr, x))
            return int(x, self.i(a[1]))
        if n == "numer":
            return Fraction(self.n(a[0])).numerator
        if n == "denom":
            return Fraction(self.n(a[0])).denominator
        if n == "isint":
            return Fraction(self.n(a[0])).denominator == 1
        if n == "round":
            return half_away(self.n(a[0]))
        if n == "trunc":
            return trunc(self.n(a[0]))
        if n == "floor":
            return floor(self.n(a[0]))
        if n == "ceil":
            return -floor(-self.n(a[0]))
        if n == "fract":
            x = self.n(a[0])
            return num(x - trunc(x))
        if n == "even":
            return self.i(a[0]) % 2 == 0
        if n in ("max", "min") and len(a) == 2:
            return (max if n == "max" else min)(self.n(a[0]), self.n(a[1]))
        if n == "radixstr":
            return to_radix(self.i(a[0]), self.i(a[1]))
        if n == "display":
            x = self.ev(a[0])
            if isinstance(x, str):
                return x
            if isinstance(x, bool):
                raise Unknown()
            x = Fraction(num(x))
            return str(x.numerator) if x.denominator == 1 else "%d/%d" % (x.numerator, x.denominator)
        if n in ("upper", "upper_u"):
            x = self.ev(a[0])
            return self.text(a[0]).upper() if isinstance(x, str) else [ord(chr(y).upper()) for y in x]
        if n in ("lower", "lower_ascii"):
            return self.text(a[0]).lower()
        if n in ("chars", "bytes", "refs", "vals", "ascii"):
            return self.ev(a[0])
        if n == "rev":
            return self.ev(a[0])[::-1]
        if n in ("chunks", "rchunks"):
            x, k = self.ev(a[0]), self.i(a[1])
            if n == "chunks":
                return [x[i:i + k] for i in range(0, len(x), k)]
            return [x[max(0, i - k):i] for i in range(len(x), 0, -k)]
        if n == "mapseq":
            x = self.ev(a[0])
            out = []
            for y in (map(ord, x) if isinstance(x, str) else x):
                v = V(self.env, self.limit)
                v.env[a[2]] = y
                out.append(v.ev(a[1]))
            return out
        if n == "join":
            x, s = self.ev(a[0]), self.ev(a[1])
            if isinstance(s, list) and all(isinstance(y, int) for y in s):
                s = "".join(map(chr, s))
            if not isinstance(x, list) or not isinstance(s, str):
                raise Unknown()
            return s.join(y if isinstance(y, str) else "".join(map(chr, y)) for y in x)
        if n == "repeat":
            x, k = self.ev(a[0]), self.i(a[1])
            if k > self.limit:
                raise Unknown()
            return x * k if isinstance(x, str) else [x] * k
        if n == "pad":
            return pad(self.text(a[0]), self.i(a[1]), self.i(a[2]))
        if n == "trimmed":
            return self.text(a[0]).strip(WS)
        if n.startswith("trim_") and ":" in n:
            x = self.text(a[0])
            w, p = n.split(":", 1)
            cs = WS if p == "ws" else chr(int(p[1:])) if p[:1] == "c" and p[1:].isdigit() else None
            if cs is None:
                raise Unknown()
            lo = len(x) - len(x.lstrip(cs))
            if w == "trim_lo":
                return lo
            hi = len(x.rstrip(cs))
            return max(hi, lo) if w == "trim_hi2" else hi
        if n in ("starts_with", "ends_with"):
            x, y = self.text(a[0]), self.ev(a[1])
            y = chr(y) if isinstance(y, int) else y
            if not isinstance(y, str):
                raise Unknown()
            return x.startswith(y) if n == "starts_with" else x.endswith(y)
        raise Unknown()


def feasible(facts, env, about, variants=()):
    """do the facts that mention any of the symbols hold under the values?  None: cannot tell"""
    v = V(env)
    unk = False
    for t, k in variants:
        vs = facts.variants(t)
        if vs is not None and k not in vs:
            return False
    for b in facts.booleans():
        try:
            r = v.ev(b)
        except (Unknown, TypeError, ValueError, OverflowError, IndexError):
            if any(s in about for s in T.subterms(b)):
                unk = True
            continue
        if r is False:
            return False
    return None if unk else True
