"""Value of a term over one text when that text is a given word: decides, exactly, conditions
that only compare the text (trimmed, case-folded, sliced) with constants."""
import terms as T
from terms import is_app

WS = " \t\n\r\x0b\x0c"


class W:
    def __init__(self, env):
        self.env = dict(env)
        self.memo = {}

    def ev(self, t):
        """int, bool, str (texts and characters are strings / code points) or None when unknown"""
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        r = self._ev(t)
        self.memo[t] = r
        return r

    def _ev(self, t):
        o, a = t.op, t.a
        if o in ("int", "bool"):
            return a[0]
        if o == "refv":
            return self.ev(a[0])
        if o == "deref" or o == "box" or o == "unbox":
            return self.ev(a[0])
        if o == "cat":
            s = T.const_str(t)
            if s is not None:
                return s
            out = ""
            for p in a[0]:
                if not isinstance(p, tuple):
                    x = self.ev(p)
                    if not isinstance(x, str):
                        return None
                    out += x
                elif p[0] == "S":
                    out += p[1]
                else:
                    for e in p[1]:
                        x = self.ev(e)
                        if not isinstance(x, int):
                            return None
                        out += chr(x)
            return out
        if o == "lin":
            c = a[0]
            for k, n in a[1]:
                x = self.ev(k)
                if x is None or isinstance(x, str):
                    return None
                c += n * x
            return c
        if o == "len":
            x = self.ev(a[0])
            return len(x) if isinstance(x, str) else None
        if o == "elem":
            x, i = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, str) and isinstance(i, int):
                return ord(x[i]) if 0 <= i < len(x) else None
            return None
        if o == "sub":
            x, i, j = self.ev(a[0]), self.ev(a[1]), self.ev(a[2])
            if isinstance(x, str) and isinstance(i, int) and isinstance(j, int):
                return x[i:j]
            return None
        if o in ("ge0", "gt0", "eq0"):
            x = self.ev(a[0])
            if x is None or isinstance(x, str):
                return None
            return x >= 0 if o == "ge0" else x > 0 if o == "gt0" else x == 0
        if o == "not":
            x = self.ev(a[0])
            return None if x is None else not x
        if o in ("and", "or"):
            l = [self.ev(x) for x in a]
            bad = o == "or"
            if any(x is bad for x in l):
                return bad
            return None if any(x is None for x in l) else not bad
        if o == "app":
            n = a[0]
            x = self.ev(a[1]) if len(a) > 1 and isinstance(a[1], T.Term) else None
            if n == "eq" and len(a) == 3:
                y = self.ev(a[2])
                return None if x is None or y is None else x == y
            if not isinstance(x, str):
                return None
            if n in ("lower", "lower_ascii"):
                return x.lower()
            if n in ("upper", "upper_u"):
                return x.upper()
            if n in ("chars", "bytes", "refs", "vals"):
                return x
            if n == "trimmed":
                return x.strip(WS)
            if n.startswith("trim_"):
                p = n.split(":", 1)[1]
                if p not in ("ws",):
                    return None
                lo = len(x) - len(x.lstrip(WS))
                if n.startswith("trim_lo"):
                    return lo
                hi = len(x.rstrip(WS))
                return max(hi, lo) if n.startswith("trim_hi2") else hi
            if n in ("starts_with", "ends_with"):
                y = self.ev(a[2])
                return None if not isinstance(y, str) else (x.startswith(y) if n == "starts_with" else x.endswith(y))
        return None


def feasible(facts, env):
    """can the path with these facts be taken when the text is that word: True, False, None unknown"""
    w = W(env)
    unknown = False
    for b in facts.booleans():
        r = w.ev(b)
        if r is False:
            return False
        if r is None:
            unknown = True
    return None if unknown else True
