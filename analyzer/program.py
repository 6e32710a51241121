"""The exported program: types, functions, control flow, call graph, write effects."""
import re


class Fn:
    __slots__ = ("id", "name", "path", "item", "local", "derived", "closure", "parent", "trait", "span", "argc",
                 "spread", "locals", "names", "blocks", "rpo", "rpopos", "loops", "inner", "live_in", "callees", "size")

    def __repr__(self):
        return "<fn %s>" % self.name


def uneval(c):
    """bodies of the constants a constant refers to"""
    out = set()
    if isinstance(c, dict):
        if isinstance(c.get("uneval"), int):
            out.add(c["uneval"])
        if "ref" in c:
            out |= uneval(c["ref"])
        for x in c.get("agg", ()):
            out |= uneval(x[0])
    return out


class Program:
    def __init__(self, j):
        self.tys = j["tys"]
        self.impls = j["impls"]
        self.consts = j["consts"]
        self.roots = j["roots"]
        self.owners = j.get("owners", {})
        self.fns = []
        for i, f in enumerate(j["fns"]):
            if f is None:
                self.fns.append(None)
                continue
            o = Fn()
            o.id = i
            for k in ("name", "path", "item", "local", "derived", "closure", "parent", "trait", "span", "argc",
                      "spread", "locals", "blocks"):
                setattr(o, k, f[k])
            o.names = {l: n for l, n in f["names"]}
            o.rpo = None
            o.loops = None
            o.live_in = None
            o.callees = None
            o.size = len(o.blocks)
            self.fns.append(o)
        self.main = j["roots"].get("main")
        self.byname = {}
        for f in self.fns:
            if f:
                self.byname.setdefault(f.name, f)
        self._dyn = {}
        for im in self.impls:
            if im["trait"]:
                self._dyn.setdefault(im["trait"], []).append(im)
        self._contains = {}
        self._index_types()
        self._scc = None
        self._mods = None

    # ------------------------------------------------------------ types
    def _index_types(self):
        self.ty_by_s = {}
        for i, t in enumerate(self.tys):
            self.ty_by_s.setdefault(t["s"], i)

    def k(self, t):
        return self.tys[t]["k"]

    def path(self, t):
        t = self.tys[t]
        return t.get("path") if t["k"] == "adt" else None

    def is_enum(self, t):
        t = self.tys[t]
        return t["k"] == "adt" and t["adt"] == "enum" and bool(t["variants"])

    def is_struct(self, t):
        """struct/tuple/closure with known fields"""
        t = self.tys[t]
        if t["k"] in ("tuple", "closure"):
            return True
        return t["k"] == "adt" and t["adt"] == "struct" and len(t["variants"]) == 1 and (t["local"] or bool(t["variants"][0]["fields"]))

    def fields(self, t, v=0):
        """field types of variant v"""
        x = self.tys[t]
        if x["k"] in ("tuple", "closure"):
            return x["tys"]
        if x["k"] == "adt" and v < len(x["variants"]):
            return [f["ty"] for f in x["variants"][v]["fields"]]
        return []

    def field_names(self, t, v=0):
        x = self.tys[t]
        if x["k"] == "adt" and v < len(x["variants"]):
            return [f["name"] for f in x["variants"][v]["fields"]]
        return []

    def nvariants(self, t):
        return len(self.tys[t]["variants"])

    def variant_index(self, t, name):
        for i, v in enumerate(self.tys[t]["variants"]):
            if v["name"] == name:
                return i
        return None

    def variant_name(self, t, v):
        return self.tys[t]["variants"][v]["name"]

    def discr(self, t, v):
        return self.tys[t]["variants"][v]["discr"]

    def strip(self, t):
        """through references"""
        while self.tys[t]["k"] in ("ref", "ptr"):
            t = self.tys[t]["ty"]
        return t

    def cat(self, t):
        """coarse category of a type"""
        x = self.tys[t]
        k = x["k"]
        if k in ("int", "bool", "char", "float", "str", "never"):
            return k
        if k in ("array", "slice"):
            return "seq"
        if k in ("ref", "ptr"):
            return "ref"
        if k == "adt":
            p = x["path"]
            l = p.rsplit("::", 1)[-1]
            if l == "String" and p.startswith(("std", "alloc")):
                return "str"
            if l in ("Vec", "VecDeque") and p.startswith(("std", "alloc")):
                return "seq"
            if l == "HashMap" or l == "BTreeMap":
                return "map"
            if l == "HashSet" or l == "BTreeSet":
                return "set"
            if l == "Box" and p.startswith(("std", "alloc")):
                return "box"
            if l == "Ratio":
                return "rat"
            if l in ("BigInt", "BigUint"):
                return "big"
            if l in ("Option", "Result"):
                return l.lower()
        return "other"

    def is_num(self, t):
        return self.cat(t) in ("int", "char", "rat", "big")

    def elem_ty(self, t):
        x = self.tys[t]
        if x["k"] in ("array", "slice"):
            return x["ty"]
        if x["k"] == "str" or self.cat(t) == "str":
            return self.ty_by_s.get("char")
        if x["k"] == "adt" and x["args"]:
            a = x["args"][0]
            return a
        return None

    _range = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "u128": (0, 2**128 - 1),
              "usize": (0, 2**64 - 1), "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
              "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1)}

    def irange(self, t):
        x = self.tys[t]
        if x["k"] == "int":
            return self._range.get(x["s"])
        if x["k"] == "char":
            return (0, 0x10FFFF)
        if x["k"] == "adt" and x["path"].rsplit("::", 1)[-1] == "BigUint":
            return (0, None)
        return None

    def contains(self, t, pred, key):
        """does a value of type t (own) contain a type satisfying pred"""
        ck = (t, key)
        r = self._contains.get(ck)
        if r is not None:
            return r
        self._contains[ck] = False
        x = self.tys[t]
        r = pred(t)
        if not r:
            k = x["k"]
            if k in ("tuple", "closure"):
                r = any(self.contains(y, pred, key) for y in x["tys"])
            elif k == "array":
                r = self.contains(x["ty"], pred, key)
            elif k == "adt":
                for a in x["args"]:
                    if isinstance(a, int) and self.contains(a, pred, key):
                        r = True
                if not r:
                    for v in x["variants"]:
                        if any(self.contains(f["ty"], pred, key) for f in v["fields"]):
                            r = True
                            break
        self._contains[ck] = r
        return r

    # ------------------------------------------------------------ traits
    def dyn_impls(self, trait):
        return self._dyn.get(trait, [])

    def impl_of(self, trait, self_ty):
        for im in self._dyn.get(trait, []):
            if im["self"] == self_ty:
                return im
        return None

    def drop_impl(self, t):
        for tr in ("std::ops::Drop", "core::ops::Drop"):
            im = self.impl_of(tr, t)
            if im:
                return im["items"].get("drop")
        return None

    # ------------------------------------------------------------ control flow
    @staticmethod
    def succs(term):
        k = term[0]
        if k == "goto":
            return [term[1]]
        if k == "switch":
            return [b for _, b in term[2]] + ([term[3]] if term[3] is not None else [])
        if k == "drop":
            return [term[2]]
        if k == "call":
            return [term[4]] if term[4] is not None else []
        if k == "assert":
            return [term[5]]
        return []

    def cfg(self, f):
        if f.rpo is not None:
            return
        order, seen, st = [], set(), [(0, iter(self.succs(f.blocks[0]["t"])))]
        seen.add(0)
        back = []
        onst = {0}
        while st:
            b, it = st[-1]
            for s in it:
                if s in onst:
                    back.append((b, s))
                if s not in seen:
                    seen.add(s)
                    onst.add(s)
                    st.append((s, iter(self.succs(f.blocks[s]["t"]))))
                    break
            else:
                st.pop()
                onst.discard(b)
                order.append(b)
        order.reverse()
        f.rpo = order
        f.rpopos = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(f.blocks[b]["t"]):
                preds[s].append(b)
        loops = {}
        for u, h in back:
            body = loops.setdefault(h, {h})
            stk = [u]
            while stk:
                x = stk.pop()
                if x in body:
                    continue
                body.add(x)
                stk.extend(preds[x])
        f.loops = loops
        # innermost loop of each block
        f.inner = {}
        for h, body in sorted(loops.items(), key=lambda kv: -len(kv[1])):
            for b in body:
                f.inner[b] = h
        self._live(f)

    def _live(self, f):
        """locals live at the entry of each block (address-taken locals are live everywhere)"""
        use, deff = {}, {}
        taken = set()

        def place_use(p, u, d):
            l, proj = p[0][0], p[0][1:]
            if l not in d:
                u.add(l)
            for e in proj:
                if e[0] == "[]" and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] in ("copy", "move"):
                place_use(o[1], u, d)

        for b in f.rpo:
            u, d = set(), set()
            blk = f.blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    rv = s[2]
                    for x in walk_ops(rv):
                        op_use(x, u, d)
                    for p in walk_places(rv):
                        place_use(p, u, d)
                    if rv[0] == "ref" and rv[2]:
                        taken.add(rv[1][0][0])
                    if len(s[1][0]) == 1:
                        d.add(s[1][0][0])
                    else:
                        place_use(s[1], u, d)
                elif s[0] == "setdiscr":
                    place_use(s[1], u, d)
            t = blk["t"]
            if t[0] == "switch":
                op_use(t[1], u, d)
            elif t[0] == "drop":
                place_use(t[1], u, d)
            elif t[0] == "call":
                c = t[1]
                if c.get("kind") == "indirect":
                    op_use(c["op"], u, d)
                for a in t[2]:
                    op_use(a, u, d)
                if len(t[3][0]) == 1:
                    d.add(t[3][0][0])
                else:
                    place_use(t[3], u, d)
            elif t[0] == "assert":
                op_use(t[1], u, d)
                for a in t[4]:
                    op_use(a, u, d)
            elif t[0] == "return":
                if 0 not in d:
                    u.add(0)
            use[b], deff[b] = u, d
        live = {b: set() for b in f.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.rpo):
                o = set()
                for s in self.succs(f.blocks[b]["t"]):
                    o |= live[s]
                n = use[b] | (o - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        # an address-taken local lives until its storage ends: forward, from its assignments
        ends = {s[1] for b in f.rpo for s in f.blocks[b]["s"] if s[0] == "dead"} & taken
        alive = {b: set() for b in f.rpo}
        ch = bool(ends)
        while ch:
            ch = False
            for b in f.rpo:
                o = set(alive[b])
                for s in f.blocks[b]["s"]:
                    if s[0] == "dead":
                        o.discard(s[1])
                    elif s[0] == "=" and s[1][0][0] in ends:
                        o.add(s[1][0][0])
                t = f.blocks[b]["t"]
                if t[0] == "call" and t[3][0][0] in ends:
                    o.add(t[3][0][0])
                for x in self.succs(t):
                    if x in alive and not o <= alive[x]:
                        alive[x] |= o
                        ch = True
        for b in live:
            live[b] |= (taken - ends) | alive[b]
        f.live_in = live

    # ------------------------------------------------------------ call graph
    def calls(self, f):
        """(block, callee, term) of every call terminator in non-cleanup blocks"""
        self.cfg(f)
        for b in f.rpo:
            t = f.blocks[b]["t"]
            if t[0] == "call":
                yield b, t[1], t

    def targets(self, c):
        """instances a callee may run"""
        if "inst" in c and c["inst"] is not None:
            return [c["inst"]]
        if c.get("kind") == "virtual":
            out = []
            for im in self.dyn_impls(c["trait"]):
                i = im["items"].get(c["name"])
                if i is not None:
                    out.append(i)
            return out
        return []

    def callee_ids(self, f):
        if f.callees is None:
            out = set()
            for b, c, t in self.calls(f):
                out.update(self.targets(c))
                for a in t[2]:
                    if a[0] == "const":
                        x = self.tys[a[2]]
                        if x["k"] == "fndef" and x["callee"].get("inst") is not None:
                            out.add(x["callee"]["inst"])
                # closures handed to external code
                for ty in c.get("args", []):
                    if isinstance(ty, int) and self.tys[ty]["k"] == "closure" and self.tys[ty].get("inst") is not None:
                        out.add(self.tys[ty]["inst"])
            for b in f.rpo:
                for s in f.blocks[b]["s"]:
                    if s[0] == "=":
                        if s[2][0] == "agg" and s[2][1] == "closure":
                            i = self.tys[s[2][3]].get("inst")
                            if i is not None:
                                out.add(i)
                        for o in walk_ops(s[2]):
                            if o[0] == "const" and self.tys[o[2]]["k"] == "fndef":
                                i = self.tys[o[2]]["callee"].get("inst")
                                if i is not None:
                                    out.add(i)
            # functions named in constants the body uses (tables of function pointers)
            for b in f.rpo:
                blk = f.blocks[b]
                ops = [o for s in blk["s"] if s[0] == "=" for o in walk_ops(s[2])]
                if blk["t"][0] == "call":
                    ops += blk["t"][2]
                for o in ops:
                    if o[0] == "const":
                        out.update(uneval(o[1]))
            f.callees = {i for i in out if 0 <= i < len(self.fns) and self.fns[i] is not None}
        return f.callees

    def reach(self, fid):
        seen, st = {fid}, [fid]
        while st:
            for c in self.callee_ids(self.fns[st.pop()]):
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        return seen

    def sccs(self):
        """fn id -> scc id for recursive components only"""
        if self._scc is not None:
            return self._scc
        idx, low, onst, st, res = {}, {}, set(), [], {}
        n = [0]
        for root in range(len(self.fns)):
            if self.fns[root] is None or root in idx:
                continue
            work = [(root, iter(sorted(self.callee_ids(self.fns[root]))))]
            idx[root] = low[root] = n[0]
            n[0] += 1
            st.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = n[0]
                        n[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter(sorted(self.callee_ids(self.fns[w])))))
                        break
                    elif w in onst:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        if len(comp) > 1 or v in self.callee_ids(self.fns[v]):
                            for w in comp:
                                res[w] = v
        self._scc = res
        return res

    def externals(self, fid):
        """names of externals reachable from fid: set of (path)"""
        out = set()
        for i in self.reach(fid):
            for b, c, t in self.calls(self.fns[i]):
                if not self.targets(c):
                    out.add(c.get("path") or "?")
        return out

    # ------------------------------------------------------------ write effects
    def mods(self, fid):
        """(adt path, variant, field) / ('ty', ty string) that running fid may write through references"""
        if self._mods is None:
            self._mods = {}
        r = self._mods.get(fid)
        if r is None:
            r = set()
            for i in self.reach(fid):
                r |= self._own_mods(self.fns[i])
            r = frozenset(r)
            self._mods[fid] = r
        return r

    def _own_mods(self, f):
        self.cfg(f)
        out = set()

        def note(p):
            proj = p[0][1:]
            last = -1
            for i, e in enumerate(proj):
                if e[0] == "*":
                    last = i
            if last < 0:
                return
            # innermost known (adt, field) after or before the last deref
            for i in range(len(proj) - 1, -1, -1):
                e = proj[i]
                if e[0] == "." and self.tys[e[3]]["k"] == "adt":
                    if i > last or True:
                        v = 0
                        if i > 0 and proj[i - 1][0] == "as":
                            v = proj[i - 1][1]
                        if i > last:
                            out.add(("f", self.tys[e[3]]["path"], v, e[1]))
                            return
                        break
            out.add(("ty", p[1]))

        for b in f.rpo:
            for s in f.blocks[b]["s"]:
                if s[0] == "=":
                    note(s[1])
                    if s[2][0] == "ref" and s[2][2]:
                        proj = s[2][1][0][1:]
                        if proj and proj[-1][0] != "*":
                            note(s[2][1])
                elif s[0] == "setdiscr":
                    note(s[1])
            t = f.blocks[b]["t"]
            if t[0] == "call":
                note(t[3])
                if not self.targets(t[1]):
                    for a in t[2]:
                        if a[0] in ("copy", "move"):
                            x = self.tys[a[1][1]]
                            if x["k"] == "ref" and x["mut"]:
                                out.add(("ty", x["ty"]))
        return out


def walk_ops(rv):
    k = rv[0]
    if k == "use":
        return [rv[1]]
    if k == "repeat":
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []


def walk_places(rv):
    if rv[0] in ("ref", "discr", "rawptr", "len"):
        return [rv[1]]
    return []
