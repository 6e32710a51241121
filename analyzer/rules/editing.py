"""C10, C29, C33: the editing and drawing of a line, in a whole session whose lines are given by a contract"""
import adt as A
import terms as T
from ctx import Missing
from engine import Engine
from rules import history
from rules.common import *
from rules.exprs import aborts, each
from rules.history import flat_text, roles
from rules.line import none_of
from rules.session import adt_named, bits_value, callee_path, effect, main_fn, openers, session
from rules.settings import calc_fn, service_methods
from terms import ONE, ZERO, seqlen


class Lines:
    """the structure holding the lines, seen only through the line it shows"""

    def __init__(self, P, h, R):
        self.ty, self.o = h, R["current"].id
        self.strty = P.tys[R["current"].locals[0]]["ty"] if P.k(R["current"].locals[0]) == "ref" else R["current"].locals[0]


def install(ctx, E):
    """the contract of the lines: what their methods need, and do to the line shown"""
    P = ctx.P
    h, R = roles(ctx)
    L = Lines(P, h, R)
    E.observed[h] = L
    E.peel = lambda f, hd, body, entry: not any(b in f.loops for b in body if b != hd)

    def line_of(s, x):
        return A.observed(E, L, x)

    def put(s, p, text=None):
        """a new state of the lines, showing the text"""
        x = T.fresh("lines", h)
        E.set_pointee(s, p, x)
        o = line_of(s, x)
        fx = s.facts.with_all(o, "ascii")
        if text is not None:
            fx = fx.assume(eq0(sub(seqlen(o), seqlen(text))))
            s.setaux(("line", o), text)
        if fx is None:
            return None
        s.facts = fx
        return s

    def split(f, args):
        """(lines, number, character)"""
        p = i = c = None
        for a, t in zip(args, f.locals[1:]):
            if P.k(t) == "ref" and P.tys[t]["ty"] == h:
                p = a
            elif P.cat(t) == "int":
                i = a
            elif P.cat(t) == "char":
                c = a
        return p, i, c

    def current(E, st, c, args, cx):
        x = E.strip(st, args[0])
        st = st.fork()
        st.facts = st.facts.with_all(line_of(st, x), "ascii")
        v = T.refv(line_of(st, x))
        if P.k(cx.ty) != "ref":
            v = line_of(st, x)
        E.event(st, R["current"].name, R["current"].name, list(args), v, cx.span, c, "contract")
        return [(st, v)]

    def edit(role):
        f = R[role]

        def hook(E, st, c, args, cx):
            p, i, ch = split(f, args)
            o = line_of(st, E.strip(st, p))
            n = seqlen(o)
            st = st.fork()
            st.facts = st.facts.with_all(o, "ascii")
            if role == "insert":
                if (st := E.oblige(st, "line", ge0(sub(n, i)), cx.span, "the place of insertion is within the line")) is None:
                    return []
                if (st := E.oblige(st, "ascii", ge0(sub(I(127), ch)), cx.span, "a character put into the line is ASCII")) is None:
                    return []
                text = T.cat([T.seqsub(o, ZERO, i), T.lit([ch]), T.seqsub(o, i, n)])
            else:
                if (st := E.oblige(st, "line", gt0(sub(n, i)), cx.span, "the character removed is within the line")) is None:
                    return []
                text = T.cat([T.seqsub(o, ZERO, i), T.seqsub(o, add(i, ONE), n)])
            st = st.fork()
            E.event(st, f.name, f.name, [p, i] + ([ch] if ch is not None else []), T.UNINIT, cx.span, c, "contract")
            st = put(st, p, text)
            return [(st, E.default("ret", cx.ty))] if st is not None else []
        return hook

    def moves(role):
        f = R[role]

        def hook(E, st, c, args, cx):
            p = args[0]
            rt = f.locals[0]
            isr = P.is_enum(rt)
            out = []
            for r in (T.TRUE, T.FALSE, None) if isr else (T.TRUE, T.FALSE):
                s = st.fork()
                v = r if not isr else T.adt(rt, 0, [r]) if r is not None else E.M.err(E, rt, E.default("failed", P.tys[rt]["args"][1]))
                E.event(s, f.name, f.name, list(args), v, cx.span, c, "contract")
                if r is not T.FALSE:
                    s = put(s, p)
                if s is not None:
                    out.append((s, v))
            return out
        return hook

    def other(f):
        def hook(E, st, c, args, cx):
            p = next((a for a, t in zip(args, f.locals[1:]) if P.k(t) == "ref" and P.tys[t]["ty"] == h), None)
            st = st.fork()
            v = E.default(f.name.rsplit("::", 1)[-1], cx.ty)
            E.event(st, f.name, f.name, list(args), v, cx.span, c, "contract")
            if p is not None and P.tys[f.locals[1]]["mut"]:
                st = put(st, p)
            return [(st, v)]
        return hook

    def new(E, st, c, args, cx):
        x = T.fresh("lines", h)
        st = st.fork()
        o = line_of(st, x)
        st.facts = st.facts.with_all(o, "ascii")
        return [(st, x)]
    E.hooks[R["current"].name] = current
    E.hooks[R["new"].name] = new
    for r in ("insert", "remove"):
        E.hooks[R[r].name] = edit(r)
    for r in ("earlier", "later"):
        E.hooks[R[r].name] = moves(r)
    if "finish" in R:
        E.hooks[R["finish"].name] = other(R["finish"])


def any_key(E, st, c, args, cx):
    """waiting for a key: any event, or failure"""
    P = E.P
    path = callee_path(P, c)
    okt, ert = P.tys[cx.ty]["args"][:2]
    out = []
    s = st.fork()
    x = E.default("event", okt)
    E.event(s, "read", path, [T.string("any")], x, cx.span, c, "external")
    out.append((s, T.adt(cx.ty, 0, [x])))
    s = st.fork()
    x = E.default("ioerr", ert)
    E.event(s, "read", path, [T.string("failed")], app("failed", (x,)), cx.span, c, "external")
    out.append((s, T.adt(cx.ty, 1, [x])))
    return out


def c10(ctx, rep):
    P = ctx.P
    h, R = roles(ctx)
    f, (E, outs, err), rec = session(ctx, any_key, "edit", lambda E: install(ctx, E))
    if not finish(rep, E, err, f):
        return
    own = {R[k].name for k in R}
    for (fn, kind, site), o in sorted(E.obl.items(), key=lambda x: str(x[0])):
        rep.soft = frozenset(E.unseen)
        rep.count("obligation:" + kind)
        what = "%s in %s: %s" % (kind, fn, o.detail or kind)
        if o.status == "proven":
            rep.ok(what)
        elif o.status == "undecided":
            rep.undec("%s at %s: %s" % (what, o.span, show(o.cond)[:200]))
        else:
            rep.fail("%s:%s:%s" % (kind, fn, o.detail), "%s: %s is not ensured on the path through %s (needs %s)" % (fn, o.detail or kind, " > ".join(o.stack), show(o.cond)[:200]), o.span)
    rep.count("functions", len(E.fns_seen))
    history.contract(ctx, rep, True)
    aborting(ctx, rep)


# ---------------------------------------------------------------- sequences of keys
BIG = 15


class Screen:
    """what a terminal shows: rows of cells, and where its cursor stands"""
    __slots__ = ("cols", "row", "col", "rows")

    def __init__(self, cols, row, col, rows=None):
        self.cols, self.row, self.col, self.rows = cols, row, col, rows or {}

    def copy(self):
        return Screen(self.cols, self.row, self.col, dict(self.rows))

    def cell(self, r, c):
        l = self.rows.get(r, ())
        return l[c] if c < len(l) else None

    def put(self, x):
        if x is T.I(10):
            self.row += 1
            return
        if x is T.I(13):
            self.col = 0
            return
        if self.col >= self.cols:
            self.row, self.col = self.row + 1, 0
        l = list(self.rows.get(self.row, ()))
        l += [None] * (self.col + 1 - len(l))
        l[self.col] = x
        self.rows[self.row] = tuple(l)
        self.col += 1


def draw(E, st, scr, name, v):
    """the screen after a drawing command, or None when it is not understood"""
    P = E.P

    def arg(i):
        if v.op == "adt" and i < len(v.a[1]):
            return E.strip(st, v.a[1][i])
        fs = P.fields(v.ty) if isinstance(v.ty, int) else []
        return E.strip(st, fld(v, 0, i, fs[i])) if i < len(fs) else None

    def num(i):
        x = arg(i)
        x = st.facts.value(x) if x is not None else None
        return x.a[0] if x is not None and x.op == "int" else None
    s = scr.copy()
    if name.startswith("Print<"):
        x = arg(0)
        if x is None:
            return None
        x = flat_text(x)
        l = [x] if isinstance(x.ty, int) and P.cat(x.ty) == "char" else T.const_elems(x)
        if l is None:
            return None
        for c in l:
            s.put(c)
    elif name == "MoveTo":
        c, r = num(0), num(1)
        if c is None or r is None:
            return None
        s.col, s.row = c, r
    elif name == "MoveToColumn":
        s.col = num(0)
        if s.col is None:
            return None
    elif name in ("MoveToNextLine", "MoveToPreviousLine"):
        n = num(0)
        if n is None:
            return None
        s.row, s.col = s.row + (n if name == "MoveToNextLine" else -n), 0
    elif name in ("MoveLeft", "MoveRight", "MoveUp", "MoveDown"):
        n = num(0)
        if n is None:
            return None
        d = n if name in ("MoveRight", "MoveDown") else -n
        if name in ("MoveLeft", "MoveRight"):
            s.col = max(0, s.col + d)
        else:
            s.row = max(0, s.row + d)
    elif name == "Clear":
        k = arg(0)
        k = P.variant_name(k.ty, k.a[0]) if k is not None and k.op == "adt" else None
        if k in ("All", "Purge"):
            s.rows = {}
        elif k == "CurrentLine":
            s.rows.pop(s.row, None)
        elif k in ("FromCursorDown", "UntilNewLine"):
            l = s.rows.get(s.row, ())
            s.rows[s.row] = l[:s.col]
            if k == "FromCursorDown":
                s.rows = {r: l for r, l in s.rows.items() if r <= s.row}
        else:
            return None
    elif name in ("EnterAlternateScreen",):
        return Screen(s.cols, s.row, s.col)
    elif name not in ("LeaveAlternateScreen", "Show", "Hide", "EnableBracketedPaste", "DisableBracketedPaste", "SetCursorStyle"):
        return None
    return s


KEYS = {"Left": ("Left", 0), "Right": ("Right", 0), "C-Left": ("Left", 2), "C-Right": ("Right", 2), "S-Left": ("Left", 1), "S-Right": ("Right", 1),
        "Home": ("Home", 0), "End": ("End", 0), "Backspace": ("Backspace", 0), "Delete": ("Delete", 0), "Enter": ("Enter", 0), "Up": ("Up", 0), "Down": ("Down", 0)}


class Editor:
    """a session run from the entry point, its keys chosen by the analysis"""

    def __init__(self, ctx):
        P = ctx.P
        self.ctx = ctx
        self.main = f = main_fn(ctx)
        self.f = f
        self.h, self.R = roles(ctx)
        self.calc = calc_fn(ctx)
        self.notes = None
        op = openers(ctx)
        sv = service_methods(ctx)
        self.E = E = Engine(P, opaque=lambda E, fid: fid in op or fid == self.calc.id or sv(E, fid) or (P.fns[fid].argc == 0 and fid != f.id and not self.has_effects(fid)), budget=min(600, ctx.left()))
        E.LIM = E.RETLIM = 1 << 20
        E.unroll = lambda fn: True
        E.unroll_max = 1 << 20
        E.entry = f.name
        self.steps = E.steps
        E.hooks["crossterm::event::read"] = self.read
        E.hooks["crossterm::terminal::size"] = self.size
        E.hooks["crossterm::cursor::position"] = self.position
        for x in ("enable_raw_mode", "disable_raw_mode"):
            E.hooks["crossterm::terminal::" + x] = self.fine
        for x in ("QueueableCommand::queue", "ExecutableCommand::execute"):
            E.hooks["crossterm::" + x] = self.shown
        E.hooks["std::io::Write::flush"] = self.fine
        for i in op:
            E.hooks[P.fns[i].name] = self.opened
        E.hooks[self.calc.name] = self.evaluated
        for r in self.R:
            E.hooks[self.R[r].name] = getattr(self, "h_" + r)
        self.ev_t = adt_named(P, "crossterm::event::Event")
        self.key_v = P.variant_index(self.ev_t, "Key")
        self.ke_t = P.fields(self.ev_t, self.key_v)[0]
        self.knames = P.field_names(self.ke_t)
        self.kft = dict(zip(self.knames, P.fields(self.ke_t)))
        self.char = P.ty_by_s["char"]
        self.old = E.event
        E.event = self.event

    def has_effects(self, fid):
        from rules.session import effects
        return bool(effects(self.ctx, fid))

    def event(self, st, name, path, args, ret, span, c, why, *a):
        if c is not None and effect(self.ctx.P, c) == "out":
            st.setaux("scr", None)
        return self.old(st, name, path, args, ret, span, c, why, *a)

    # ---- what the program calls
    def fine(self, E, st, c, args, cx):
        P = E.P
        if P.cat(cx.ty) != "result":
            return None
        t = E.M.payload_ty(E, cx.ty, "Ok")
        if P.k(t) != "tuple" or P.tys[t]["tys"]:
            return None
        return [(st, E.M.ok(E, cx.ty, T.adt(t, 0, ())))]

    def pair(self, E, cx, a, b):
        t = E.M.payload_ty(E, cx.ty, "Ok")
        return E.M.ok(E, cx.ty, T.adt(t, 0, [I(a), I(b)]))

    def size(self, E, st, c, args, cx):
        return [(st, self.pair(E, cx, st.aux["cols"], 24))]

    def position(self, E, st, c, args, cx):
        scr = st.aux.get("scr")
        return [(st, self.pair(E, cx, 0, scr.row if scr is not None else 3))]

    def shown(self, E, st, c, args, cx):
        P = E.P
        if P.cat(cx.ty) != "result":
            return None
        st = st.fork()
        scr = st.aux.get("scr")
        if scr is not None:
            v = E.freeze(st, args[1])
            n = P.tys[v.ty]["s"].split("::")[-1] if isinstance(v.ty, int) and "<" not in P.tys[v.ty]["s"] else (P.tys[v.ty]["s"].split("<")[0].split("::")[-1] + "<" if isinstance(v.ty, int) else "?")
            st.setaux("scr", draw(E, st, scr, n, v))
        return [(st, E.M.ok(E, cx.ty, args[0]))]

    def opened(self, E, st, c, args, cx):
        P = E.P
        if P.cat(cx.ty) == "result":
            t = E.M.payload_ty(E, cx.ty, "Ok")
            if P.cat(t) == "option":
                return [(st, E.M.ok(E, cx.ty, none_of(P, t)))]
        return None

    def evaluated(self, E, st, c, args, cx):
        """a line handed over"""
        P = E.P
        st = st.fork()
        if not st.aux.get("keys"):
            return []
        text = None
        for i, a in enumerate(args):
            if P.tys[P.strip(self.calc.locals[i + 1])]["s"] in ("str", "std::string::String"):
                text = flat_text(E.strip(st, a))
        self.handed(st, T.const_elems(text) if text is not None else None, cx.span)
        st.setaux("line", ())
        st.setaux("model", ((), 0))
        okt = E.M.payload_ty(E, cx.ty, "Ok")
        if P.tys[okt]["s"] == "std::string::String":
            return [(st, E.M.ok(E, cx.ty, T.EMPTY))]
        return [(st, E.default("result", cx.ty))]

    # ---- the lines
    def lit(self, l):
        return T.lit(list(l)) if l else T.EMPTY

    def h_new(self, E, st, c, args, cx):
        return [(st, T.sym("lines", self.h))]

    def h_current(self, E, st, c, args, cx):
        v = self.lit(st.aux["line"])
        return [(st, T.refv(v) if E.P.k(cx.ty) == "ref" else v)]

    def place(self, E, st, f, args):
        i = next(a for a, t in zip(args, f.locals[1:]) if E.P.cat(t) == "int")
        i = st.facts.value(E.strip(st, i))
        return i.a[0] if i.op == "int" else None

    def edited(self, E, st, cx, role, i, line, cond, what):
        st2 = E.oblige(st, "line", cond, cx.span, what)
        if st2 is None:
            return []
        st2 = st2.fork()
        st2.setaux("line", line)
        return [(st2, E.default("ret", cx.ty))]

    def h_insert(self, E, st, c, args, cx):
        f = self.R["insert"]
        line = st.aux["line"]
        i = self.place(E, st, f, args)
        ch = next(E.strip(st, a) for a, t in zip(args, f.locals[1:]) if E.P.cat(t) == "char")
        if i is None:
            raise Missing("the place of an insertion")
        st = E.oblige(st, "ascii", ge0(sub(I(127), ch)), cx.span, "a character put into the line is ASCII")
        if st is None:
            return []
        st.setaux("did", st.aux["did"] + ((i, ch),))
        return self.edited(E, st, cx, "insert", i, line[:i] + (ch,) + line[i:], TRUE if 0 <= i <= len(line) else FALSE, "the place of insertion is within the line")

    def h_remove(self, E, st, c, args, cx):
        line = st.aux["line"]
        i = self.place(E, st, self.R["remove"], args)
        if i is None:
            raise Missing("the place of a removal")
        return self.edited(E, st, cx, "remove", i, line[:i] + line[i + 1:], TRUE if 0 <= i < len(line) else FALSE, "the character removed is within the line")

    def move(self, E, st, cx, role):
        rt = self.R[role].locals[0]
        isr = E.P.is_enum(rt)
        out = []
        wrap = lambda r: T.adt(rt, 0, [r]) if isr else r
        news = st.aux.get("recall" if role == "earlier" or not self.go_on else "short")
        if news is not None:
            s = st.fork()
            s.setaux("line", tuple(news))
            s.setaux("model", (tuple(news), None))
            out.append((s, wrap(TRUE)))
        if news is None or st.aux.get("refuse"):
            out.append((st.fork(), wrap(FALSE)))
        return out

    def h_earlier(self, E, st, c, args, cx):
        return self.move(E, st, cx, "earlier")

    def h_later(self, E, st, c, args, cx):
        return self.move(E, st, cx, "later")

    def h_finish(self, E, st, c, args, cx):
        return None

    # ---- keys
    def key(self, code, mods, char=None):
        P, E = self.ctx.P, self.E
        ct = self.kft["code"]
        v = T.adt(ct, P.variant_index(ct, code), [char] if char is not None else [])
        return T.adt(self.ev_t, self.key_v, [T.adt(self.ke_t, 0, [
            v if n == "code" else bits_value(P, self.kft[n], mods) if n == "modifiers" else
            T.adt(self.kft[n], P.variant_index(self.kft[n], "Press"), []) if n == "kind" else bits_value(P, self.kft[n], 0) for n in self.knames])])

    def events(self, st, k, name):
        """[(facts, event, model afterwards)] of a key; a model of None: nothing is asked of it any more"""
        P, E = self.ctx.P, self.E
        text, cur = st.aux["model"]
        fx = st.facts
        n = len(text)

        def typed(lo, hi, mods):
            x = T.sym("k%d" % k, self.char)
            g = fx.assume(ge0(sub(x, I(lo)))).assume(ge0(sub(I(hi), x)))
            return g, self.key("Char", mods, x), (text[:cur] + (x,) + text[cur:], cur + 1) if cur is not None else None
        if name == "char":
            return typed(32, 126, 0)
        if name == "Char":
            return typed(65, 90, 1)
        if name == "wide":
            return fx, self.key("Char", 0, I(0xe9)), None
        if name == "C-a":
            return fx, self.key("Char", 2, I(97)), None
        if name == "A-a":
            return fx, self.key("Char", 4, I(97)), None
        if name == "Esc":
            return fx, self.key("Esc", 0), None
        if name in ("C-n", "C-m"):
            return fx, self.key("Char", 2, I(ord(name[-1]))), "hot"
        if name.startswith("resize"):
            v = P.variant_index(self.ev_t, "Resize")
            return fx, T.adt(self.ev_t, v, [I(int(name[6:])), I(24)]), (text, cur)
        code, mods = KEYS[name]
        if name in ("Up", "Down", "Enter"):
            m = (text, cur)
        elif cur is None and name not in ("Home", "End"):
            m = None
        elif name == "Backspace":
            m = (text[:cur - 1] + text[cur:], cur - 1) if cur else (text, cur)
        elif name == "Delete":
            m = (text[:cur] + text[cur + 1:], cur)
        else:
            step = BIG if mods else 1
            m = (text, {"Home": 0, "End": n, "Left": max(0, (cur or 0) - step), "Right": min(n, (cur or 0) + step)}[code])
        return fx, self.key(code, mods), m

    def read(self, E, st, c, args, cx):
        did = st.aux["keys"]
        self.at_read(st, cx.span)
        script, names, depth = self.script
        if len(did) < len(script):
            todo = [script[len(did)]]
        elif len(did) < len(script) + depth:
            todo = names
        else:
            return []
        out = []
        if st.aux["model"] is None:
            if not self.go_on:
                return []
            st.setaux("model", (st.aux["line"], None))
        for name in todo:
            fx, ev, model = self.events(st, len(did), name)
            if fx is None:
                continue
            s = st.fork()
            s.facts = fx
            if model == "hot":
                model = (st.aux["model"][0], matching(st.aux["model"]))
            s.setaux("keys", did + (name,))
            s.setaux("model", model)
            s.setaux("did", ())
            if name.startswith("resize"):
                s.setaux("cols", int(name[6:]))
                if s.aux["scr"] is not None:
                    x = s.aux["scr"].copy()
                    x.cols = int(name[6:])
                    s.setaux("scr", x)
            out.append((s, T.adt(cx.ty, 0, [ev])))
        return out

    # ---- judging
    def said(self, st):
        return "%d characters, %d columns, %s" % (self.size0, self.cols0, " ".join(st.aux["keys"]) or "no key")

    def at_read(self, st, span):
        nt = self.notes
        model = st.aux["model"]
        keys = st.aux["keys"]
        if model is None or nt is None:
            return
        text, cur = model
        line = st.aux["line"]
        last = keys[-1] if keys else "start"
        if text != line:
            nt.check(False, "line:" + last, "after %s the line is %s instead of %s" % (self.said(st), self.words(line), self.words(text)), span)
            st.setaux("model", None)
            return
        nt.ok("the line after a key")
        if cur is None and st.aux["did"]:
            st.setaux("model", (text, st.aux["did"][-1][0] + 1))
        scr = st.aux.get("scr")
        if scr is None:
            nt.undec("what is drawn")
            return
        if cur is None or scr.cols < 10:
            return
        x = scr.cell(scr.row, scr.col)
        want = text[cur] if cur < len(text) else None
        blank = lambda y: y is None or y is I(32)
        good = blank(x) if want is None else x is want
        nt.check(good, "cursor:" + last, "after %s the terminal's cursor is drawn on %s instead of %s" % (self.said(st), "nothing" if x is None else show(x), "the end of the line" if want is None else "character %d" % cur), span, "the cursor drawn after a key")
        if len(text) + 2 <= scr.cols - 4:
            l = list(scr.rows.get(scr.row, ()))
            while l and l[-1] is None:
                l.pop()
            nt.check(tuple(l[len(l) - len(text):]) == text and len(l) - len(text) <= 4, "drawn:" + last, "after %s the row drawn is %s instead of the line %s" % (self.said(st), self.words(l), self.words(text)), span, "the line drawn after a key")

    def words(self, l):
        return "[" + " ".join("_" if x is None else chr(x.a[0]) if x.op == "int" else show(x) for x in l) + "]"

    def handed(self, st, text, span):
        nt, model = self.notes, st.aux["model"]
        if nt is None or model is None:
            return
        if text is None:
            nt.undec("the text evaluated")
        else:
            nt.check(tuple(text) == model[0], "submitted", "after %s the line submitted is %s instead of %s" % (self.said(st), self.words(text), self.words(model[0])), span, "the line submitted")

    # ---- a run
    def run(self, labels):
        """labels: columns, the recalled line (a length, or the characters), how often Left is pressed
        (or keys), the keys to choose from, how many"""
        cols, line, pre, names, depth = labels
        E = self.E
        E.steps = self.steps
        st = E.start()
        fx = st.facts
        if isinstance(line, int):
            els = [T.sym("h%d" % i, self.char) for i in range(line)]
            for x in els:
                fx = fx.assume(ge0(sub(x, I(32)))).assume(ge0(sub(I(126), x)))
        else:
            els = [I(ord(x)) for x in line]
        st.facts = fx
        self.cols0, self.size0 = cols, len(els)
        self.script = (pre, names, depth)
        st.setaux("cols", cols)
        st.setaux("line", ())
        st.setaux("model", ((), 0))
        st.setaux("keys", ())
        st.setaux("did", ())
        st.setaux("recall", tuple(els))
        st.setaux("short", tuple(els[:len(els) // 3]))
        st.setaux("refuse", self.go_on)
        st.setaux("scr", Screen(cols, 3, 0))
        return E.run_fn(st, self.main.id, [], self.main.span)


def matching(model):
    """where the matching hotkey leads, or None where that is not said"""
    text, cur = model
    if cur is None or cur >= len(text):
        return None
    chars = [chr(x.a[0]) if x.op == "int" else None for x in text]
    if None in chars:
        return None
    if chars[cur] not in "()":
        return cur
    step = 1 if chars[cur] == "(" else -1
    depth, i = 0, cur
    while 0 <= i < len(chars):
        depth += {"(": 1, ")": -1}.get(chars[i], 0)
        if depth == 0:
            return i
        i += step
    return cur


MOVES = ["Left", "Right", "C-Left", "C-Right", "S-Left", "S-Right", "Home", "End"]
EDITS = ["char", "Char", "Backspace", "Delete"]


def explored(ctx, rep, job, jobs, what, judged):
    p = Editor(ctx)
    p.go_on = not judged

    def judge1(nt, p, labels, outs):
        if p.notes is not None:
            nt.l.extend(p.notes.l)
            del p.notes.l[:]
    if judged:
        from rules.exprs import Notes
        p.notes = Notes()
    return each(ctx, rep, job, p, judge1, jobs, what)


def c29(ctx, rep):
    deep = ctx.tier == "thorough"
    every = MOVES + EDITS + ["Enter"]
    jobs = []
    for n in (0, 1, 2, 4, 16, 17, 33):
        for cols in (80, 14):
            for pre in [["Up", "Home"], ["Up", "End"], ["Up", "End", "Left"], ["Up", "Home", "Right"]] + ([["Up", "End", "C-Left"], ["Up", "Home", "S-Right"]] if n > 15 else []):
                if n < 2 and len(pre) > 2:
                    continue
                jobs.append((cols, n, pre, every, 3 if deep else 2))
    for first in every:
        jobs.append((80, 3, [first], ["char", "Backspace", "Delete", "Left", "Right", "Home", "End", "Enter"], 4 if deep else 3))
    for a in ("Up", "Down"):
        jobs.append((40, 5, [a, "char"], every, 1))
        jobs.append((40, 5, ["char", a, "Left", "char"], every, 1))
    obls = explored(ctx, rep, "c29", jobs, "key sequences", True)
    aborts(rep, obls, "a sequence of keys")
    history.contract(ctx, rep, False)


def c33(ctx, rep):
    import itertools
    deep = ctx.tier == "thorough"
    lines = [s for n in range(1, 8 if deep else 6) for s in itertools.product("()x", repeat=n) if "(" in s or ")" in s]
    lines += [tuple(s) for s in ("((()))()", "(()(()))", "()()()()", "x(x(x)x(x)x)x", "((((((((((x))))))))))", ")))(((", "(x)(x)(x)(x)(x)(x)(x)")]
    jobs = []
    for l in lines:
        for i in range(len(l)):
            jobs.append((80, l, ["Up", "Home"] + ["Right"] * i + ["C-n"], ["char"], 1))
    obls = explored(ctx, rep, "c33", jobs, "lines and cursors", True)
    aborts(rep, obls, "the matching hotkey")


def aborting(ctx, rep):
    """sequences of any keys, in windows of any size: nothing out of range"""
    deep = ctx.tier == "thorough"
    keys = ["char", "Backspace", "Delete", "Left", "C-Left", "Right", "C-Right", "Home", "End", "Up", "Down", "Enter", "C-n", "wide"]
    rs = ["resize%d" % i for i in (0, 1, 2, 3, 4, 5, 6, 9, 40)]
    jobs = []
    for cols in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 80):
        for line in ("", "(", ")", "()", "x)", "((x", "(((()x)))))x(x((x)", "()" * 24):
            for pre in (["Up"], ["Up", "Home"], ["Up", "Left"], []):
                if len(line) > 3 and cols in (3, 7):
                    continue
                jobs.append((cols, tuple(line), pre, keys, 2 if deep else 1))
    for line in ("", "x", "(x)", "x" * 30):
        for a in keys:
            jobs.append((20, tuple(line), [a], keys + rs, 3 if deep else 2))
        for r in rs:
            jobs.append((20, tuple(line), ["Up", r], keys + rs, 2))
    obls = explored(ctx, rep, "c10", jobs, "key sequences", False)
    aborts(rep, obls, "a sequence of keys")
