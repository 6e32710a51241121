"""A small SQL front end: the statements a program runs, as syntax trees.

Statements outside this fragment raise Unsupported; whoever interprets them then has no answer."""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r"""\s*(?:(--[^\n]*|/\*.*?\*/)|(\d+(?:\.\d+)?)|('(?:[^']|'')*')|("[^"]*"|`[^`]*`|\[[^\]]*\])|([:@$][A-Za-z_]\w*|\?\d*)|([A-Za-z_]\w*)|(<>|<=|>=|==|!=|\|\||[-+*/%=<>(),.;&|~]))""", re.S)


def tokens(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("cannot read the statement at %r" % s[i:i + 20])
        i = m.end()
        if m.group(1):
            continue
        if m.group(2):
            out.append(("num", m.group(2)))
        elif m.group(3):
            out.append(("str", m.group(3)[1:-1].replace("''", "'")))
        elif m.group(4):
            out.append(("id", m.group(4)[1:-1]))
        elif m.group(5):
            out.append(("par", m.group(5)))
        elif m.group(6):
            out.append(("id", m.group(6)))
        elif m.group(7):
            out.append(("op", m.group(7)))
    return out


def own(e, table):
    """columns qualified by the table the statement is about need no qualifier"""
    if not isinstance(e, tuple) or e and e[0] == "select":
        return e
    if len(e) == 3 and e[0] == "qcol" and e[1] == table:
        return ("col", e[2])
    return tuple(own(x, table) for x in e)


class Parser:
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0
        self.npos = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

    def kw(self, *ws):
        """the next tokens are these keywords"""
        for k, w in enumerate(ws):
            a, b = self.peek(k)
            if a != "id" or b.upper() != w:
                return False
        self.i += len(ws)
        return True

    def op(self, x):
        if self.peek() == ("op", x):
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.op(x):
            raise Unsupported("expected %s near %r" % (x, self.peek()[1]))

    def name(self):
        a, b = self.peek()
        if a != "id":
            raise Unsupported("expected a name near %r" % b)
        self.i += 1
        if self.op("."):
            return self.name()
        return b.lower()

    # ---- expressions
    def expr(self):
        x = self.conj()
        while self.kw("OR"):
            x = ("or", x, self.conj())
        return x

    def conj(self):
        x = self.inv()
        while self.kw("AND"):
            x = ("and", x, self.inv())
        return x

    def inv(self):
        if self.kw("NOT"):
            return ("not", self.inv())
        return self.comp()

    def comp(self):
        x = self.sum()
        while True:
            if self.kw("IS", "NOT", "NULL") or self.kw("NOT", "NULL") or self.kw("NOTNULL"):
                x = ("not", ("isnull", x))
            elif self.kw("IS", "NULL") or self.kw("ISNULL"):
                x = ("isnull", x)
            elif self.kw("IS", "NOT"):
                x = ("not", ("is", x, self.sum()))
            elif self.kw("IS"):
                x = ("is", x, self.sum())
            elif self.kw("NOT", "LIKE"):
                x = ("not", ("like", x, self.sum()))
            elif self.kw("LIKE"):
                x = ("like", x, self.sum())
            elif self.kw("NOT", "GLOB"):
                x = ("not", ("glob", x, self.sum()))
            elif self.kw("GLOB"):
                x = ("glob", x, self.sum())
            elif self.kw("NOT", "BETWEEN"):
                x = ("not", self.between(x))
            elif self.kw("BETWEEN"):
                x = self.between(x)
            elif self.kw("NOT", "IN"):
                x = ("not", self.within(x))
            elif self.kw("IN"):
                x = self.within(x)
            else:
                a, b = self.peek()
                if a == "op" and b in ("=", "==", "<>", "!=", "<", "<=", ">", ">="):
                    self.i += 1
                    b = {"==": "=", "!=": "<>"}.get(b, b)
                    x = (b, x, self.sum())
                else:
                    return x

    def between(self, x):
        a = self.sum()
        if not self.kw("AND"):
            raise Unsupported("BETWEEN")
        return ("and", (">=", x, a), ("<=", x, self.sum()))

    def within(self, x):
        self.need("(")
        if self.kw("SELECT"):
            q = self.select()
            self.need(")")
            return ("in", x, q)
        vs = []
        if not self.op(")"):
            vs.append(self.expr())
            while self.op(","):
                vs.append(self.expr())
            self.need(")")
        return ("in", x, ("list", tuple(vs)))

    def term(self):
        x = self.prim()
        while self.kw("COLLATE"):
            k, n = self.peek()
            self.i += 1
            x = ("collate", x, str(n).upper())
        return x

    def sum(self):
        x = self.term()
        while True:
            if self.op("+"):
                x = ("+", x, self.term())
            elif self.op("-"):
                x = ("-", x, self.term())
            elif self.peek()[0] == "op" and self.peek()[1] in ("*", "/", "%", "||", "&", "|"):
                raise Unsupported("operator %s" % self.peek()[1])
            else:
                return x

    def prim(self):
        a, b = self.peek()
        if a == "num":
            self.i += 1
            if "." in b:
                raise Unsupported("real number")
            return ("int", int(b))
        if a == "str":
            self.i += 1
            return ("str", b)
        if a == "par":
            self.i += 1
            if b[0] == "?":
                if len(b) > 1:
                    return ("pos", int(b[1:]) - 1)
                self.npos += 1
                return ("pos", self.npos - 1)
            return ("named", b)
        if self.op("-"):
            x = self.prim()
            return ("-", ("int", 0), x)
        if self.op("+"):
            return self.prim()
        if self.op("("):
            if self.peek()[0] == "id" and self.peek()[1].upper() == "SELECT":
                self.i += 1
                q = self.select()
                self.need(")")
                return ("sub", q)
            x = self.expr()
            self.need(")")
            return x
        if a == "id":
            u = b.upper()
            if u == "NULL":
                self.i += 1
                return ("null",)
            if u == "EXISTS" and self.peek(1) == ("op", "("):
                self.i += 2
                if not self.kw("SELECT"):
                    raise Unsupported(u)
                q = self.select()
                self.need(")")
                return ("exists", q)
            if u == "CASE":
                self.i += 1
                return self.case()
            if u in ("CAST", "EXISTS", "SELECT", "RAISE"):
                raise Unsupported(u)
            if self.peek(1) == ("op", "("):
                self.i += 2
                if u == "COUNT":
                    if self.op("*"):
                        self.need(")")
                        return ("count",)
                    x = self.expr()
                    self.need(")")
                    return ("countof", x)
                args = []
                if not self.op(")"):
                    args.append(self.expr())
                    while self.op(","):
                        args.append(self.expr())
                    self.need(")")
                return ("fn", u, tuple(args))
            if self.peek(1) == ("op", "."):
                self.i += 2
                return ("qcol", b.lower(), self.name())
            return ("col", self.name())
        raise Unsupported("expression near %r" % b)

    def case(self):
        on = None if self.peek()[0] == "id" and self.peek()[1].upper() == "WHEN" else self.expr()
        arms = []
        while self.kw("WHEN"):
            c = self.expr()
            if not self.kw("THEN"):
                raise Unsupported("CASE")
            arms.append((c if on is None else ("=", on, c), self.expr()))
        other = self.expr() if self.kw("ELSE") else ("null",)
        if not self.kw("END") or not arms:
            raise Unsupported("CASE")
        return ("case", tuple(arms), other)

    # ---- statements
    def select(self):
        cols = []
        if self.kw("DISTINCT"):
            raise Unsupported("DISTINCT")
        while True:
            if self.op("*"):
                cols.append(("star",))
            else:
                e = self.expr()
                if self.kw("AS"):
                    self.name()
                cols.append(e)
            if not self.op(","):
                break
        table = None
        where = None
        if self.kw("FROM"):
            table = self.name()
            if self.peek()[0] == "id" and self.peek()[1].upper() not in ("WHERE", "ORDER", "LIMIT", "GROUP"):
                raise Unsupported("join or alias")
            if self.peek() == ("op", ","):
                raise Unsupported("join")
        if self.kw("WHERE"):
            where = self.expr()
        order = None
        if self.kw("ORDER", "BY"):
            e = self.expr()
            d = "DESC" if self.kw("DESC") else "ASC"
            self.kw("ASC")
            order = (e, d)
            if self.peek() == ("op", ","):
                raise Unsupported("several sort keys")
        limit = None
        if self.kw("LIMIT"):
            limit = self.expr()
            if self.kw("OFFSET") or self.peek() == ("op", ","):
                raise Unsupported("OFFSET")
        if self.kw("GROUP"):
            raise Unsupported("GROUP BY")
        return ("select", own(tuple(cols), table), table, own(where, table), own(order, table), limit)

    def end(self):
        self.op(";")
        if self.peek()[0] != "end":
            raise Unsupported("statement continues with %r" % self.peek()[1])

    def statement(self):
        if self.kw("SELECT"):
            r = self.select()
        elif self.peek()[0] == "id" and self.peek()[1].upper() in ("INSERT", "REPLACE"):
            mode = None
            if self.kw("REPLACE"):
                mode = "REPLACE"
            else:
                self.i += 1
                if self.kw("OR"):
                    mode = self.name().upper()
            if not self.kw("INTO"):
                raise Unsupported("INSERT")
            table = self.name()
            cols = None
            if self.op("("):
                cols = [self.name()]
                while self.op(","):
                    cols.append(self.name())
                self.need(")")
            query = None
            if self.peek()[0] == "id" and self.peek()[1].upper() == "SELECT":
                self.i += 1
                query = self.select()
                rows = ()
            elif self.kw("DEFAULT", "VALUES"):
                rows = [()]
                cols = []
            elif self.kw("VALUES"):
                rows = []
                while True:
                    self.need("(")
                    r = [self.expr()]
                    while self.op(","):
                        r.append(self.expr())
                    self.need(")")
                    rows.append(tuple(r))
                    if not self.op(","):
                        break
            else:
                raise Unsupported("INSERT ... SELECT")
            upsert = None
            if self.kw("ON", "CONFLICT"):
                keys = None
                if self.op("("):
                    keys = [self.name()]
                    while self.op(","):
                        keys.append(self.name())
                    self.need(")")
                if self.kw("DO", "NOTHING"):
                    upsert = ("nothing", keys)
                elif self.kw("DO", "UPDATE", "SET"):
                    upsert = ("update", keys, own(self.sets(), table), own(self.expr(), table) if self.kw("WHERE") else None)
                else:
                    raise Unsupported("ON CONFLICT")
            r = ("insert", mode, table, tuple(cols) if cols is not None else None, tuple(rows) if query is None else query, upsert)
        elif self.kw("UPDATE"):
            mode = None
            if self.kw("OR"):
                mode = self.name().upper()
            table = self.name()
            if not self.kw("SET"):
                raise Unsupported("UPDATE")
            sets = own(self.sets(), table)
            where = own(self.expr(), table) if self.kw("WHERE") else None
            r = ("update", mode, table, sets, where)
        elif self.kw("DELETE", "FROM"):
            table = self.name()
            where = own(self.expr(), table) if self.kw("WHERE") else None
            r = ("delete", table, where)
        elif self.kw("PRAGMA"):
            n = self.name()
            v = None
            if self.op("=") or self.op("("):
                v = self.peek()[1]
                self.i += 1
                self.op(")")
            r = ("pragma", n, v)
        elif self.kw("CREATE", "TABLE"):
            self.i = len(self.t)
            return ("create",)
        elif self.peek()[0] == "id" and self.peek()[1].upper() in ("BEGIN", "SAVEPOINT"):
            self.i = len(self.t)
            return ("begin",)
        elif self.peek()[0] == "id" and self.peek()[1].upper() in ("COMMIT", "END", "RELEASE"):
            self.i = len(self.t)
            return ("commit",)
        elif self.kw("ROLLBACK"):
            self.i = len(self.t)
            return ("rollback",)
        else:
            raise Unsupported("statement %s" % self.peek()[1])
        self.end()
        return r

    def sets(self):
        sets = []
        while True:
            if self.peek() == ("op", "("):
                raise Unsupported("row assignment")
            n = self.name()
            self.need("=")
            sets.append((n, self.expr()))
            if not self.op(","):
                return tuple(sets)


def split_statements(s):
    """a batch, statement by statement"""
    out, cur, depth = [], [], 0
    for m in re.finditer(r"'(?:[^']|'')*'|\"[^\"]*\"|--[^\n]*|/\*.*?\*/|;|[^;'\"\-/]+|.", s, re.S):
        x = m.group(0)
        if x == ";":
            if "".join(cur).strip():
                out.append("".join(cur))
            cur = []
        elif not x.startswith(("--", "/*")):
            cur.append(x)
    if "".join(cur).strip():
        out.append("".join(cur))
    return out


_cache = {}


def parse(s):
    r = _cache.get(s)
    if r is None:
        try:
            r = Parser(s).statement()
        except Unsupported as e:
            r = e
        _cache[s] = r
    if isinstance(r, Unsupported):
        raise r
    return r


class Table:
    """a declared table: columns, types, constraints"""

    def __init__(self, name, cols, types, notnull, pk, conflict, fks, rowid, uniques, defaults):
        self.name, self.cols, self.types, self.notnull, self.pk, self.conflict, self.fks, self.rowid = name, cols, types, notnull, pk, conflict, fks, rowid
        self.uniques, self.defaults = uniques, defaults
        self.loose = set()  # columns that compare equal without being identical

    def affinity(self, c):
        t = (self.types.get(c) or "").upper()
        if "INT" in t:
            return "integer"
        if any(x in t for x in ("CHAR", "CLOB", "TEXT")):
            return "text"
        if "BLOB" in t or not t:
            return "none"
        if any(x in t for x in ("REAL", "FLOA", "DOUB")):
            return "real"
        return "numeric"


def declared(sql):
    """the table a CREATE TABLE statement declares (compiled by SQLite, not filled)"""
    import sqlite3
    con = sqlite3.connect(":memory:")
    try:
        con.executescript(sql)
        name = con.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'").fetchall()
        if len(name) != 1:
            raise Unsupported("CREATE statement")
        name = name[0][0]
        info = con.execute("PRAGMA table_info('%s')" % name).fetchall()
        fks = con.execute("PRAGMA foreign_key_list('%s')" % name).fetchall()
        idx = con.execute("PRAGMA index_list('%s')" % name).fetchall()
        uniques = []
        for i in idx:
            if i[2] and i[3] != "pk":
                uniques.append(tuple(x[2].lower() for x in con.execute("PRAGMA index_info('%s')" % i[1]).fetchall()))
    except sqlite3.Error as x:
        raise Unsupported(str(x))
    finally:
        con.close()
    cols = [i[1].lower() for i in info]
    types = {i[1].lower(): i[2] for i in info}
    pk = [i[1].lower() for i in sorted(info, key=lambda x: x[5]) if i[5]]
    notnull = {i[1].lower() for i in info if i[3]}
    defaults = {i[1].lower(): i[4] for i in info if i[4] is not None}
    body = sql[sql.index("(") + 1:sql.rindex(")")]
    conflict = {}
    depth, cur, items = 0, "", []
    for ch in body:
        if ch == "," and depth == 0:
            items.append(cur)
            cur = ""
            continue
        depth += ch == "("
        depth -= ch == ")"
        cur += ch
    items.append(cur)
    loose = set()
    for it in items:
        m = re.search(r"\b(PRIMARY\s+KEY|UNIQUE)\b[^,]*?\bON\s+CONFLICT\s+(\w+)", it, re.I)
        if m:
            w = re.match(r"\s*[\"`\[]?(\w+)", it).group(1).lower()
            if w in cols:
                conflict[(w,)] = m.group(2).upper()
            else:
                c = re.search(r"\(([^)]*)\)", it)
                conflict[tuple(x.strip().lower() for x in c.group(1).split(","))] = m.group(2).upper()
        m = re.search(r"\bCOLLATE\s+(\w+)", it, re.I)
        if m and m.group(1).upper() != "BINARY":
            w = re.match(r"\s*[\"`\[]?(\w+)", it).group(1).lower()
            if w not in cols:
                raise Unsupported("constraint in a table declaration")
            loose.add(w)
        if re.search(r"\bCHECK\b|\bGENERATED\b|\bDEFERRABLE\b", it, re.I):
            raise Unsupported("constraint in a table declaration")
    rowid = len(pk) == 1 and types[pk[0]].upper() == "INTEGER"
    fk = [(f[3].lower(), f[2].lower(), (f[4] or "").lower() or None, f[6].upper()) for f in fks]
    t = Table(name.lower(), cols, types, notnull, tuple(pk), conflict, fk, rowid, uniques, defaults)
    t.loose = loose
    return t
