"""An abstract database for the interpreter: the statements the program runs are interpreted over
tables whose rows hold symbolic values, one of which may stand for any number of rows in the middle
of the linked list of inputs.

The database of a state is in aux["db"].  A statement outside the understood fragment makes it lost
(aux["db"].lost says why); from there on the default models answer."""
import sqlmini as Q
import terms as T
from terms import I, ZERO, ONE, TRUE, FALSE, add, sub, ge0, gt0, eq0, bnot, fresh, app, is_app, fld, refv

BEGIN = ("transaction", "transaction_with_behavior", "unchecked_transaction", "savepoint")


class Lost(Exception):
    pass


class Fork(Exception):
    """needs a decision: alternatives are functions facts -> facts or None"""

    def __init__(self, alts):
        self.alts = alts


class Mid:
    """any number (>= 1) of rows in the middle of the list: first .. last, after `prev`, before `next`"""
    __slots__ = ("count", "prev", "next", "first", "last")

    def __init__(self, count, prev, next, first, last):
        self.count, self.prev, self.next, self.first, self.last = count, prev, next, first, last

    def key(self):
        return ("mid", self.count, self.prev, self.next, self.first, self.last)


def through(E, st, a, b):
    """equality of a and b by way of a stored value: one of them equals it, and it differs from (or equals) the other"""
    d0 = st.aux.get("dbx") or st.aux.get("db0")
    for rs in (d0.tables.values() if d0 is not None else ()):
        for r in rs:
            if isinstance(r, Mid):
                continue
            for z in r.values():
                if z is None or z is a or z is b or z.ty != a.ty and z.ty != b.ty:
                    continue
                for x, y in ((a, b), (b, a)):
                    e = E.M.eq_term(E, st, x, z)
                    if e is not None and (e if e in (True, False) else st.facts.decide(e)) is True:
                        e2 = E.M.eq_term(E, st, z, y)
                        q = e2 if e2 in (True, False, None) else st.facts.decide(e2)
                        if q is not None:
                            return q
    return None


class Db:
    __slots__ = ("decl", "tables", "tx", "last", "lost", "ids", "absent", "mode", "_key")

    def __init__(self):
        self.decl, self.tables, self.tx, self.last, self.lost = {}, {}, None, None, None
        self.ids = frozenset()
        self.absent = False
        self.mode = "rollback"
        self._key = None

    def copy(self):
        d = Db.__new__(Db)
        for s in Db.__slots__:
            setattr(d, s, getattr(self, s))
        d.tables = dict(self.tables)
        d.decl = dict(self.decl)
        d._key = None
        return d

    def key(self):
        if self._key is None:
            self._key = (freeze(self.tables), None if self.tx is None else freeze(self.tx), self.last, self.lost, self.mode)
        return self._key

    def rows(self, t):
        return self.tables.get(t, ())

    def settled(self):
        """the tables once a transaction left open has ended"""
        return self.tables if self.tx is None or self.mode == "commit" else self.tx

    def with_tables(self, ts):
        d = self.copy()
        d.tables = dict(ts)
        d.tx = None
        return d


def freeze(ts):
    return tuple((n, tuple(r.key() if isinstance(r, Mid) else tuple(sorted(((c, v) for c, v in r.items()), key=lambda x: x[0])) for r in rs)) for n, rs in sorted(ts.items()))


def strip(t):
    while t.op in ("refv", "box", "dynref"):
        t = t.a[0]
    return t


def equated(e):
    """the operands of the comparisons for equality in a condition"""
    if not isinstance(e, tuple) or not e:
        return []
    if e[0] in ("=", "is", "<>") and len(e) == 3:
        return [e[1:]]
    return [x for y in e for x in equated(y)]


class Eval:
    """one attempt at a statement in a state"""

    def __init__(self, E, st, db, params):
        self.E, self.st, self.db, self.params = E, st, db, params
        self.outer = ()   # the rows a nested query is evaluated for
        self.excl = None  # the row an upsert could not insert

    def nested(self, q, row, table):
        """the rows of a query inside an expression about a row"""
        save = self.outer
        self.outer = ((table, row),) + save
        try:
            return self.select(q)
        finally:
            self.outer = save

    def members(self, q, row, table):
        """the values of a one-column query; rows of the middle stand for themselves"""
        _, cols, t, where, order, limit = q
        if t is not None and len(cols) == 1 and cols[0][0] == "col" and limit is None:
            self.need(t)
            save = self.outer
            self.outer = ((table, row),) + save
            try:
                return [self.ev(cols[0], r, t) for r in self.match(t, where)]
            finally:
                self.outer = save
        if len(cols) != 1 or limit is not None:
            raise Lost("IN")
        return [r[0] for r in self.nested(q, row, table)]

    def truth(self, t):
        if t in (True, False, None):
            return t
        r = self.st.facts.decide(t)
        if r is None:
            # a fact that does not stick is split on by name
            u = app("sqlcond", (t,), self.E.P.ty_by_s.get("bool"))
            r = self.st.facts.decide(u)
            if r is None:
                def go(f, b):
                    f = f.assume(t, b)
                    return f if f is None or f.decide(t) is b else f.assume(u, b)
                raise Fork([lambda f: go(f, True), lambda f: go(f, False)])
            if r is (t.op != "not"):
                raise Lost("a comparison that leaves no fact")
        return r

    def param(self, e):
        if e[0] == "named":
            if self.params[0] != "named" or e[1] not in self.params[1]:
                raise Lost("parameter %s" % e[1])
            v = self.params[1][e[1]]
        else:
            if self.params[0] != "pos" or e[1] >= len(self.params[1]):
                raise Lost("positional parameter")
            v = self.params[1][e[1]]
        return self.value(v)

    def value(self, v):
        """a bound value: NULL or a term"""
        P = self.E.P
        v = strip(self.E.strip(self.st, v))
        if isinstance(v.ty, int) and P.cat(v.ty) == "option":
            vs = self.st.facts.variants(v)
            n, s = P.variant_index(v.ty, "None"), P.variant_index(v.ty, "Some")
            if v.op == "adt":
                k = v.a[0]
            elif vs and len(vs) == 1:
                k = vs[0]
            else:
                raise Fork([lambda f: f.know_variant(v, n), lambda f: f.know_variant(v, s)])
            return None if k == n else self.value(fld(v, s, 0, P.fields(v.ty, s)[0]))
        if isinstance(v.ty, int) and P.k(v.ty) == "bool":
            raise Lost("boolean value")
        return v

    # ---- expressions; rows are dicts, Mid or None
    def ev(self, e, row, table):
        k = e[0]
        if k == "int":
            return I(e[1])
        if k == "str":
            return T.string(e[1])
        if k == "null":
            return None
        if k == "val":
            return e[1]
        if k in ("named", "pos"):
            return self.param(e)
        if k == "col":
            if row is None:
                raise Lost("column outside a row")
            if isinstance(row, Mid):
                return ("midcol", e[1], row)
            t = self.db.decl.get(table)
            if t and e[1] not in t.cols and e[1] not in ("rowid", "oid", "_rowid_"):
                for ot, orow in self.outer:
                    if orow is not None and not isinstance(orow, Mid) and ot in self.db.decl and e[1] in self.db.decl[ot].cols:
                        return orow[e[1]]
            n = self.colname(table, e[1])
            return row[n]
        if k == "qcol":
            if e[1] == "excluded" and self.excl is not None:
                return self.excl[self.colname(table, e[2])]
            for ot, orow in self.outer:
                if ot == e[1] and orow is not None:
                    return self.ev(("col", e[2]), orow, ot)
            raise Lost("column %s.%s" % e[1:])
        if k == "case":
            for c, v in e[1]:
                if self.cond(c, row, table) is True:
                    if any(x[0] not in ("int", "str", "null") and y[0] not in ("int", "str", "null") for x, y in equated(c)):
                        raise Lost("a value chosen because it equals another")
                    return self.ev(v, row, table)
            return self.ev(e[2], row, table)
        if k == "sub":
            if e[1][5] is not None and e[1][5] != ("int", 1):
                raise Lost("LIMIT")
            rs = self.nested(e[1], row, table)
            if not rs:
                return None
            return rs[0][0]
        if k in ("+", "-"):
            a, b = self.ev(e[1], row, table), self.ev(e[2], row, table)
            if a is None or b is None:
                return None
            if isinstance(a, tuple) or isinstance(b, tuple) or not (self.isint(a) and self.isint(b)):
                raise Lost("arithmetic")
            return add(a, b) if k == "+" else sub(a, b)
        if k == "fn" and e[1] == "LAST_INSERT_ROWID" and not e[2]:
            return self.db.last if self.db.last is not None else ZERO
        if k == "fn" and e[1] in ("COALESCE", "IFNULL"):
            for x in e[2]:
                v = self.ev(x, row, table)
                if v is not None:
                    return v
            return None
        if k == "fn" and e[1] in ("MAX", "MIN") and len(e[2]) > 1:
            best = None
            for j, x in enumerate(e[2]):
                v = self.ev(x, row, table)
                if v is None:
                    return None
                if isinstance(v, tuple) or not self.isint(v) or v in self.db.ids:
                    raise Lost("ordering")
                if j == 0 or self.truth(gt0(sub(v, best) if e[1] == "MAX" else sub(best, v))):
                    best = v
            return best
        if k == "collate":
            return self.ev(e[1], row, table)
        if k in ("=", "<>", "<", "<=", ">", ">=", "and", "or", "not", "isnull", "is", "like", "glob", "in", "exists"):
            b = self.cond(e, row, table)
            return None if b is None else I(1 if b else 0)
        if k == "fn" and e[1] in ("UPPER", "LOWER", "TRIM", "LTRIM", "RTRIM", "SUBSTR", "SUBSTRING", "REPLACE", "HEX", "QUOTE"):
            vs = [self.ev(x, row, table) for x in e[2]]
            if any(v is None for v in vs):
                return None
            if any(isinstance(v, tuple) for v in vs):
                raise Lost("value from the middle of the list")
            return app("sql:" + e[1], tuple(vs), self.E.P.ty_by_s.get("std::string::String"))
        raise Lost("expression %s" % k)

    def colname(self, table, n):
        t = self.db.decl.get(table)
        if t and n not in t.cols and n in ("rowid", "oid", "_rowid_") and t.rowid:
            return t.pk[0]
        if t and n not in t.cols:
            raise Lost("column %s" % n)
        return n

    def isint(self, a):
        return a.op in ("int", "lin") or isinstance(a.ty, int) and self.E.P.cat(a.ty) == "int"

    def eq(self, a, b):
        """True / False / None for two values"""
        if a is None or b is None:
            return None
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple):
                return self.mideq(x, y)
        if a is b:
            return True
        if a in self.db.ids and b in self.db.ids:
            return False
        if is_app(a, "affinity") or is_app(b, "affinity"):
            raise Lost("value converted by its column")
        t = self.E.M.eq_term(self.E, self.st, a, b)
        if t not in (True, False, None) and self.st.facts.decide(t) is None:
            q = through(self.E, self.st, a, b)
            if q is not None:
                return q
        return self.truth(t)

    def mideq(self, x, y):
        _, c, m = x
        if isinstance(y, tuple):
            raise Lost("comparison inside the middle of the list")
        if y in (m.first, m.last):
            raise Lost("reaches the middle of the list")
        if c in ("id", "rowid"):
            if y in self.db.ids:
                return False
            if self.truth(app("inmid", (y,), self.E.P.ty_by_s.get("bool"))):
                raise Lost("a row in the middle of the list")
            return False
        if c in ("next", "prev"):
            if y is (m.next if c == "next" else m.prev):
                raise Lost("reaches the middle of the list")
            if y in self.db.ids:
                return False
        raise Lost("column %s of the middle of the list" % c)

    def cond(self, e, row, table):
        k = e[0]
        if k == "and":
            a = self.cond(e[1], row, table)
            if a is False:
                return False
            b = self.cond(e[2], row, table)
            return False if b is False else None if a is None or b is None else True
        if k == "or":
            a = self.cond(e[1], row, table)
            if a is True:
                return True
            b = self.cond(e[2], row, table)
            return True if b is True else None if a is None or b is None else False
        if k == "not":
            a = self.cond(e[1], row, table)
            return None if a is None else not a
        if k == "isnull":
            v = self.ev(e[1], row, table)
            return self.null(v)
        if k == "exists":
            q = e[1]
            if q[5] is not None and q[5] != ("int", 1) or q[2] is None or any(c[0] in ("count", "countof", "fn") for c in q[1]):
                raise Lost("EXISTS")
            self.need(q[2])
            save = self.outer
            self.outer = ((table, row),) + save
            try:
                return bool(self.match(q[2], q[3]))
            finally:
                self.outer = save
        if k == "in":
            a = self.ev(e[1], row, table)
            vs = self.members(e[2], row, table) if e[2][0] == "select" else [self.ev(x, row, table) for x in e[2][1]]
            if not vs:
                return False
            if a is None:
                return None
            unknown = False
            for v in vs:
                if v is None:
                    unknown = True
                elif self.eq(a, v):
                    return True
            return None if unknown else False
        if k == "is":
            a, b = self.ev(e[1], row, table), self.ev(e[2], row, table)
            if a is None or b is None:
                o = b if a is None else a
                return self.null(o)
            return self.eq(a, b)
        if k in ("=", "<>") and any(
                x[0] == "collate" and x[2] != "BINARY" or x[0] == "col" and row is not None and x[1] in self.db.decl[table].loose
                and not any(y[0] == "collate" for y in e[1:]) for x in e[1:]):
            # equal for sure when equal exactly
            a, b = (self.ev(x[1] if x[0] == "collate" else x, row, table) for x in e[1:])
            r = self.loose("collate", a, b)
            return r if k == "=" or r is None else not r
        if k in ("like", "glob"):
            a, b = self.ev(e[1], row, table), self.ev(e[2], row, table)
            return self.loose(k, a, b)
        if k in ("=", "<>"):
            r = self.eq(self.ev(e[1], row, table), self.ev(e[2], row, table))
            return r if k == "=" or r is None else not r
        if k in ("<", "<=", ">", ">="):
            a, b = self.ev(e[1], row, table), self.ev(e[2], row, table)
            if a is None or b is None:
                return None
            if not isinstance(a, tuple) and not isinstance(b, tuple) and self.istext(a) and self.istext(b):
                if self.eq(a, b):
                    return k in ("<=", ">=")
                # a total order on texts about which nothing else is known
                l, r = (a, b) if T.show(a) < T.show(b) else (b, a)
                lt = self.truth(app("sqllt", (l, r), self.E.P.ty_by_s.get("bool")))
                return (lt == (l is a)) == (k in ("<", "<="))
            if isinstance(a, tuple) or isinstance(b, tuple) or not (self.isint(a) and self.isint(b)) or a in self.db.ids or b in self.db.ids:
                raise Lost("ordering")
            d = sub(b, a)
            return self.truth({"<": gt0(d), "<=": ge0(d), ">": gt0(T.neg(d)), ">=": ge0(T.neg(d))}[k])
        v = self.ev(e, row, table)
        if v is None:
            return None
        if isinstance(v, tuple):
            raise Lost("condition")
        return self.truth(bnot(eq0(v)))

    def istext(self, a):
        return isinstance(a.ty, int) and self.E.P.cat(a.ty) == "str" or T.const_str(a) is not None

    def loose(self, k, a, b):
        """a relation between texts that equality implies (a pattern compared with [ ] for GLOB aside)"""
        if a is None or b is None:
            return None
        if isinstance(a, tuple) or isinstance(b, tuple) or not (self.istext(a) and self.istext(b)):
            raise Lost(k)
        if k != "glob" and self.eq(a, b):
            return True
        return self.truth(app("sql" + k, (a, b), self.E.P.ty_by_s.get("bool")))

    def null(self, v):
        if v is None:
            return True
        if isinstance(v, tuple):
            if v[1] in ("id", "next", "prev", "input"):
                return False
            raise Lost("column of the middle of the list")
        return False

    def match(self, table, where):
        """rows selected, each with certainty"""
        out = []
        one = self.unique(table, where)
        rows = self.db.rows(table)
        if one:
            rows = [r for r in rows if not isinstance(r, Mid)] + [r for r in rows if isinstance(r, Mid)]
        for r in rows:
            if where is None or self.cond(where, r, table) is True:
                out.append(r)
                if one:
                    break
        return out

    def unique(self, table, w):
        """does the condition fix the whole key of the table?"""
        t = self.db.decl[table]
        keys = ([t.pk] if t.pk else []) + list(t.uniques)
        fixed = set()

        def go(w):
            if w[0] == "and":
                go(w[1])
                go(w[2])
            elif w[0] == "=":
                for a, b in ((w[1], w[2]), (w[2], w[1])):
                    if a[0] == "col" and b[0] in ("named", "pos", "int", "str"):
                        fixed.add(self.colname(table, a[1]))
        if w is not None:
            go(w)
        return any(set(k) <= fixed for k in keys)

    # ---- statements
    def need(self, table):
        if table not in self.db.decl:
            raise Lost("table %s" % table)

    def select(self, q):
        _, cols, table, where, order, limit = q
        if table is None:
            if where is not None and self.cond(where, None, None) is not True:
                return []
            return [[self.ev(c, None, None) for c in cols]]
        self.need(table)
        rows = self.midselect(table, where) if where is not None else None
        if rows is None:
            rows = self.match(table, where)
        if any(c[0] in ("count", "countof") for c in cols):
            if len(cols) != 1 or cols[0][0] != "count" or limit is not None:
                raise Lost("aggregate")
            n = ZERO
            for r in rows:
                n = add(n, r.count if isinstance(r, Mid) else ONE)
            return [[n]]
        if any(c[0] == "fn" and c[1] in ("MIN", "MAX", "SUM", "AVG", "TOTAL", "GROUP_CONCAT") for c in cols):
            raise Lost("aggregate")
        if order is not None and len(rows) > 1:
            raise Lost("sorting")
        if any(isinstance(r, Mid) for r in rows):
            raise Lost("rows in the middle of the list")
        out = []
        for r in rows:
            vs = []
            for c in cols:
                if c[0] == "star":
                    vs.extend(r[n] for n in self.db.decl[table].cols)
                else:
                    vs.append(self.ev(c, r, table))
            out.append(vs)
        return out

    def midselect(self, table, where):
        """id = x where x may be one of the rows in the middle: such a row, about which little is known"""
        mids = [r for r in self.db.rows(table) if isinstance(r, Mid)]
        if not mids or where[0] != "=":
            return None
        a, b = where[1], where[2]
        if b[0] == "col":
            a, b = b, a
        if a[0] != "col" or self.colname(table, a[1]) != "id" or b[0] == "col":
            return None
        x = self.ev(b, None, table)
        if x is None or x in self.db.ids:
            return None
        for r in self.db.rows(table):
            if not isinstance(r, Mid) and self.eq(r["id"], x):
                return None
        m = mids[0]
        if x in (m.first, m.last) or self.truth(app("inmid", (x,), self.E.P.ty_by_s.get("bool"))):
            P = self.E.P
            i64, s = P.ty_by_s.get("i64"), P.ty_by_s.get("std::string::String")
            return [{"id": x, "input": app("mid_input", (x,), s), "next": m.next if x is m.last and x is not m.first else app("mid_next", (x,), i64),
                     "prev": m.prev if x is m.first else app("mid_prev", (x,), i64)}]
        return []

    def store(self, t, c, v):
        """the value a column keeps of v"""
        if v is None:
            return None
        if isinstance(v, tuple):
            raise Lost("value from the middle of the list")
        a = t.affinity(c)
        isint = self.isint(v)
        if a in ("integer", "numeric", "real") and not isint or a == "text" and isint:
            return app("affinity", (T.string(a), v), v.ty if isinstance(v.ty, int) else None)
        return v

    def run(self, q):
        """(result, database); result: int term (rows changed), 'error' or rows"""
        k = q[0]
        if k == "select":
            return self.select(q), self.db
        if k == "insert":
            return self.insert(q)
        if k == "update":
            return self.update(q)
        if k == "delete":
            return self.delete(q)
        raise Lost(k)

    def insert(self, q):
        _, mode, table, cols, rows, upsert = q
        self.need(table)
        t = self.db.decl[table]
        cols = cols if cols is not None else tuple(t.cols)
        db = self.db.copy()
        n = 0
        old = self.db
        if rows and rows[0] == "select":
            if rows[5] is not None:
                raise Lost("LIMIT")
            rows = [tuple(("val", v) for v in r) for r in self.select(rows)]
        for vals in rows:
            if len(vals) != len(cols):
                raise Lost("number of values")
            row = {c: None for c in t.cols}
            for c, e in zip(cols, vals):
                row[self.colname(table, c)] = self.store(t, c, self.ev(e, None, table))
            for c, dv in t.defaults.items():
                if c not in cols:
                    raise Lost("default value")
            if t.rowid and row[t.pk[0]] is None:
                i = fresh("rowid", self.E.P.ty_by_s.get("i64"))
                row[t.pk[0]] = i
                db.ids = db.ids | {i}
                auto = True
            else:
                auto = False
            bad = [c for c in t.notnull if row[c] is None]
            if bad:
                if mode == "IGNORE":
                    continue
                return "error", old
            clash = None
            if not auto or t.uniques:
                keys = ([t.pk] if t.pk and not auto else []) + list(t.uniques)
                for ks in keys:
                    for r in db.rows(table):
                        if isinstance(r, Mid):
                            if ks == ("id",):
                                if self.mideq(("midcol", "id", r), row["id"]):
                                    clash = (ks, r)
                                continue
                            raise Lost("unique column of the middle of the list")
                        save, self.db = self.db, db
                        try:
                            same = all((self.loose("collate", r[c], row[c]) if c in t.loose else self.eq(r[c], row[c])) is True for c in ks)
                        finally:
                            self.db = save
                        if same:
                            clash = (ks, r)
                            break
                    if clash:
                        break
            if clash:
                ks, r = clash
                if upsert and (upsert[1] is None or tuple(upsert[1]) == tuple(ks)):
                    if upsert[0] == "nothing":
                        continue
                    if isinstance(r, Mid):
                        raise Lost("update of the middle of the list")
                    new = dict(r)
                    self.excl = row
                    try:
                        if upsert[3] is not None and self.cond(upsert[3], r, table) is not True:
                            continue
                        for c, e in upsert[2]:
                            c = self.colname(table, c)
                            if c in t.pk:
                                raise Lost("key changed")
                            new[c] = self.store(t, c, self.ev(e, r, table))
                            if c in t.notnull and new[c] is None:
                                return "error", old
                    finally:
                        self.excl = None
                    db.tables[table] = tuple(new if x is r else x for x in db.rows(table))
                    n += 1
                    continue
                m = mode or t.conflict.get(tuple(ks)) or "ABORT"
                if m == "IGNORE":
                    continue
                if m != "REPLACE":
                    return "error", old
                db.tables[table] = tuple(x for x in db.rows(table) if x is not r)
                # rows that refer to a replaced row with the same key keep a valid reference, those that cascade go
                if not self.cascade(db, table, r):
                    return "error", old
            db.tables[table] = db.rows(table) + (row,)
            if t.rowid:
                db.last = row[t.pk[0]]
            n += 1
        if not self.fk(db):
            return "error", old
        return I(n), db

    def update(self, q):
        _, mode, table, sets, where = q
        self.need(table)
        t = self.db.decl[table]
        if mode not in (None, "ABORT", "ROLLBACK", "FAIL"):
            raise Lost("UPDATE OR %s" % mode)
        rows = self.match(table, where)
        if any(isinstance(r, Mid) for r in rows):
            raise Lost("update of the middle of the list")
        db = self.db.copy()
        new = {}
        for r in rows:
            x = dict(r)
            for c, e in sets:
                c = self.colname(table, c)
                x[c] = self.store(t, c, self.ev(e, r, table))
                if c in t.notnull and x[c] is None:
                    return "error", self.db
                if c in t.pk and x[c] is not r[c]:
                    if any(o is not r and not isinstance(o, Mid) and self.eq(o[c], x[c]) for o in self.db.rows(table)):
                        return "error", self.db
                    if any(isinstance(o, Mid) for o in self.db.rows(table)):
                        raise Lost("key changed")
            new[id(r)] = x
        db.tables[table] = tuple(new.get(id(r), r) for r in db.rows(table))
        if not self.fk(db):
            return "error", self.db
        return I(len(rows)), db

    def delete(self, q):
        _, table, where = q
        self.need(table)
        rows = self.match(table, where)
        db = self.db.copy()
        gone = {id(r) for r in rows}
        db.tables[table] = tuple(r for r in db.rows(table) if id(r) not in gone)
        n = ZERO
        for r in rows:
            n = add(n, r.count if isinstance(r, Mid) else ONE)
            if isinstance(r, Mid):
                continue
            if not self.cascade(db, table, r):
                return "error", self.db
        if not self.fk(db):
            return "error", self.db
        return n, db

    def cascade(self, db, table, row):
        """actions of foreign keys on the deletion of a row; False when it is refused"""
        for n, t in db.decl.items():
            for col, par, pcol, act in t.fks:
                if par != table:
                    continue
                pc = pcol or (db.decl[table].pk[0] if db.decl[table].pk else None)
                if pc is None or act not in ("CASCADE", "SET NULL", "RESTRICT"):
                    continue
                out = []
                for r in db.rows(n):
                    if isinstance(r, Mid):
                        if r.prev is row[pc] and col == "prev" or r.next is row[pc] and col == "next":
                            raise Lost("the middle of the list refers to a deleted row")
                        out.append(r)
                        continue
                    save, self.db = self.db, db
                    try:
                        same = r[col] is not None and self.eq(r[col], row[pc]) is True
                    finally:
                        self.db = save
                    if not same:
                        out.append(r)
                    elif act == "RESTRICT":
                        return False
                    elif act == "SET NULL":
                        x = dict(r)
                        x[col] = None
                        out.append(x)
                    else:
                        if any(f[1] == n for tt in db.decl.values() for f in tt.fks):
                            raise Lost("cascade of cascades")
                db.tables[n] = tuple(out)
        return True

    def fk(self, db):
        """do all references known to be to explicit rows hold?"""
        for n, t in db.decl.items():
            for col, par, pcol, act in t.fks:
                if par not in db.decl:
                    raise Lost("reference to %s" % par)
                pc = pcol or db.decl[par].pk[0]
                have = set()
                mid = None
                for r in db.rows(par):
                    if isinstance(r, Mid):
                        mid = r
                    else:
                        have.add(r[pc])
                for r in db.rows(n):
                    if isinstance(r, Mid):
                        for c, v in (("prev", r.prev), ("next", r.next)):
                            if c == col and v is not None and v not in have and n == par:
                                return False
                        continue
                    v = r[col]
                    if v is None or v in have or mid is not None and v in (mid.first, mid.last):
                        continue
                    if v in db.ids:
                        return False
                    # an unknown value: a known row, a row of the middle, or none
                    save, self.db = self.db, db
                    try:
                        found = any(self.eq(x, v) for x in sorted(have, key=T.show))
                        if not found and mid is not None:
                            found = self.truth(app("inmid", (v,), self.E.P.ty_by_s.get("bool")))
                    finally:
                        self.db = save
                    if not found:
                        return False
        return True


# ---------------------------------------------------------------- hooks
def params_of(E, st, args):
    P = E.P
    if len(args) < 3:
        return ("pos", [])
    a = strip(E.strip(st, E.freeze(st, args[2])))
    if a.op == "adt" and P.k(a.ty) == "tuple":
        return ("pos", [strip(x) for x in a.a[1]])
    es = T.const_elems(a)
    if es is None:
        return None
    named, pos = {}, []
    for x in es:
        x = strip(x)
        if x.op == "adt" and isinstance(x.ty, int) and P.k(x.ty) == "tuple" and len(x.a[1]) == 2 and T.const_str(strip(x.a[1][0])) is not None:
            named[T.const_str(strip(x.a[1][0]))] = strip(x.a[1][1])
        else:
            pos.append(x)
    if named and pos:
        return None
    return ("named", named) if named else ("pos", pos)


def setdb(st, db):
    st.setaux("db", db)
    st.setaux("key", (st.aux.get("xkey"), db.key() if db is not None else None))


def lose(st, why):
    db = st.aux["db"].copy()
    db.lost = why
    s = st.fork()
    setdb(s, db)
    return s


def attempt(E, st, go):
    """[(state, result)] of go(state), splitting on what must be known; Lost gives result None"""
    out = []
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 200:
            out.append((lose(st, "too many cases"), None))
            break
        try:
            out.append((s, go(s)))
        except Fork as f:
            for alt in f.alts:
                fx = alt(s.facts)
                if fx is not None:
                    work.append(s.with_facts(fx))
        except (Lost, Q.Unsupported) as x:
            out.append((lose(s, str(x)), None))
    return out


def statement(E, st, c, args, cx):
    """the statement an event runs: text, parameters"""
    sql = T.const_str(strip(E.strip(st, E.freeze(st, args[1]))))
    if sql is None:
        raise Lost("statement put together at run time")
    ps = params_of(E, st, args)
    return sql, ps


def fail(E, s, c, args, cx, name, path):
    et = E.M.payload_ty(E, cx.ty, "Err")
    e = E.default("dberr", et)
    if E.P.is_enum(et):
        nr = E.P.variant_index(et, "QueryReturnedNoRows")
        if nr is not None:
            s.facts = s.facts.exclude_variants(e, {nr})
    E.event(s, name, path, args, app("failed", (e,)), cx.span, c, "db_err")
    return s, E.M.err(E, cx.ty, e)


def exec_one(E, s, sql, ps):
    """run one statement in state s: (result, database)"""
    db = s.aux["db"]
    q = Q.parse(sql)
    if q[0] == "pragma":
        if q[1] == "foreign_keys":
            if q[2] is not None and q[2].upper() not in ("ON", "1", "TRUE", "YES"):
                raise Lost("referential integrity switched off")
            return ZERO, db
        raise Lost("pragma %s" % q[1])
    if q[0] == "create":
        t = Q.declared(sql)
        if t.name in db.decl:
            import re
            if re.match(r"\s*CREATE\s+TABLE\s+IF\s+NOT\s+EXISTS", sql, re.I):
                return ZERO, db
            return "error", db
        d = db.copy()
        d.decl[t.name] = t
        d.tables[t.name] = ()
        return ZERO, d
    if q[0] == "begin":
        if db.tx is not None:
            return "error", db
        d = db.copy()
        d.tx = d.tables
        d.mode = "manual"
        d.tables = dict(d.tables)
        return ZERO, d
    if q[0] == "commit":
        d = db.copy()
        d.tx = None
        d.mode = "rollback"
        return ZERO, d
    if q[0] == "rollback":
        d = db.copy()
        if d.tx is not None:
            d.tables, d.tx = dict(d.tx), None
        d.mode = "rollback"
        return ZERO, d
    if ps is None:
        raise Lost("parameters")
    return Eval(E, s, db, ps).run(q)


def h_execute(E, st, c, args, cx):
    db = st.aux.get("db")
    if db is None or db.lost or E.P.cat(cx.ty) != "result":
        return None
    path = c.get("rpath") or c.get("path")
    name = c["name"]

    def go(s):
        if name == "execute_batch":
            sql = T.const_str(strip(E.strip(s, E.freeze(s, args[1]))))
            if sql is None:
                raise Lost("statement put together at run time")
            r, d = ZERO, s.aux["db"]
            s2 = s.fork()
            for one in Q.split_statements(sql):
                r, d = exec_one(E, s2, one, ("pos", []))
                if r == "error":
                    return r, d
                s2.setaux("db", d)
            return r, d
        sql, ps = statement(E, s, c, args, cx)
        r, d = exec_one(E, s, sql, ps)
        if isinstance(r, list):
            raise Lost("rows ignored")
        return r, d
    out = []
    for s, r in attempt(E, st, go):
        if r is None:
            out.extend(default(E, s, c, args, cx, name, path))
            continue
        v, d = r
        s = s.fork()
        if isinstance(v, str):
            out.append(fail(E, s, c, args, cx, name, path))
            continue
        setdb(s, d)
        ot = E.M.payload_ty(E, cx.ty, "Ok")
        val = T.adt(ot, 0, ()) if E.P.k(ot) == "tuple" else v
        E.event(s, name, path, args, val, cx.span, c, "db")
        out.append((s, E.M.ok(E, cx.ty, val)))
    return out


def default(E, st, c, args, cx, name, path):
    """a statement not understood: succeeds with an unknown result, or fails"""
    s1, s2 = st.fork(), st.fork()
    v = E.default("ext:" + name, E.M.payload_ty(E, cx.ty, "Ok"))
    E.event(s1, name, path, args, v, cx.span, c, "db")
    return [(s1, E.M.ok(E, cx.ty, v)), fail(E, s2, c, args, cx, name, path)]


def h_query(E, st, c, args, cx):
    db = st.aux.get("db")
    if db is None or db.lost:
        return None
    path = c.get("rpath") or c.get("path")
    name = c["name"]
    if name not in ("query_row", "query_row_and_then", "query_one"):
        s = lose(st, "cursor")
        return E.M.call(E, s, c, args, cx)

    def go(s):
        sql, ps = statement(E, s, c, args, cx)
        r, d = exec_one(E, s, sql, ps)
        if not isinstance(r, list):
            raise Lost("query without rows")
        if len(r) > 1:
            raise Lost("several rows")
        return r, d
    out = []
    for s, r in attempt(E, st, go):
        if r is None:
            x = E.M.call(E, s, c, args, cx)
            out.extend(x if x is not None else [])
            continue
        rows, d = r
        s = s.fork()
        if isinstance(rows, str):
            out.append(fail(E, s, c, args, cx, name, path))
            continue
        et = E.M.payload_ty(E, cx.ty, "Err")
        if not rows:
            nr = E.P.variant_index(et, "QueryReturnedNoRows") if E.P.is_enum(et) else None
            E.event(s, name, path, args, app("norows", ()), cx.span, c, "db")
            if nr is None:
                e = app("norows_err", (), et)
                out.append((s, E.M.err(E, cx.ty, e)))
            else:
                out.append((s, E.M.err(E, cx.ty, T.adt(et, nr, ()))))
            continue
        rowty = None
        f = args[3] if len(args) > 3 else args[-1]
        if isinstance(f.ty, int) and E.P.k(f.ty) == "closure":
            inst = E.P.tys[f.ty].get("inst")
            if inst is not None:
                rowty = E.P.strip(E.P.fns[inst].locals[2])
        row = fresh("row", rowty)
        cur = dict(s.aux.get("cur") or {})
        cur[row] = tuple(rows[0])
        s.setaux("cur", cur)
        E.event(s, name, path, args, row, cx.span, c, "db")
        out.extend(E.apply(s, f, [refv(row)], cx.ty, cx.span))
    return out


def h_get(E, st, c, args, cx):
    P = E.P
    row = E.strip(st, args[0])
    cur = st.aux.get("cur") or {}
    if row not in cur or P.cat(cx.ty) != "result":
        return None
    i = E.strip(st, args[1])
    if i.op != "int" or not 0 <= i.a[0] < len(cur[row]):
        return None
    v = cur[row][i.a[0]]
    t = P.tys[cx.ty]["args"][0]
    path = c.get("rpath") or c.get("path")

    def bad(s):
        e = E.default("colerr", P.tys[cx.ty]["args"][1])
        et = P.tys[cx.ty]["args"][1]
        nr = P.variant_index(et, "QueryReturnedNoRows") if P.is_enum(et) else None
        if nr is not None:
            s.facts = s.facts.exclude_variants(e, {nr})
        E.event(s, "get", path, args, app("failed", (e,)), cx.span, c, "db_err")
        return s, E.M.err(E, cx.ty, e)
    want = t
    if P.cat(t) == "option":
        want = P.tys[t]["args"][0]
        if v is None:
            return [(st, E.M.ok(E, cx.ty, E.M.none(E, t)))]
    elif v is None:
        return [bad(st.fork())]
    wc = P.cat(want)
    vi = v.op in ("int", "lin") or isinstance(v.ty, int) and P.cat(v.ty) == "int"
    if is_app(v, "affinity"):
        # converted when stored: what comes back is not the value given
        s1, s2 = st.fork(), st.fork()
        x = app("converted", (v,), want)
        return [(s1, E.M.ok(E, cx.ty, E.M.some(E, t, x) if want != t else x)), bad(s2)]
    if wc == "int" and not vi and isinstance(v.ty, int) or wc == "str" and vi:
        return [bad(st.fork())]
    if wc not in ("int", "str"):
        return None
    return [(st, E.M.ok(E, cx.ty, E.M.some(E, t, v) if want != t else v))]


def h_begin(E, st, c, args, cx):
    db = st.aux.get("db")
    if db is None or db.lost or E.P.cat(cx.ty) != "result":
        return None
    d = db.copy()
    if d.tx is not None:
        s = lose(st, "transaction inside a transaction")
        return default(E, s, c, args, cx, c["name"], c.get("rpath") or c.get("path"))
    d.tx = d.tables
    d.tables = dict(d.tables)
    d.mode = "rollback"
    s = st.fork()
    setdb(s, d)
    v = E.default("tx", E.M.payload_ty(E, cx.ty, "Ok"))
    E.event(s, c["name"], c.get("rpath") or c.get("path"), args, v, cx.span, c, "db")
    return [(s, E.M.ok(E, cx.ty, v))]


def h_end(E, st, c, args, cx):
    db = st.aux.get("db")
    if db is None or db.lost or E.P.cat(cx.ty) != "result":
        return None
    d = db.copy()
    if c["name"] == "commit" or c["name"] == "finish" and d.mode == "commit":
        d.tx = None
    elif d.tx is not None:
        d.tables, d.tx = dict(d.tx), None
    s = st.fork()
    setdb(s, d)
    v = E.default("unit", E.M.payload_ty(E, cx.ty, "Ok"))
    E.event(s, c["name"], c.get("rpath") or c.get("path"), args, v, cx.span, c, "db")
    return [(s, E.M.ok(E, cx.ty, v))]


def h_mode(E, st, c, args, cx):
    db = st.aux.get("db")
    if db is None or db.lost:
        return None
    a = E.strip(st, args[1])
    s = st.fork()
    n = E.P.variant_name(a.ty, a.a[0]) if a.op == "adt" else None
    if n in ("Commit", "Rollback"):
        d = db.copy()
        d.mode = "commit" if n == "Commit" else "rollback"
        setdb(s, d)
    else:
        s = lose(st, "drop behaviour")
    E.event(s, c["name"], c.get("rpath") or c.get("path"), args, T.UNINIT, cx.span, c, "db")
    return [(s, T.adt(cx.ty, 0, ()))]


def h_rowid(E, st, c, args, cx):
    db = st.aux.get("db")
    if db is None or db.lost or db.last is None:
        return None
    return [(st, db.last)]


def h_open(E, st, c, args, cx):
    if st.aux.get("db") is None or E.P.cat(cx.ty) != "result":
        return None
    s = st.fork()
    v = E.default("conn", E.M.payload_ty(E, cx.ty, "Ok"))
    E.event(s, c["name"], c.get("rpath") or c.get("path"), args, v, cx.span, c, "db")
    return [(s, E.M.ok(E, cx.ty, v))]


def on_drop(E, st, p):
    """a transaction goes out of scope"""
    db = st.aux.get("db")
    if db is None or db.lost or db.tx is None or not p.endswith("::Transaction") or db.mode == "manual":
        return st
    d = db.copy()
    if d.mode == "commit":
        d.tx = None
    else:
        d.tables, d.tx = dict(d.tx), None
    s = st.fork()
    setdb(s, d)
    return s


def install(E):
    P = E.P
    paths = set()
    for f in P.fns:
        if f and f.local:
            for _, c, _ in P.calls(f):
                p = c.get("path") or ""
                if "rusqlite" in p or "rusqlite" in (c.get("rpath") or ""):
                    paths.add((p, c["name"]))
    tab = {"execute": h_execute, "execute_batch": h_execute, "query_row": h_query, "query_row_and_then": h_query, "query_one": h_query, "prepare": h_query,
           "prepare_cached": h_query, "get": h_get, "commit": h_end, "rollback": h_end, "finish": h_end, "last_insert_rowid": h_rowid, "open": h_open,
           "set_drop_behavior": h_mode}
    for b in BEGIN:
        tab[b] = h_begin
    for p, n in paths:
        if n in tab:
            E.hooks[p] = tab[n]
        elif n in ("deref", "deref_mut", "optional", "into", "from", "fmt", "to_string", "clone", "drop", "kind"):
            pass
        elif p.startswith("rusqlite::") and n not in ("new", "busy_timeout", "path", "is_autocommit"):
            E.hooks[p] = lambda E, st, c, args, cx: (setattr_lost(st), None)[1]
    E.on_drop = on_drop


def setattr_lost(st):
    db = st.aux.get("db")
    if db is not None and not db.lost:
        d = db.copy()
        d.lost = "operation on the database that is not understood"
        setdb(st, d)


# ---------------------------------------------------------------- loops
PRE = 3


def chain(tables, table="input_history"):
    """rows from the oldest on, following next (None when it does not lead through)"""
    rows = tables.get(table, ())
    ids = {}
    mid = None
    for r in rows:
        if isinstance(r, Mid):
            mid = r
        else:
            ids[r["id"]] = r
    heads = [r for r in rows if not isinstance(r, Mid) and r["prev"] is None]
    if len(heads) != 1:
        return None
    out = []
    cur = heads[0]
    seen = set()
    while cur is not None and id(cur) not in seen:
        seen.add(id(cur))
        out.append(cur)
        nx = cur.next if isinstance(cur, Mid) else cur["next"]
        if nx is None:
            break
        if mid is not None and nx is mid.first and not isinstance(cur, Mid):
            cur = mid
        else:
            cur = ids.get(nx)
            if cur is None:
                return None
    return out


def row_of(E, name, nx, pv):
    P = E.P
    return {"id": T.sym(name, P.ty_by_s.get("i64")), "input": T.sym(name + "_input", P.ty_by_s.get("std::string::String")), "next": nx, "prev": pv}


def materialise(E, s):
    """states in which at least PRE rows of the list are known before its unknown middle, or all rows are known"""
    db = s.aux["db"]
    ch = chain(db.tables)
    if ch is None:
        return [s]
    i = next((k for k, r in enumerate(ch) if isinstance(r, Mid)), None)
    if i is None or i >= PRE or i == 0:
        return [s]
    m = ch[i]
    need = PRE - i
    i64 = E.P.ty_by_s.get("i64")
    out = []
    for take in range(1, need + 2):
        d = db.copy()
        whole = take <= need
        n = take if whole else need
        names = [fresh("h", i64) for _ in range(n)]
        names[0] = m.first
        if whole:
            names[-1] = m.last if n > 1 else m.first
            fx = s.facts.assume(eq0(sub(m.count, I(n))))
        else:
            fx = s.facts.assume(ge0(sub(m.count, I(n + 1))))
        if fx is None:
            continue
        P = E.P
        rows = []
        st = P.ty_by_s.get("std::string::String")
        nm = None
        if not whole:
            nm = Mid(sub(m.count, I(n)), names[-1], m.next, fresh("h", i64), m.last)
        for k, x in enumerate(names):
            nx = names[k + 1] if k + 1 < n else (m.next if whole else nm.first)
            pv = names[k - 1] if k else m.prev
            rows.append({"id": x, "input": app("mid_input", (x,), st), "next": nx, "prev": pv})
        if whole and n == 1 and m.first is not m.last:
            # a single row: both names of it are the same
            d.tables["input_history"] = tuple(subst_row(r, {m.last: m.first}) for r in d.tables["input_history"])
            if m.next is not None:
                pass
        new = []
        for r in d.tables["input_history"]:
            if r is m or isinstance(r, Mid):
                new.extend(rows)
                if nm is not None:
                    new.append(nm)
            else:
                new.append(r)
        d.tables["input_history"] = tuple(new)
        d.ids = d.ids | set(names) | ({nm.first, nm.last} if nm else set())
        s2 = s.fork()
        s2.facts = fx
        if whole and n == 1 and m.first is not m.last:
            d.tables = {t: tuple(r if isinstance(r, Mid) else subst_row(r, {m.last: m.first}) for r in rs) for t, rs in d.tables.items()}
        order = []
        for x in s.aux.get("order") or ():
            if x is None:
                order.extend(names)
                if nm is not None:
                    order.append(None)
            else:
                order.append(x)
        s2.setaux("order", tuple(order))
        setdb(s2, d)
        out.append(s2)
    return out


def subst_row(r, m):
    if isinstance(r, Mid):
        return r
    return {c: (m.get(v, v) if v is not None else None) for c, v in r.items()}


def signature(E, s, f, d, live):
    """the state up to the names of the known rows before the middle of the list and its length"""
    db = s.aux["db"]
    ch = chain(db.tables)
    if ch is None:
        return None
    i = next((k for k, r in enumerate(ch) if isinstance(r, Mid)), None)
    if i is None:
        return None
    m = {}
    i64 = E.P.ty_by_s.get("i64")
    for k, r in enumerate(ch[:i]):
        m[r["id"]] = T.sym("@b%d" % k, i64)
        m[r["input"]] = T.sym("@t%d" % k, r["input"].ty)
    md = ch[i]
    m[md.first] = T.sym("@first", i64)
    base = None
    for x in T.syms(md.count):
        base = x
    if base is None:
        return None
    # count = base - c  <=>  base = @K + c
    c = sub(base, md.count)
    if c.op != "int":
        return None
    m[base] = add(T.sym("@K", md.count.ty if isinstance(md.count.ty, int) else base.ty), c)
    memo = {}

    def go(t):
        return T.substitute(t, m, memo) if isinstance(t, T.Term) else t
    loc = tuple((dd, l, go(v)) for dd, fr in enumerate(s.frames) for l, v in sorted(fr.items()) if dd != d or l in live)
    heap = tuple(sorted(((T.show(go(k[1])) if k and k[0] == "H" and isinstance(k[1], T.Term) else repr(k), go(v)) for k, v in s.heap.items()), key=lambda x: x[0]))

    def rows(ts):
        return tuple((n, tuple(("mid", go(r.count), go(r.prev), r.next) if isinstance(r, Mid) else tuple((cc, go(v) if v is not None else None) for cc, v in sorted(r.items())) for r in rs)) for n, rs in sorted(ts.items()))
    return (loc, heap, rows({n: v for n, v in db.tables.items() if n != "variable_history"}), db.tx is not None)


def candidates(db):
    """comparisons of the number of inputs with the capacity that may hold at every iteration"""
    n = ZERO
    for r in db.rows("input_history"):
        n = add(n, r.count if isinstance(r, Mid) else ONE)
    caps = [r["value"] for r in db.rows("meta_int") if not isinstance(r, Mid) and r["key"] is I(3)]
    if not caps or caps[0] is None:
        return []
    m = caps[0]
    return [ge0(sub(n, m)), ge0(sub(m, n))]


def loop_hook(ctx):
    from rules.session import effects, effect
    memo = {}

    def touches(E, f, h, body):
        k = (f.id, h)
        if k not in memo:
            P = E.P
            r = False
            for b, c, t in P.calls(f):
                if b in body:
                    if effect(P, c) == "db" or any(P.fns[x].local and "db" in effects(ctx, x) for x in P.targets(c)):
                        r = True
            memo[k] = r
        return memo[k]

    def hook(E, f, d, h, body, entry):
        if not any(s.aux.get("db") is not None and not s.aux["db"].lost for s in entry) or not touches(E, f, h, body):
            return None
        live = set(f.live_in[h]) | set(range(1, f.argc + 1))
        rets, exits = [], {}
        seen = {}
        work = list(entry)
        known0 = entry[0].facts
        for s in entry:
            for x in list(s.frames[d]):
                if x not in live:
                    if d not in s.own:
                        s.frames[d] = dict(s.frames[d])
                        s.own.add(d)
                    del s.frames[d][x]
        n = 0
        work = [(s, s.facts) for s in entry]
        while work:
            s, base = work.pop()
            n += 1
            db = s.aux.get("db")
            if n > 60 or db is None or db.lost:
                if db is not None and not db.lost:
                    s = lose(s, "a loop over the database")
                # the rest of the loop with nothing known about the database
                hk, E.loop_hook = E.loop_hook, None
                try:
                    r, e = E.loop(f, d, h, body, [s])
                finally:
                    E.loop_hook = hk
                rets.extend(r)
                for t, l in e.items():
                    exits.setdefault(t, []).extend(l)
                if n > 80:
                    break
                continue
            r, e, bk = E.region(f, d, body, h, {h: [s]})
            rets.extend(r)
            for t, l in e.items():
                exits.setdefault(t, []).extend(l)
            for b in bk:
                for x in list(b.frames[d]):
                    if x not in live:
                        if d not in b.own:
                            b.frames[d] = dict(b.frames[d])
                            b.own.add(d)
                        del b.frames[d][x]
                if b.aux["db"].lost:
                    work.append((b, base))
                    continue
                for b2 in materialise(E, b):
                    sg = signature(E, b2, f, d, live)
                    if sg is None:
                        work.append((b2, base))
                        continue
                    # the middle's length by a new name; what is known of it is what held before the loop and the comparisons that hold now
                    db2 = b2.aux["db"]
                    md = next(r for r in db2.rows("input_history") if isinstance(r, Mid))
                    bs = [x for x in T.syms(md.count)][0]
                    K = fresh("more", bs.ty)
                    c = sub(bs, md.count)
                    held = [k for k, q in enumerate(candidates(db2)) if b2.facts.decide(q) is True]
                    m = {bs: add(K, c)}
                    old = seen.get(sg)
                    if old is not None and set(old) <= set(held):
                        continue
                    if old is not None:
                        held = [k for k in held if k in old]
                    seen[sg] = tuple(held)
                    s3 = b2.fork()
                    memo2 = {}
                    s3.frames = [{l: T.substitute(v, m, memo2) for l, v in fr.items()} for fr in s3.frames]
                    s3.own = set(range(len(s3.frames)))
                    s3.heap = {k: T.substitute(v, m, memo2) for k, v in s3.heap.items()}
                    d3 = db2.copy()
                    for tabs in (["tables"] + (["tx"] if db2.tx is not None else [])):
                        setattr(d3, tabs, {t: tuple(Mid(T.substitute(r.count, m, memo2), r.prev, r.next, r.first, r.last) if isinstance(r, Mid) else {cc: (T.substitute(v, m, memo2) if v is not None and v.op != "str" else v) for cc, v in r.items()} for r in rs)
                                           for t, rs in getattr(db2, tabs).items()})
                    setdb(s3, d3)
                    fx = base.assume(ge0(sub(K, ONE)))
                    cs = candidates(d3)
                    for k in held:
                        if fx is not None:
                            fx = fx.assume(cs[k])
                    if fx is None:
                        continue
                    s3.facts = fx
                    work.append((s3, base))
        return rets, exits
    return hook
