"""An independent reader of the data manipulation statements that reach a driver: what each one does, by parameter.
Nothing is raised: a statement that is not understood becomes {"op": "unknown"}, which the specifications reject."""
import re

TOKEN = re.compile(r'''\s+|(?P<id>"(?:[^"]|"")*"|`(?:[^`]|``)*`|\[(?:[^\]]|\]\])*\])|(?P<str>'(?:[^']|'')*')'''
                   r'''|(?P<par>\$\d+|:\d+|%s|\?)|(?P<word>[A-Za-z_][A-Za-z0-9_$#@]*)|(?P<num>\d+)|(?P<op>[(),.=;*])|(?P<bad>.)''', re.S)


class Bad(Exception):
    pass


def lex(text):
    out = []
    for m in TOKEN.finditer(text):
        k = m.lastgroup
        if k is None:
            continue
        v = m.group()
        if k == "id":
            v = v[1:-1].replace(v[-1] * 2, v[-1])
        elif k == "word":
            out.append((k, v.upper(), v))
            continue
        elif k == "bad":
            raise Bad("character %r" % v)
        out.append((k, v, v))
    while out and out[-1][1] == ";" and out[-1][0] == "op":
        out.pop()
    return out


class P:
    def __init__(self, dialect, text):
        self.d, self.t, self.i, self.nparams = dialect, lex(text), 0, 0

    def peek(self, *vals):
        """True if the next tokens are these keywords or operators"""
        for k, v in enumerate(vals):
            if self.i + k >= len(self.t):
                return False
            t = self.t[self.i + k]
            if t[0] not in ("word", "op", "num") or t[1] != v:
                return False
        return True

    def take(self, *vals):
        if self.peek(*vals):
            self.i += len(vals)
            return True
        return False

    def need(self, *vals):
        if not self.take(*vals):
            raise Bad("expected %s at %s" % (" ".join(vals), " ".join(t[2] for t in self.t[self.i:self.i + 5])))

    def name(self):
        if self.i < len(self.t) and self.t[self.i][0] in ("id", "word"):
            t = self.t[self.i]
            self.i += 1
            return t[2].upper() if t[0] == "word" and self.d == "oracle" else t[1] if t[0] == "id" else t[2]
        raise Bad("expected an identifier")

    def table(self):
        n = self.name()
        return n + "." + self.name() if self.take(".") else n

    def names(self):
        self.need("(")
        out = [self.name()]
        while self.take(","):
            out.append(self.name())
        self.need(")")
        return out

    def param(self):
        """Position of the parameter"""
        if self.i >= len(self.t) or self.t[self.i][0] != "par":
            raise Bad("expected a parameter")
        v = self.t[self.i][1]
        form = {"postgresql": "$", "mysql": "%", "mssql": "?", "oracle": ":"}[self.d]
        if v[0] != form:
            raise Bad("parameter " + v)
        self.i += 1
        self.nparams += 1
        return self.nparams if v in ("%s", "?") else int(v[1:])

    def params(self):
        self.need("(")
        out = [self.param()]
        while self.take(","):
            out.append(self.param())
        self.need(")")
        return out

    def end(self):
        if self.i != len(self.t):
            raise Bad("unexpected " + " ".join(t[2] for t in self.t[self.i:self.i + 5]))


def parse(dialect, text):
    try:
        p = P(dialect, text)
        if p.take("INSERT", "INTO"):
            st = insert(p)
        elif p.take("MERGE", "INTO"):
            st = merge(p)
        elif p.take("DELETE", "FROM"):
            t = p.table()
            p.need("WHERE")
            c = p.name()
            p.need("=")
            st = dict(op="delete", table=t, key=c, pars=[p.param()])
        else:
            raise Bad("statement")
        p.end()
        st["nparams"] = p.nparams
        return st
    except (Bad, IndexError, ValueError) as e:
        return dict(op="unknown", why="%s: %s" % (e, " ".join(text.split())[:160]), nparams=0, table="")


def insert(p):
    t = p.table()
    cols = p.names()
    p.need("VALUES")
    pars = p.params()
    alias = "EXCLUDED"
    st = dict(op="insert", table=t, cols=cols, pars=pars, conflict="error", keys=[], sets=[])
    if p.d == "mysql" and p.take("AS"):
        alias = p.name()
    if p.d == "postgresql" and p.take("ON", "CONFLICT"):
        if p.peek("("):
            st["keys"] = p.names()
        p.need("DO")
        if p.take("NOTHING"):
            st["conflict"] = "nothing"
        else:
            p.need("UPDATE", "SET")
            st["conflict"] = "update"
            st["sets"] = sets(p, "EXCLUDED", False)
    elif p.d == "mysql" and p.take("ON", "DUPLICATE", "KEY", "UPDATE"):
        st["conflict"] = "update"
        st["sets"] = sets(p, alias, True)
    return st


def sets(p, alias, values):
    """[target, "new" or "old", column]"""
    out = []
    while True:
        a = p.name()
        if p.take("."):
            a = p.name()
        p.need("=")
        if values and p.take("VALUES", "("):
            b = ("new", p.name())
            p.need(")")
        else:
            n = p.name()
            if p.take("."):
                b = ("new" if n.upper() == alias.upper() else "old", p.name())
            else:
                b = ("old", n)
        out.append([a, b[0], b[1]])
        if not p.take(","):
            return out


def merge(p):
    if p.d not in ("mssql", "oracle"):
        raise Bad("MERGE")
    t = p.table()
    if p.d == "mssql":
        p.take("AS")
    target = p.name()
    p.need("USING", "(", "VALUES")
    pars = p.params()
    p.need(")")
    if p.d == "mssql":
        p.take("AS")
    source = p.name()
    cols = p.names()
    st = dict(op="merge", table=t, cols=cols, pars=pars, on=[], sets=[], icols=[], ivals=[])

    def ref():
        a = p.name().upper()
        p.need(".")
        return a, p.name()
    p.need("ON")
    p.need("(")
    while True:
        a = ref()
        p.need("=")
        b = ref()
        if a[0] == source.upper():
            a, b = b, a
        if a[0] != target.upper() or b[0] != source.upper():
            raise Bad("condition of MERGE")
        st["on"].append([a[1], b[1]])
        if not p.take("OR"):
            break
    p.need(")")
    while p.take("WHEN"):
        if p.take("MATCHED", "THEN"):
            p.need("UPDATE", "SET")
            while True:
                a = ref() if p.t[p.i + 1][1] == "." else (target.upper(), p.name())
                p.need("=")
                b = ref()
                if a[0] != target.upper():
                    raise Bad("target of MERGE")
                st["sets"].append([a[1], "new" if b[0] == source.upper() else "old", b[1]])
                if not p.take(","):
                    break
        else:
            p.need("NOT", "MATCHED", "THEN", "INSERT")
            st["icols"] = p.names()
            p.need("VALUES")
            p.need("(")
            while True:
                b = ref()
                if b[0] != source.upper():
                    raise Bad("source of MERGE")
                st["ivals"].append(b[1])
                if not p.take(","):
                    break
            p.need(")")
    return st


def parse_query(dialect, text):
    """SELECT columns FROM table"""
    try:
        p = P(dialect, text)
        p.need("SELECT")
        cols = [p.name()]
        while p.take(","):
            cols.append(p.name())
        p.need("FROM")
        t = p.table()
        p.end()
        return dict(op="query", table=t, cols=cols)
    except (Bad, IndexError) as e:
        return dict(op="unknown", why="%s: %s" % (e, " ".join(text.split())[:160]), table="")
