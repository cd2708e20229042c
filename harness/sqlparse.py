"""An independent reader of SQL: a lexer following each engine's lexical rules and a parser that turns
the data definition / data migration statements into the events of spec/Db.tla.  It never raises on a
statement: what it does not understand becomes the event {"op": "unknown"}, which the specification rejects."""
import re

NONE = "~none"
DIALECTS = ("postgresql", "mysql", "mssql", "oracle")


class LexError(Exception):
    pass


# --------------------------------------------------------------------------- lexer
# token = (kind, value): word (upper-cased bare word), raw word kept in 3rd; id; str; num; op
PG_ESC = {"b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
MY_ESC = {"0": "\0", "b": "\b", "n": "\n", "r": "\r", "t": "\t", "Z": "\x1a"}
SNOW_ESC = {"0": "\0", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}


def lex(dialect, text):
    toks = []
    i, n = 0, len(text)

    def string(i, backslash):
        out = []
        while True:
            if i >= n:
                raise LexError("unterminated string")
            c = text[i]
            if c == "'":
                if i + 1 < n and text[i + 1] == "'":
                    out.append("'")
                    i += 2
                    continue
                return "".join(out), i + 1
            if c == "\\" and backslash:
                if i + 1 >= n:
                    raise LexError("unterminated string")
                e = text[i + 1]
                if backslash == "pg":
                    m = re.match(r"[0-7]{1,3}|x[0-9a-fA-F]{1,2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}", text[i + 1:])
                    if m:
                        s = m.group()
                        out.append(chr(int(s, 8)) if s[0] not in "xuU" else chr(int(s[1:], 16)))
                        i += 1 + len(s)
                        continue
                    out.append(PG_ESC.get(e, e))
                else:
                    out.append("\\" + e if e in "%_" and backslash == "my" else (SNOW_ESC if backslash == "snow" else MY_ESC).get(e, e))
                i += 2
                continue
            out.append(c)
            i += 1

    while i < n:
        c = text[i]
        if c in " \t\r\n\f\v":
            i += 1
            continue
        if text.startswith("--", i) and (dialect != "mysql" or i + 2 >= n or text[i + 2] in " \t\r\n"):
            j = text.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        if c == "#" and dialect == "mysql":
            j = text.find("\n", i)
            i = n if j < 0 else j + 1
            continue
        if text.startswith("/*", i):
            depth, i = 1, i + 2
            nested = dialect in ("postgresql", "mssql")
            while depth:
                if i >= n:
                    raise LexError("unterminated comment")
                if text.startswith("*/", i):
                    depth -= 1
                    i += 2
                elif nested and text.startswith("/*", i):
                    depth += 1
                    i += 2
                else:
                    i += 1
            continue
        if c == '"':
            out, i = [], i + 1
            while True:
                if i >= n:
                    raise LexError("unterminated identifier")
                if text[i] == '"':
                    if i + 1 < n and text[i + 1] == '"':
                        out.append('"')
                        i += 2
                        continue
                    i += 1
                    break
                out.append(text[i])
                i += 1
            toks.append(("id", "".join(out)))
            continue
        if c == "`" and dialect == "mysql":
            out, i = [], i + 1
            while True:
                if i >= n:
                    raise LexError("unterminated identifier")
                if text[i] == "`":
                    if i + 1 < n and text[i + 1] == "`":
                        out.append("`")
                        i += 2
                        continue
                    i += 1
                    break
                out.append(text[i])
                i += 1
            toks.append(("id", "".join(out)))
            continue
        if c == "[" and dialect == "mssql":
            j = text.find("]", i)
            if j < 0:
                raise LexError("unterminated identifier")
            toks.append(("id", text[i + 1:j]))
            i = j + 1
            continue
        if c in "eE" and i + 1 < n and text[i + 1] == "'" and dialect in ("postgresql", "redshift"):
            s, i = string(i + 2, "pg")
            toks.append(("str", s))
            continue
        if c in "nN" and i + 1 < n and text[i + 1] == "'" and dialect in ("mssql", "oracle", "mysql"):
            s, i = string(i + 2, "my" if dialect == "mysql" else None)
            toks.append(("str", s))
            continue
        if c == "'":
            s, i = string(i + 1, "my" if dialect == "mysql" else "snow" if dialect == "snowflake" else "delta" if dialect == "delta" else None)
            toks.append(("str", s))
            continue
        m = re.match(r"\d+(\.\d*)?([eE][+-]?\d+)?|\.\d+", text[i:])
        if m:
            toks.append(("num", m.group()))
            i += m.end()
            continue
        m = re.match(r"[^\W\d][\w$]*", text[i:])
        if m:
            toks.append(("word", m.group().upper(), m.group()))
            i += m.end()
            continue
        m = re.match(r"::|<=|>=|<>|!=|\|\|", text[i:])
        if m:
            toks.append(("op", m.group()))
            i += m.end()
            continue
        if dialect == "postgresql":
            m = re.match(r"\$\d+", text[i:])
            if m:
                toks.append(("op", m.group()))
                i += m.end()
                continue
        if dialect == "oracle":
            m = re.match(r":\d+", text[i:])
            if m:
                toks.append(("op", m.group()))
                i += m.end()
                continue
        if text.startswith("%s", i):
            toks.append(("op", "%s"))
            i += 2
            continue
        toks.append(("op", c))
        i += 1
    return toks


def canon(toks):
    """Canonical text of an expression."""
    out = []
    for t in toks:
        if t[0] == "str":
            out.append("'" + t[1].replace("'", "''") + "'")
        elif t[0] == "id":
            out.append('"' + t[1] + '"')
        else:
            out.append(t[1])
    return " ".join(out)


def split(toks):
    """Splits a token sequence at semicolons outside of parentheses and BEGIN ... END blocks."""
    stmts, cur, depth, block = [], [], 0, 0
    for t in toks:
        if t == ("op", "("):
            depth += 1
        elif t == ("op", ")"):
            depth -= 1
        elif t[0] == "word" and t[1] == "BEGIN" and not cur:
            block = 1
        if t == ("op", ";") and depth == 0 and not block:
            stmts.append(cur)
            cur = []
            continue
        if t == ("op", ";") and block and cur and cur[-1][:2] == ("word", "END") and not (len(cur) > 1 and cur[-2] == ("op", ";") and block > 1):
            # END; closes the block (END IF; has IF before the semicolon)
            stmts.append(cur)
            cur, block = [], 0
            continue
        cur.append(t)
    if cur:
        stmts.append(cur)
    return [s for s in stmts if s]


class Bad(Exception):
    pass


TYPE_END = {"NOT", "NULL", "DEFAULT", "GENERATED", "AUTO_INCREMENT", "COMMENT", "CONSTRAINT", "IDENTITY",
            "PRIMARY", "UNIQUE", "CHECK", "REFERENCES", "CHARACTER SET", "COLLATE", "DROP"}
SYN = {"int": "integer", "int4": "integer", "int8": "bigint", "int2": "smallint", "bool": "boolean",
       "numeric": "decimal", "float8": "double precision", "float4": "real", "dec": "decimal", "character": "char"}


def key(scope, name):
    """Name of an object in the model."""
    return (scope or "") + "|" + name


class P:
    def __init__(self, dialect, toks):
        self.d, self.t, self.i = dialect, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

    def at(self, *words):
        for k, w in enumerate(words):
            t = self.peek(k)
            if w in "(),.;=*" and len(w) == 1:
                if t != ("op", w):
                    return False
            elif not (t[0] == "word" and t[1] == w):
                return False
        return True

    def opt(self, *words):
        if self.at(*words):
            self.i += len(words)
            return True
        return False

    def need(self, *words):
        if not self.opt(*words):
            raise Bad("expected %s at %s" % (" ".join(words), canon(self.t[self.i:self.i + 4])))

    def end(self):
        return self.i >= len(self.t)

    def ident(self):
        t = self.peek()
        if t[0] != "id":
            raise Bad("identifier expected at %s" % canon(self.t[self.i:self.i + 4]))
        self.i += 1
        return t[1]

    def qname(self):
        """(schema, name)"""
        a = self.ident()
        if self.at("."):
            self.i += 1
            return a, self.ident()
        return "", a

    def qkey(self):
        return key(*self.qname())

    def string(self):
        t = self.peek()
        if t[0] != "str":
            raise Bad("string expected at %s" % canon(self.t[self.i:self.i + 4]))
        self.i += 1
        return t[1]

    def idlist(self):
        self.need("(")
        out = [self.ident()]
        while self.opt(","):
            out.append(self.ident())
        self.need(")")
        return out

    def type(self):
        """-> (type, tref)"""
        t = self.peek()
        if t[0] == "id":
            ty, ref = "udt", self.qkey()
        elif self.d == "delta" and self.opt("STRUCT"):
            if self.peek() != ("op", "<"):
                raise Bad("members of a structure")
            parts = []
            while self.peek() in (("op", "<"), ("op", ",")):
                self.i += 1
                name = self.ident()
                parts.append('"%s" %s%s' % (name, self.type()[0], " not null" if self.opt("NOT", "NULL") else ""))
            if self.peek() != ("op", ">"):
                raise Bad("end of a structure")
            self.i += 1
            ty, ref = "struct<%s>" % ",".join(parts), ""
        else:
            words = []
            while True:
                t = self.peek()
                if t[0] == "word":
                    if t[1] in TYPE_END or (t[1] == "CHARACTER" and words):
                        break
                    if t[1] == "ARRAY":
                        break
                    words.append(t[1].lower())
                    self.i += 1
                elif t == ("op", "("):
                    args = []
                    self.i += 1
                    while not self.at(")"):
                        a = self.peek()
                        if a[0] == "end":
                            raise Bad("type arguments")
                        if a == ("op", ","):
                            pass
                        elif a[0] == "str":
                            args.append("'" + a[1] + "'")
                        else:
                            args.append(a[1].lower())
                        self.i += 1
                    self.i += 1
                    words.append("(" + ",".join(args) + ")")
                else:
                    break
            if not words:
                raise Bad("type expected at %s" % canon(self.t[self.i:self.i + 4]))
            words[0] = SYN.get(words[0], words[0])
            ty = " ".join(words).replace(" (", "(").replace("character varying", "varchar").replace("char varying", "varchar")
            if ty in ("timestamp without time zone", "time without time zone"):
                ty = ty[:-len(" without time zone")]
            if ty == "datetime(0)":
                ty = "datetime"
            ref = ""
        while True:
            if self.opt("ARRAY"):
                ty = "array(%s)" % ty
            elif self.peek() == ("op", "[") and self.peek(1) == ("op", "]"):
                self.i += 2
                ty = "array(%s)" % ty
            else:
                return ty, ref

    def expr(self):
        """An expression: up to a comma, a closing parenthesis or an option keyword at depth 0."""
        out, depth = [], 0
        while not self.end():
            t = self.peek()
            if depth == 0 and (t in (("op", ","), ("op", ")"))):
                break
            if depth == 0 and out and t[0] == "word" and (t[1] in ("NOT", "GENERATED", "AUTO_INCREMENT", "COMMENT", "CONSTRAINT", "IDENTITY", "FOR", "DROP") or (t[1] == "NULL")):
                break
            if t == ("op", "("):
                depth += 1
            if t == ("op", ")"):
                depth -= 1
            out.append(t)
            self.i += 1
        if not out:
            raise Bad("expression expected")
        return canon(out)

    def colopts(self, col):
        seen_null = False
        while True:
            if self.opt("NOT", "NULL"):
                col["nullable"] = False
                seen_null = True
            elif self.opt("NULL"):
                col["nullable"] = True
            elif self.opt("DEFAULT"):
                col["default"] = self.default()
                if col["default"] == "NULL":
                    col["default"] = NONE
            elif self.opt("CONSTRAINT"):
                col["defname"] = self.ident()
                self.need("DEFAULT")
                col["default"] = self.default()
            elif self.opt("GENERATED", "BY", "DEFAULT", "AS", "IDENTITY") or self.opt("AUTO_INCREMENT") or self.opt("IDENTITY"):
                col["identity"] = True
                if self.d in ("postgresql", "oracle", "redshift", "snowflake", "delta", "trino"):
                    col["nullable"] = False  # implied by these engines
            elif self.opt("COMMENT"):
                s = self.string()
                col["desc"] = s if s else NONE
            elif self.opt("CHARACTER", "SET"):
                if self.peek()[1].lower() in ("ascii", "latin1") and not col["type"].isascii():
                    col["type"] += " in " + self.peek()[1].lower()
                self.i += 1
            elif self.opt("COLLATE"):
                self.i += 1
            else:
                return col

    def default(self):
        s = self.expr()
        if self.d == "mssql" and s in ("TRUE", "FALSE"):
            raise Bad("there are no Boolean literals: DEFAULT %s" % s)
        return s

    def column(self):
        name = self.ident()
        ty, ref = self.type()
        return self.colopts(dict(name=name, type=ty, tref=ref, nullable=True, default=NONE, identity=False,
                                 desc=NONE, defname=""))

    def constraint(self):
        """after CONSTRAINT"""
        name = self.ident()
        con = dict(name=name, kind="", cols=[], reft="", refc=[], cond="")
        if self.opt("PRIMARY", "KEY"):
            con.update(kind="primary", cols=self.idlist())
        elif self.opt("UNIQUE"):
            con.update(kind="unique", cols=self.idlist())
        elif self.opt("FOREIGN", "KEY"):
            con.update(kind="foreign", cols=self.idlist())
            self.need("REFERENCES")
            con["reft"] = self.qkey()
            con["refc"] = self.idlist()
        elif self.opt("CHECK"):
            self.need("(")
            out, depth = [], 0
            while True:
                t = self.peek()
                if t[0] == "end":
                    raise Bad("check condition")
                if t == ("op", ")") and depth == 0:
                    self.i += 1
                    break
                depth += (t == ("op", "(")) - (t == ("op", ")"))
                out.append(t)
                self.i += 1
            con.update(kind="check", cond=canon(out), cols=sorted({x[1] for x in out if x[0] == "id"}))
        else:
            raise Bad("constraint expected")
        return con

    # ------------------------------------------------------------- statements
    def statement(self):
        d = self.d
        if self.opt("CREATE", "SCHEMA"):
            ine = self.opt("IF", "NOT", "EXISTS")
            return [dict(op="create_schema", s=self.ident(), ine=ine)]
        if d == "oracle" and self.opt("BEGIN", "EXECUTE", "IMMEDIATE"):
            inner = lex(d, self.string())
            self.need(";")
            missing = False
            if self.opt("EXCEPTION", "WHEN", "OTHERS", "THEN", "IF", "SQLCODE"):
                if canon(self.t[self.i:self.i + 3]) != "!= - 942":
                    raise Bad("errors ignored")
                self.i += 3
                self.need("THEN", "RAISE", ";", "END", "IF", ";")
                missing = True
            self.need("END")
            sub = P(d, inner)
            evs = sub.statement()
            if not sub.end():
                raise Bad("one statement")
            return [dict(e, ie=True) if missing and e["op"] == "drop_table" else e for e in evs]
        if self.opt("IF", "NOT", "EXISTS", "("):
            # IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N'..' ) EXEC('CREATE SCHEMA ..')
            self.need("SELECT", "*", "FROM", "SYS", ".", "SCHEMAS", "WHERE", "NAME", "=")
            s = self.string()
            self.need(")", "EXEC", "(")
            inner = self.string()
            self.need(")")
            sub = P(d, lex(d, inner)).statement()
            if len(sub) != 1 or sub[0]["op"] != "create_schema" or sub[0]["s"] != s:
                raise Bad("conditional schema creation")
            sub[0]["ine"] = True
            return sub
        if self.opt("DROP", "SCHEMA"):
            ie = self.opt("IF", "EXISTS")
            s = self.ident()
            return [dict(op="drop_schema", s=s, ie=ie, cascade=self.opt("CASCADE"))]
        if self.opt("CREATE", "TYPE"):
            s, n = self.qname()
            self.need("AS")
            if self.opt("ENUM"):
                self.need("(")
                vals = [self.string()]
                while self.opt(","):
                    vals.append(self.string())
                self.need(")")
                return [dict(op="create_enum", n=key(s, n), s=s, values=vals)]
            self.need("(")
            mem = [self.member()]
            while self.opt(","):
                mem.append(self.member())
            self.need(")")
            return [dict(op="create_struct", n=key(s, n), s=s, members=mem)]
        if self.opt("ALTER", "TYPE"):
            s, n = self.qname()
            if self.opt("ADD", "VALUE"):
                return [dict(op="add_enum_value", n=key(s, n), v=self.string())]
            if self.opt("RENAME", "TO"):
                return [dict(op="rename_type", n=key(s, n), to=key(s, self.ident()))]
            acts = [self.attr()]
            while self.opt(","):
                acts.append(self.attr())
            return [dict(op="alter_struct", n=key(s, n), acts=acts)]
        if self.opt("DROP", "TYPE"):
            return [dict(op="drop_type", n=self.qkey())]
        if self.opt("CREATE", "TABLE"):
            s, n = self.qname()
            self.need("(")
            cols, pk, cons = [], [], []
            while True:
                if self.opt("CONSTRAINT"):
                    c = self.constraint()
                    if c["kind"] == "primary":
                        pk = c["cols"]
                    else:
                        cons.append(c)
                else:
                    cols.append(self.column())
                if not self.opt(","):
                    break
            self.need(")")
            desc = NONE
            if self.opt("COMMENT", "=") or (d == "delta" and self.opt("COMMENT")):
                desc = self.string() or NONE
            if d in ("mssql",):
                pass
            return [dict(op="create_table", n=key(s, n), s=s, cols=cols, pk=pk, cons=cons, desc=desc)]
        if self.opt("DROP", "TABLE"):
            ie = self.opt("IF", "EXISTS")
            names = [self.qkey()]
            while self.opt(","):
                names.append(self.qkey())
            casc = self.opt("CASCADE", "CONSTRAINTS") or self.opt("CASCADE")
            self.opt("PURGE")
            if len(set(names)) < len(names):
                raise Bad("a table is named twice")
            return [{"op": "drop_table", "n": x, "ie": ie, "cascade": casc, "with": [x] if self.d == "mssql" else names} for x in names]
        if self.opt("ALTER", "TABLE"):
            s, n = self.qname()
            acts = []
            while True:
                acts.extend(self.alter(s, n, acts))
                if not self.opt(","):
                    break
            return [dict(op="alter", n=key(s, n), acts=acts)]
        if self.opt("COMMENT", "ON", "TABLE"):
            n = self.qkey()
            return [dict(op="comment_table", n=n, d=self.comment())]
        if self.opt("COMMENT", "ON", "COLUMN"):
            parts = [self.ident()]
            while self.opt("."):
                parts.append(self.ident())
            if len(parts) == 2:
                n, c = key("", parts[0]), parts[1]
            elif len(parts) == 3:
                n, c = key(parts[0], parts[1]), parts[2]
            else:
                raise Bad("comment target")
            return [dict(op="comment_col", n=n, c=c, d=self.comment())]
        if self.opt("COMMENT", "ON", "TYPE"):
            n = self.qkey()
            return [dict(op="comment_type", n=n, d=self.comment())]
        if self.opt("INSERT", "INTO"):
            return self.insert()
        if self.opt("UPDATE"):
            return self.update()
        raise Bad("statement not understood")

    def member(self):
        name = self.ident()
        ty, ref = self.type()
        return dict(name=name, type=ty, tref=ref, desc=NONE)

    def attr(self):
        if self.opt("DROP", "ATTRIBUTE"):
            return dict(a="drop_attr", m=self.ident())
        if self.opt("ADD", "ATTRIBUTE"):
            return dict(a="add_attr", mem=self.member())
        if self.opt("ALTER", "ATTRIBUTE"):
            m = self.ident()
            self.opt("SET", "DATA")
            self.need("TYPE")
            ty, ref = self.type()
            return dict(a="alter_attr", m=m, type=ty, tref=ref)
        raise Bad("attribute action")

    def comment(self):
        self.need("IS")
        if self.opt("NULL"):
            return NONE
        return self.string() or NONE

    def alter(self, s, n, prev):
        d = self.d
        if self.opt("ADD", "CONSTRAINT") or (d == "mssql" and prev and prev[-1]["a"] in ("add_con",) and self.opt("CONSTRAINT")):
            if self.peek()[0] == "id" and self.peek(1)[:2] == ("word", "DEFAULT"):
                name = self.ident()
                self.need("DEFAULT")
                ex = self.default()
                self.need("FOR")
                return [dict(a="add_default", name=name, c=self.ident(), default=ex)]
            return [dict(a="add_con", con=self.constraint())]
        if d == "mssql" and self.at("DROP", "CONSTRAINT") or (d == "mssql" and prev and prev[-1]["a"] in ("drop_con", "drop_col") and (self.at("CONSTRAINT") or self.at("COLUMN"))):
            self.opt("DROP")
            if self.opt("CONSTRAINT"):
                return [dict(a="drop_con", name=self.ident())]
            self.need("COLUMN")
            return [dict(a="drop_col", c=self.ident())]
        if self.opt("DROP", "CONSTRAINT"):
            return [dict(a="drop_con", name=self.ident())]
        if self.opt("ADD", "COLUMN"):
            if d in ("mssql", "oracle"):
                raise Bad("ADD COLUMN is not %s syntax" % d)
            return [dict(a="add_col", col=self.column())]
        if d in ("mssql", "oracle") and self.at("ADD") and self.peek(1)[0] == "id":
            self.i += 1
            return [dict(a="add_col", col=self.column())]
        if self.opt("DROP", "COLUMN"):
            return [dict(a="drop_col", c=self.ident())]
        if self.opt("RENAME", "COLUMN"):
            if d == "mssql":
                raise Bad("RENAME COLUMN is not mssql syntax")
            c = self.ident()
            self.need("TO")
            return [dict(a="rename_col", c=c, to=self.ident())]
        if self.opt("MODIFY", "COLUMN") and d == "mysql":
            col = self.column()
            return [dict(a="redefine", c=col["name"], col=col)]
        if d == "mysql" and self.opt("CHANGE"):
            self.opt("COLUMN")
            c = self.ident()
            return [dict(a="redefine", c=c, col=self.column())]
        if d == "oracle" and self.opt("MODIFY"):
            c = self.ident()
            act = dict(a="modify", c=c)
            t = self.peek()
            if t[0] == "word" and t[1] not in TYPE_END:
                act["type"], act["tref"] = self.type()
            while not self.end():
                if self.opt("DEFAULT"):
                    v = self.expr()
                    act["default"] = NONE if v == "NULL" else v
                elif self.opt("NOT", "NULL"):
                    act["nullable"] = False
                elif self.opt("NULL"):
                    act["nullable"] = True
                elif self.opt("GENERATED", "BY", "DEFAULT", "AS", "IDENTITY"):
                    act["identity"] = True
                elif self.opt("DROP", "IDENTITY"):
                    act["identity"] = False
                else:
                    raise Bad("MODIFY option")
            return [act]
        if d == "mysql" and self.opt("COMMENT"):
            self.opt("=")
            return [dict(a="table_comment", d=self.string() or NONE)]
        if d == "mssql" and self.opt("ALTER", "COLUMN"):
            c = self.ident()
            ty, ref = self.type()
            nullable = True
            if self.opt("NOT", "NULL"):
                nullable = False
            else:
                self.opt("NULL")
            return [dict(a="alter_col", c=c, type=ty, tref=ref, nullable=nullable)]
        if d == "postgresql" and self.opt("ALTER", "COLUMN"):
            c = self.ident()
            if self.opt("SET", "DATA", "TYPE") or self.opt("TYPE"):
                ty, ref = self.type()
                return [dict(a="set_type", c=c, type=ty, tref=ref)]
            if self.opt("SET", "NOT", "NULL"):
                return [dict(a="set_notnull", c=c)]
            if self.opt("DROP", "NOT", "NULL"):
                return [dict(a="drop_notnull", c=c)]
            if self.opt("SET", "DEFAULT"):
                v = self.expr()
                return [dict(a="set_default", c=c, default=v)]
            if self.opt("DROP", "DEFAULT"):
                return [dict(a="drop_default", c=c)]
            if self.opt("ADD", "GENERATED", "BY", "DEFAULT", "AS", "IDENTITY"):
                return [dict(a="add_identity", c=c)]
            if self.opt("DROP", "IDENTITY"):
                self.opt("IF", "EXISTS")
                return [dict(a="drop_identity", c=c)]
        raise Bad("table action not understood")

    def value(self):
        t = self.peek()
        neg = ""
        if t == ("op", "-"):
            neg, self.i = "-", self.i + 1
            t = self.peek()
        self.i += 1
        if t[0] == "str":
            return t[1]
        if t[0] == "num":
            return neg + t[1]
        if t[:2] == ("word", "NULL"):
            return "~null"
        if t[0] == "word" and t[1] in ("TRUE", "FALSE"):
            return t[1]
        raise Bad("value expected")

    def insert(self):
        n = self.qkey()
        cols = self.idlist()
        if self.opt("VALUES"):
            rows = []
            while True:
                self.need("(")
                row = [self.value()]
                while self.opt(","):
                    row.append(self.value())
                self.need(")")
                rows.append(row)
                if not self.opt(","):
                    break
            ev = dict(op="insert", n=n, cols=cols, rows=rows, dup="error")
        else:
            self.need("SELECT", "DISTINCT")
            c = self.ident()
            if self.peek() == ("op", "::"):
                self.i += 1
                self.need("VARCHAR")
            self.need("FROM")
            src = self.qkey()
            notnull = False
            if self.opt("WHERE"):
                c2 = self.ident()
                self.need("IS", "NOT", "NULL")
                if c2 != c:
                    raise Bad("filter column")
                notnull = True
            if len(cols) != 1:
                raise Bad("columns")
            ev = dict(op="insert_distinct", n=n, col=cols[0], src=src, c=c, dup="error", notnull=notnull)
        if self.d == "postgresql" and self.opt("ON", "CONFLICT"):
            if self.at("("):
                self.idlist()
            self.need("DO", "NOTHING")
            ev["dup"] = "ignore"
        elif self.d == "mysql" and self.opt("ON", "DUPLICATE", "KEY", "UPDATE"):
            a = self.ident()
            self.need("=")
            if self.ident() != a:
                raise Bad("duplicate clause")
            ev["dup"] = "ignore"
        return [ev]

    def alias(self):
        t = self.peek()
        if t[0] == "word" and t[1] not in ("SET", "FROM", "WHERE", "JOIN", "ON"):
            self.i += 1
            return t[2].lower()
        return ""

    def ref(self):
        """alias."col" or "col" -> (alias, col)"""
        t = self.peek()
        if t[0] == "word":
            self.i += 1
            self.need(".")
            return t[2].lower(), self.ident()
        return "", self.ident()

    def update(self):
        n = self.qkey()
        a = self.alias()
        if self.d == "mysql":
            self.need("JOIN")
            look = self.qkey()
            b = self.alias()
            self.need("ON")
            x = self.ref()
            self.need("=")
            y = self.ref()
            self.need("SET")
            s = self.ref()
            self.need("=")
            v = self.ref()
        else:
            self.need("SET")
            s = self.ref()
            self.need("=")
            v = self.ref()
            self.need("FROM")
            look = self.qkey()
            b = self.alias()
            self.need("WHERE")
            x = self.ref()
            if self.peek() == ("op", "::"):
                self.i += 1
                self.type()
            self.need("=")
            y = self.ref()
        if x[0] == b and y[0] == a:
            x, y = y, x
        if not (x[0] == a and y[0] == b and s[0] in ("", a) and v[0] == b):
            raise Bad("aliases")
        return [dict(op="lookup_update", n=n, set=s[1], look=look, key=y[1], val=v[1], c=x[1])]


def ascii_safe(x):
    return x


def parse_script(dialect, text):
    """-> list of events"""
    if text is None:
        return []
    try:
        stmts = split(lex(dialect, text))
    except LexError as e:
        return [dict(op="unknown", text="%s: %s" % (e, text[:200]))]
    out = []
    for s in stmts:
        p = P(dialect, s)
        try:
            evs = p.statement()
            if not p.end():
                raise Bad("trailing tokens: %s" % canon(s[p.i:p.i + 6]))
            out.extend(evs)
        except (Bad, LexError) as e:
            out.append(dict(op="unknown", text="%s in: %s" % (e, canon(s)[:200])))
    return out
