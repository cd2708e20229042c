"""Stand-ins for the database drivers, which only talk to a Server object of the harness: no network, no database.
They have the calls of the real drivers that a connection makes, and hand every one of them to the Server."""
import asyncio, contextlib, re
import asyncpg, aiomysql, aiotrino, pymysql, pyodbc, oracledb, redshift_connector
from pysqlsync import factory
from pysqlsync.base import GeneratorOptions
from pysqlsync.connection import ConnectionParameters

DIALECTS = ("postgresql", "mysql", "mssql", "oracle")


class DriverError(Exception):
    "A failure of a statement, as a driver would report it"


# what each driver raises: (the connection cannot be made, something else is wrong)
CONNECT_ERRORS = {
    "postgresql": (ConnectionRefusedError, asyncpg.exceptions.InvalidPasswordError),
    "mysql": (pymysql.err.OperationalError, pymysql.err.ProgrammingError),
    "mssql": (pyodbc.OperationalError, pyodbc.ProgrammingError),
    "oracle": (oracledb.OperationalError, oracledb.ProgrammingError),
    "redshift": (redshift_connector.OperationalError, redshift_connector.ProgrammingError),
    "trino": (aiotrino.exceptions.TrinoConnectionError, aiotrino.exceptions.TrinoUserError),
}
STATEMENT_ERRORS = {"postgresql": asyncpg.exceptions.PostgresSyntaxError, "mysql": pymysql.err.ProgrammingError, "mssql": pyodbc.ProgrammingError,
                    "oracle": oracledb.DatabaseError, "redshift": redshift_connector.ProgrammingError, "trino": aiotrino.exceptions.DatabaseError}


class Server:
    """Records what reaches it.  Subclasses override on_* to answer or to fail."""

    dialect = ""
    autocommit = True      # of the connection that is open

    def __init__(self):
        self.log = []          # (kind, ...)

    # overridden by checks
    def on_connect(self, params):
        pass

    def on_execute(self, sql):
        pass

    def on_executemany(self, sql, rows):
        pass

    def on_copy(self, schema, table, columns, rows):
        pass

    def on_query(self, sql):
        """(column names, rows)"""
        return (), []

    def on_close(self):
        pass

    def on_open(self):
        "A change has been made that nobody else sees until it is committed"

    def on_commit(self):
        pass

    # called by the stand-ins
    def wrote(self, sql):
        if self.autocommit:
            return
        if self.dialect in ("mysql", "oracle") and not DML.match(sql):
            self.on_commit()       # a change to the schema commits what comes before it
        else:
            self.on_open()

    def commit(self):
        self.on_commit()

    def connect(self, params):
        self.log.append(("connect", params))
        self.on_connect(params)

    def execute(self, sql):
        self.log.append(("execute", sql))
        self.on_execute(sql)
        self.wrote(sql)

    def executemany(self, sql, rows, sizes=None):
        rows = [tuple(r) for r in rows]
        self.log.append(("executemany", sql, rows, sizes))
        self.on_executemany(sql, rows)
        self.wrote(sql)

    def copy(self, schema, table, columns, rows):
        rows = [tuple(r) for r in rows]
        self.log.append(("copy", schema, table, tuple(columns) if columns is not None else None, rows))
        self.on_copy(schema, table, columns, rows)
        self.wrote("INSERT")

    def query(self, sql):
        self.log.append(("query", sql))
        names, rows = self.on_query(sql)
        return list(names), [tuple(r) for r in rows]

    def close(self):
        self.log.append(("close",))
        self.on_close()


DML = re.compile(r"^\s*(INSERT|UPDATE|DELETE|MERGE|REPLACE)\b", re.I)
QUERY = re.compile(r"^\s*(SELECT|WITH|SHOW)\b", re.I)


class Record:
    "asyncpg.Record"

    def __init__(self, names, row):
        self._names, self._row = names, row

    def __iter__(self):
        return iter(self._row)

    def __len__(self):
        return len(self._row)

    def __getitem__(self, k):
        return self._row[self._names.index(k)] if isinstance(k, str) else self._row[k]

    def items(self):
        return list(zip(self._names, self._row))

    def keys(self):
        return list(self._names)

    def values(self):
        return list(self._row)

    def get(self, k, default=None):
        return self[k] if k in self._names else default


class Row:
    "pyodbc.Row"

    def __init__(self, names, row):
        self._r = row
        for n, v in zip(names, row):
            setattr(self, n, v)

    def __iter__(self):
        return iter(self._r)

    def __len__(self):
        return len(self._r)

    def __getitem__(self, k):
        return self._r[k]


class Version:
    major, minor, micro, releaselevel, serial = 16, 0, 0, "final", 0


class PgTransaction:
    def __init__(self, server):
        self._s = server

    async def start(self):
        self._outer, self._s.autocommit = self._s.autocommit, False

    async def commit(self):
        self._s.autocommit = self._outer
        if self._outer:
            self._s.commit()

    async def rollback(self):
        self._s.autocommit = self._outer

    async def __aenter__(self):
        await self.start()
        return self

    async def __aexit__(self, kind, *exc):
        await (self.commit() if kind is None else self.rollback())


class PgNative:
    def __init__(self, server):
        self._s = server

    def transaction(self, **kw):
        return PgTransaction(self._s)

    def get_server_version(self):
        return Version()

    async def execute(self, query, *args, timeout=None):
        await asyncio.sleep(0)
        self._s.execute(query)

    async def executemany(self, command, args, *, timeout=None):
        await asyncio.sleep(0)
        self._s.executemany(command, args)

    async def fetch(self, query, *args, timeout=None):
        await asyncio.sleep(0)
        names, rows = self._s.query(query)
        return [Record(names, r) for r in rows]

    async def fetchrow(self, query, *args, timeout=None):
        rows = await self.fetch(query)
        return rows[0] if rows else None

    async def fetchval(self, query, *args, column=0, timeout=None):
        row = await self.fetchrow(query)
        return row[column] if row is not None else None

    async def copy_records_to_table(self, table_name, *, records, columns=None, schema_name=None, timeout=None, where=None):
        await asyncio.sleep(0)
        if hasattr(records, "__aiter__"):
            records = [r async for r in records]
        self._s.copy(schema_name, table_name, columns, records)
        return "COPY"

    async def close(self, *, timeout=None):
        self._s.close()

    def terminate(self):
        self._s.close()


class _Both:
    "The value of conn.cursor() of aiomysql: awaitable and an asynchronous context manager"

    def __init__(self, cur):
        self._cur = cur

    def __await__(self):
        async def get():
            return self._cur
        return get().__await__()

    async def __aenter__(self):
        return self._cur

    async def __aexit__(self, *exc):
        return None


class MyCursor:
    def __init__(self, server, as_dict):
        self._s, self._dict, self._rows, self._names = server, as_dict, None, ()

    async def execute(self, query, args=None):
        await asyncio.sleep(0)
        if QUERY.match(query):
            names, rows = self._s.query(query)
            self._names = names
            self._rows = [dict(zip(names, r)) for r in rows] if self._dict else [tuple(r) for r in rows]
        else:
            self._s.execute(query)

    async def executemany(self, query, args):
        await asyncio.sleep(0)
        self._s.executemany(query, args)

    async def fetchall(self):
        rows, self._rows = self._rows, []
        return rows

    async def fetchone(self):
        return self._rows.pop(0) if self._rows else None

    async def fetchmany(self, size=1):
        rows, self._rows = self._rows[:size], self._rows[size:]
        return rows

    @property
    def description(self):
        return [(n, None, None, None, None, None, None) for n in self._names]

    async def __aenter__(self):
        return self

    async def __aexit__(self, *exc):
        return None

    async def __aiter__(self):
        for row in await self.fetchall():
            yield row

    async def close(self):
        pass


class MyNative:
    def __init__(self, server):
        self._s = server

    def cursor(self, *cursors):
        return _Both(MyCursor(self._s, any("Dict" in c.__name__ for c in cursors)))

    def close(self):
        self._s.close()

    async def ensure_closed(self):
        self._s.close()

    async def autocommit(self, value):
        self._s.autocommit = bool(value)

    def get_autocommit(self):
        return self._s.autocommit

    async def begin(self):
        pass

    async def commit(self):
        self._s.commit()

    async def rollback(self):
        pass


class Cursor:
    "pyodbc, oracledb and redshift_connector"

    def __init__(self, server, kind):
        self._s, self._kind, self._rows, self._names, self._sizes = server, kind, None, (), None
        self.fast_executemany, self.rowfactory = False, None

    def __enter__(self):
        return self

    def __exit__(self, kind=None, *exc):
        if self._kind == "mssql" and kind is None and not self._s.autocommit:
            self._s.commit()       # pyodbc commits when a block ends without an error
        return None

    def var(self, typ, size=0, *args, **kw):
        return ("var", str(typ), size)

    def setinputsizes(self, *args, **kw):
        self._sizes = list(args[0]) if self._kind == "mssql" and args else list(args)

    def execute(self, sql, *args, stream=None, **kw):
        if stream is not None:
            self._s.copy(None, sql, None, [(stream.read(),)])
        elif QUERY.match(sql):
            self._names, self._rows = self._s.query(sql)
        else:
            self._s.execute(sql)
        return self

    def executemany(self, sql, rows, batcherrors=False, **kw):
        try:
            self._s.executemany(sql, rows, self._sizes)
        except STATEMENT_ERRORS.get(self._kind, ()):
            if not batcherrors:
                raise

    @property
    def description(self):
        return [(n, None, None, None, None, None, None) for n in self._names]

    def _shaped(self, r):
        if self._kind == "mssql":
            return Row(self._names, r)
        if self.rowfactory is not None:
            return self.rowfactory(*r)
        return list(r) if self._kind == "redshift" else tuple(r)

    def fetchmany(self, size=None):
        size = len(self._rows) if size is None else size
        rows, self._rows = self._rows[:size], self._rows[size:]
        return [self._shaped(r) for r in rows]

    def fetchall(self):
        return self.fetchmany()

    def fetchone(self):
        rows = self.fetchmany(1)
        return rows[0] if rows else None

    def fetchval(self):
        row = self.fetchone()
        return row[0] if row is not None else None

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        pass


class SyncNative:
    def __init__(self, server, kind):
        self._s, self._kind = server, kind

    @property
    def autocommit(self):
        return self._s.autocommit

    @autocommit.setter
    def autocommit(self, value):
        if value and not self._s.autocommit and self._kind == "mssql":
            self._s.commit()
        self._s.autocommit = bool(value)

    def cursor(self, *args, **kw):
        return Cursor(self._s, self._kind)

    def commit(self):
        self._s.commit()

    def rollback(self):
        pass

    def close(self):
        self._s.close()

    def execute(self, sql, *args):
        return self.cursor().execute(sql, *args)


class TrinoCursor:
    def __init__(self, server):
        self._s, self._r = server, None

    async def execute(self, sql, params=None):
        await asyncio.sleep(0)
        if re.match(r"\s*(SELECT|WITH|VALUES)\b", sql, re.I):
            self._r = self._s.query(sql)
        else:
            self._s.execute(sql)
            self._r = ((), [])
        return self

    async def fetchall(self):
        await asyncio.sleep(0)
        return [list(r) for r in self._r[1]]

    async def fetchone(self):
        rows = await self.fetchall()
        return rows[0] if rows else None

    async def close(self):
        pass


class TrinoNative:
    def __init__(self, server):
        self._s = server

    async def cursor(self, *args, **kw):
        return TrinoCursor(self._s)

    async def close(self):
        self._s.close()


def odbc_params(s):
    "Key-value pairs of an ODBC connection string"
    res, i = {}, 0
    while i < len(s):
        j = s.find("=", i)
        if j < 0:
            raise DriverError("connection string: " + s[i:])
        key, i = s[i:j].strip().upper(), j + 1
        if s[i:i + 1] == "{":
            i += 1
            val = ""
            while True:
                k = s.find("}", i)
                if k < 0:
                    raise DriverError("connection string: unbalanced brace")
                val += s[i:k]
                i = k + 1
                if s[i:i + 1] == "}":
                    val += "}"
                    i += 1
                else:
                    break
            if s[i:i + 1] not in ("", ";"):
                raise DriverError("connection string: text after a brace")
            i += 1
        else:
            k = s.find(";", i)
            k = len(s) if k < 0 else k
            val, i = s[i:k].strip(" "), k + 1        # blanks around a value without braces do not count
        res.setdefault(key, val)
    return res


@contextlib.contextmanager
def installed(dialect, server):
    "Replaces the driver of a dialect by a stand-in that talks to the server"
    server.dialect = dialect
    server.autocommit = dialect in ("postgresql", "trino")
    if dialect == "postgresql":
        module = asyncpg

        async def connect(dsn=None, **kw):
            await asyncio.sleep(0)
            server.connect(dict(kw, dsn=dsn) if dsn is not None else kw)
            return PgNative(server)
    elif dialect == "mysql":
        module = aiomysql

        def connect(*args, **kw):
            async def go():
                await asyncio.sleep(0)
                server.connect(kw)
                server.autocommit = bool(kw.get("autocommit", False))
                return MyNative(server)
            return go()
    elif dialect == "mssql":
        module = pyodbc

        def connect(conn_string="", **kw):
            server.connect(dict(odbc_params(conn_string), **{k.upper(): v for k, v in kw.items()}))
            server.autocommit = bool(kw.get("autocommit", False))
            return SyncNative(server, dialect)
    elif dialect == "oracle":
        module = oracledb

        def connect(*args, **kw):
            server.connect(kw)
            return SyncNative(server, dialect)
    elif dialect == "redshift":
        module = redshift_connector

        def connect(*args, **kw):
            server.connect(kw)
            return SyncNative(server, dialect)
    elif dialect == "trino":
        module = aiotrino.dbapi

        def connect(*args, **kw):
            server.connect(kw)
            return TrinoNative(server)
    else:
        raise ValueError(dialect)
    original = module.connect
    module.connect = connect
    try:
        yield
    finally:
        module.connect = original


def run(coro):
    return asyncio.run(coro)


def session(dialect, server, body, options=None, params=None):
    """Opens a connection through the code under test and runs body(context, connection) in it"""
    async def go():
        engine = factory.get_dialect(dialect)
        conn = engine.create_connection(params or ConnectionParameters(host="db.example", username="u", password="p", database="d"),
                                        options or GeneratorOptions())
        async with conn as ctx:
            return await body(ctx, conn)
    with installed(dialect, server):
        return run(go())
