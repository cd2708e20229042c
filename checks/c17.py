"""C17: connection attempts.  Every configuration and every sequence of outcomes that spec/Tls.tla admits is replayed in the
real connection classes against stand-ins for the drivers; the attempts made must be those the specification predicts."""
import asyncio, json, ssl
from report import Check, describe
from env import rng, pick
import tlc, drivers
from drivers import Server, installed, run, CONNECT_ERRORS
from pysqlsync import factory
from pysqlsync.connection import ConnectionParameters, ConnectionSSLMode
from pysqlsync.base import GeneratorOptions

MODE = {m.value: m for m in ConnectionSSLMode}
MODE["none"] = None
ALPHABET = ["a", "Z", "0", " ", ";", "}", "{", "=", "'", '"', "\\", "@", ":", "/", "?", "%", "&", "\u00e9", "\u4e16", "-", "_", "$", "}}", ",", "+", "#"]


class BodyError(Exception):
    pass


class Attempts(Server):
    def __init__(self, dialect, outcomes):
        super().__init__()
        self.dialect, self.outcomes, self.n = dialect, outcomes, 0

    def on_connect(self, params):
        k = self.n
        self.n += 1
        o = self.outcomes[k] if k < len(self.outcomes) else "ok"
        refused, other = CONNECT_ERRORS[self.dialect]
        if o == "refused":
            raise refused("refused")
        if o == "other":
            raise other("other")


def context_kind(ctx):
    if ctx is None or ctx is False:
        return "plain"
    if not hasattr(ctx, "verify_mode"):
        return "unknown: %r" % (ctx,)
    if ctx.verify_mode == ssl.CERT_NONE:
        return "encrypted"
    if ctx.verify_mode == ssl.CERT_REQUIRED:
        return "full" if ctx.check_hostname else "ca"
    return "unknown: %s" % ctx.verify_mode


def channel(dialect, p):
    if dialect in ("postgresql", "mysql"):
        return context_kind(p.get("ssl"))
    if dialect == "trino":
        verify = p.get("verify", True)
        return "plain" if p.get("http_scheme") != "https" else "full" if verify else "encrypted"
    if dialect == "redshift":
        if p.get("ssl") is False or (p.get("ssl") is None and not p.get("iam")) and p.get("sslmode") is None:
            return "plain"
        return "encrypted" if p.get("ssl_insecure") else {"verify-full": "full"}.get(p.get("sslmode"), "ca")
    if dialect == "mssql":
        enc = str(p.get("ENCRYPT", "yes")).lower()
        trust = str(p.get("TRUSTSERVERCERTIFICATE", "no")).lower()
        if enc in ("no", "optional", "false"):
            return "plain"
        return "encrypted" if trust in ("yes", "true") else "full"
    dsn = str(p.get("dsn", ""))
    if dsn.startswith("tcps:") or str(p.get("protocol", "")) == "tcps":
        return context_kind(p["ssl_context"]) if p.get("ssl_context") is not None else ("full" if p.get("ssl_server_dn_match", True) else "ca")
    return "plain"


def received(dialect, p):
    "The connection parameters as the driver received them"
    if dialect == "postgresql":
        return dict(host=p.get("host"), port=p.get("port"), user=p.get("user"), password=p.get("password"), database=p.get("database"))
    if dialect == "mysql":
        return dict(host=p.get("host"), port=p.get("port"), user=p.get("user"), password=p.get("password"), database=p.get("db", p.get("database")))
    if dialect == "trino":
        auth = p.get("auth")
        return dict(host=p.get("host"), port=p.get("port"), user=p.get("user") if p.get("user") == auth._username else repr(auth._username), password=auth._password, database=p.get("catalog"))
    if dialect == "redshift":
        return dict(host=p.get("host"), port=p.get("port"), user=p.get("db_user", p.get("user")), password=p.get("password"), database=p.get("database"))
    if dialect == "mssql":
        server = p.get("SERVER")
        host, port = server, None
        if server is not None and "," in server:
            host, _, port = server.rpartition(",")
        return dict(host=host, port=port, user=p.get("UID"), password=p.get("PWD"), database=p.get("DATABASE"))
    res = dict(user=p.get("user"), password=p.get("password"), host=p.get("host"), port=p.get("port"), database=p.get("service_name"))
    if p.get("dsn") is not None:
        dsn = p["dsn"].split("://", 1)[-1]
        hp, _, res["database"] = dsn.partition("/")
        res["host"], _, res["port"] = hp.rpartition(":")
    return res


def word(r):
    return "".join(r.choice(ALPHABET) for _ in range(r.randint(1, 8)))


def replay(case, values):
    d = case["dialect"]
    server = Attempts(d, case["outcomes"])
    given = {f: values[f] for f, on in case["given"].items() if on}
    params = ConnectionParameters(host=given.get("host"), port=given.get("port"), username=given.get("user"), password=given.get("password"),
                                  database=given.get("database"), ssl=MODE[case["mode"]])
    refused, other = CONNECT_ERRORS[d]

    async def go():
        conn = factory.get_dialect(d).create_connection(params, GeneratorOptions())
        async with conn:
            if case["body"] == "raises":
                raise BodyError()
    try:
        with installed(d, server):
            run(go())
        result = "ok"
    except BodyError:
        result = "body error"
    except Exception as e:
        result = "refused" if type(e) is refused else "other" if type(e) is other else describe(e)
    connects = [e[1] for e in server.log if e[0] == "connect"]
    return dict(attempts=[channel(d, p) for p in connects], received=[received(d, p) for p in connects], result=result,
                closes=sum(1 for e in server.log if e[0] == "close"))


def agree(case, made):
    if case["dialect"] == "mssql":
        # ODBC cannot verify the certificate without verifying the host name, and its default is to encrypt
        made = ["ca" if want == "ca" and got == "full" else got for want, got in zip(case["attempts"], made)] + made[len(case["attempts"]):]
        if case["mode"] == "none" and len(made) == 1 and made[0] in ("plain", "encrypted", "full"):
            return True
    return made == case["attempts"]


def main(prop):
    ck = Check(prop, "model_checking")
    cases, r = tlc.behaviours("Tls")
    ck.tlc(r)
    rnd = rng("C17")
    rounds = pick(1, 6)
    for n in range(rounds):
        for case in cases:
            values = dict(host="db%d.example.com" % rnd.randint(0, 99), port=rnd.randint(1, 65535), user=word(rnd), password=word(rnd), database=word(rnd))
            got = replay(case, values)
            d = case["dialect"]
            ck.evaluated(json.dumps(case, sort_keys=True))
            if not agree(case, got["attempts"]) or got["result"] != case["result"] or got["closes"] != case["closes"]:
                ck.violation("attempts %s, then %s, closed %d times; the specification has %s, then %s, closed %d times" % (
                    ", ".join(got["attempts"]) or "none", got["result"], got["closes"], ", ".join(case["attempts"]), case["result"], case["closes"]),
                    dict(case=case, got=got), scenario="%s %s %s" % (d, case["mode"], "-".join(case["outcomes"])))
            for rec in got["received"]:
                for f, want in case["receives"].items():
                    want = values[f] if want == "given" else None if want == "-" else want
                    have = rec[f]
                    if f == "port" and have is not None:
                        have, want = str(have), None if want is None else str(want)
                    if have != want:
                        ck.violation("%s: the driver receives %s %r instead of %r" % (d, f, have, want), dict(case=case, values=values, received=rec))
    ck.add("traces_validated_against_impl", rounds * len(cases))
    ck.sample(cases[len(cases) // 3])
    ck.assumptions = ["stand-ins for asyncpg.connect, aiomysql.connect, pyodbc.connect and oracledb.connect; what a driver does with an SSL context is trusted",
                      "a refused connection is ConnectionError (PostgreSQL) or pymysql OperationalError (MySQL)"]
    return ck
