"""C19: connection strings.  spec/Url.tla builds connection strings out of components, one character at a time, and says what each
means; every one is parsed by the real get_parameters, and the parameters are printed and parsed again."""
import json
from report import Check, describe
from env import rng, pick
import tlc
from pysqlsync.factory import get_parameters
from pysqlsync.connection import ConnectionParameters

LITERAL = dict(a="a", B="B", at="@", colon=":", slash="/", quest="?", hash="#", percent="%", plus="+", space=" ", amp="&", equals="=",
               lbrack="[", nonascii="\u00e9", tilde="~", semi=";", quote="'", escaped="%2F")
ESCAPED = ["%2F", "%41", "%%30", "%zz", "%25", "%c3%a9"]      # text that looks encoded
HOSTS = {"name": ["localhost", "db", "my-host"], "dotted": ["server.example.com", "a.b-c.d1"], "v4": ["127.0.0.1", "10.0.20.255"],
         "v6": ["::1", "2001:db8::8a2e:370:7334"]}
NONASCII = ["\u00e9", "\u4e16", "\U0001f600", "\u00df"]
OTHERS = ["'", '"', "<", ">", "\\", "|", "^", "`", "{", "}", "]", "$", "\n", "\t", ",", "\x7f", "(", "*"]
ALNUM = {"a": ["a", "z", "0", "_", "x1"], "B": ["B", "Q", "9", "-", "."]}


def literal(tok, ch):
    return ch.get(tok, LITERAL.get(tok, tok))


def encode(text, upper):
    s = "".join("%%%02x" % b for b in text.encode("utf-8"))
    return s.upper() if upper else s


def render(url, ch, host, upper):
    out = []
    for s in url:
        if s.startswith("%"):
            out.append(encode(literal(s[1:], ch), upper))
        elif s.startswith("host:"):
            out.append("[%s]" % host[s[5:]] if s[5:] == "v6" else host[s[5:]])
        elif s == "verify%-full":
            out.append("verify%2Dfull")
        else:
            out.append(literal(s, ch))
    return "".join(out)


def wanted(m, ch, host):
    text = lambda t: "".join(literal(c, ch) for c in t) or None
    return dict(host=None if m["host"] == "-" else host[m["host"]], port=None if m["port"] == "-" else int(m["port"]),
                username=text(m["user"]), password=text(m["password"]), database=text(m["database"]), ssl=None if m["ssl"] == "-" else m["ssl"])


def found(p):
    return dict(host=p.host, port=p.port, username=p.username, password=p.password, database=p.database, ssl=None if p.ssl is None else p.ssl.value)


def main(prop):
    ck = Check(prop, "model_checking")
    cases, r = tlc.behaviours("Url", pick("Url", "UrlDeep"))
    ck.tlc(r)
    rnd = rng("C19")
    for rounds in range(pick(1, 5)):
        for case in cases:
            m = case["means"]
            host = {k: rnd.choice(v) for k, v in HOSTS.items()}
            host["local"] = "localhost"
            ch = dict(nonascii=rnd.choice(NONASCII), quote=rnd.choice(OTHERS), escaped=rnd.choice(ESCAPED), a=rnd.choice(ALNUM["a"]), B=rnd.choice(ALNUM["B"]))
            url = render(case["url"], ch, host, rnd.random() < 0.5)
            ck.evaluated(url)
            try:
                scheme, p = get_parameters(url)
            except ValueError as e:
                if m["ssl"] != "rejected":
                    ck.violation("a well-formed connection string is rejected: %s" % describe(e), dict(url=url))
                continue
            except Exception as e:
                ck.violation("fails with an unexpected error: %s" % describe(e), dict(url=url))
                continue
            if m["ssl"] == "rejected":
                ck.violation("a connection string with an unknown or repeated SSL mode is accepted", dict(url=url, got=found(p)))
                continue
            want, got = wanted(m, ch, host), found(p)
            if scheme != m["scheme"] or want != got:
                for k in want:
                    if want[k] != got[k]:
                        ck.violation("%s is read as %r instead of %r" % (k, got[k], want[k]), dict(url=url))
                if scheme != m["scheme"]:
                    ck.violation("dialect is read as %r instead of %r" % (scheme, m["scheme"]), dict(url=url))
                continue
            # print the parameters and read them back; the password is one that occurs nowhere else
            secret = "S3cr3t" + "".join(rnd.choice("ABCdef@:/%") for _ in range(4))
            printed = wanted(case["reread"], ch, host)
            for password, h in ([(None, p.host)] if p.password is None else [(p.password, p.host), (secret, p.host)]) + [(p.password, None)]:
                q = ConnectionParameters(h, p.port, p.username, password, p.database, p.ssl)
                text = str(q)
                if password == secret and ("S3cr3t" in text):
                    ck.violation("the printed form contains the password", dict(url=url, text=text))
                try:
                    scheme2, back = get_parameters(scheme + "://" + text)
                except Exception as e:
                    ck.violation("the printed form cannot be parsed: %s" % describe(e), dict(url=url, text=text))
                    continue
                got = found(back)
                again = dict(printed, host=printed["host"] if h else "localhost")
                if got != again:
                    ck.violation("the printed form reads back as different parameters: %s" % ", ".join(k for k in again if got[k] != again[k]),
                                 dict(url=url, text=text, want=again, got=got))
    ck.add("traces_validated_against_impl", len(cases) * pick(1, 5))
    ck.sample(cases[len(cases) // 2])
    ck.assumptions = ["well-formed URLs per RFC 3986; host names are in lower case"]
    return ck
