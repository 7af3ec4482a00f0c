"""C08: the user agent is only ever sent to a registered redirect URI."""
from urllib.parse import parse_qsl
from urllib.parse import urlencode

from cryptojwt.jws.jws import JWS

from mc import clock
from mc.explore import C_PROBE
from mc.explore import Violation
from mc.explore import count
from mc.op import ISSUER
from mc.op import KEYS
from mc.op import OP
from mc.op import base_conf
from mc.op import client
from mc.op import logout_conf
from mc.op import private_keyjar
from mc.report import Check

A = "https://rp1.example.com/cb"
REG = {
    "plain": [(A, None)],
    "empty": [(A, {})],
    "query": [(A, {"foo": ["bar"]})],
    "query twice": [(A, {"foo": ["bar", "baz"]})],
    "query same value twice": [(A, {"foo": ["bar", "bar"]})],
    "two queries": [(A, {"foo": ["bar"], "x": ["1"]})],
    "blank value": [(A, {"foo": [""]})],
    "two": [(A, None), ("https://rp1.example.com/other", {"foo": ["bar"]})],
    "with and without": [(A, None), (A, {"foo": ["bar"]})],
    "two different queries": [(A, {"foo": ["bar"]}), (A, {"x": ["1"]})],
    "escaped path": [("https://rp1.example.com/c%2Fb", None)],
    "root": [("https://rp1.example.com/", None)],
    "no path": [("https://rp1.example.com", None)],
    "port": [("https://rp1.example.com:8443/cb", None)],
    "params": [("https://rp1.example.com/cb;v=1", None)],
    "custom scheme": [("com.example.app:/cb", None)],
    "loopback": [("http://localhost:8080/cb", None)],
    "strings": [A, "https://rp1.example.com/other?foo=bar"],
}
ATTACKS = ("https://evil.example.net/cb", "https://rp2.example.com/cb", "//evil.example.net/cb", "/cb", "", "x", "javascript:x",
           "data:text/html,x", "https:rp1.example.com/cb", "https:/rp1.example.com/cb", "https:///rp1.example.com/cb")


def literals(reg):
    """The URIs that are registered, as the client wrote them."""
    out = []
    for e in reg:
        if isinstance(e, str):
            out.append(e)
        else:
            out.append(e[0] + ("?" + urlencode([(k, v) for k in e[1] for v in e[1][k]]) if e[1] else ""))
    return out


def split(u):
    base, _, q = u.partition("?")
    return base, sorted(parse_qsl(q, keep_blank_values=True))


def norm(base):
    """Scheme and host have no case."""
    sch, c, rest = base.partition(":")
    if rest.startswith("//"):
        auth, s, path = rest[2:].partition("/")
        user, at, host = auth.rpartition("@")
        rest = "//" + user + at + host.lower() + s + path
    return sch.lower() + c + rest


def legal(u, reg):
    if "#" in u or any(ord(c) <= 32 or 127 <= ord(c) < 160 for c in u):
        return False
    b, q = split(u)
    for lit in literals(reg):
        rb, rq = split(lit)
        if norm(b) == norm(rb) and q == rq:
            return True
    return False


def mutate(u):
    """Every small change of a registered URI."""
    base, _, q = u.partition("?")
    sch, _, rest = base.partition("://")
    auth, s, path = rest.partition("/")
    path = s + path
    yield u
    for f in ("#", "#f", "#x=1", "%23f"):
        yield u + f
    yield base + "#f" + ("?" + q if q else "")
    yield base
    for add in ("", "foo", "foo=", "foo=bar", "foo=bar&", "&foo=bar", "foo=baz", "foo=bar&foo=bar", "foo=bar&foo=baz", "foo=baz&foo=bar",
                "x=1", "foo=bar&x=1", "x=1&foo=bar", "x=1&x=1", "FOO=bar", "foo=BAR", "fo%6f=bar", "foo=%62ar", "foo=bar;x=1",
                "foo=bar%26x=1", "foo%3Dbar", "redirect=https://evil.example.net/", "?foo=bar", "foo=", "bar="):
        yield base + "?" + add
    for add in ("&", "&x=1", "&foo=bar", "&foo=", "&x=", "?", "%26x=1", "=", " ", "+", "%20", "/"):
        if q:
            yield u + add
    for p in (path + "/", path + "/x", path + "//", path + "x", path[:-1], path.upper(), "/" + path, path + "/..", "/..", path + "/../cb",
              "/x/.." + path, "/." + path, path + "%2Fx", path.replace("/", "%2F"), path.replace("cb", "%63b"), path.replace("cb", "%63%62"),
              path.replace("%2F", "/"), path.replace("%2F", "%2f"), path + "%3Ffoo=bar", path + "%00", path + ";v=1", path + ";",
              path.replace(";v=1", ""), path + "*", "/*", "", "/", path + "\\x", path.replace("/", "\\")):
        yield base[:len(base) - len(path)] + p + ("?" + q if q else "")
    for c in ("\t", "\n", "\r", "\r\nLocation: https://evil.example.net/", " ", "\x00", "\x0b", "\u2028", "\xa0", "\x7f"):
        for v in (u + c, c + u, u[:5] + c + u[5:], u[:20] + c + u[20:], u[:-1] + c + u[-1:]):
            yield v
    if sch:
        for sc in (sch.upper(), "http", "https", "ftp", "javascript", sch + " ", "view-source:" + sch):
            yield sc + "://" + rest + ("?" + q if q else "")
        for a in (auth.upper(), auth + ".", "evil." + auth, auth + ".evil.example.net", "x@" + auth, auth + "@evil.example.net", "evil.example.net",
                  auth + ":443", auth + ":80", auth + ":", "evil.example.net\\@" + auth, auth + "\\@evil.example.net",
                  auth + "%2eevil.example.net", auth.replace(".", "%2e"), auth.replace("e", "\uff45", 1), auth.split(":")[0], ""):
            yield sch + "://" + a + path + ("?" + q if q else "")
    yield u[1:]
    yield u * 2
    yield u + "," + "https://evil.example.net/"
    yield "https://evil.example.net/?" + u
    yield "https://evil.example.net/#" + u
    yield u + "?" + u


def candidates(reg):
    seen = {}
    for lit in literals(reg):
        for u in mutate(lit):
            seen.setdefault(u)
    for u in ATTACKS:
        seen.setdefault(u)
    return list(seen)


def conf(kind):
    c = base_conf(kind)
    c["endpoint"]["pushed_authorization"] = {
        "path": "pushed", "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization",
        "kwargs": {"client_authn_method": ["client_secret_post"]}}
    c["capabilities"]["deny_unknown_scopes"] = False
    return c


VARIANTS = {  # variations of the request around the redirect URI
    "login": {}, "silent": {"prompt": "none"}, "query": {"response_mode": "query"}, "fragment": {"response_mode": "fragment"},
    "form_post": {"response_mode": "form_post"}, "unknown mode": {"response_mode": "carrier_pigeon"},
    "silent query": {"prompt": "none", "response_mode": "query"}, "silent fragment": {"prompt": "none", "response_mode": "fragment"},
    "silent form_post": {"prompt": "none", "response_mode": "form_post"},
    "silent unknown mode": {"prompt": "none", "response_mode": "carrier_pigeon"},
    "implicit": {"response_type": "token"}, "hybrid query": {"response_type": "code token", "response_mode": "query"},
    "silent implicit": {"response_type": "token", "prompt": "none"},
    "unregistered type": {"response_type": "code id_token token x"}, "return_uri": {"return_uri": "https://evil.example.net/"},
    "silent return_uri": {"prompt": "none", "return_uri": "https://evil.example.net/", "response_mode": "form_post"},
    "iss": {"iss": "https://evil.example.net/", "redirect_uris": "https://evil.example.net/"},
    "login_hint": {"login_hint": "https://evil.example.net/"},
}


def outcome(op, r, uri, reg, what, must=None):
    """The answer r to a request for `uri` (None: omitted)."""
    if r.kind == "login":
        if r.raw["return_uri"] != uri:
            raise Violation(f"{what}: the login page returns to {r.raw['return_uri']!r}, not {uri!r}", sig="wrong login return")
        r = op.login(r, "diana")
    went = r.target is not None and r.stage == "response"
    if must and not went:
        raise Violation(f"{what}: a registered redirect URI was refused: {r.brief()}", sig="registered URI refused")
    if not went:
        return "refused"
    if uri is None or not legal(uri, reg):
        raise Violation(f"{what}: accepted, the user agent goes to {r.raw!r:.300}", sig="unregistered URI accepted")
    return sent(r, uri, what)


def sent(r, uri, what):
    """The answer must go to exactly uri, with the registered query, plus the response parameters."""
    if r.mode == "form_post":
        if r.target != uri or len(r.html.forms) != 1:
            raise Violation(f"{what}: the form is sent to {r.target!r}, not {uri!r}", sig="wrong target")
    else:
        if not r.raw.startswith(uri):
            raise Violation(f"{what}: sent to {r.raw!r:.300}, not {uri!r}", sig="wrong target")
        rest = r.raw[len(uri):]
        if rest[:1] not in ("?", "#", "&") or (rest[:1] == "&" and "?" not in uri):
            raise Violation(f"{what}: sent to {r.raw!r:.300}, not {uri!r}", sig="wrong target")
    return r.mode + " " + r.kind


def registered(case):
    """One provider kind, one set of registered URIs, one way to send the request: every candidate URI."""
    kind, name, via = case
    reg = REG[name]
    clients = {"client_1": client(1, redirect_uris=reg), "client_2": client(2)}
    op = OP(conf(kind), clients, kind=kind)
    cands = candidates(reg)
    lits = literals(reg)
    n = 0
    for u in cands:
        n += 1
        count(C_PROBE)
        what = f"{case} {u!r}"
        req = op.areq("client_1", redirect_uri=u or None, state=f"s{n}", nonce=f"n{n}", scope=("openid",) if kind == "oidc" else ("alpha",))
        if u == "":
            req["redirect_uri"] = ""
        if via == "object":
            inner = {k: req[k] for k in ("redirect_uri",)}
            inner.update({k: req[k] for k in ("response_type", "client_id", "scope") if k in req}, iss="client_1")
            keys = private_keyjar("client_1").get_signing_key("RSA", "")
            req["request"] = JWS(inner, alg="RS256").sign_compact(keys)
            req["redirect_uri"] = lits[0]
        elif via == "pushed":
            r = op.call("pushed_authorization", dict(req, client_secret=clients["client_1"]["client_secret"]))
            if not r.ok or "request_uri" not in r:
                if u in lits and u:
                    raise Violation(f"{what}: cannot be pushed: {r.brief()}", sig="registered URI refused")
                continue
            req = {"client_id": "client_1", "request_uri": r["request_uri"], "response_type": "code",
                   "redirect_uri": lits[0], "scope": req["scope"], "state": "x"}
        r = op.authz(req)
        eff = u or (lits[0] if len(lits) == 1 else None)  # an empty parameter counts as an omitted one
        outcome(op, r, eff, reg, what, must=u in lits)
    return "ok"


def accepted(case):
    """Every variation of a request, for every registered URI and some others: wherever the answer goes."""
    kind, name, other = case
    reg = REG[name]
    clients = {"client_1": client(1, redirect_uris=reg), "client_2": client(2)}
    op = OP(conf(kind), clients, kind=kind)
    lits = literals(reg)
    cookie = None
    for u in lits + [A + "/x", "https://evil.example.net/cb", lits[0] + "?y=1", None]:
        for v, extra in VARIANTS.items():
            for ck in (False, True):
                count(C_PROBE)
                n = (len(v), ck)
                req = op.areq("client_1", redirect_uri=u or None, state=f"s {n}&", nonce="n",
                              scope=("openid",) if kind == "oidc" else ("alpha",))
                req.update(extra)
                if other:
                    req[other[0]] = other[1]
                r = op.authz(req, cookies=cookie if ck else None)
                if r.ok and r.cookies:
                    cookie = op.session_cookie(r)
                eff = u
                if u is None and kind == "oauth2" and len(lits) == 1 and not isinstance(reg[0], str):
                    eff = lits[0]
                outcome(op, r, eff, reg, f"{case} {u!r} {v} cookie={ck}", must=None if (u is None or other or u not in lits or v in (
                    "unregistered type", "unknown mode", "silent unknown mode", "fragment", "hybrid query")) else True)
                if u is None and eff is not None and v == "login" and not other:
                    outcome(op, op.authz(dict(req, state="again")), eff, reg, f"{case} omitted", must=True)
    return "ok"


EXTRA = (None, ("max_age", "x"), ("claims", "{"), ("response_type", ""), ("nonce", ""), ("scope", ""), ("client_id", "client_2"),
         ("client_id", "nobody"), ("client_id", ""), ("request", "x"), ("request_uri", "https://evil.example.net/r"), ("prompt", "none login"),
         ("id_token_hint", "x"), ("acr_values", "nope"), ("response_mode", ""), ("error", "x"))


def accepted_other(case):
    """The same, with one parameter that makes the request fail: the client that counts is the one named."""
    kind, name, other = case
    if other and other[0] == "client_id":
        clients = {"client_1": client(1, redirect_uris=REG[name]), "client_2": client(2)}
        op = OP(conf(kind), clients, kind=kind)
        for u in candidates(REG[name])[:40] + ["https://rp2.example.com/cb"]:
            for v, extra in VARIANTS.items():
                count(C_PROBE)
                req = op.areq("client_1", redirect_uri=u or None, scope=("openid",) if kind == "oidc" else ("alpha",), **extra) \
                    if "response_type" not in extra else dict(op.areq("client_1", redirect_uri=u or None), **extra)
                req["client_id"] = other[1]
                r = op.authz(req)
                outcome(op, r, u, clients.get(other[1], {"redirect_uris": []})["redirect_uris"], f"{case} {u!r} {v}")
        return "ok"
    return accepted(case)


# ---------------------------------------------------------------- after logout
def post_logout(case):
    """Every candidate as post_logout_redirect_uri of the client that is logged out, and of another."""
    name, claim, alla = case
    reg = REG[name]
    cl = {c: client(i, client_id=c, redirect_uris=[(f"https://rp{i}.example.com/login", None)]) for i, c in ((1, "client_1"), (2, "client_2"))}
    cl["client_1"]["post_logout_redirect_uris"] = reg
    cl["client_2"]["post_logout_redirect_uris"] = [("https://rp2.example.com/cb", None)]
    op = OP(logout_conf(base_conf()), cl)
    sess = {}
    for c in cl:
        r = op.authz_as("diana", op.areq(c, response_type="code id_token", nonce="n" + c))
        sess[c] = (r["id_token"], op.session_cookie(r))
    lits = literals(reg)
    for u in candidates(reg) + [None]:
        for state in (None, "st", "a b&c=d#e?ü"):
            count(C_PROBE)
            idt, ck = sess["client_1"]
            req = {"id_token_hint": idt}
            if u is not None:
                req["post_logout_redirect_uri"] = u
            if state:
                req["state"] = state
            if claim:
                req["client_id"] = claim
            what = f"{case} {u!r} state={state!r}"
            r = op.end_session(req, ck)
            must = u in lits
            if not r.ok:
                if must or u is None:
                    raise Violation(f"{what}: logout refused: {r.brief()}", sig="registered post-logout URI refused")
                continue
            if r.target != ISSUER + "/verify_logout":
                raise Violation(f"{what}: sent to {r.raw!r:.200} to confirm the logout", sig="wrong confirmation target")
            ep = op.ep("session")
            info = ep.unpack_signed_jwt(r["sjwt"])
            to = info["redirect_uri"]
            if u is None or u == "":
                if to != ISSUER + "/post_logout":
                    raise Violation(f"{what}: the user is sent to {to!r} after logout", sig="wrong default post-logout target")
                continue
            if not legal(u, reg):
                raise Violation(f"{what}: accepted, the user is sent to {to!r} after logout", sig="unregistered post-logout URI accepted")
            want = [("state", state)] if state else []
            b, _, q = to.partition("?")
            if b != u.partition("?")[0] or parse_qsl(q, keep_blank_values=True) != parse_qsl(u.partition("?")[2], keep_blank_values=True) + want \
                    or "#" in to:
                raise Violation(f"{what}: the user is sent to {to!r} after logout", sig="wrong post-logout target")
    return "ok"


def main(tier):
    c = Check("C08", tier)
    kinds = ("oidc", "oauth2")
    c.sweep("redirect URIs", [(k, n, v) for k in kinds for n in REG for v in ("plain", "pushed") + (("object",) if k == "oidc" else ())],
            registered, rule="provider kind x registered set x plain/request object/pushed; each with every mutated URI")
    c.sweep("answers", [(k, n, None) for k in kinds for n in REG], accepted,
            rule="provider kind x registered set; URIs x request variants x session cookie, wherever the answer goes")
    names = REG if tier == "thorough" else ("plain", "query", "two")
    c.sweep("failing requests", [(k, n, o) for k in kinds for n in names for o in EXTRA[1:]], accepted_other,
            rule="the same with one parameter that makes the request fail")
    c.sweep("post logout", [(n, cl, False) for n in REG for cl in (None, "client_1", "client_2", "nobody")], post_logout,
            rule="registered set x client_id claimed; every mutated URI x state")
    return c.finish("exploration")
