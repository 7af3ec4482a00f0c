"""C19: registration admits only valid metadata and isolates clients."""
import copy
import itertools
import json
from urllib.parse import parse_qsl
from urllib.parse import urlsplit

from mc import clock
from mc import op as mcop
from mc import schedule
from mc.checks.c01 import files
from mc.checks.c01 import thread_cases
from mc.explore import C_PROBE
from mc.explore import C_SCHED
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.explore import op_state
from mc.op import ISSUER
from mc.op import OP
from mc.op import base_conf
from mc.op import basic
from mc.op import client
from mc.op import jwt_claims
from mc.op import jwt_header
from mc.op import logout_conf
from mc.op import public_jwks
from mc.report import Check

GOOD = "https://c.example.org/cb"


class Web:
    """The outside world."""

    def __init__(self):
        self.docs = {}
        self.asked = []

    def get(self, url, **kw):
        self.asked.append(url)
        d = self.docs.get(url)
        if d is None:
            raise ConnectionError(url)
        r = type("R", (), {})()
        r.status_code, r.text = d
        return r

    def post(self, url, **kw):
        raise ConnectionError(url)

    def request(self, *a, **kw):
        raise ConnectionError(str(a))


def FixedId(reserved=(), **kw):
    """A client_id_generator."""
    return "the-client"


def conf(reg=None, read=True):
    c = logout_conf(base_conf("oidc"))
    c["endpoint"]["registration"] = {"path": "registration", "class": "oidcop.oidc.registration.Registration",
                                     "kwargs": dict({"client_authn_method": None}, **(reg or {}))}
    if read:
        c["endpoint"]["registration_read"] = {"path": "registration_api", "class": "oidcop.oidc.read_registration.RegistrationRead",
                                              "kwargs": {"client_authn_method": ["bearer_header"]}}
    c["keys"] = {"uri_path": "jwks.json", "key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]},
                                                       {"type": "RSA", "key": "", "size": 2048, "use": ["sig"]}]}
    c["authz"]["kwargs"]["grant_config"]["usage_rules"]["refresh_token"]["supports_minting"].append("id_token")
    for k in (c["endpoint"]["userinfo"]["kwargs"], c["endpoint"]["introspection"]["kwargs"], c["token_handler_args"]["id_token"]["kwargs"]):
        k["enable_claims_per_client"] = True
    return c


def new(reg=None, read=True, tag=""):
    web = Web()
    op = OP(conf(reg, read), {"client_1": client(1), "client_2": client(2)}, kind="oidc", httpc=web, tag=tag)
    op.web = web
    return op


def world(op):
    """What registration may not change: the clients there are, their keys and their tokens."""
    ctx = op.ctx
    kj = {o: json.dumps(ctx.keyjar.export_jwks(private=True, issuer_id=o), sort_keys=True) for o in ctx.keyjar.owners()}
    db = {}
    for k, v in ctx.cdb.items():
        v = copy.deepcopy(v)
        v.pop("auth_method", None)  # how the client authenticated is noted with the client
        db[k] = v
    return {"cdb": db, "keys": kj, "rat": dict(ctx.registration_access_token)}


def register(op, doc):
    return op.call("registration", doc if isinstance(doc, str) else json.dumps(doc))


def read(op, token, cid):
    p = {} if cid is None else {"client_id": cid}
    return op.call("registration_read", p, method="GET", auth=None if token is None else "Bearer " + token)


def diff(a, b, but=None):
    """What differs between two worlds, apart from the new client."""
    out = []
    for part in a:
        x, y = a[part], b[part]
        for k in set(x) | set(y):
            if x.get(k) != y.get(k) and (k != but if part != "rat" else y.get(k) != but):
                out.append((part, k if part != "rat" else "...", "gone" if k not in y else "new" if k not in x else "changed"))
    return out


# ---------------------------------------------------------------- the rules
def rule_redirect(uri, app, rts):
    """True must be taken, False must be refused, None does not matter."""
    if not isinstance(uri, str) or "#" in uri:
        return False
    try:
        p = urlsplit(uri)
        host = p.hostname
    except ValueError:
        return False
    try:
        p.port
    except ValueError:
        return None
    if not p.scheme:
        return False
    implicit = any(set(rt.split()) & {"token", "id_token"} for rt in rts)
    weird = "@" in p.netloc or any(ord(c) < 33 or ord(c) > 126 for c in uri) or "\\" in uri
    if p.scheme in ("http", "https") and not host:
        return False
    if app == "web":
        if p.scheme not in ("http", "https"):
            return False
        if implicit and (p.scheme != "https" or host == "localhost"):
            return False
        if p.scheme != "https" or weird or host == "localhost" and rts != ["code"]:
            return None
        return True
    if p.scheme == "https":
        return False
    if p.scheme == "http":
        if host in ("localhost", "127.0.0.1"):
            return None if weird else True
        return None if host in ("::1",) or host.startswith("127.") else False
    if p.scheme in ("javascript", "data", "vbscript", "file", "ftp", "about", "blob"):
        return None
    return None if weird else True


def verdict(rules):
    rules = list(rules)
    if any(r is False for r in rules):
        return False
    return None if any(r is None for r in rules) else True


URIS = [GOOD, "https://c.example.org", "https://c.example.org/", "https://c.example.org/cb?a=b", "https://c.example.org/cb?a=b&c=d&a=e",
        "https://c.example.org/cb?a=", "https://c.example.org/cb?a", "https://c.example.org/cb?", "https://c.example.org/cb%20x?y=%26z", "https://c.example.org/cb?q=a+b",
        "https://c.example.org:8443/cb", "https://C.Example.org/cb", "HTTPS://c.example.org/cb", "https://c.example.org/cb;v=1", "https://c.example.org/a,b",
        "https://c.example.org/%C3%BC", "https://c.example.org/ü", "https://user:pw@c.example.org/cb", "https://c.example.org/../cb", "https://c.example.org//cb",
        "https://c.example.org/cb#f", "https://c.example.org/cb?a=b#f", "https://c.example.org/cb#", "https://c.example.org#f",
        "http://c.example.org/cb", "http://c.example.org/cb?a=b", "http://c.example.org/cb#f", "http://localhost/cb", "http://localhost:8080/cb", "http://localhost:8080/cb?a=b",
        "http://localhost", "http://localhost/cb#f", "https://localhost/cb", "https://localhost:8443/cb", "https://LOCALHOST/cb", "http://127.0.0.1/cb", "http://127.0.0.1:9/cb", "https://127.0.0.1/cb",
        "http://[::1]:8080/cb", "http://127.0.0.2/cb", "http://localhost.evil.example.net/cb", "http://localhost@evil.example.net/cb", "http://evil.example.net/localhost",
        "http://127.0.0.1.evil.example.net/", "http://evil.example.net:80/?localhost", "http://evil.example.net#@localhost/", "http://xlocalhost/",
        "org.example.app:/cb", "org.example.app:/cb?a=b", "org.example.app://host/cb", "org.example.app:cb", "org.example.app:/cb#f", "org.example.app:", "urn:ietf:wg:oauth:2.0:oob",
        "myapp://localhost/cb", "javascript:alert(1)", "data:text/html,x", "ftp://c.example.org/cb", "httpx://c.example.org/cb", "ws://c.example.org/cb",
        "cb", "/cb", "//c.example.org/cb", "c.example.org/cb", "?a=b", "#f", "", " ", "https:///cb", "https:/cb", "https:cb", "http:", "https://?a=b", "https://:443/cb",
        "https://[bad/cb", "https://c.example.org:port/cb", "://c.example.org/cb", " https://c.example.org/cb", "https://c.example.org/cb ", "https://c.example.org/a b",
        "https://c.example.org/cb\n", "https://c.example.org\\@evil.example.net/"]
APPS = (None, "web", "native")
RTS = (None, ["code"], ["id_token"], ["code", "id_token token"], ["code id_token"], ["code", "code"], ["code token"])


def fresh(op, before, r, what):
    """The answer names a new client, with its own secret; returns the client id."""
    cid, sec = r.get("client_id"), r.get("client_secret")
    if not cid or cid in before["cdb"] or len(cid) < 8:
        raise Violation(f"{what}: registered as {cid!r}", sig="client_id")
    if not sec or len(sec) < 32 or any(sec == c.get("client_secret") for c in before["cdb"].values()) or sec in json.dumps(before["cdb"], default=str):
        raise Violation(f"{what}: got the secret {sec!r}", sig="client_secret")
    rat = r.get("registration_access_token")
    if not rat or len(rat) < 16 or rat in before["rat"] or rat in (cid, sec):
        raise Violation(f"{what}: got the registration access token {rat!r}", sig="registration_access_token")
    return cid


def norm(uri):
    """A URI up to spelling: the provider keeps it in parts."""
    base, _, query = uri.partition("?")
    scheme, sep, rest = base.partition(":")
    q = {}
    for k, v in parse_qsl(query, keep_blank_values=True):
        q.setdefault(k, []).append(v)
    return scheme.lower() + sep + rest, q


def same(sent, got, key):
    if key in ("redirect_uris", "post_logout_redirect_uris"):
        return isinstance(got, list) and [norm(u) for u in sent] == [norm(u) for u in got]
    if key in ("request_uris", "response_types", "grant_types", "contacts"):
        return isinstance(got, list) and list(sent) == list(got)
    return sent == got


def as_sent(doc, r, what, optional=()):
    for k, v in doc.items():
        if k in r:
            if not same(v, r[k], k):
                raise Violation(f"{what}: {k} sent {v!r}, answered {r[k]!r}", sig="not as sent:" + k)
        elif k not in optional:
            raise Violation(f"{what}: {k} is not there", sig="not as sent:" + k)


def refused_cleanly(op, before, r, what):
    after = world(op)
    d = diff(before, after)
    if d:
        raise Violation(f"{what}: refused ({r.brief()}), still {d}", sig="refused leaves things")
    for k in ("client_id", "client_secret", "registration_access_token"):
        if k in r:
            raise Violation(f"{what}: refused, with {k}", sig="refused with credentials")


def use(op, cid, sec, uri, rt="code", method=None, scope=("openid",), expect=True, what=""):
    """A whole flow, as the registered client; returns the token response or None."""
    count(C_PROBE)
    q = {"client_id": cid, "redirect_uri": uri, "response_type": rt, "scope": " ".join(scope), "state": "S", "nonce": "N"}
    r = op.authz_as("diana", q)
    if r.kind != "ok":
        return None, r
    if r.mode != "form_post" and not r.raw.startswith(uri):
        raise Violation(f"{what}: asked for {uri!r} sent to {r.raw[:200]!r}", sig="sent elsewhere")
    if "code" not in rt.split():
        return r, r
    t = {"grant_type": "authorization_code", "code": r["code"], "redirect_uri": uri, "client_id": cid}
    if method == "client_secret_post":
        t["client_secret"] = sec
        return op.token(t), r
    return op.token(t, auth=basic(cid, sec)), r


def one_uri(case):
    uris, app, rts = case
    op = new()
    doc = {"redirect_uris": list(uris)}
    if app:
        doc["application_type"] = app
    if rts:
        doc["response_types"] = rts
    rts_ = rts or ["code"]
    what = json.dumps(doc)
    want = verdict(rule_redirect(u, app or "web", rts_) for u in uris) if uris else False
    before = world(op)
    r = register(op, doc)
    count(C_PROBE)
    if r.kind != "ok":
        if want is True:
            raise Violation(f"{what}: refused: {r!r}", sig="refused")
        refused_cleanly(op, before, r, what)
        return "refused"
    if want is False:
        raise Violation(f"{what}: accepted", sig="accepted:" + (app or "web"))
    cid = fresh(op, before, r, what)
    d = diff(before, world(op), cid)
    if d:
        raise Violation(f"{what}: registration changed {d}", sig="changed others")
    as_sent(doc, r, what)
    rd = read(op, r["registration_access_token"], cid)
    if rd.kind != "ok":
        raise Violation(f"{what}: reading it: {rd!r}", sig="read")
    as_sent(doc, rd, what + " read")
    rt = "code" if "code" in rts_ else rts_[0]
    for u in uris:
        t, a = use(op, cid, r["client_secret"], u, rt=rt, what=what)
        if t is None:
            raise Violation(f"{what}: {u!r} can not be used: {a!r}", sig="can not be used")
        if t.kind != "ok":
            raise Violation(f"{what}: {u!r}: no token: {t!r}", sig="can not be used")
    probes = {"https://evil.example.net/cb", uris[0] + "x", uris[0] + "/y", uris[0] + ("&" if "?" in uris[0] else "?") + "zz=1",
              uris[0].replace("https:", "http:"), uris[0].replace("http:", "https:"), uris[-1] + "?y=1" if "?" not in uris[-1] else uris[-1] + "&y=1"}
    for p in sorted(probes - set(uris)):
        t, a = use(op, cid, r["client_secret"], p, rt=rt, what=what)
        if t is not None:
            raise Violation(f"{what}: {p!r} can be used", sig="usable:" + rt)
    for x in ("code", "id_token", "code id_token", "id_token token", "code id_token token", "code token"):
        t, a = use(op, cid, r["client_secret"], uris[0], rt=x, what=what)
        if (t is not None) != (set(x.split()) in [set(i.split()) for i in rts_]):
            raise Violation(f"{what}: response type {x!r}: {a!r}", sig="response type")
    return "accepted"


def uri_cases(tier):
    for app, rts in itertools.product(APPS, RTS):
        for u in URIS:
            yield [u], app, rts
    second = URIS if tier == "thorough" else URIS[::3] + ["https://c.example.org/cb#f", "http://c.example.org/cb", "cb", "http://localhost:8080/cb"]
    for app, rts, a in (("web", ["code"], GOOD), ("web", ["code id_token"], GOOD), ("native", ["code"], "org.example.app:/cb"), ("native", ["id_token"], "http://localhost/cb")):
        for u in second:
            if u != a:
                yield [a, u], app, rts
                yield [u, a], app, rts
    yield [], "native", ["code"]


# ---------------------------------------------------------------- other metadata
JWKS = public_jwks("client_1")
SECTOR = "https://sector.example.org/uris.json"
META = [  # key, value, verdict
    ("client_name", "The Client", True), ("client_name", "ü<>&\"'", True), ("client_name#ja", "クライアント名", True), ("contacts", ["a@example.org", "b@example.org"], True),
    ("logo_uri", "https://c.example.org/logo.png", True), ("logo_uri", "https://evil.example.net/logo.png", False), ("logo_uri", "http://c.example.org/logo.png", False),
    ("logo_uri", "https://c.example.org:8443/logo.png", False), ("logo_uri", "https://c.example.org.evil.example.net/", False), ("logo_uri", "https://evil.example.net/?https://c.example.org", False),
    ("logo_uri", "https://c.example.org@evil.example.net/", False),
    ("policy_uri", "https://c.example.org/policy", True), ("policy_uri", "https://evil.example.net/policy", False), ("policy_uri", "/policy", False), ("policy_uri", "javascript:alert(1)", False),
    ("tos_uri", "https://c.example.org/tos?x=y", True), ("tos_uri", "https://evil.example.net/tos", False), ("tos_uri", "data:text/html,x", False),
    ("client_uri", "https://c.example.org/", True), ("jwks", JWKS, True), ("jwks_uri", "https://c.example.org/jwks.json", True),
    ("subject_type", "public", True), ("subject_type", "pairwise", True), ("subject_type", "ephemeral", None), ("subject_type", "other", False),
    ("id_token_signed_response_alg", "ES256", True), ("id_token_signed_response_alg", "RS256", True), ("id_token_signed_response_alg", "HS256", True),
    ("id_token_signed_response_alg", "XX256", False), ("id_token_signed_response_alg", "none", None),
    ("userinfo_signed_response_alg", "ES256", True), ("userinfo_signed_response_alg", "RS256", True), ("userinfo_signed_response_alg", "XX256", False),
    ("request_object_signing_alg", "ES256", True), ("request_object_signing_alg", "XX", False),
    ("id_token_encrypted_response_alg", "RSA-OAEP", True), ("id_token_encrypted_response_alg", "XX", False), ("id_token_encrypted_response_enc", "A128CBC-HS256", False),
    ("userinfo_encrypted_response_enc", "A128CBC-HS256", False), ("request_object_encryption_enc", "A128CBC-HS256", False), ("userinfo_encrypted_response_alg", "XX", False),
    ("token_endpoint_auth_method", "client_secret_basic", True), ("token_endpoint_auth_method", "client_secret_post", True), ("token_endpoint_auth_method", "private_key_jwt", True),
    ("token_endpoint_auth_method", "none", False), ("token_endpoint_auth_method", "tls_client_auth", False),
    ("token_endpoint_auth_signing_alg", "ES256", True), ("token_endpoint_auth_signing_alg", "none", False), ("token_endpoint_auth_signing_alg", "XX", False),
    ("default_max_age", 3600, True), ("require_auth_time", True, True), ("default_acr_values", [mcop.ACR], True), ("default_acr_values", ["other"], False),
    ("grant_types", ["authorization_code"], True), ("grant_types", ["authorization_code", "implicit", "refresh_token"], True), ("grant_types", ["password"], False),
    ("grant_types", ["authorization_code", "client_credentials"], False),
    ("response_types", ["code"], True), ("response_types", ["code", "id_token"], True), ("response_types", ["code other"], False), ("response_types", ["code", "other"], False),
    ("response_types", ["token code id_token"], True), ("response_types", ["id_token code", "code"], True), ("response_types", ["token token"], None),
    ("application_type", "web", True), ("application_type", "other", False),
    ("initiate_login_uri", "https://c.example.org/login", True), ("initiate_login_uri", "http://c.example.org/login", False), ("initiate_login_uri", "javascript:https:", False),
    ("request_uris", ["https://c.example.org/r"], True), ("request_uris", ["https://c.example.org/r#abc", "https://c.example.org/r"], True), ("request_uris", ["https://c.example.org/r?a=b"], False),
    ("request_uris", ["https://c.example.org/r", "https://c.example.org/q?a=b#c"], False), ("request_uris", ["https://c.example.org/r#a#b"], None),
    ("post_logout_redirect_uri", "https://c.example.org/bye", True), ("post_logout_redirect_uri", "https://c.example.org/bye?a=b", True),
    ("post_logout_redirect_uri", "https://c.example.org/bye#x", False),
    ("post_logout_redirect_uris", ["https://c.example.org/bye"], True), ("post_logout_redirect_uris", ["https://c.example.org/bye", "https://c.example.org/bye?a=b"], True),
    ("post_logout_redirect_uris", ["https://c.example.org/bye#x"], False), ("post_logout_redirect_uris", ["https://c.example.org/bye", "https://c.example.org/b#x"], False),
    ("backchannel_logout_uri", "https://c.example.org/bc", True), ("backchannel_logout_session_supported", True, True),
    ("frontchannel_logout_uri", "https://c.example.org/fc", True), ("frontchannel_logout_session_required", True, True), ("frontchannel_logout_uri", "javascript:alert(1)", False),
    ("organization_name", "Org", True), ("federation_type", ["explicit"], None),
    ("sector_identifier_uri", SECTOR, True), ("sector_identifier_uri", SECTOR + "?missing", False), ("sector_identifier_uri", SECTOR + "?text", False), ("sector_identifier_uri", SECTOR + "?dict", False),
    ("sector_identifier_uri", SECTOR + "?string", False), ("sector_identifier_uri", SECTOR + "?error", False), ("sector_identifier_uri", SECTOR + "?gone", False),
    ("sector_identifier_uri", SECTOR + "?more", True), ("sector_identifier_uri", SECTOR + "?empty", False), ("sector_identifier_uri", SECTOR + "?null", False),
    ("unknown_parameter", "value", True), ("client_id", "", True),
]
OPTIONAL = {"unknown_parameter", "client_id", "client_name#ja"}
ENC = {"id_token_encrypted_response_alg", "userinfo_encrypted_response_alg", "jwks_uri"}


def docs():
    ok = [GOOD, GOOD + "?foo=bar"]
    return {SECTOR: (200, json.dumps(ok)), SECTOR + "?missing": (200, json.dumps(ok[:1] + ["https://c.example.org/"])), SECTOR + "?text": (200, "<html>" + " ".join(ok)),
            SECTOR + "?dict": (200, json.dumps(dict.fromkeys(ok, True))), SECTOR + "?string": (200, json.dumps(" ".join(ok))), SECTOR + "?error": (404, json.dumps(ok)),
            SECTOR + "?more": (200, json.dumps(["https://other.example.org/"] + ok)), SECTOR + "?empty": (200, "[]"), SECTOR + "?null": (200, "null")}


def one_meta(case):
    op = new()
    op.web.docs = docs()
    doc = {"redirect_uris": [GOOD, GOOD + "?foo=bar"]}
    for i in case:
        doc[META[i][0]] = META[i][1]
    what = json.dumps({k: v for k, v in doc.items() if k not in ("redirect_uris", "jwks")})
    want = verdict(META[i][2] for i in case)
    if {"jwks", "jwks_uri"} <= set(doc):
        want = want and None
    for k in ("id_token_encrypted_response", "userinfo_encrypted_response"):
        if k + "_enc" in doc and k + "_alg" in doc:
            want = verdict(META[i][2] for i in case if META[i][0] != k + "_enc")
    before = world(op)
    r = register(op, doc)
    count(C_PROBE)
    if r.kind != "ok":
        if want is True:
            raise Violation(f"{what}: refused: {r!r}", sig="refused")
        refused_cleanly(op, before, r, what)
        return "refused"
    if want is False:
        raise Violation(f"{what}: accepted", sig="accepted:" + ",".join(META[i][0] for i in case if META[i][2] is False))
    cid = fresh(op, before, r, what)
    d = diff(before, world(op), cid)
    if d:
        raise Violation(f"{what}: registration changed {d}", sig="changed others")
    sent = {k: v for k, v in doc.items() if k not in ("client_id", "unknown_parameter")}
    as_sent(sent, r, what, OPTIONAL | {"post_logout_redirect_uris"})
    rd = read(op, r["registration_access_token"], cid)
    if rd.kind != "ok":
        raise Violation(f"{what}: reading it: {rd!r}", sig="read")
    as_sent(sent, rd, what + " read", OPTIONAL | {"post_logout_redirect_uris"})
    if ENC & set(doc):
        return "accepted"
    rts = [set(x.split()) for x in doc.get("response_types", ["code"])]
    sec = r["client_secret"]
    for rt in ("code", "id_token", "code id_token token"):
        t, a = use(op, cid, sec, GOOD + "?foo=bar", rt=rt, method=doc.get("token_endpoint_auth_method"), what=what)
        if (t is not None) != (set(rt.split()) in rts):
            raise Violation(f"{what}: response type {rt!r}: {a!r}", sig="response type")
        if t is None:
            continue
        if t.kind != "ok":
            raise Violation(f"{what}: no token: {t!r}", sig="can not be used")
        idt = t["id_token"]
        alg = doc.get("id_token_signed_response_alg")
        if alg and jwt_header(idt)["alg"] != alg:
            raise Violation(f"{what}: ID Token signed with {jwt_header(idt)}", sig="id_token_signed_response_alg")
        own = jwt_claims(op.authz_as("diana", dict(op.areq("client_1", response_type="id_token")))["id_token"])["sub"]
        if (jwt_claims(idt)["sub"] == own) != (doc.get("subject_type", "public") == "public") and doc.get("subject_type") != "ephemeral":
            raise Violation(f"{what}: sub {jwt_claims(idt)['sub']}", sig="subject_type")
        if "access_token" in t and "code" in rt:
            ui = op.userinfo(t["access_token"])
            if ui.kind != "ok":
                raise Violation(f"{what}: userinfo: {ui!r}", sig="can not be used")
            raw = ui.raw if isinstance(ui.raw, str) else ""
            ualg = doc.get("userinfo_signed_response_alg")
            if ualg:
                if raw.count(".") != 2 or jwt_header(raw)["alg"] != ualg:
                    raise Violation(f"{what}: userinfo answered {raw[:60]!r}", sig="userinfo_signed_response_alg")
            elif raw.count(".") == 2 and raw.startswith("ey"):
                raise Violation(f"{what}: userinfo answered {raw[:60]!r}", sig="userinfo_signed_response_alg")
        reg = doc.get("post_logout_redirect_uris", []) + [doc[k] for k in ("post_logout_redirect_uri",) if k in doc]
        for u in ("https://c.example.org/bye", "https://c.example.org/bye?a=b", "https://c.example.org/bye?x=y", GOOD, "https://evil.example.net/"):
            e = op.end_session({"id_token_hint": idt, "post_logout_redirect_uri": u}, cookies=op.session_cookie(a))
            if (e.kind == "ok") != (u in reg) and not (jwt_header(idt)["alg"] == "HS256"):
                raise Violation(f"{what}: log out and go to {u!r}: {e!r}", sig="post_logout_redirect_uri")
    if rts and {"code"} in rts:
        for u in ("https://c.example.org/r", "https://c.example.org/q", "https://c.example.org/r/x", "https://evil.example.net/r"):
            op.web.asked.clear()
            op.authz({"client_id": cid, "redirect_uri": GOOD, "response_type": "code", "scope": "openid", "state": "S", "nonce": "N", "request_uri": u})
            if "request_uris" in doc and bool(op.web.asked) != (u in [x.split("#")[0] for x in doc["request_uris"]]):
                raise Violation(f"{what}: request_uri {u!r}: fetched {op.web.asked}", sig="request_uris")
    return "accepted"


def meta_cases(tier):
    n = len(META)
    for i in range(n):
        yield [i]
    step = 1 if tier == "thorough" else 3
    k = 0
    for i, j in itertools.combinations(range(n), 2):
        if META[i][0] != META[j][0]:
            k += 1
            if k % step == 0 or {META[i][0], META[j][0]} in ({"post_logout_redirect_uri", "post_logout_redirect_uris"},):
                yield [i, j]


# ---------------------------------------------------------------- what a client may not choose
HOSTILE = [
    ("client_id", "chosen"), ("client_id", "client_1"), ("client_id", ["client_1"]), ("client_id", ISSUER), ("client_secret", "a-secret-that-i-chose-0123456789"), ("client_secret", ""),
    ("client_secret_expires_at", 4102444800), ("client_secret_expires_at", 0), ("client_id_issued_at", 1), ("client_salt", "mine"),
    ("registration_access_token", "a-token-that-i-chose-0123456789"), ("registration_client_uri", "https://evil.example.net/"),
    ("allowed_scopes", ["openid", "email", "profile", "address", "admin"]), ("allowed_scopes", []), ("scopes_to_claims", {"openid": ["sub", "email", "name", "address"]}),
    ("token_usage_rules", {"authorization_code": {"max_usage": 10, "expires_in": 999999, "supports_minting": ["access_token", "refresh_token", "id_token"]},
                           "access_token": {"expires_in": 999999}, "refresh_token": {"supports_minting": ["access_token", "refresh_token", "id_token"]}}),
    ("token_usage_rules", {}), ("token_usage_rules", "x"),
    ("add_claims", {"always": {"userinfo": ["email", "name"], "id_token": ["email", "name"], "introspection": ["email"]},
                    "by_scope": {"userinfo": True, "id_token": True, "introspection": True}}),
    ("add_claims", {"by_scope": {"userinfo": True, "id_token": True}}), ("userinfo", {"enable_claims_per_client": True}), ("grant_types_supported", ["refresh_token"]), ("grant_types_supported", []),
    ("revoke_refresh_on_issue", False), ("revoke_refresh_on_issue", True), ("auth_method", {"AccessTokenRequest": "none"}), ("auth_method", "none"), ("dpop_jkt", "x"), ("si_redirects", ["https://evil.example.net/cb"]),
    ("sector_id", "https://c1.example.org/"), ("sector_id", "rp1.example.com"), ("pkce_essential", False), ("subject_types_supported", ["x"]), ("response_modes", ["x"]),
    ("is_admin", True), ("jwks", JWKS), ("post_logout_redirect_uris", [["https://evil.example.net/", {}]]), ("redirect_uris#x", ["https://evil.example.net/"]), ("scope", "openid email admin"),
    ("claims", {"userinfo": {"email": None}}), ("authn_method", "x"), ("issuer", "https://evil.example.net/"), ("issue_refresh", True), ("expires_in", 999999), ("usage_rules", {"access_token": {"expires_in": 9999}}),
]


def observe(op, cid, sec):
    """What a client can do, without what is random."""
    out = {}
    scope = ("openid", "email", "profile", "address", "offline_access", "admin")
    q = {"client_id": cid, "redirect_uri": GOOD, "response_type": "code", "scope": " ".join(scope), "state": "S", "nonce": "N", "prompt": "consent"}
    r = op.authz_as("diana", q)
    out["authorization"] = (r.kind, sorted(r.params), r.params.get("scope"), r.params.get("error"))
    if r.kind != "ok":
        return out
    t = {"grant_type": "authorization_code", "code": r["code"], "redirect_uri": GOOD, "client_id": cid}
    clock.advance(250)
    tok = op.token(t, auth=basic(cid, sec))
    strip = lambda d: {k: v for k, v in sorted(d.items()) if k not in ("access_token", "refresh_token", "id_token", "sub", "iat", "auth_time", "sid", "jti", "at_hash", "c_hash", "aud", "client_id", "azp", "username", "exp", "s_hash")}
    out["token"] = (tok.kind, sorted(tok.params), strip(tok.params))
    if tok.kind != "ok":
        return out
    c = jwt_claims(tok["id_token"])
    out["id_token"] = (sorted(c), strip(c), c["exp"] - c["iat"], jwt_header(tok["id_token"])["alg"])
    out["sub"] = c["sub"]
    u = op.userinfo(tok["access_token"])
    out["userinfo"] = (u.kind, strip(u.params))
    if "refresh_token" in tok:
        n = op.token({"grant_type": "refresh_token", "refresh_token": tok["refresh_token"], "client_id": cid}, auth=basic(cid, sec))
        out["refresh"] = (n.kind, sorted(n.params), strip(n.params))
        n = op.token({"grant_type": "refresh_token", "refresh_token": tok["refresh_token"], "client_id": cid}, auth=basic(cid, sec))
        out["refresh again"] = (n.kind, sorted(n.params), strip(n.params))
    i = op.introspect(tok["access_token"], cid, sec)
    out["introspection"] = (i.kind, strip(i.params))
    e = op.end_session({"id_token_hint": tok["id_token"], "post_logout_redirect_uri": "https://evil.example.net/"}, cookies=op.session_cookie(r))
    out["end_session"] = e.kind
    n = op.token({"grant_type": "authorization_code", "code": r["code"], "redirect_uri": GOOD}, auth=basic(cid, sec))
    out["again"] = n.kind
    for dt in (340, 20, 3000, 90000):
        clock.advance(dt)
        out["later", dt] = (op.userinfo(tok["access_token"]).kind, op.introspect(tok["access_token"], cid, sec).get("active"))
    clock.advance(2592000 - 400000)
    out["before expiry"] = op.introspect("x", cid, sec).kind
    clock.advance(600000)
    out["after expiry"] = op.introspect("x", cid, sec).kind
    return out


def one_hostile(case):
    """The same registration with and without what is not the client's to say: no difference."""
    extra, base = case
    a, b = new(tag="a"), new(tag="b")
    doc = dict({"redirect_uris": [GOOD], "response_types": ["code"]}, **base)
    bad = dict(doc)
    for i in extra:
        bad[HOSTILE[i][0]] = HOSTILE[i][1]
    what = json.dumps({k: v for k, v in bad.items() if k != "jwks"})
    before = world(b)
    t0 = clock.now()
    plain = register(a, doc)
    ref = observe(a, plain["client_id"], plain["client_secret"])
    clock.set_now(t0)
    r = register(b, bad)
    count(C_PROBE)
    if r.kind != "ok":
        refused_cleanly(b, before, r, what)
        return "refused"
    cid = fresh(b, before, r, what)
    d = diff(before, world(b), cid)
    if d:
        raise Violation(f"{what}: registration changed {d}", sig="changed others")
    for i in extra:
        k, v = HOSTILE[i]
        if v in (r["client_id"], r["client_secret"], r["registration_access_token"]) or \
                k in ("client_secret_expires_at", "client_id_issued_at", "registration_client_uri") and r.get(k) != plain.get(k) and k != "registration_client_uri" or \
                k == "registration_client_uri" and not r[k].startswith(ISSUER):
            raise Violation(f"{what}: the client chose {k}", sig="chosen:" + k)
        if k == "client_secret":
            x = b.introspect("x", cid, v)
            if x.kind == "ok":
                raise Violation(f"{what}: the client authenticates with the secret it chose", sig="chosen:client_secret")
        if k == "registration_access_token" and read(b, v, cid).kind == "ok":
            raise Violation(f"{what}: the client reads with the token it chose", sig="chosen:registration_access_token")
    rd = read(b, r["registration_access_token"], cid)
    if rd.kind != "ok":
        raise Violation(f"{what}: reading it: {rd!r}", sig="read")
    for k in ("client_id", "client_secret", "registration_access_token", "client_secret_expires_at", "registration_client_uri"):
        if rd.get(k) != r.get(k):
            raise Violation(f"{what}: {k} registered {r.get(k)!r}, read {rd.get(k)!r}", sig="read differs")
    got = observe(b, cid, r["client_secret"])
    for k in ref:
        if ref[k] != got.get(k) and not (k == "sub" and doc.get("subject_type") == "pairwise" and False):
            raise Violation(f"{what}: {k} is {got.get(k)}, without it {ref[k]}", sig="policy:" + ",".join(HOSTILE[i][0] for i in extra))
    return "ignored"


def hostile_cases(tier):
    for i in range(len(HOSTILE)):
        yield [i], {}
        yield [i], {"subject_type": "pairwise"}
    if tier == "thorough":
        for i, j in itertools.combinations(range(len(HOSTILE)), 2):
            if HOSTILE[i][0] != HOSTILE[j][0]:
                yield [i, j], {}


# ---------------------------------------------------------------- malformed documents
KEYS = ("redirect_uris", "response_types", "grant_types", "application_type", "subject_type", "logo_uri", "policy_uri", "jwks", "jwks_uri", "request_uris", "post_logout_redirect_uri",
        "post_logout_redirect_uris", "sector_identifier_uri", "token_endpoint_auth_method", "id_token_signed_response_alg", "userinfo_signed_response_alg", "default_max_age",
        "require_auth_time", "contacts", "initiate_login_uri", "backchannel_logout_uri", "frontchannel_logout_uri", "default_acr_values", "client_name")
VALUES = (None, "", " ", "x", 0, 1, -1, 1.5, True, False, [], [""], [None], [1], ["x", 1], [[]], [["https://c.example.org/cb", {}]], {}, {"a": 1}, {"keys": []}, {"keys": [{"kty": "x"}]},
          {"keys": [{"kty": "RSA", "n": "!", "e": "!"}]}, ["x"] * 300, "https://c.example.org/cb", "https://c.example.org/x#y#z", "\x00", "a b")
RAW = ("", "{", "[]", "null", "1", '"x"', "[{}]", '{"redirect_uris": ["https://c.example.org/cb"], "redirect_uris": ["https://evil.example.net/cb"]}', "redirect_uris=https%3A%2F%2Fc.example.org",
       '{"redirect_uris": NaN}', "{" * 2000)


def one_malformed(case):
    """Whatever it makes of it: nothing of others changes, and a refusal leaves nothing."""
    op = new()
    op.web.docs = docs()
    if isinstance(case, str):
        doc = case
    else:
        key, i = case
        doc = {"redirect_uris": [GOOD]}
        doc[key] = VALUES[i]
    what = (doc if isinstance(doc, str) else json.dumps(doc))[:300]
    before = world(op)
    r = register(op, doc)
    count(C_PROBE)
    if r.kind != "ok":
        refused_cleanly(op, before, r, what)
        return "refused"
    cid = fresh(op, before, r, what)
    d = diff(before, world(op), cid)
    if d:
        raise Violation(f"{what}: registration changed {d}", sig="changed others")
    if not isinstance(doc, str):
        for k, v in doc.items():
            if k in r and v not in (None, "", [], [""], [None], 1.5) and r[k] != v and [r[k]] != [v] and r[k] != [v]:
                raise Violation(f"{what}: {k} answered {r[k]!r}", sig="not as sent:" + k)
    uris = r.get("redirect_uris") or []
    for u in uris:
        if rule_redirect(u, r.get("application_type", "web"), r.get("response_types", ["code"])) is False:
            raise Violation(f"{what}: accepted {u!r}", sig="accepted:malformed")
    if not uris:
        raise Violation(f"{what}: accepted without redirect URI", sig="accepted:malformed")
    if read(op, r["registration_access_token"], cid).kind != "ok":
        raise Violation(f"{what}: can not be read", sig="read")
    return "accepted"


def malformed_cases(tier):
    yield from RAW
    yield from itertools.product(KEYS, range(len(VALUES)))


# ---------------------------------------------------------------- configurations
def one_conf(case):
    """The secret: fresh also when clock, seed and identifier are the same; lives as long as it is told."""
    kw, read_, t = case
    secrets_ = []
    for tag in ("a", "b"):
        clock.set_now(clock.START)
        kw_ = dict(kw, client_id_generator={"class": "mc.checks.c19.FixedId"}, seed="the same seed for both of them!!")
        op = new(kw_, read_, tag=tag)
        r = register(op, {"redirect_uris": [GOOD]})
        if r.kind != "ok" or r["client_id"] != "the-client":
            raise Violation(f"{case}: {r!r}", sig="configuration")
        if ("registration_access_token" in r) != read_:
            raise Violation(f"{case}: {sorted(r.params)}", sig="configuration")
        secrets_.append(r["client_secret"])
        if kw.get("client_secret_expires", True):
            want = clock.START + kw.get("client_secret_expires_in", 2592000)
        else:
            want = 0
        if r.get("client_secret_expires_at", 0) != want:
            raise Violation(f"{case}: the secret expires at {r.get('client_secret_expires_at')}, not at {want}", sig="secret expiry")
        clock.advance(t)
        ok = op.introspect("x", "the-client", r["client_secret"]).kind == "ok"
        if want and abs(clock.now() - want) > 1 and ok != (clock.now() < want) or not want and not ok:
            raise Violation(f"{case}: after {t} s the secret {'works' if ok else 'does not work'}", sig="secret expiry")
    if secrets_[0] == secrets_[1]:
        raise Violation(f"{case}: the same secret twice", sig="client_secret")
    return "ok"


def conf_cases(tier):
    for kw in ({}, {"client_secret_expires_in": 100}, {"client_secret_expires": False}, {"client_secret_expires_in": 5, "client_secret_expires": True}):
        for rd in (True, False):
            for t in (0, 3, 10, 98, 102, 2591990, 2592010, 31536000):
                yield kw, rd, t


# ---------------------------------------------------------------- histories
class Registrations(Scenario):
    """Clients come, are refused, read what they registered, and use it."""
    DOCS = {
        "plain": {"redirect_uris": [GOOD]},
        "same uri as client_1": {"redirect_uris": ["https://rp1.example.com/cb"], "client_name": "client_1"},
        "claims to be client_1": {"redirect_uris": [GOOD], "client_id": "client_1", "client_secret": "x" * 40},
        "native": {"redirect_uris": ["org.example.app:/cb"], "application_type": "native", "client_name": "App"},
        "hybrid": {"redirect_uris": [GOOD], "response_types": ["code id_token", "code"], "jwks": JWKS, "post_logout_redirect_uri": "https://c.example.org/bye",
                   "id_token_signed_response_alg": "ES256"},
    }
    BAD = {
        "no uri": {"client_name": "x"}, "evil logo": {"redirect_uris": [GOOD], "logo_uri": "https://evil.example.net/"},
        "http": {"redirect_uris": ["http://c.example.org/cb"], "response_types": ["id_token"]}, "alg": {"redirect_uris": [GOOD], "id_token_signed_response_alg": "XX"},
        "request_uris": {"redirect_uris": [GOOD], "request_uris": ["https://c.example.org/r?a=b"], "jwks": JWKS},
        "sector": {"redirect_uris": [GOOD], "sector_identifier_uri": "https://nowhere.example.org/"},
        "bad as client_1": {"redirect_uris": ["http://c.example.org/cb#x"], "client_id": "client_1"},
    }

    def __init__(self, name, docs, bad=(), reads=True, uses=True, expire=False, max_clients=2):
        self.name, self.docs, self.bad, self.reads, self.uses, self.expire, self.max = name, docs, bad, reads, uses, expire, max_clients

    def setup(self):
        self.op = new({"client_secret_expires_in": 1000} if self.expire else None)
        self.c = []  # (document, answer, registered at)
        self.record = {k: world(self.op)["cdb"][k] for k in ("client_1", "client_2")}
        self.grants = {}

    def ops(self):
        out = []
        if len(self.c) < self.max:
            out += [("register", d) for d in self.docs]
        out += [("refused", b) for b in self.bad]
        n = len(self.c)
        if self.uses:
            out += [("use", i) for i in list(range(n)) + ["client_1"]]
        if self.expire:
            out += [("tick", 600)]
        return out

    def key(self):
        return op_state(self.op, {}, set()) + json.dumps([(d, sorted(r.params), clock.now() - t) for d, r, t in self.c])

    def others(self, before, but, what):
        d = diff(before, world(self.op), but)
        if d:
            raise Violation(f"{what} changed {d}", sig="changed others")

    def apply(self, o):
        op = self.op
        before = world(op)
        if o[0] == "register":
            r = register(op, self.DOCS[o[1]])
            if r.kind != "ok":
                raise Violation(f"{o}: {r!r}", sig="refused")
            cid = fresh(op, before, r, str(o))
            as_sent({k: v for k, v in self.DOCS[o[1]].items() if k not in ("client_id", "client_secret")}, r, str(o))
            self.others(before, cid, str(o))
            self.c.append((o[1], r, clock.now()))
            self.record[cid] = world(op)["cdb"][cid]
        elif o[0] == "refused":
            r = register(op, self.BAD[o[1]])
            if r.kind == "ok":
                raise Violation(f"{o}: accepted", sig="accepted:" + o[1])
            refused_cleanly(op, before, r, str(o))
        elif o[0] == "tick":
            clock.advance(o[1])
        elif o[0] == "use":
            if o[1] == "client_1":
                cid, sec, uri, alive = "client_1", op.ctx.cdb["client_1"]["client_secret"], "https://rp1.example.com/cb", True
            else:
                d, r, t = self.c[o[1]]
                cid, sec, uri = r["client_id"], r["client_secret"], self.DOCS[d]["redirect_uris"][0]
                alive = clock.now() < r["client_secret_expires_at"] or not self.expire
            tok, a = use(op, cid, sec, uri, what=str(o))
            if alive and (tok is None or tok.kind != "ok"):
                raise Violation(f"{o}: {tok!r} {a!r}", sig="can not be used")
            if not alive and tok is not None and tok.kind == "ok":
                raise Violation(f"{o}: the secret has expired", sig="expired secret")
            if jwt_claims(tok["id_token"])["aud"] != [cid] if tok is not None and tok.kind == "ok" else False:
                raise Violation(f"{o}: ID Token for {jwt_claims(tok['id_token'])['aud']}", sig="aud")

    invariant_forks = True

    def invariant(self):
        op = self.op
        now_ = world(op)
        ids = [r["client_id"] for _, r, _ in self.c]
        vals = [r[k] for _, r, _ in self.c for k in ("client_id", "client_secret", "registration_access_token")]
        if len(set(vals)) != len(vals):
            raise Violation(f"the same identifier, secret or token twice: {vals}", sig="fresh")
        if set(now_["cdb"]) != {"client_1", "client_2"} | set(ids):
            raise Violation(f"clients {sorted(now_['cdb'])}", sig="clients")
        for cid, rec in self.record.items():
            if now_["cdb"][cid] != rec:
                raise Violation(f"what is stored of {cid} changed: {rec} -> {now_['cdb'][cid]}", sig="changed")
        if not self.reads:
            return
        toks = [(i, r["registration_access_token"]) for i, (_, r, _) in enumerate(self.c)]
        toks += [("none", None), ("unknown", "unknown-token"), ("empty", ""), ("id", ids[0] if ids else "client_1"), ("secret", op.ctx.cdb["client_1"]["client_secret"])]
        toks += [("own secret", r["client_secret"]) for _, r, _ in self.c[:1]]
        targets = list(enumerate(ids)) + [("client_1", "client_1"), ("nobody", "nobody"), ("missing", None), ("both", ids[:2])]
        for (i, t), (j, cid) in itertools.product(toks, targets):
            count(C_PROBE)
            r = read(op, t, cid)
            own = isinstance(i, int) and i == j
            if own:
                d, reg, at = self.c[i]
                alive = not self.expire or clock.now() <= reg["client_secret_expires_at"]
                if r.kind != "ok":
                    if alive:
                        raise Violation(f"client {i} can not read its registration: {r!r}", sig="read")
                    continue
                for k, v in reg.params.items():
                    if r.get(k) != v:
                        raise Violation(f"client {i}: {k} registered {v!r}, read {r.get(k)!r}", sig="read differs")
                if set(r.params) - set(reg.params):
                    raise Violation(f"client {i} reads {sorted(set(r.params) - set(reg.params))}", sig="read differs")
            elif r.kind == "ok":
                if j in ("missing", "both") and isinstance(i, int) and r.get("client_id") == ids[i]:
                    continue
                raise Violation(f"token {i} reads registration {j}: {r!r}", sig="read by other")
            elif any(v in str(r.params) for v in vals):
                raise Violation(f"token {i}, registration {j}: the answer tells {r!r}", sig="read by other")


# ---------------------------------------------------------------- threads
class Threads:
    """Two requests at the same time: as if one had come after the other."""
    core = False

    def __init__(self, jobs):
        self.jobs = jobs
        schedule.install_locks()
        try:
            self.op = op = new()
            op.ep("registration"), op.ep("registration_read")
            self.first = register(op, Registrations.DOCS["hybrid"])
            assert self.first.ok, self.first
            self.before = world(op)
        finally:
            schedule.restore_locks()

    def make(self):
        op, f = self.op, self.first
        what = {
            "register": lambda: register(op, Registrations.DOCS["plain"]),
            "native": lambda: register(op, Registrations.DOCS["native"]),
            "refused": lambda: register(op, Registrations.BAD["request_uris"]),
            "read": lambda: read(op, f["registration_access_token"], f["client_id"]),
            "read other": lambda: read(op, f["registration_access_token"], "client_1"),
            "use": lambda: op.authz(dict(op.areq("client_1"), client_id=f["client_id"], redirect_uri=GOOD)),
        }
        return [what[j] for j in self.jobs], self

    def judge(self, res, _):
        new_ = {}
        for j, r in zip(self.jobs, res):
            want = {"register": "ok", "native": "ok", "read": "ok", "use": "login"}.get(j)
            if want and r.kind != want or j in ("refused", "read other") and r.kind == "ok":
                raise Violation(f"{j} together with {self.jobs}: {r!r}", sig="concurrent:" + j)
            if j in ("register", "native"):
                cid = fresh(self.op, self.before, r, j)
                as_sent(Registrations.DOCS["plain" if j == "register" else "native"], r, j)
                if cid in new_:
                    raise Violation("two clients, one identifier", sig="concurrent:fresh")
                new_[cid] = r
            if j == "read":
                for k, v in self.first.params.items():
                    if r.get(k) != v:
                        raise Violation(f"{k} read {r.get(k)!r}", sig="concurrent:read")
        after = world(self.op)
        d = [x for x in diff(self.before, after) if x[1] not in new_ and not (x[0] == "rat" and x[2] == "new")]
        if d or len(after["rat"]) != len(self.before["rat"]) + len(new_) or set(after["cdb"]) != set(self.before["cdb"]) | set(new_):
            raise Violation(f"{self.jobs}: changed {d}", sig="concurrent:changed")
        for cid, r in new_.items():
            rd = read(self.op, r["registration_access_token"], cid)
            if rd.kind != "ok" or any(rd.get(k) != v for k, v in r.params.items()):
                raise Violation(f"{self.jobs}: {rd!r}", sig="concurrent:read")
            if self.op.introspect("x", cid, r["client_secret"]).kind != "ok":
                raise Violation(f"{self.jobs}: the client can not authenticate", sig="concurrent:secret")
        return "/".join(r.kind for r in res)


PAIRS = (("register", "register"), ("register", "refused"), ("register", "read"), ("native", "use"), ("refused", "refused"), ("refused", "read other"))


def main(tier):
    c = Check("C19", tier)
    thorough = tier == "thorough"
    c.sweep("redirect URIs", uri_cases(tier), one_uri, isolate=True,
            rule=f"{len(APPS)} application types x {len(RTS)} sets of response types x {len(URIS)} URIs, and with a valid one before and after; each accepted one registered, read back and used, with probes of its neighbours")
    c.sweep("metadata", meta_cases(tier), one_meta, isolate=True, rule=f"each of {len(META)} values of the other metadata and {'all' if thorough else 'every third of the'} pairs of them; what was accepted is read back and used")
    c.sweep("not the client's to say", hostile_cases(tier), one_hostile, isolate=True, rule="the same registration with and without members that are the provider's: both clients are treated alike")
    c.sweep("malformed", malformed_cases(tier), one_malformed, isolate=True, rule="each member with each of the odd values, and documents that are none")
    c.sweep("configurations", conf_cases(tier), one_conf, isolate=True, rule="secret lifetimes x with and without read endpoint x times")
    d = 5 if thorough else 4
    c.explore(Registrations("come and go", ("plain", "native"), ("evil logo", "request_uris")), d)
    c.explore(Registrations("impostors", ("same uri as client_1", "claims to be client_1"), ("bad as client_1", "no uri")), d)
    c.explore(Registrations("expiring", ("plain", "hybrid"), ("http",), expire=True), d)
    c.explore(Registrations("refusals", ("plain",), tuple(Registrations.BAD), uses=False), d if thorough else 3)
    for pair in PAIRS:
        th = Threads(pair)

        def run(case, th=th):
            start, sch, b = case
            o = schedule.explore_from(th.make, files(False), start, () if sch is None else (sch,), 0 if sch is None else b, th.judge,
                                      lambda n: count(C_SCHED, n))
            return ",".join(sorted(o))
        c.sweep(f"threads {'+'.join(pair)} preemptions<=1", thread_cases(th, 1), run, isolate=False,
                rule="every schedule of two requests with one preemption, at source-line granularity")
    return c.finish("model_checking")
