"""C26: an interactive login identifies the user by what only that user knows, with a method that was asked for, and completes the request that it began with - and no other.

The library's own login page (UserPassJinja2) is driven the way example/flask_op/views.py does: render the page, take its form, post it, verify, create the session.
"""
import base64
import itertools
import json
import os
from urllib.parse import parse_qs
from urllib.parse import urlencode

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS
from cryptojwt.jwt import JWT
from cryptojwt.key_jar import KeyJar
from oidcmsg.oidc import AuthorizationRequest

from mc import clock
from mc.checks.c25 import everything
from mc.checks.c25 import first_difference
from mc.explore import C_PROBE
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.explore import op_state
from mc.op import ACR
from mc.op import ACR2
from mc.op import ISSUER
from mc.op import KEYS
from mc.op import OP
from mc.op import _FormParser
from mc.op import base_conf
from mc.op import client
from mc.op import jwt_claims
from mc.op import private_keyjar
from mc.op import scratch
from mc.report import Check

PASSWORDS = {
    "main": {"diana": "krall", "babs": "howes", "upper": "crust", "Diana": "other", "": "nobody", "blank": "", "åsa": "lösen:ord", "colon:user": "x", "a b": " c ", "long": "x" * 300},
    "otp": {"diana": "123456", "babs": "654321"},
}
TEMPLATE = """<!doctype html><html><head><title>Log in</title></head><body><form action="{{ action }}" method="post">
<input type="hidden" name="token" value="{{ token }}"><input type="text" name="username"><input type="password" name="password">
<input type="image" name="logo" value="{{ logo_uri }}"><input type="image" name="tos" value="{{ tos_uri }}"><input type="image" name="policy" value="{{ policy_uri }}">
<input type="submit" value="{{ submit_btn }}"></form></body></html>"""
X = "urn:example:acr:unheard-of"


class Table:
    """What the provider looks users up in."""

    def __init__(self, name):
        self.db = dict(PASSWORDS[name])

    def __contains__(self, user):
        return user in self.db

    def __getitem__(self, user):
        return self.db[user]


def method(acr, name, where):
    return {"acr": acr, "class": "oidcop.user_authn.user.UserPassJinja2", "kwargs": {"template": "login.jinja2", "verify_endpoint": where, "db": {"class": "mc.checks.c26.Table", "kwargs": {"name": name}}}}


METHODS = {"user": (ACR, "main"), "otp": (ACR2, "otp"), "again": (ACR, "main")}


def conf(methods=("user",), kind="oidc", json_db=False):
    c = base_conf(kind)
    d = os.path.join(scratch(), "template")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{os.getpid()}.tmp"), "w") as f:
        f.write(TEMPLATE)
    os.rename(f.name, os.path.join(d, "login.jinja2"))
    c["authentication"] = {m: method(*METHODS[m], "/verify/" + m) for m in methods}
    if json_db:
        p = os.path.join(scratch(), f"passwd_{os.getpid()}.json")
        with open(p, "w") as f:
            json.dump(PASSWORDS["main"], f)
        c["authentication"]["user"]["kwargs"]["db"] = {"class": "oidcop.util.JSONDictDB", "kwargs": {"filename": p}}
    if kind != "oidc":
        c["allowed_scopes"] = ["alpha", "beta"]
    return c


class Page:
    """What the browser got: exactly one form."""

    def __init__(self, r):
        text = r.params.get("text")
        if r.kind != "refused" or not isinstance(text, str) or "<form" not in text:
            raise Violation(f"no login page: {r!r}", sig="no login page")
        p = _FormParser()
        p.feed(text)
        p.close()
        inputs = [dict(i) for i in p.inputs]
        if len(p.forms) != 1 or [i.get("name") for i in inputs] != ["token", "username", "password", "logo", "tos", "policy", None] or p.other or [t for t in p.text if t != "Log in"]:
            raise Violation(f"the login page is not what it should be: {p.forms} {inputs} {p.other} {p.text}", sig="page altered")
        self.action = p.forms[0]["action"]
        self.token = inputs[0]["value"]
        self.images = {i["name"]: i["value"] for i in inputs[3:6]}


def is_page(r):
    return r.kind == "refused" and isinstance(r.params.get("text"), str) and "<form" in r.params["text"]


def picked(op, page):
    """The method whose page this is, going by where the form is sent."""
    m = page.action.rsplit("/", 1)[-1]
    return m, op.ctx.authn_broker.get_method_by_id(m)


def submit(op, token, name, user, password, more=None):
    """(user, answer) as example/flask_op/views.py verify()."""
    m = op.ctx.authn_broker.get_method_by_id(name)
    try:
        who = m.verify(**dict({"username": user, "password": password, "token": token}, **(more or {})))
    except Exception as e:
        return None, repr(e)
    if not who:
        return None, "refused"
    try:
        args = m.unpack_token(token)
        ep = op.ep("authorization")
        req = ep.request_cls().from_urlencoded(args["query"])
        sid = ep.create_session(req, who, args["authn_class_ref"], args["iat"], m)
        out = ep.authz_part2(request=req, session_id=sid)
    except Exception as e:
        return None, repr(e)
    return who, op.respond("authorization", req, out)


# ---------------------------------------------------------------- who knows the password
def credentials(case):
    table, user, kind = case
    op = OP(conf(("user", "otp"), json_db=kind == "json"))
    db = PASSWORDS["main" if table == "user" else "otp"]
    page = Page(op.authz(op.areq("client_1", acr_values=ACR if table == "user" else ACR2)))
    name, m = picked(op, page)
    if name != table:
        raise Violation(f"asked for {table}, shown {name}", sig="acr")
    others = sorted({p for d in PASSWORDS.values() for p in d.values()} | {"", " ", "None", "null", "\0", "krall\0", "krall ", " krall", "KRALL", "kral", "kralll", user, user[::-1]})
    for pw in others + [None, True, 0, ["krall"], {"krall": 1}, b"krall"]:
        for more in ({}, {"user": "diana", "uid": "diana", "as_user": "diana"}):
            count(C_PROBE)
            try:
                who = m.verify(**dict({"username": user, "password": pw, "token": page.token}, **more))
            except Exception as e:
                who = None
            want = user if user in db and db[user] == pw else None
            if (who or None) != (want or None):
                raise Violation(f"{user!r} with {pw!r} at {table} is {who!r}, not {want!r}", sig="wrong credentials accepted" if who else "right credentials refused")
    for kw in ({"username": user}, {"password": "krall"}, {}):
        try:
            who = m.verify(token=page.token, **kw)
        except Exception:
            who = None
        if who:
            raise Violation(f"{kw} is {who}", sig="no credentials accepted")
    return bool(user in db)


def basic_case(case):
    """BasicAuthn: an HTTP Basic header names its user."""
    from oidcop.user_authn.user import BasicAuthn
    user, pw, form = case
    db = PASSWORDS["main"]
    m = BasicAuthn(pwd=dict(db))
    raw = f"{user}:{pw}".encode()
    h = {"plain": lambda: base64.b64encode(raw).decode(), "scheme": lambda: "Basic " + base64.b64encode(raw).decode(), "no colon": lambda: base64.b64encode((user + pw).encode()).decode(),
         "not base64": lambda: raw.decode(), "empty": lambda: "", "bearer": lambda: "Bearer " + base64.b64encode(raw).decode()}[form]()
    count(C_PROBE)
    try:
        who, _ = m.authenticated_as("client_1", authorization=h)
        who = who.get("uid") if who else None
    except Exception:
        who = None
    u, p = (raw.decode() if form != "no colon" else user + pw + (":" if ":" not in user + pw else "")).split(":", 1)
    right = u in db and db[u] == p
    if who and (who != u or not right):
        raise Violation(f"{h} is {who}", sig="basic: wrong credentials accepted")
    if form in ("plain", "scheme") and right and who != u and "%" not in u:
        raise Violation(f"{raw} is refused", sig="basic: right credentials refused")
    return who is not None


# ---------------------------------------------------------------- whose token
def b64(d):
    return base64.urlsafe_b64encode(json.dumps(d).encode()).decode().rstrip("=")


def packed(kj, iss, alg, payload, **kw):
    return JWT(kj, iss=iss, sign_alg=alg).pack(payload=payload, **kw)


FORGERIES = ("client key", "client key, issuer", "client ES", "client secret", "client secret, issuer", "registered key", "none", "none, no issuer", "public key as secret", "public key as secret ES", "foreign key",
             "foreign key, no issuer", "other provider", "payload changed", "header changed", "signature cut", "signature empty", "two pages", "kid of the client", "jwk in header", "jku", "token of old issuer",
             "not a token", "client key, issuer slash", "client key, issuers", "client key, no issuer", "client key, empty issuer")


def forged_case(case):
    kind, how = case
    op = OP(conf(kind=kind), kind=kind)
    cl = {"scope": ("openid",) if kind == "oidc" else ("alpha",)}
    page = Page(op.authz(op.areq("client_1", **cl)))
    evil = {"query": urlencode(op.areq("client_2", redirect_uri="https://evil.example.net/cb", **cl)), "authn_class_ref": ACR2, "return_uri": "https://evil.example.net/cb"}
    pay = dict(evil, iss=ISSUER, iat=clock.now())
    h, p, s = page.token.split(".")
    own = private_keyjar("client_1", "client_1")
    secret = KeyJar()
    sec = op.ctx.cdb["client_1"]["client_secret"]
    pub = [k for k in op.ctx.keyjar.get_issuer_keys("") if k.kty in ("RSA", "EC")]

    def shared(alg, kty, payload):
        key = [k for k in pub if k.kty == kty][0]
        raw = json.dumps({a: b for a, b in key.serialize().items()}).encode()
        return JWS(json.dumps(payload), alg=alg).sign_compact([SYMKey(key=raw.decode(), kid=key.kid)])

    def hmac(payload, iss, **kw):
        return JWS(json.dumps(dict(payload, iss=iss)), alg="HS256", **kw).sign_compact([SYMKey(key=sec)])

    def as_client(iss, alg="RS256", **kw):
        kj = private_keyjar("client_1", "client_1")
        d = dict(pay)
        d.pop("iss")
        if iss is not None:
            d["iss"] = iss
        return JWS(json.dumps(d), alg=alg, **kw).sign_compact(kj.get_signing_key("RSA" if alg[0] in "RP" else "EC", "client_1"))

    foreign = private_keyjar("foreign", ISSUER)
    if how == "registered key":
        op.ctx.cdb["client_9"] = client(1)
        op.ctx.keyjar.import_jwks({"keys": [k for k in json.loads(json.dumps(KEYS["foreign"]))["keys"]]}, "client_9")
    t = {
        "client key": lambda: as_client("client_1"), "client key, issuer": lambda: as_client(ISSUER), "client ES": lambda: as_client("client_1", "ES256"), "client secret": lambda: hmac(pay, "client_1"),
        "client secret, issuer": lambda: hmac(pay, ISSUER), "registered key": lambda: packed(private_keyjar("foreign", "client_9"), "client_9", "RS256", evil), "none": lambda: b64({"alg": "none"}) + "." + b64(pay) + ".",
        "none, no issuer": lambda: b64({"alg": "none"}) + "." + b64(evil) + ".", "public key as secret": lambda: shared("HS256", "RSA", pay), "public key as secret ES": lambda: shared("HS256", "EC", pay),
        "foreign key": lambda: packed(foreign, ISSUER, "RS256", evil), "foreign key, no issuer": lambda: JWS(json.dumps(evil), alg="RS256").sign_compact(foreign.get_signing_key("RSA", ISSUER)),
        "other provider": lambda: packed(private_keyjar("foreign", "https://other.example.org"), "https://other.example.org", "RS256", evil),
        "payload changed": lambda: ".".join([h, b64(pay), s]), "header changed": lambda: ".".join([b64({"alg": "none"}), b64(pay), s]), "signature cut": lambda: page.token[:-8], "signature empty": lambda: ".".join([h, p, ""]),
        "two pages": lambda: ".".join([h, b64(pay), Page(op.authz(op.areq("client_2", **cl))).token.split(".")[2]]),
        "kid of the client": lambda: as_client("client_1", kid=own.get_signing_key("RSA", "client_1")[0].kid), "jwk in header": lambda: b64({"alg": "RS256", "jwk": own.get_signing_key("RSA", "client_1")[0].serialize()}) + "." + b64(pay)
        + "." + as_client(ISSUER).split(".")[2], "jku": lambda: b64({"alg": "RS256", "jku": "https://rp1.example.com/jwks"}) + "." + b64(pay) + "." + as_client(ISSUER).split(".")[2],
        "token of old issuer": lambda: packed(foreign, ISSUER + ".evil", "RS256", evil), "not a token": lambda: "x", "client key, issuer slash": lambda: as_client(ISSUER + "/"),
        "client key, issuers": lambda: as_client([ISSUER, "client_1"]), "client key, no issuer": lambda: as_client(None), "client key, empty issuer": lambda: as_client(""),
    }[how]
    try:
        t = t()
    except Exception as e:
        return f"can not be made: {e!r}"[:60]
    before = everything(op)
    count(C_PROBE)
    who, r = submit(op, t, "user", "diana", "krall")
    if who is not None:
        raise Violation(f"a login page's token that the provider did not make ({how}) is taken: {r!r}", sig=f"forged token: {how}")
    d = first_difference(before, everything(op))
    if d:
        raise Violation(f"a forged token ({how}) left something behind: {d}", sig=f"forged token leaves traces: {how}")
    who, r = submit(op, page.token, "user", "diana", "krall")
    if who != "diana" or not r.ok:
        raise Violation(f"the page's own token is refused: {r!r}", sig="token refused")
    return "refused"


# ---------------------------------------------------------------- what the page carries
HOSTILE = ("plain", "a b", 'x" onload="alert(1)', "<script>alert(1)</script>", "'", "&amp;", "&lt;form&gt;", "%22%3E", "ö→\u2028", "}}{{ 7*7 }}", "</form><form action='https://evil.example.net/'>", "\\", "+", "a=b&client_id=client_2",
           "&redirect_uri=https://evil.example.net/", "#x", "?", "\t", "x" * 2000)
WHERE = ("state", "nonce", "login_hint", "ui_locales", "acr_values", "logo_uri", "tos_uri", "policy_uri", "unknown")


def carried_case(case):
    where, v = case
    cl = {"client_1": client(1), "client_2": client(2)}
    kw = {}
    if where.endswith("_uri"):
        cl["client_1"][where] = "https://rp1.example.com/" + v
    else:
        kw[where] = v
    op = OP(conf(), cl)
    p = op.areq("client_1", **kw)
    r = op.authz(p)
    if not is_page(r):
        if where in ("login_hint", "ui_locales", "acr_values") or r.kind in ("refused", "error"):
            return "refused"
        raise Violation(f"{where} {v!r}: {r!r}", sig="no login page")
    page = Page(r)
    for i in ("logo", "tos", "policy"):
        want = cl["client_1"].get(i + "_uri", "")
        if page.images[i] != want:
            raise Violation(f"the page shows {page.images[i]!r} as {i}, not {want!r}", sig=f"page: {i}")
    who, r = submit(op, page.token, "user", "diana", "krall")
    if who != "diana" or not r.ok:
        raise Violation(f"{where} {v!r}: {r!r}", sig="login refused")
    if r.target != p["redirect_uri"] or r.get("state") != p["state"]:
        raise Violation(f"{where} {v!r} came back as {r!r}", sig="other request completed")
    q = op.mngr.get_session_info_by_token(r["code"], grant=True)
    got = q["grant"].authorization_request
    for k, x in p.items():
        y = got.get(k)
        y = " ".join(y) if isinstance(y, list) else y
        if y != x and not (k in ("ui_locales", "acr_values") and y == " ".join(str(x).split())):
            raise Violation(f"{k} was {x!r}, became {y!r}", sig="request altered")
    if set(got.keys()) != set(p):
        raise Violation(f"{sorted(p)} became {sorted(got.keys())}", sig="request altered")
    t = op.token(op.treq(r["code"]))
    if not t.ok or jwt_claims(t["id_token"]).get("nonce") != p["nonce"]:
        raise Violation(f"{t!r}", sig="nonce")
    return "carried"


# ---------------------------------------------------------------- which method
def acr_cases(tier):
    sets = [("user",), ("otp",), ("user", "otp"), ("otp", "user"), ("user", "otp", "again"), ("otp", "again", "user")]
    names = {"A": ACR, "B": ACR2, "X": X}
    asked = [None] + ["".join(p) for n in (1, 2, 3) for p in itertools.product("ABX", repeat=n) if len(set(p)) == len(p)]
    for s in sets:
        for a in asked:
            for how in ("acr_values", "claims", "essential", "value"):
                if a is None and how != "acr_values" or how == "value" and len(a) != 1:
                    continue
                yield [list(s), [names[x] for x in a] if a else None, how]
        yield [list(s), None, "claims null"]
        yield [list(s), None, "claims essential"]


def acr_case(case):
    methods, asked, how = case
    op = OP(conf(tuple(methods)))
    kw = {}
    if asked:
        c = {"values": asked} if how != "value" else {"value": asked[0]}
        if how == "essential":
            c["essential"] = True
        kw = {"acr_values": " ".join(asked)} if how == "acr_values" else {"claims": json.dumps({"id_token": {"acr": c}})}
    elif how.startswith("claims "):
        kw = {"claims": json.dumps({"id_token": {"acr": None if how == "claims null" else {"essential": True}}})}
    have = [METHODS[m][0] for m in methods]
    if len(methods) == 1 or not asked:
        want = methods[0]
    else:
        ok = [a for a in asked if a in have]
        want = methods[have.index(ok[0])] if ok else None
    r = op.authz(op.areq("client_1", **kw))
    count(C_PROBE)
    if want is None:
        if is_page(r) or r.ok:
            raise Violation(f"{methods}: asked for {asked} ({how}), answered {r!r}"[:600], sig="unsupported acr")
        return "none"
    page = Page(r)
    name, _ = picked(op, page)
    if METHODS[name][0] != METHODS[want][0] or name != want and have.count(METHODS[want][0]) == 1:
        raise Violation(f"{methods}: asked for {asked} ({how}), shown {name}, not {want}", sig="another method")
    db = PASSWORDS[METHODS[name][1]]
    who, r = submit(op, page.token, name, "diana", db["diana"])
    if who != "diana" or not r.ok:
        raise Violation(f"{methods}: {r!r}", sig="login refused")
    t = op.token(op.treq(r["code"]))
    acr = jwt_claims(t["id_token"]).get("acr") if t.ok else None
    if acr != METHODS[name][0]:
        raise Violation(f"{methods}: logged in with {METHODS[name][0]}, the ID Token says {acr}", sig="acr of the ID Token")
    return name


# ---------------------------------------------------------------- pages open side by side
LINKS = {"client_1": {"logo_uri": "https://rp1.example.com/logo", "tos_uri": "https://rp1.example.com/tos"}, "client_2": {"policy_uri": "https://rp2.example.com/policy"}}


class Pages(Scenario):
    def __init__(self, name, kind="oidc", methods=("user", "otp"), pages=2, users=("diana", "babs"), variants=("plain", "otp"), ticks=(), restart=False):
        self.name, self.kind, self.methods, self.pages, self.users, self.variants, self.ticks, self.restart = name, kind, methods, pages, users, variants, ticks, restart

    def provider(self):
        return OP(conf(self.methods, self.kind), {"client_1": client(1, **LINKS["client_1"]), "client_2": client(2, **LINKS["client_2"])}, kind=self.kind)

    def setup(self):
        self.op = self.provider()
        self.p = []   # dict(cid, variant, page, params, at, method)
        self.done = []  # [user, cid, acr, code, page]
        self.subs = {}

    def ops(self):
        o = []
        if len(self.p) < self.pages:
            o += [("open", c, v) for c in ("client_1", "client_2") for v in self.variants]
        for i in range(len(self.p)):
            o += [("login", i, u) for u in self.users]
            o += [("wrong", i, "diana")]
        if self.p:
            o += [("tick", t) for t in self.ticks]
        if self.restart and self.p:
            o.append(("restart",))
        return o

    def apply(self, o):
        op = self.op
        if o[0] == "tick":
            clock.advance(o[1])
        elif o[0] == "restart":
            dump = json.loads(json.dumps(op.ctx.dump()))
            new = self.provider()
            new.ctx.load(dump, init_args={"server_get": new.server.server_get, "handler": new.mngr.token_handler})
            self.op = new
        elif o[0] == "open":
            n = len(self.p)
            kw = {"plain": {}, "otp": {"acr_values": ACR2}, "form": {"response_mode": "form_post"}, "again": {"prompt": "login"}, "implicit": {"response_type": "id_token token"}}[o[2]]
            p = op.areq(o[1], scope=("openid", "email") if self.kind == "oidc" else ("alpha",), state=f"S{n}", nonce=f"N{n}")
            p.update(kw)
            before = everything(op)
            page = Page(op.authz(p))
            d = first_difference(before, everything(op))
            if d:
                raise Violation(f"showing a login page changed {d}", sig="page leaves traces")
            for i in ("logo", "tos", "policy"):
                if page.images[i] != LINKS[o[1]].get(i + "_uri", ""):
                    raise Violation(f"the page for {o[1]} shows {page.images[i]!r} as {i}", sig=f"page: {i}")
            m, _ = picked(op, page)
            if o[2] == "otp" and m != "otp":
                raise Violation(f"asked for otp, shown {m}", sig="another method")
            self.p.append({"cid": o[1], "variant": o[2], "page": page, "params": p, "at": clock.now(), "method": m})
        elif o[0] == "wrong":
            e = self.p[o[1]]
            db = PASSWORDS[METHODS[e["method"]][1]]
            before = everything(op)
            for user, pw in (("diana", db["babs"]), ("diana", ""), ("nobody", "x"), ("babs", db["diana"])):
                who, r = submit(op, e["page"].token, e["method"], user, pw)
                if who is not None:
                    raise Violation(f"{user} got in with {pw!r}", sig="wrong credentials accepted")
            d = first_difference(before, everything(op))
            if d:
                raise Violation(f"failing to log in changed {d}", sig="failed login leaves traces")
        elif o[0] == "login":
            self.login(o[1], o[2])

    def login(self, i, user):
        op, e = self.op, self.p[i]
        p = e["params"]
        who, r = submit(op, e["page"].token, e["method"], user, PASSWORDS[METHODS[e["method"]][1]][user])
        what = f"{user} logs in on page {i} of {e['cid']} ({e['variant']})"
        if who != user or not r.ok:
            raise Violation(f"{what}: {who} {r!r}", sig="login refused")
        rt = p["response_type"].split()
        target = r.target
        if target != p["redirect_uri"] or r.get("state") != p["state"] or (r.mode == "form_post") != (e["variant"] == "form") or (r.mode == "fragment") != (rt != ["code"]):
            raise Violation(f"{what}, but is sent to {r!r}", sig="other request completed")
        tok = r.get("code") or r.get("access_token")
        s = op.mngr.get_session_info_by_token(tok, grant=True)
        if (s["user_id"], s["client_id"]) != (user, e["cid"]):
            raise Violation(f"{what}: a session of {s['user_id']} at {s['client_id']}", sig="other session")
        g = s["grant"]
        if g.authorization_request.get("state") != p["state"] or g.authentication_event["authn_info"] != METHODS[e["method"]][0]:
            raise Violation(f"{what}: {g.authorization_request} {g.authentication_event}", sig="other session")
        if g.authentication_event["uid"] != user or g.authentication_event["authn_time"] not in (clock.now(), e["at"]):
            raise Violation(f"{what}: {g.authentication_event}", sig="authentication event")
        if self.kind == "oidc":
            t = op.token(op.treq(r["code"], e["cid"])) if "code" in r else r
            c = jwt_claims(t["id_token"])
            if c.get("nonce") != p["nonce"] or c.get("acr") != METHODS[e["method"]][0] or c["aud"] not in (e["cid"], [e["cid"]]) or c.get("auth_time", e["at"]) not in (clock.now(), e["at"]):
                raise Violation(f"{what}: {c}", sig="ID Token")
            ui = op.userinfo(t["access_token"])
            if not ui.ok or ui.get("email") != {"diana": "diana@example.org", "babs": "babs@example.com"}[user] or ui.get("sub") != c["sub"]:
                raise Violation(f"{what}: {ui!r}", sig="user info")
            for (u, cid), sub in self.subs.items():
                if (sub == c["sub"]) != (u == user):
                    raise Violation(f"{what}: sub {c['sub']}, {u} is {sub}", sig="sub")
            self.subs[(user, e["cid"])] = c["sub"]
        self.done.append((user, e["cid"], i))

    def key(self):
        names = {}
        return op_state(self.op, names, set()) + repr(([(e["cid"], e["variant"], clock.now() - e["at"]) for e in self.p], self.done))


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    yield Pages("two pages"), 5 + x
    yield Pages("response modes", variants=("plain", "form", "again", "implicit"), users=("diana",)), 5 + x
    yield Pages("one method", methods=("user",), variants=("plain", "again"), ticks=(100,)), 5 + x
    yield Pages("restarts", restart=True, variants=("plain",)), 6 + x
    yield Pages("oauth2", kind="oauth2", variants=("plain", "otp")), 5 + x


NAMES = sorted(set(PASSWORDS["main"])) + ["nobody", "DIANA", "diana ", " diana", "dian", "dianaa", "diana\0", "__class__", "None", "krall"]


def credential_cases(tier):
    return [[t, u, k] for t in ("user", "otp") for u in NAMES for k in ("table", "json")]


def basic_cases(tier):
    pws = sorted(set(PASSWORDS["main"].values())) + ["x", "lösen", "krall:", ":krall"]
    return [[u, p, f] for u in NAMES for p in pws for f in ("plain", "scheme", "no colon", "not base64", "empty", "bearer")]


def forged_cases(tier):
    return [[k, f] for k in ("oidc", "oauth2") for f in FORGERIES]


def carried_cases(tier):
    return [[w, v] for w in WHERE for v in HOSTILE]


def main(tier):
    c = Check("C26", tier)
    c.sweep("credentials", credential_cases(tier), credentials)
    c.sweep("basic", basic_cases(tier), basic_case)
    c.sweep("forged tokens", forged_cases(tier), forged_case)
    c.sweep("what a page carries", carried_cases(tier), carried_case)
    c.sweep("which method", acr_cases(tier), acr_case)
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
