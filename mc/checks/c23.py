"""C23: what the provider advertises is what it does.

For a lattice of provider configurations (one setting each; thorough: all pairs of settings), the discovery document is fetched and every value of a universe of values,
advertised or not, is tried out against the provider: advertised ones have to work (and do what they say), others have to be refused.  Over histories the document stays what it was.
"""
import copy
import itertools
import json
import os
import re

from cryptojwt.jwe.jwe import factory as jwe_factory
from cryptojwt.jws.jws import factory as jws_factory
from cryptojwt.key_bundle import KeyBundle
from cryptojwt.key_jar import KeyJar

from mc import clock
from mc.checks.c09 import claims
from mc.checks.c09 import key
from mc.checks.c09 import sign
from mc.checks.c09 import sym
from mc.explore import C_PROBE
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.checks.c21 import proof
from mc.op import ACR
from mc.op import ACR2
from mc.op import ALL_RT
from mc.op import ISSUER
from mc.op import KEYS
from mc.op import OP
from mc.op import base_conf
from mc.op import basic
from mc.op import client
from mc.op import jwt_claims
from mc.op import jwt_header
from mc.op import jwt_tokens
from mc.op import logout_conf
from mc.op import public_jwks
from mc.report import Check

CB = "https://rp1.example.com/cb"
REF = "https://rp1.example.com/requests/1"
SIGN = ["RS256", "RS384", "PS256", "ES256", "HS256", "HS512"]       # those the provider has keys for
ENC_ALG = ["RSA-OAEP", "RSA-OAEP-256", "ECDH-ES"]
ENC_ENC = ["A128GCM", "A256GCM", "A128CBC-HS256"]
METHODS = ["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"]


class Web:
    def __init__(self):
        self.pages, self.log = {}, []

    def get(self, url, **kw):
        self.log.append(url)
        r = type("Response", (), {})()
        r.status_code, r.text = self.pages.get(url, (404, ""))
        r.headers, r.reason = {}, ""
        return r

    def __call__(self, method, url, **kw):
        return self.get(url)

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------- configurations
def ep(name, **kw):
    def f(c):
        c["endpoint"][name]["kwargs"].update(kw)
    return f


def cap(**kw):
    def f(c):
        c["capabilities"].update(kw)
    return f


def top(**kw):
    def f(c):
        c.update(kw)
    return f


def without(name):
    def f(c):
        del c["endpoint"][name]
    return f


def paths(c):
    for i, (name, e) in enumerate(sorted(c["endpoint"].items())):
        if name != "provider_config":
            e["path"] = f"at/{i}/{e['path']}"


def idt(**kw):
    def f(c):
        c["token_handler_args"]["id_token"]["kwargs"].update(kw)
    return f


def ui_scopes(c):
    c["scopes_to_claims"] = {"openid": ["sub"], "profile": ["name", "nickname"], "staff": ["email"], "offline_access": []}


SETTINGS = {
    "default": lambda c: None,
    "paths": paths,
    "no introspection": without("introspection"),
    "no session": without("session"),
    "no registration_read": without("registration_read"),
    "no pushed": without("pushed_authorization"),
    "issuer path": lambda c: c.update(issuer=ISSUER + "/tenant"),
    "issuer slash": lambda c: c.update(issuer=ISSUER + "/"),
    "rt code": ep("authorization", response_types_supported=["code"]),
    "rt code, code id_token": ep("authorization", response_types_supported=["code", "code id_token"]),
    "rt id_token code": ep("authorization", response_types_supported=["id_token code", "token id_token"]),
    "rt implicit": ep("authorization", response_types_supported=["id_token", "id_token token"]),
    "rt in capabilities": cap(response_types_supported=["code", "id_token"]),
    "modes query": ep("authorization", response_modes_supported=["query"]),
    "modes query fragment": ep("authorization", response_modes_supported=["query", "fragment"]),
    "modes form_post": ep("authorization", response_modes_supported=["form_post"]),
    "modes in capabilities": cap(response_modes_supported=["query", "form_post"]),
    "grants code": cap(grant_types_supported=["authorization_code"]),
    "grants code implicit": cap(grant_types_supported=["authorization_code", "implicit"]),
    "grants code refresh": cap(grant_types_supported=["authorization_code", "refresh_token"]),
    "auth basic": ep("token", client_authn_method=["client_secret_basic"]),
    "auth post": ep("token", client_authn_method=["client_secret_post"]),
    "auth jwt": ep("token", client_authn_method=["client_secret_jwt"]),
    "auth pk": ep("token", client_authn_method=["private_key_jwt"]),
    "auth pk post": ep("token", client_authn_method=["private_key_jwt", "client_secret_post"]),
    "auth alg ES256": ep("token", token_endpoint_auth_signing_alg_values_supported=["ES256"]),
    "auth alg RS256 HS256": ep("token", token_endpoint_auth_signing_alg_values_supported=["RS256", "HS256"]),
    "auth alg in capabilities": cap(token_endpoint_auth_signing_alg_values_supported=["HS256"]),
    "scopes": top(allowed_scopes=["openid", "profile", "offline_access"]),
    "scopes openid": top(allowed_scopes=["openid"]),
    "scope map": ui_scopes,
    "claims": cap(claims_supported=["sub", "name", "email"]),
    "claims less": cap(claims_supported=["sub", "nickname"]),
    "no claims parameter": ep("authorization", claims_parameter_supported=False),
    "no claims parameter in capabilities": cap(claims_parameter_supported=False),
    "no request": ep("authorization", request_parameter_supported=False),
    "no request_uri": ep("authorization", request_uri_parameter_supported=False),
    "no request in capabilities": cap(request_parameter_supported=False, request_uri_parameter_supported=False),
    "registered request_uri": cap(require_request_uri_registration=True),
    "unregistered request_uri": cap(require_request_uri_registration=False),
    "object ES256": ep("authorization", request_object_signing_alg_values_supported=["ES256"]),
    "object HS256 in capabilities": cap(request_object_signing_alg_values_supported=["HS256"]),
    "id_token ES256": idt(id_token_signing_alg_values_supported=["ES256"]),
    "id_token PS256 RS256": idt(id_token_signing_alg_values_supported=["PS256", "RS256"]),
    "id_token HS256": idt(id_token_signing_alg_values_supported=["HS256"]),
    "id_token enc": idt(id_token_encryption_alg_values_supported=["RSA-OAEP"], id_token_encryption_enc_values_supported=["A256GCM"]),
    "id_token in capabilities": cap(id_token_signing_alg_values_supported=["ES256", "RS256"]),
    "userinfo ES256": ep("userinfo", userinfo_signing_alg_values_supported=["ES256"]),
    "userinfo RS": ep("userinfo", userinfo_signing_alg_values_supported=["RS256", "RS384"]),
    "userinfo enc": ep("userinfo", userinfo_encryption_alg_values_supported=["RSA-OAEP"], userinfo_encryption_enc_values_supported=["A256GCM"]),
    "userinfo in capabilities": cap(userinfo_signing_alg_values_supported=["ES256"]),
    "subject public": cap(subject_types_supported=["public"]),
    "subject pairwise": cap(subject_types_supported=["pairwise"]),
    "no back": ep("session", backchannel_logout_supported=False),
    "no front": ep("session", frontchannel_logout_supported=False),
    "no back session": ep("session", backchannel_logout_session_supported=False),
    "no front session": ep("session", frontchannel_logout_session_supported=False),
}


def addon(name, function, **kw):
    def f(c):
        c.setdefault("add_on", {})[name] = {"function": function, "kwargs": kw}
    return f


def two_acrs(c):
    c["authentication"]["second"] = dict(c["authentication"]["user"], acr=ACR2)


DPOP = "oidcop.oauth2.add_on.dpop.add_support"
SETTINGS.update({
    "dpop": addon("dpop", DPOP),
    "dpop ES256": addon("dpop", DPOP, dpop_signing_alg_values_supported=["ES256"]),
    "dpop RS PS": addon("dpop", DPOP, dpop_signing_alg_values_supported=["RS256", "PS256"]),
    "custom scopes": addon("custom_scopes", "oidcop.oidc.add_on.custom_scopes.add_custom_scopes", staff=["email"]),
    "pkce": addon("pkce", "oidcop.oidc.add_on.pkce.add_pkce_support", essential=False, code_challenge_method="S256"),
    "acr two": two_acrs,
    "webfinger": lambda c: c["endpoint"].update(webfinger={"path": ".well-known/webfinger", "class": "oidcop.oidc.discovery.Discovery", "kwargs": {"client_authn_method": None}}),
    "deny unknown scopes": cap(deny_unknown_scopes=True),
})


def config(names):
    c = logout_conf(base_conf("oidc"))
    c["capabilities"]["grant_types_supported"] = ["authorization_code", "implicit", "refresh_token"]
    c["capabilities"]["subject_types_supported"] = ["public", "pairwise"]
    c["endpoint"]["registration"] = {"path": "registration", "class": "oidcop.oidc.registration.Registration", "kwargs": {"client_authn_method": None}}
    c["endpoint"]["registration_read"] = {"path": "registration_read", "class": "oidcop.oidc.read_registration.RegistrationRead", "kwargs": {"client_authn_method": ["bearer_header"]}}
    c["endpoint"]["pushed_authorization"] = {"path": "pushed", "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization", "kwargs": {"client_authn_method": ["client_secret_post"]}}
    for n in names:
        SETTINGS[n](c)
    return c


def enc_keys(use="enc"):
    ks = []
    for k in copy.deepcopy(KEYS["foreign"])["keys"]:
        ks.append(dict(k, use=use, kid=f"enc-{k['kty']}"))
    return ks


def public_enc():
    return [{m: v for m, v in k.items() if m not in ("d", "p", "q", "dp", "dq", "qi")} for k in enc_keys()]


def provider(names):
    op = OP(config(names), {}, kind="oidc", httpc=Web())
    op.web = op.ctx.httpc
    op.ctx.keyjar.httpc = op.web
    op.ctx.keyjar.add_kb("", KeyBundle([dict(k, kid="op-" + k["kid"]) for k in enc_keys()]))
    return op


def document(op):
    r = op.call("provider_config", {}, method="GET")
    if r.kind != "ok":
        raise Violation(f"no discovery document: {r!r}", sig="document")
    return r.params


def register(op, **kw):
    """The client's secret and name, or None if it was refused."""
    meta = {"redirect_uris": [CB], "response_types": [first_rt(op.doc)], "jwks": {"keys": public_jwks("client_1")["keys"] + public_enc()}, "request_uris": [REF]}
    meta.update(kw)
    meta = {k: v for k, v in meta.items() if v is not None}
    r = op.call("registration", meta)
    if r.kind != "ok":
        return None
    op.reg = r
    return r["client_id"]


def secret(op, cid):
    return op.ctx.cdb[cid].get("client_secret")


def first_rt(doc):
    """A response type to work with, preferably with a code."""
    rts = [" ".join(sorted(x.split())) for x in doc["response_types_supported"]]
    for x in rts:
        if x == "code":
            return x
    for x in rts:
        if "code" in x:
            return x
    return rts[0]


def areq(cid, doc, **kw):
    d = {"client_id": cid, "scope": "openid", "state": "s", "nonce": "n", "response_type": first_rt(doc), "redirect_uri": CB}
    d.update(kw)
    return {k: v for k, v in d.items() if v is not None}


# how a client proves itself
def token_auth(op, cid, method, alg=None):
    """(more parameters, authorization header)"""
    if method == "client_secret_post":
        return {"client_secret": secret(op, cid)}, None
    if method == "client_secret_basic":
        return {}, basic(cid, secret(op, cid))
    alg = alg or ("HS256" if method == "client_secret_jwt" else "ES256")
    body = {"iss": cid, "sub": cid, "aud": [op.ep("token").full_path], "jti": f"j{clock.now()}{method}{alg}", "exp": clock.now() + 600, "iat": clock.now()}
    keys = sym(secret(op, cid)) if method == "client_secret_jwt" else key("client_1", alg)
    return {"client_assertion": sign(body, alg, keys), "client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}, None


def usable(doc):
    """A way for a client to prove itself, as the document says."""
    m = doc["token_endpoint_auth_methods_supported"][0]
    algs = doc.get("token_endpoint_auth_signing_alg_values_supported") or SIGN
    fam = {"client_secret_jwt": ("HS",), "private_key_jwt": ("RS", "ES", "PS")}.get(m)
    a = [x for x in algs if fam and x[:2] in fam and x in SIGN]
    return m, a[0] if a else None


def redeem(op, doc, cid, code, method=None, alg=None, **kw):
    m, a = usable(doc) if method is None else (method, alg)
    more, auth = token_auth(op, cid, m, a)
    return op.token(dict({"grant_type": "authorization_code", "code": code, "redirect_uri": CB, "client_id": cid}, **dict(more, **kw)), auth=auth)


def published(op):
    """What jwks_uri serves."""
    return op.ctx.keyjar.export_jwks()


def verify(op, token, alg, cid, what):
    """By the published keys alone, or the client's secret."""
    h = jwt_header(token)
    if h["alg"] != alg:
        raise Violation(f"{what} is signed with {h['alg']}, not {alg}", sig=f"signed with another: {what}")
    kj = KeyJar()
    if alg.startswith("HS"):
        kj.add_symmetric("", secret(op, cid))
    else:
        kj.import_jwks(published(op), "")
    ks = kj.get_signing_key({"R": "RSA", "P": "RSA", "E": "EC", "H": "oct"}[alg[0]], "")
    ks = [k for k in kj.get_issuer_keys("") if k.use in (None, "", "sig")] if not ks else ks
    try:
        jws_factory(token).verify_compact(token, ks)
    except Exception as e:
        raise Violation(f"{what} does not verify with the published keys: {e!r}", sig=f"unverifiable: {what}")
    return jwt_claims(token)


def decrypt(token, alg, enc, what):
    h = jwt_header(token)
    if (h.get("alg"), h.get("enc")) != (alg, enc):
        raise Violation(f"{what} is encrypted with {h.get('alg')} {h.get('enc')}, not {alg} {enc}", sig=f"encrypted with another: {what}")
    kb = KeyBundle(enc_keys())
    d = jwe_factory(token, alg=alg, enc=enc)
    try:
        res = d.decrypt(token, kb.keys())
    except Exception as e:
        raise Violation(f"{what} does not decrypt with the client's keys: {e!r}", sig=f"undecryptable: {what}")
    return res.decode() if isinstance(res, bytes) else res


def expect(said, want, got, r=None):
    if want is not None and bool(got) != bool(want):
        raise Violation(f"{said}: advertised {bool(want)}, done {bool(got)}: {r!r}"[:900], sig=f"{'not honoured' if want else 'not refused'}: {said}")


# ---------------------------------------------------------------- probes: each takes (op, doc, value)
def p_endpoints(op, doc, _):
    conf = op.conf_dict
    base = conf["issuer"].rstrip("/")
    names = {"authorization": "authorization_endpoint", "token": "token_endpoint", "userinfo": "userinfo_endpoint", "registration": "registration_endpoint", "session": "end_session_endpoint",
             "introspection": "introspection_endpoint", "pushed_authorization": "pushed_authorization_request_endpoint"}
    for n, attr in names.items():
        want = base + "/" + conf["endpoint"][n]["path"] if n in conf["endpoint"] else None
        if doc.get(attr) != want:
            raise Violation(f"{attr} is {doc.get(attr)}, not {want}", sig=f"endpoint {attr}")
        if want and op.ep(n).full_path != want:
            raise Violation(f"{attr} is at {op.ep(n).full_path}", sig=f"endpoint path {attr}")
    for attr in doc:
        if attr.endswith("_endpoint") and attr not in names.values():
            raise Violation(f"{attr} is advertised", sig=f"endpoint {attr}")
    if doc["issuer"] != conf["issuer"]:
        raise Violation(f"the issuer is {doc['issuer']}", sig="issuer")
    if doc.get("jwks_uri") != base + "/" + conf["keys"]["uri_path"]:
        raise Violation(f"the keys are at {doc.get('jwks_uri')}", sig="jwks_uri")
    for k in published(op)["keys"]:
        if k["kty"] == "oct" or set(k) & {"d", "p", "q", "dp", "dq", "qi", "k"}:
            raise Violation(f"published: {sorted(k)}", sig="private keys")
    return "same"


def p_response_type(op, doc, rt):
    want = set(rt.split()) in [set(x.split()) for x in doc["response_types_supported"]]
    cid = register(op, response_types=[rt])
    expect(f"registering the response type {rt}", want, cid, None)
    if not want:
        cid = register(op, response_types=[first_rt(doc)])
    r = op.authz_as("diana", areq(cid, doc, response_type=rt))
    expect(f"response type {rt}", want, r.kind == "ok", r)
    if r.kind == "ok":
        got = {x for x, p in (("code", "code"), ("token", "access_token"), ("id_token", "id_token")) if p in r.params}
        if got != set(rt.split()):
            raise Violation(f"response type {rt}: {sorted(r.params)}", sig=f"response type {rt}")
    return r.kind


def p_mode(op, doc, arg):
    mode, rt = arg
    if set(rt.split()) not in [set(x.split()) for x in doc["response_types_supported"]]:
        return "-"
    cid = register(op, response_types=[rt])
    r = op.authz_as("diana", areq(cid, doc, response_type=rt, response_mode=mode))
    want = mode in doc["response_modes_supported"]
    if want and (mode == "query") != (rt == "code") and mode != "form_post":
        want = None
    expect(f"response mode {mode}", want, r.kind == "ok", r)
    if r.kind == "ok" and r.mode != mode:
        raise Violation(f"response mode {mode}: {r.mode}", sig=f"mode {mode}")
    return r.kind


def p_grant(op, doc, g):
    want = g in doc["grant_types_supported"]
    cid = register(op, grant_types=[g])
    expect(f"registering the grant type {g}", want, cid)
    cid = register(op)
    if g == "implicit":
        return "registered"
    if "code" not in first_rt(doc):
        return "-"
    r = op.authz_as("diana", areq(cid, doc, scope="openid offline_access", prompt="consent"))
    if r.kind != "ok":
        raise Violation(f"authorization: {r!r}", sig="grant type: authorization")
    offline = "offline_access" in doc["scopes_supported"]
    more, auth = token_auth(op, cid, *usable(doc))
    if g == "authorization_code":
        t = redeem(op, doc, cid, r["code"])
        expect(f"grant type {g}", want, t.kind == "ok", t)
    elif g == "refresh_token":
        t = redeem(op, doc, cid, r["code"])
        clock.advance(1)
        if "refresh_token" in t.params:
            more, auth = token_auth(op, cid, *usable(doc))
            t2 = op.token(dict(more, grant_type=g, refresh_token=t["refresh_token"], client_id=cid), auth=auth)
            expect(f"grant type {g}", want and offline, t2.kind == "ok", t2)
        else:
            expect(f"a refresh token for the grant type {g}", want and offline, False, t)
    else:
        t = op.token(dict(more, grant_type=g, client_id=cid, code=r["code"], assertion="x", username="diana", password="x", scope="openid", redirect_uri=CB), auth=auth)
        expect(f"grant type {g}", False, t.kind == "ok", t)
        if "access_token" in t.params:
            raise Violation(f"grant type {g}: {t!r}", sig=f"grant type {g}")
    return "done"


def p_auth(op, doc, m):
    want = m in doc["token_endpoint_auth_methods_supported"]
    alg = None
    if m.endswith("_jwt"):
        algs = [a for a in doc.get("token_endpoint_auth_signing_alg_values_supported", SIGN) if a in SIGN and a.startswith("HS") == (m == "client_secret_jwt")]
        if not algs and want:
            return "-"
        alg = (algs or ["HS256" if m == "client_secret_jwt" else "RS256"])[0]
    cid = register(op, token_endpoint_auth_method=m)
    expect(f"registering the method {m}", want, cid)
    cid = register(op, token_endpoint_auth_method=None)
    if "code" not in first_rt(doc):
        return "-"
    r = op.authz_as("diana", areq(cid, doc))
    t = redeem(op, doc, cid, r["code"], m, alg)
    expect(f"client authentication {m}", want, t.kind == "ok", t)
    return t.kind


def p_auth_alg(op, doc, alg):
    m = "client_secret_jwt" if alg.startswith("HS") else "private_key_jwt"
    want = alg in doc["token_endpoint_auth_signing_alg_values_supported"]
    cid = register(op, token_endpoint_auth_signing_alg=alg)
    expect(f"registering the assertion algorithm {alg}", want, cid)
    cid = register(op)
    if "code" not in first_rt(doc):
        return "-"
    r = op.authz_as("diana", areq(cid, doc))
    t = redeem(op, doc, cid, r["code"], m, alg)
    expect(f"assertion algorithm {alg}", want and m in doc["token_endpoint_auth_methods_supported"], t.kind == "ok", t)
    return t.kind


def p_scope(op, doc, s):
    want = s in doc["scopes_supported"]
    cid = register(op)
    r = op.authz_as("diana", areq(cid, doc, scope="openid " + s, prompt="consent"))
    if r.kind != "ok":
        expect(f"scope {s}", want, False, r)
        return r.kind
    if "code" in r.params:
        r = redeem(op, doc, cid, r["code"])
    if "access_token" not in r.params:
        return "-"
    got = s in (r.get("scope") or "").split()
    expect(f"scope {s}", want, got, r)
    u = op.userinfo(r["access_token"])
    names = {"profile": {"name", "nickname"}, "email": {"email"}, "staff": {"email"}, "phone": {"phone_number"}}.get(s)
    if names:
        available = names & set(doc["claims_supported"])
        if "scope map" in op.names and s == "email":
            available = set()
        have = names & set(u.params)
        if want and not have >= available & set(USER):
            raise Violation(f"scope {s}: {sorted(u.params)}, claims supported: {doc['claims_supported']}", sig=f"claims of scope {s}")
        if not want and have:
            raise Violation(f"scope {s} is not supported, yet: {sorted(u.params)}", sig=f"claims of scope {s}")
    return "got" if got else "not"


from mc.op import USERS  # noqa: E402

USER = USERS["diana"]


def p_claim(op, doc, c):
    if c in doc["claims_supported"]:
        want = c in USER
    else:
        want = None if c in USER else False  # not necessarily an exhaustive list
    cid = register(op)
    r = op.authz_as("diana", areq(cid, doc, claims=json.dumps({"userinfo": {c: None}, "id_token": {c: {"essential": True}}})))
    if r.kind != "ok":
        raise Violation(f"claim {c}: {r!r}", sig="claims refused")
    t = redeem(op, doc, cid, r["code"]) if "code" in r.params else r
    if not doc.get("claims_parameter_supported"):
        want = False
    for where, have in (("ID Token", jwt_claims(t["id_token"]) if "id_token" in t.params and t["id_token"].count(".") == 2 else None), ("userinfo", op.userinfo(t["access_token"]).params if "access_token" in t.params else None)):
        if have is not None:
            expect(f"claim {c} in the {where}", want, c in have, have)
    return "got" if want else "not"


def request_object(op, cid, alg, **kw):
    p = dict(iss=cid, aud=ISSUER, **kw)
    return sign(p, alg, sym(secret(op, cid)) if alg.startswith("HS") else key("client_1", alg))


def object_alg(doc):
    return [a for a in doc["request_object_signing_alg_values_supported"] if a in SIGN][0]


def p_request(op, doc, how):
    cid = register(op, request_uris=None if how == "unregistered" else [REF])
    obj = request_object(op, cid, object_alg(doc), **areq(cid, doc, state="inner"))
    if how == "value":
        want = doc.get("request_parameter_supported", False)
        r = op.authz_as("diana", areq(cid, doc, state="outer", request=obj))
    else:
        want = doc.get("request_uri_parameter_supported", True)
        if how == "unregistered" and doc.get("require_request_uri_registration", False):
            want = False
        op.web.pages[REF] = (200, obj)
        r = op.authz_as("diana", areq(cid, doc, state="outer", request_uri=REF))
    done = r.kind == "ok" and r.get("state") == "inner"
    expect(f"request object ({how})", want, done, r)
    return r.kind


def p_object_alg(op, doc, alg):
    want = alg in doc["request_object_signing_alg_values_supported"]
    cid = register(op, request_object_signing_alg=alg)
    expect(f"registering the object algorithm {alg}", want, cid)
    cid = register(op)
    if not doc.get("request_parameter_supported"):
        return "-"
    r = op.authz_as("diana", areq(cid, doc, state="outer", request=request_object(op, cid, alg, **areq(cid, doc, state="inner"))))
    expect(f"request object with {alg}", want, r.kind == "ok", r)
    return r.kind


def get_idt(op, doc, cid):
    r = op.authz_as("diana", areq(cid, doc))
    t = redeem(op, doc, cid, r["code"]) if "code" in r.params else r
    return t


def default_alg(algs):
    return "RS256" if "RS256" in algs else algs[0]


def p_idt_alg(op, doc, alg):
    sup = doc["id_token_signing_alg_values_supported"]
    want = alg in sup
    if alg is not None:
        cid = register(op, id_token_signed_response_alg=alg)
        expect(f"registering the ID Token algorithm {alg}", want, cid)
        if not want:
            return "refused"
    else:
        cid = register(op)
    t = get_idt(op, doc, cid)
    if "id_token" not in t.params:
        expect(f"ID Token with {alg}", True, False, t)
    used = jwt_header(t["id_token"])["alg"]
    if alg is None and used not in sup:
        raise Violation(f"an ID Token is signed with {used}, supported are {sup}", sig="default ID Token algorithm")
    verify(op, t["id_token"], alg or used, cid, f"ID Token with {alg}")
    return used


def p_idt_enc(op, doc, arg):
    alg, enc = arg
    want = alg in doc["id_token_encryption_alg_values_supported"] and (enc or "A128CBC-HS256") in doc["id_token_encryption_enc_values_supported"]
    cid = register(op, id_token_encrypted_response_alg=alg, id_token_encrypted_response_enc=enc)
    expect(f"registering ID Token encryption {arg}", want, cid)
    if not want:
        return "refused"
    t = get_idt(op, doc, cid)
    if "id_token" not in t.params:
        expect(f"ID Token encrypted with {arg}", True, False, t)
    inner = decrypt(t["id_token"], alg, enc or "A128CBC-HS256", "ID Token")
    verify(op, inner, jwt_header(inner)["alg"], cid, "encrypted ID Token")
    return "encrypted"


def get_ui(op, doc, cid):
    t = get_idt(op, doc, cid)
    if "access_token" not in t.params:
        return None
    return op.userinfo(t["access_token"])


def p_ui_alg(op, doc, alg):
    want = alg in doc["userinfo_signing_alg_values_supported"]
    cid = register(op, userinfo_signed_response_alg=alg)
    expect(f"registering the userinfo algorithm {alg}", want, cid)
    if not want:
        return "refused"
    u = get_ui(op, doc, cid)
    if u is None:
        return "-"
    if "__raw__" not in u.params:
        raise Violation(f"userinfo with {alg} is not signed: {u!r}", sig=f"userinfo {alg}")
    c = verify(op, u["__raw__"], alg, cid, f"userinfo with {alg}")
    if "sub" not in c:
        raise Violation(f"userinfo: {c}", sig="signed userinfo")
    return "signed"


def p_ui_enc(op, doc, arg):
    alg, enc = arg
    want = alg in doc["userinfo_encryption_alg_values_supported"] and (enc or "A128CBC-HS256") in doc["userinfo_encryption_enc_values_supported"]
    cid = register(op, userinfo_encrypted_response_alg=alg, userinfo_encrypted_response_enc=enc)
    expect(f"registering userinfo encryption {arg}", want, cid)
    if not want:
        return "refused"
    u = get_ui(op, doc, cid)
    if u is None:
        return "-"
    if "__raw__" not in u.params:
        raise Violation(f"userinfo with {arg} is not encrypted: {u!r}", sig="userinfo encryption")
    inner = decrypt(u["__raw__"], alg, enc or "A128CBC-HS256", "userinfo")
    if "sub" not in inner and inner.count(".") != 2:
        raise Violation(f"userinfo: {inner}", sig="encrypted userinfo")
    return "encrypted"


def p_subject(op, doc, st):
    want = st in doc["subject_types_supported"]
    cid = register(op, subject_type=st)
    expect(f"registering the subject type {st}", want, cid)
    if not want:
        return "refused"
    other = register(op, subject_type=st, redirect_uris=["https://rp2.example.com/cb"])
    subs = []
    for c, cb in ((cid, CB), (other, "https://rp2.example.com/cb")):
        r = op.authz_as("diana", areq(c, doc, redirect_uri=cb, response_type=first_rt(doc)))
        if "id_token" in r.params:
            subs.append(jwt_claims(r["id_token"])["sub"])
        else:
            m, a = usable(doc)
            more, auth = token_auth(op, c, m, a)
            t = op.token(dict(more, grant_type="authorization_code", code=r["code"], redirect_uri=cb, client_id=c), auth=auth)
            subs.append(jwt_claims(t["id_token"])["sub"])
    if (subs[0] == subs[1]) != (st == "public"):
        raise Violation(f"subject type {st}: {subs}", sig=f"subject type {st}")
    return "same" if subs[0] == subs[1] else "different"


def p_acr(op, doc, acr):
    want = acr in doc["acr_values_supported"]
    cid = register(op)
    r = op.authz(areq(cid, doc, claims=json.dumps({"id_token": {"acr": {"essential": True, "value": acr}}}) if doc.get("claims_parameter_supported") else None, acr_values=None if doc.get("claims_parameter_supported") else acr))
    if want:
        if r.kind != "login" or r.raw["authn_class_ref"] != acr:
            raise Violation(f"authentication class {acr}: {r!r}", sig="acr not honoured")
    elif r.kind == "login" and r.raw["authn_class_ref"] == acr:
        raise Violation(f"authentication class {acr}: {r!r}", sig="acr not refused")
    return r.kind


def p_dpop(op, doc, alg):
    """Under a provider with DPoP, proofs with an advertised algorithm bind."""
    sup = doc.get("dpop_signing_alg_values_supported")
    on = any(n.startswith("dpop") for n in op.names)
    if on != bool(sup):
        raise Violation(f"DPoP is {on}, advertised is {sup}", sig="dpop")
    if "code" not in first_rt(doc) or not on:
        return "-"
    cid = register(op)
    r = op.authz_as("diana", areq(cid, doc))
    m, a = usable(doc)
    more, auth = token_auth(op, cid, m, a)
    pr = proof(op, "ec" if alg.startswith("ES") else "rsa", alg)
    t = op.token(dict(more, grant_type="authorization_code", code=r["code"], redirect_uri=CB, client_id=cid), auth=auth, headers={"dpop": pr})
    expect(f"DPoP with {alg}", alg in sup, t.kind == "ok", t)
    if t.kind == "ok" and t["token_type"] != "DPoP":
        raise Violation(f"DPoP with {alg}: {t!r}", sig="dpop type")
    return t.kind


PROBES = {
    "authentication classes": (p_acr, [ACR, ACR2, "urn:x"]),
    "DPoP algorithms": (p_dpop, ["ES256", "RS256", "PS256", "RS512"]),
    "endpoints": (p_endpoints, [None]),
    "response types": (p_response_type, ALL_RT + ["none"] if "none" not in ALL_RT else ALL_RT),
    "response modes": (p_mode, [(m, rt) for m in ("query", "fragment", "form_post", "web_message") for rt in ("code", "code id_token", "id_token token", "id_token")]),
    "grant types": (p_grant, ["authorization_code", "refresh_token", "implicit", "client_credentials", "password", "urn:ietf:params:oauth:grant-type:jwt-bearer", "urn:ietf:params:oauth:grant-type:token-exchange"]),
    "client authentication": (p_auth, METHODS),
    "assertion algorithms": (p_auth_alg, SIGN),
    "scopes": (p_scope, ["profile", "email", "phone", "offline_access", "staff", "unknown"]),
    "claims": (p_claim, ["name", "nickname", "email", "phone_number", "eduperson_scoped_affiliation", "unknown"]),
    "request objects": (p_request, ["value", "reference", "unregistered"]),
    "object algorithms": (p_object_alg, SIGN),
    "ID Token algorithms": (p_idt_alg, SIGN + [None]),
    "ID Token encryption": (p_idt_enc, [(a, e) for a in ENC_ALG for e in ENC_ENC + [None]]),
    "userinfo algorithms": (p_ui_alg, SIGN),
    "userinfo encryption": (p_ui_enc, [(a, e) for a in ENC_ALG for e in ENC_ENC + [None]]),
    "subject types": (p_subject, ["public", "pairwise", "ephemeral", "x"]),
}


def one(case):
    names, probe = case
    op = provider(names)
    op.names = names
    doc = op.doc = document(op)
    before = json.dumps(doc, sort_keys=True)
    f, values = PROBES[probe]
    outs = set()
    for v in values:
        count(C_PROBE)
        try:
            outs.add(f(op, doc, v))
        except Violation as e:
            e.msg = f"[{', '.join(names)}] {e.msg}"
            raise
        if json.dumps(document(op), sort_keys=True) != before:
            raise Violation(f"[{', '.join(names)}] the document changed by {probe} {v}", sig="document changed")
    return f"{probe}:{'/'.join(sorted(map(str, outs)))}"


class Histories(Scenario):
    """The document stays what it was, whatever is done; also in a restarted provider."""

    OPS = ("register", "register bad", "register other", "login", "login bad", "redeem", "refresh", "userinfo", "object", "logout", "restart", "push")

    def __init__(self, names):
        self.names = names
        self.name = "document stays: " + ", ".join(names)

    def setup(self):
        self.op = provider(self.names)
        self.op.doc = self.doc = document(self.op)
        self.before = json.dumps(self.doc, sort_keys=True)
        self.keys = json.dumps(published(self.op), sort_keys=True)
        self.cid, self.code, self.rt, self.at, self.idt = register(self.op), None, None, None, None
        self.secret = secret(self.op, self.cid)
        self.n = 0

    def ops(self):
        need = {"redeem": self.code, "refresh": self.rt, "userinfo": self.at, "logout": self.idt}
        return [(o,) for o in self.OPS if need.get(o, True)]

    def apply(self, o):
        op, doc, cid = self.op, self.doc, self.cid
        o = o[0]
        self.n += 1
        clock.advance(1)
        if o.startswith("register"):
            kw = {"register": {}, "register bad": {"subject_type": "x", "id_token_signed_response_alg": "none", "response_types": ["what"]},
                  "register other": {"subject_type": doc["subject_types_supported"][-1], "response_types": doc["response_types_supported"][-1:], "scope": "openid whatever", "default_max_age": 5,
                                     "id_token_signed_response_alg": doc["id_token_signing_alg_values_supported"][-1], "grant_types": ["implicit"], "userinfo_signed_response_alg": "ES256"}}[o]
            register(op, **kw)
        elif o == "login":
            r = op.authz_as("diana", areq(cid, doc, scope="openid profile offline_access", prompt="consent", claims=json.dumps({"userinfo": {"nickname": None}, "id_token": {"acr": {"value": ACR}}})))
            self.code = r.get("code")
        elif o == "login bad":
            op.authz_as("diana", areq(cid, doc, scope="openid x", response_type="x", response_mode="x"))
            op.authz_as("diana", areq(cid, doc, redirect_uri="https://evil.example.com"))
        elif o == "redeem":
            t = redeem(op, doc, cid, self.code)
            self.at, self.rt, self.idt = t.get("access_token"), t.get("refresh_token"), t.get("id_token")
            self.code = None
        elif o == "refresh":
            more, auth = token_auth(op, cid, *usable(doc))
            t = op.token(dict(more, grant_type="refresh_token", refresh_token=self.rt, client_id=cid), auth=auth)
            self.rt = t.get("refresh_token")
        elif o == "userinfo":
            op.userinfo(self.at)
            op.userinfo("x")
        elif o == "object":
            alg = object_alg(doc)
            op.authz_as("diana", areq(cid, doc, request=request_object(op, cid, alg, **areq(cid, doc, state="inner"))))
        elif o == "push":
            op.call("pushed_authorization", dict(areq(cid, doc), client_secret=secret(op, cid)))
        elif o == "logout":
            if "session" in op.conf_dict["endpoint"]:
                op.end_session({"id_token_hint": self.idt}, None)
            self.idt = None
        elif o == "restart":
            web = op.web
            new = provider(self.names)
            new.ctx.load(json.loads(json.dumps(op.ctx.dump())), init_args={"server_get": new.server.server_get, "handler": new.mngr.token_handler})
            new.web = new.ctx.httpc = web
            new.doc = doc
            self.op = new

    def invariant(self):
        op = self.op
        now = json.dumps(document(op), sort_keys=True)
        if now != self.before:
            a, b = json.loads(self.before), json.loads(now)
            raise Violation(f"the document changed: { {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)} }", sig="document changed")
        if json.dumps(published(op), sort_keys=True) != self.keys:
            raise Violation("the published keys changed", sig="keys changed")


# Pairs of settings of the same thing contradict each other
GROUP = lambda n: re.split(r"[ ,]", n)[0] if not n.startswith("no ") else n.split()[1]  # noqa: E731


def cases(tier):
    combos = [(n,) for n in SETTINGS]
    if tier == "thorough":
        combos += [p for p in itertools.combinations([n for n in SETTINGS if n != "default"], 2) if GROUP(p[0]) != GROUP(p[1]) and not ({"no session"} & set(p) and any(x.startswith(("no back", "no front")) for x in p))
                   and not (set(p) & {"no introspection", "no pushed", "no registration_read"} and "paths" not in p)]
    for names in combos:
        for probe in PROBES:
            yield names, probe


def main(tier):
    c = Check("C23", tier)
    c.sweep("advertised", list(cases(tier)), one, rule="every setting (thorough: every pair) x every value of every attribute of the discovery document, advertised or not")
    for names in (("default",), ("rt code, code id_token", "id_token PS256 RS256", "scope map")) if tier == "quick" else [(n,) for n in SETTINGS if n not in ("no session", "no pushed", "rt implicit", "grants code")]:
        c.explore(Histories(names), 3 if tier == "quick" else 4)
    return c.finish("exploration")
