"""C24: a request object speaks for its signer, and overrides the plain parameters.

objects     every request object of a list (signer x algorithm x what it says about itself) by value, by reference and pushed, under several registrations
            and provider capabilities: only what the client itself signed, using an algorithm it may use, is acted upon, and what is refused leaves nothing.
parameters  what a request with a good object does is what the plain request made of the object's parameters (in front of the plain ones) does.
references  only registered references are followed (and fetched), and what is served is what counts.
histories   objects, references, what is served there, the client's keys, pushed requests and registrations that change in any order.
"""
import base64
import copy
import hashlib
import itertools
import json

from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import SIGNER_ALGS
from cryptojwt.key_bundle import KeyBundle

from mc import clock
from mc.checks.c09 import key
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import op_state
from mc.op import ISSUER
from mc.op import KEYS
from mc.op import OP
from mc.op import base_conf
from mc.op import client
from mc.op import jwt_claims
from mc.op import jwt_tokens
from mc.op import private_keyjar
from mc.op import public_jwks
from mc.report import Check

REF = "https://rp1.example.com/requests/1"
REF2 = "https://rp2.example.com/requests/1"
PAR = {"path": "pushed", "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization",
       "kwargs": {"client_authn_method": ["client_secret_post", "client_secret_basic"]}}


class Web:
    """What the provider's HTTP client finds."""

    def __init__(self):
        self.pages, self.log = {}, []

    def get(self, url, **kw):
        self.log.append(url)
        page = self.pages.get(url.split("#")[0], (404, "not found"))
        r = type("Response", (), {})()
        r.status_code, r.text = page
        r.headers = {"Content-Type": "application/jose"}
        r.reason = "because"
        return r

    __call__ = get

    def __deepcopy__(self, memo):
        return self


# ---------------------------------------------------------------- objects
def b64(x):
    if not isinstance(x, bytes):
        x = json.dumps(x).encode() if not isinstance(x, str) else x.encode()
    return base64.urlsafe_b64encode(x).decode().rstrip("=")


def secret_of(op, cid):
    return op.ctx.cdb[cid]["client_secret"]


def raw(op, payload, alg, who="client_1", head=None, how=None):
    """A JWS, whatever its header says about itself."""
    h = {"alg": alg, "typ": "JWT"}
    fam = alg[:2] if alg else ""
    k = None
    if how == "secret" or fam == "HS" and how is None:
        k = SYMKey(key=secret_of(op, who))
    elif fam in ("RS", "PS", "ES"):
        k = key(who, alg)[0]
        h["kid"] = k.kid
    for m, v in (head or {}).items():
        if v is None:
            h.pop(m, None)
        else:
            h[m] = v
    body = b64(h) + "." + b64(payload)
    if isinstance(how, bytes):
        k = SYMKey(key=how)
    if k is None:
        return body + "."
    sk = k.key if isinstance(k, SYMKey) else k.private_key()
    return body + "." + base64.urlsafe_b64encode(SIGNER_ALGS[alg].sign(body.encode(), sk)).decode().rstrip("=")


def enc_key():
    kj = copy.deepcopy(KEYS["foreign"])
    k = [dict(x, use="enc", kid="enc1") for x in kj["keys"] if x["kty"] == "RSA"]
    kb = KeyBundle(k)
    return kb


def encrypt(text, alg="RSA-OAEP", enc="A128GCM", cty="JWT"):
    return JWE(text.encode(), alg=alg, enc=enc, cty=cty, kid="enc1").encrypt(list(enc_key().keys()))


def D(name, valid, make, alg=None, enc=None):
    """valid: False: must be refused; True: is to be accepted if the algorithm is allowed; None: up to the provider (but refused if the algorithm is not)."""
    return name, valid, make, alg, enc


def objects(op):
    """p: the parameters it is to have.  c1 is the client that asks, c2 another one."""
    c1, c2 = "client_1", "client_2"
    me = lambda p, **kw: {k: v for k, v in dict(dict(p, iss=c1, client_id=c1, aud=ISSUER), **kw).items() if v is not None}  # noqa: E731
    for a in ("RS256", "RS512", "PS256", "ES256", "HS256", "HS384"):
        yield D(f"good {a}", True, lambda p, a=a: raw(op, me(p), a), a)
        yield D(f"of the other {a}", False, lambda p, a=a: raw(op, me(p), a, c2), a)
        yield D(f"of the other {a}, who says so", False, lambda p, a=a: raw(op, me(p, iss=c2), a, c2), a)
        yield D(f"of the other {a}, for itself", False, lambda p, a=a: raw(op, me(p, iss=c2, client_id=c2), a, c2), a)
        yield D(f"of the other {a}, no names", False, lambda p, a=a: raw(op, me(p, iss=None, client_id=None), a, c2), a)
        yield D(f"naming the other {a}", False, lambda p, a=a: raw(op, me(p, client_id=c2), a), a)
        yield D(f"of the other {a}, kid of mine", False, lambda p, a=a: raw(op, me(p), a, c2, head={"kid": key(c1, a)[0].kid if a[0] != "H" else "x"}), a)
    for a in ("RS256", "ES256", "HS256"):
        yield D(f"no iss {a}", None, lambda p, a=a: raw(op, me(p, iss=None), a), a)
        yield D(f"no client_id {a}", None, lambda p, a=a: raw(op, me(p, client_id=None), a), a)
        yield D(f"issued by the provider {a}", False, lambda p, a=a: raw(op, me(p, iss=ISSUER), a), a)
        yield D(f"no aud {a}", None, lambda p, a=a: raw(op, me(p, aud=None), a), a)
        yield D(f"no kid {a}", None, lambda p, a=a: raw(op, me(p), a, head={"kid": None}), a)
        yield D(f"stripped {a}", False, lambda p, a=a: raw(op, me(p), a).rsplit(".", 1)[0] + ".", a)
        yield D(f"two parts {a}", False, lambda p, a=a: raw(op, me(p), a).rsplit(".", 1)[0], a)
        yield D(f"other payload {a}", False, lambda p, a=a: splice(raw(op, me(dict(p, state="else")), a), raw(op, me(p), a)), a)
        yield D(f"says none, signed {a}", False, lambda p, a=a: splice_head(raw(op, me(p), a), {"alg": "none"}), a)
        yield D(f"embedded key of another {a}", False, lambda p, a=a: raw(op, me(p), a, c2, head={"kid": None, "jwk": public_jwks(c2)["keys"][0]}), a)
        yield D(f"jku of another {a}", False, lambda p, a=a: raw(op, me(p), a, c2, head={"jku": "https://rp2.example.com/jwks"}), a)
    for a in ("RS256", "ES256"):
        yield D(f"of the provider {a}", False, lambda p, a=a: raw(op, me(p), a, "op"), a)
        yield D(f"of the provider {a}, no iss", False, lambda p, a=a: raw(op, me(p, iss=None), a, "op"), a)
        yield D(f"of the provider {a}, says so", False, lambda p, a=a: raw(op, me(p, iss=ISSUER), a, "op"), a)
        yield D(f"of nobody known {a}", False, lambda p, a=a: raw(op, me(p), a, "foreign"), a)
    for none in ("none", "None", "NONE", "nOnE", ""):
        yield D(f"unsigned {none!r}", False, lambda p, n=none: raw(op, me(p), n), "none")
    yield D("unsigned, no names", False, lambda p: raw(op, p, "none"), "none")
    yield D("unsigned, naming the other", False, lambda p: raw(op, me(p, iss=c2, client_id=c2), "none"), "none")
    yield D("unsigned, two parts", False, lambda p: raw(op, me(p), "none").rstrip("."), "none")
    yield D("no alg", False, lambda p: b64({"typ": "JWT"}) + "." + b64(me(p)) + ".", "none")
    yield D("JSON", False, lambda p: json.dumps(me(p)), "none")
    yield D("JSON, no names", False, lambda p: json.dumps(p), "none")
    yield D("base64 JSON", False, lambda p: b64(me(p)), "none")
    yield D("none, signed by the other", False, lambda p: splice_head(raw(op, me(p), "RS256", c2), {"alg": "none"}), "none")
    for pub in public_jwks(c1)["keys"]:
        yield D(f"HS256, public {pub['kty']} as the secret", False, lambda p, k=pub: raw(op, me(p), "HS256", how=json.dumps(k).encode()), "HS256")
    yield D("HS256, n as the secret", False, lambda p: raw(op, me(p), "HS256", how=public_jwks(c1)["keys"][0]["n"].encode()), "HS256")
    yield D("HS256, blank secret", False, lambda p: raw(op, me(p), "HS256", how=b" " * 32), "HS256")
    yield D("HS256, name as the secret", False, lambda p: raw(op, me(p), "HS256", how=(c1 * 4).encode()), "HS256")
    for n, x in (("empty", ""), ("word", "x"), ("dots", "a.b.c"), ("list", "[]"), ("many", "." * 7)):
        yield D(f"text: {n}", None if x == "" else False, lambda p, x=x: x, "none")
    yield D("iss list", None, lambda p: raw(op, me(p, iss=[c1]), "RS256"), "RS256")
    yield D("client_id list", None, lambda p: raw(op, me(p, client_id=[c1]), "RS256"), "RS256")
    yield D("client_id both", False, lambda p: raw(op, me(p, client_id=[c2, c1]), "RS256"), "RS256")
    yield D("iss both", False, lambda p: raw(op, me(p, iss=[c2, c1]), "RS256", c2), "RS256")
    yield D("for another provider", None, lambda p: raw(op, me(p, aud="https://op2.example.org"), "RS256"), "RS256")
    yield D("empty but for names", None, lambda p: raw(op, me({}), "RS256"), "RS256")
    # encrypted
    for a in ("RS256", "ES256", "HS256"):
        yield D(f"encrypted {a}", True, lambda p, a=a: encrypt(raw(op, me(p), a)), a, ("RSA-OAEP", "A128GCM"))
        yield D(f"encrypted, of the other {a}", False, lambda p, a=a: encrypt(raw(op, me(p), a, c2)), a, ("RSA-OAEP", "A128GCM"))
        yield D(f"encrypted, naming the other {a}", False, lambda p, a=a: encrypt(raw(op, me(p, client_id=c2), a)), a, ("RSA-OAEP", "A128GCM"))
        yield D(f"encrypted, other enc {a}", True, lambda p, a=a: encrypt(raw(op, me(p), a), enc="A256CBC-HS512"), a, ("RSA-OAEP", "A256CBC-HS512"))
        yield D(f"encrypted, other alg {a}", True, lambda p, a=a: encrypt(raw(op, me(p), a), alg="RSA-OAEP-256"), a, ("RSA-OAEP-256", "A128GCM"))
    yield D("encrypted, unsigned", False, lambda p: encrypt(raw(op, me(p), "none")), "none", ("RSA-OAEP", "A128GCM"))
    yield D("encrypted JSON", False, lambda p: encrypt(json.dumps(me(p)), cty="JSON"), "none", ("RSA-OAEP", "A128GCM"))
    yield D("encrypted JSON, no names", False, lambda p: encrypt(json.dumps(p), cty="JSON"), "none", ("RSA-OAEP", "A128GCM"))


def splice(a, b):
    x, y = a.split("."), b.split(".")
    return ".".join((x[0], y[1], x[2]))


def splice_head(a, h):
    return b64(h) + "." + a.split(".", 1)[1]


# ---------------------------------------------------------------- providers
# name: (provider's lists, client's registration)
CONFIGS = {
    "default": ({}, {}),
    "ES256 registered": ({}, {"request_object_signing_alg": "ES256"}),
    "RS256 registered": ({}, {"request_object_signing_alg": "RS256"}),
    "HS256 registered": ({}, {"request_object_signing_alg": "HS256"}),
    "ES256 RS256 supported": ({"request_object_signing_alg_values_supported": ["ES256", "RS256"]}, {}),
    "HS256 supported": ({"request_object_signing_alg_values_supported": ["HS256"]}, {}),
    "encryption registered": ({}, {"request_object_encryption_alg": "RSA-OAEP", "request_object_encryption_enc": "A128GCM"}),
    "encryption supported": ({"request_object_encryption_alg_values_supported": ["RSA-OAEP-256"], "request_object_encryption_enc_values_supported": ["A128GCM"]}, {}),
}
ALL_SIGN = ["RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "HS256", "HS384", "HS512", "PS256", "PS384", "PS512"]


def permitted(config, alg, enc):
    sup, reg = CONFIGS[config]
    allowed = [reg["request_object_signing_alg"]] if "request_object_signing_alg" in reg else sup.get("request_object_signing_alg_values_supported", ALL_SIGN)
    ok = alg in allowed
    if enc:
        for x, m in zip(enc, ("alg", "enc")):
            if f"request_object_encryption_{m}" in reg:
                ok = ok and reg[f"request_object_encryption_{m}"] == x
            elif f"request_object_encryption_{m}_values_supported" in sup:
                ok = ok and x in sup[f"request_object_encryption_{m}_values_supported"]
    return ok


def provider(kind, config="default", reg=None, caps=None, pkce=False, par=True):
    """kind: oidc, jar (an OAuth2 server for secured requests), oauth2"""
    sup, extra = CONFIGS[config]
    c = base_conf("oidc" if kind == "oidc" else "oauth2")
    jwt_tokens(c, which=("token",))
    c["endpoint"]["authorization"]["kwargs"].update(sup)
    if kind == "jar":
        c["endpoint"]["authorization"]["kwargs"]["request_cls"] = "oidcmsg.oauth2.JWTSecuredAuthorizationRequest"
    if kind != "oidc":
        c["allowed_scopes"] = ["profile", "email", "offline_access"]
        c["endpoint"]["authorization"]["kwargs"]["response_types_supported"] = ["code", "token", "code token"]
    if par:
        c["endpoint"]["pushed_authorization"] = copy.deepcopy(PAR)
    if pkce:
        c["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": False, "code_challenge_method": "plain S256"}}}
    c["capabilities"].update(caps or {})
    web = Web()
    if kind == "jar":
        from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest
        c["endpoint"]["authorization"]["kwargs"]["request_cls"] = JWTSecuredAuthorizationRequest
    two = {"redirect_uris": [("https://rp1.example.com/cb", None), ("https://rp1.example.com/cb2", None)]}
    both = {"redirect_uris": two["redirect_uris"] + [("https://rp2.example.com/cb", None)]}     # Nothing but the object tells them apart
    clients = {"client_1": client(1, **dict(two, **dict(extra, **(reg or {})))), "client_2": client(2, **both)}
    op = OP(c, clients, kind="oidc" if kind == "oidc" else "oauth2", httpc=web)
    op.web = web
    op.ctx.keyjar.add_kb("", enc_key())
    op.shape = kind
    return op


SCOPE = {"oidc": "openid", "jar": "profile", "oauth2": "profile"}


def send(op, how, outer, obj, ref=REF, cookies=None, cid="client_1"):
    """The request `outer` with the object passed along."""
    if how == "value":
        return op.authz(dict(outer, request=obj), cookies)
    if how == "reference":
        op.web.pages[ref.split("#")[0]] = (200, obj)
        return op.authz(dict(outer, request_uri=ref), cookies)
    if how == "pushed":
        r = op.call("pushed_authorization", dict(outer, request=obj, client_id=cid, client_secret=secret_of(op, cid)))
        if r.kind != "ok":
            return r
        return op.authz({"client_id": cid, "request_uri": r["request_uri"], "scope": SCOPE[op.shape], "response_type": "code", "redirect_uri": "https://rp1.example.com/cb"}, cookies)
    raise AssertionError(how)


def footprint(op):
    """What a request may have left."""
    return [json.dumps(op.mngr.dump(), default=str, sort_keys=True), sorted(op.ctx.par_db)]


HOWS = {"oidc": ("value", "reference", "pushed"), "jar": ("value", "reference", "pushed"), "oauth2": ("reference", "pushed")}


def one_object(case):
    kind, config, how, pos, missing = case
    op = provider(kind, config, {"request_uris": [[REF, ""]]})
    name, valid, make, alg, enc = list(objects(op))[pos]
    good = {"response_type": "code", "scope": SCOPE[kind], "state": "inner", "nonce": "inner", "redirect_uri": "https://rp1.example.com/cb2"}
    outer = {"client_id": "client_1", "response_type": "code", "scope": SCOPE[kind], "state": "outer", "nonce": "outer", "redirect_uri": "https://rp1.example.com/cb"}
    for m in missing:
        del outer[m]
    obj = make(good)
    before = footprint(op)
    r = send(op, how, outer, obj)
    if valid is not False and name != "text: empty" and not permitted(config, alg, enc):
        valid = False
    said = f"{name} ({how}, {config}, {kind})"
    if r.kind in ("login", "ok"):
        if valid is False:
            raise Violation(f"{said} was accepted: {r!r}", sig=f"accepted {how}: {name}")
        r = op.login(r, "diana")
        if r.kind != "ok":
            raise Violation(f"{said}: {r!r}", sig=f"after login {how}: {name}")
        if name.startswith(("empty", "text: empty")):
            return "empty"
        if r.target != "https://rp1.example.com/cb2" or r.get("state") != "inner" or "code" not in r:
            raise Violation(f"{said}: not what the object said: {r!r}", sig=f"not the object's {how}: {name}")
        sid = op.mngr.token_handler.handler["authorization_code"].info(r["code"])["sid"]
        if op.mngr.decrypt_session_id(sid)[1] != "client_1":
            raise Violation(f"{said}: the code is for {op.mngr.decrypt_session_id(sid)}", sig="other client")
        return "accepted"
    if valid:
        raise Violation(f"{said} was refused: {r!r}", sig=f"refused {how}: {name}")
    if set(r.params) & {"code", "access_token", "id_token"}:
        raise Violation(f"{said}: {r!r}", sig="refused with code")
    if footprint(op) != before and how != "pushed":
        raise Violation(f"{said} was refused, but left something", sig="left something")
    return "refused"


def object_cases(tier):
    op = provider("oidc")
    objs = list(objects(op))
    for kind in HOWS:
        for config in CONFIGS:
            for how in HOWS[kind]:
                for pos, o in enumerate(objs):
                    if o[4] and how == "pushed" and config != "default" and tier != "thorough":
                        continue
                    yield kind, config, how, pos, ()
                    if config == "default" and kind != "oidc" and how != "pushed":
                        yield kind, config, how, pos, ("redirect_uri", "state", "response_type") if kind == "jar" else ("redirect_uri", "state")


# ---------------------------------------------------------------- parameters
CH = lambda v: base64.urlsafe_b64encode(hashlib.sha256(v.encode()).digest()).decode().rstrip("=")  # noqa: E731
VER = {"a": "a" * 43, "b": "b" * 43}
FIELDS = {
    "redirect_uri": ("https://rp1.example.com/cb", "https://rp1.example.com/cb2", "https://evil.example.net/cb"),
    "state": ("sa", "sb"),
    "nonce": ("na", "nb"),
    "response_type": ("code", "code id_token", "id_token token", "none"),
    "scope": ("openid", "openid email", "openid profile email", "email"),
    "response_mode": ("query", "fragment", "form_post"),
    "prompt": ("none", "login", "consent"),
    "max_age": (0, 100000),
    "claims": ({"userinfo": {"nickname": None}}, {"id_token": {"email": {"essential": True}}, "userinfo": {"name": None}}),
    "code_challenge": (VER["a"], VER["b"]),
    "code_challenge_method": ("plain", "S256"),
    "client_secret": ("x",),
    "request_uri": ("https://rp2.example.com/requests/2",),
}
OAUTH_FIELDS = {
    "redirect_uri": FIELDS["redirect_uri"], "state": FIELDS["state"], "response_type": ("code", "token", "code token", "none"), "scope": ("profile", "profile email", "unknown"),
    "response_mode": FIELDS["response_mode"], "code_challenge": FIELDS["code_challenge"], "code_challenge_method": FIELDS["code_challenge_method"], "prompt": ("none", "login"),
}
BASE = {"oidc": {"redirect_uri": "https://rp1.example.com/cb", "state": "s0", "nonce": "n0", "response_type": "code", "scope": "openid"},
        "jar": {"redirect_uri": "https://rp1.example.com/cb", "state": "s0", "response_type": "code", "scope": "profile"}}
BASE["oauth2"] = BASE["jar"]


def flat(p):
    """As parameters of a URL."""
    return {k: json.dumps(v) if isinstance(v, dict) else str(v) for k, v in p.items()}


def observe(op, r):
    """What comes of it, whatever the values minted are."""
    out = {"kind": r.kind, "login": r.kind == "login"}
    if r.kind == "login":
        r = op.login(r, "diana")
        out["then"] = r.kind
    if r.kind in ("refused", "error"):
        out.update(kind="no", error="error", target=r.target if r.mode != "body" else None)
        if out["target"]:
            out["what"] = r.get("error")
        return out
    out.update(target=r.target, mode=r.mode, state=r.get("state"), names=sorted(set(r.params) - {"session_state"}), scope=r.get("scope"))
    if "id_token" in r:
        c = jwt_claims(r["id_token"])
        out["id"] = sorted((k, str(v)) for k, v in c.items() if k not in ("iat", "exp", "auth_time", "c_hash", "at_hash", "jti", "sid"))
    if "code" in r:
        base = {"grant_type": "authorization_code", "code": r["code"], "client_id": "client_1", "client_secret": secret_of(op, "client_1"), "redirect_uri": r.target}
        for v in (None, "a", "b"):
            t = op.token(dict(base, **({"code_verifier": VER[v]} if v else {})))
            if t.kind == "ok":
                break
        out["verifier"] = v
        out["token"] = (t.kind, sorted(t.params), t.get("scope"))
        if "id_token" in t:
            c = jwt_claims(t["id_token"])
            out["id2"] = sorted((k, str(v)) for k, v in c.items() if k not in ("iat", "exp", "auth_time", "c_hash", "at_hash", "jti", "sid"))
        if t.kind == "ok" and op.kind == "oidc":
            u = op.userinfo(t["access_token"])
            out["userinfo"] = sorted(u.params)
    return out


def run_params(kind, how, outer, inner, session, plain):
    op = provider(kind if not plain or kind != "jar" else "oauth2", reg={"request_uris": [[REF, ""]]}, pkce=True)
    cookies = None
    if session:
        r0 = op.authz_as("diana", flat(dict(BASE[kind], client_id="client_1"))) if plain or kind != "jar" else \
            op.login(send(op, "value", {"client_id": "client_1"}, raw(op, dict(BASE[kind], iss="client_1", client_id="client_1"), "RS256")), "diana")
        cookies = op.session_cookie(r0)
        clock.advance(10)
    if plain:
        return observe(op, op.authz(flat(dict(outer, client_id="client_1")), cookies))
    obj = raw(op, dict(inner, iss="client_1", client_id="client_1", aud=ISSUER), "ES256")
    return observe(op, send(op, how, flat(dict(outer, client_id="client_1")), obj, cookies=cookies))


def one_params(case):
    kind, how, session, outer, inner = case
    got = run_params(kind, how, outer, inner, session, False)
    inner_ = {k: v for k, v in inner.items() if k not in ("client_secret", "request_uri")}
    merged = dict({k: v for k, v in outer.items() if k not in ("request_uri",)}, **inner_)
    wants = []
    for eff in (merged, inner_):
        w = run_params(kind, how, eff, None, session, True)
        if got == w:
            return got["kind"] + str(len(wants))
        wants.append(w)
        if eff == inner_:
            break
    # What is in front of the object may have to be a request of its own
    if "error" in got and ("request_uri" in inner or "error" in run_params(kind, how, outer, None, session, True)):
        return "refused"
    d = {k: (got.get(k), wants[0].get(k)) for k in set(got) | set(wants[0]) if got.get(k) != wants[0].get(k)}
    raise Violation(f"{kind} {how}{' session' if session else ''}: plain {outer}, object {inner}: differs from a plain request in {d}", sig=f"differs {how}: {sorted(d)}")


def param_cases(tier):
    full = tier == "thorough"
    for kind in HOWS:
        fields = FIELDS if kind == "oidc" else OAUTH_FIELDS
        base = BASE[kind]
        for how in HOWS[kind]:
            for session in ((False, True) if kind == "oidc" else (False,)):
                singles = []
                for f, vals in fields.items():
                    for v in vals:
                        singles.append((f, v))
                for f, v in singles:
                    for o in [None] + [x for x in fields[f] if x != v]:
                        out = dict(base)
                        if o is None and f in out:
                            del out[f]
                        elif o is not None:
                            out[f] = o
                        yield kind, how, session, out, dict(base, **{f: v})
                    # only plain
                    inner = {k: x for k, x in base.items() if k != f}
                    yield kind, how, session, dict(base, **{f: v}), inner
                if full or not session and how != "pushed":
                    for (f, v), (g, w) in itertools.combinations(singles, 2):
                        if f == g or not full and kind == "oidc" and {f, g} & {"claims", "client_secret", "request_uri", "code_challenge_method"}:
                            continue
                        yield kind, how, session, dict(base), dict(base, **{f: v, g: w})


# ---------------------------------------------------------------- references
def ref_variants():
    b = "https://rp1.example.com/requests/1"
    yield b, True
    yield b + "#frag", None
    yield b + "#" + b, None
    for x in ("https://rp1.example.com/requests/2", b + "/", b + "/x", b + "2", b[:-1], b + "?x=1", b + "?", b + "?x#" + "y", "http://rp1.example.com/requests/1", "https://rp1.example.com/Requests/1", "https://rp1.example.com/requests/../requests/1",
              "https://rp1.example.com:443/requests/1", "https://user@rp1.example.com/requests/1", "https://rp1.example.com.evil.net/requests/1", "https://evil.net/" + b, "https://evil.net/#" + b, "https://evil.net/?" + b, REF2, "file:///etc/passwd",
              "https://rp1.example.com/requests/%31", "//rp1.example.com/requests/1", "urn:uuid:00000000-0000-0000-0000-000000000000", "urn:x", "x", " " + b, b + " ", "https://127.0.0.1/", "https://RP1.example.com/requests/1"):
        yield x, False


REGS = {"one": [[REF, ""]], "two": [["https://rp1.example.com/other", ""], [REF, ""]], "tuple": [(REF, {})], "with fragment": [[REF, "frag"]], "other": [["https://rp1.example.com/other", ""]], "none": None, "empty": []}


def one_reference(case):
    kind, regs, require, par, ref, same, status = case
    op = provider(kind, reg={"request_uris": REGS[regs]} if REGS[regs] is not None else {}, caps={"require_request_uri_registration": True} if require else None, par=par)
    op.ctx.cdb["client_2"]["request_uris"] = [[REF2, ""]]
    inner = dict(BASE[kind], state="inner", iss="client_1", client_id="client_1", aud=ISSUER)
    obj = raw(op, inner, "RS256")
    op.web.pages[ref.split("#")[0]] = (status, obj)
    before = footprint(op)
    r = op.authz(flat(dict(BASE[kind], client_id="client_1", request_uri=ref)))
    if REGS[regs]:
        want = same if regs != "other" else False
    else:
        want = False if require or ref.startswith("urn:uuid") and par else None if ref != REF else True
    if status != 200:
        want = False
    said = f"reference {ref} ({kind}, registered: {REGS[regs]}, {'required' if require else 'not required'}, status {status})"
    if r.kind in ("login", "ok"):
        if want is False:
            raise Violation(f"{said} was accepted", sig=f"reference accepted: {regs} {ref}")
        r = op.login(r, "diana")
        if r.get("state") != "inner":
            raise Violation(f"{said}: {r!r}", sig="reference not used")
        return "accepted"
    if want:
        raise Violation(f"{said} was refused: {r!r}", sig=f"reference refused: {regs} {ref}")
    if want is False and status == 200 and op.web.log:
        raise Violation(f"{said}: fetched {op.web.log}", sig=f"fetched: {regs} {ref}")
    if footprint(op) != before:
        raise Violation(f"{said} was refused, but left something", sig="left something")
    return "refused"


def reference_cases(tier):
    for kind in HOWS:
        for regs in REGS:
            for require in (False, True):
                for ref, same in ref_variants():
                    for par in ((True, False) if regs in ("one", "none") else (True,)):
                        yield kind, regs, require, par, ref, same, 200
                for status in (201, 302, 404, 500):
                    yield kind, regs, require, True, REF, True, status


# ---------------------------------------------------------------- histories
class Histories(Scenario):
    """What is served, who has which keys, what is registered and what was pushed change; requests come in between."""

    def __init__(self, name, kind="oidc", hows=("value", "reference"), whats=("one", "two", "other", "none"), keys=True, regs=True, ttl=False, restore=False, maxg=4):
        self.name, self.kind, self.hows, self.whats, self.keys, self.regs, self.ttl, self.restore, self.maxg = name, kind, hows, whats, keys, regs, ttl, restore, maxg

    def setup(self):
        self.op = provider(self.kind, reg={"request_uris": [[REF, ""]]})
        self.key_of = {"client_1": "client_1", "client_2": "client_2"}
        self.reg = [REF]
        self.page = None        # (who signed it, what it says, alg)
        self.alg = None
        self.g = 0
        self.urns = []          # [urn, what, client, expires, used]
        self.kept = []

    def make(self, what):
        """what: one/two: parameters, signed by client_1 with the keys it then has; other: by client_2; none: unsigned; old: by the keys it had first"""
        p = dict(BASE[self.kind], iss="client_1", client_id="client_1", aud=ISSUER, state=f"{what}")
        if what == "two":
            p["redirect_uri"] = "https://rp1.example.com/cb2"
        if what == "none":
            return raw(self.op, p, "none")
        who = {"other": "client_2", "foreign": "foreign"}.get(what, "client_1")
        return raw(self.op, p, "RS256" if what in ("rs", "foreign") else "ES256", who)

    def signer(self, what):
        return {"other": "client_2", "none": None, "foreign": "foreign"}.get(what, "client_1")

    def fine(self, what, when=None):
        alg = "RS256" if what in ("rs", "foreign") else "ES256"
        return self.signer(what) == self.key_of["client_1"] and (self.alg in (None, alg))

    def ops(self):
        out = []
        if self.g < self.maxg:
            for w in self.whats:
                if "value" in self.hows:
                    out.append(("value", w))
                if "pushed" in self.hows:
                    out.append(("push", w))
            if "reference" in self.hows:
                out.append(("reference",))
            out += [("use", i, c) for i in range(len(self.urns)) for c in ("client_1", "client_2")]
        if "reference" in self.hows:
            out += [("serve", w) for w in self.whats if w != self.page]
        if self.keys:
            out.append(("rotate",))
        if self.regs:
            out.append(("registrations",))
            out.append(("algorithm",))
        if self.ttl and self.urns:
            out.append(("wait",))
        if self.restore:
            out.append(("restore",))
        return out

    def key(self):
        return op_state(self.op, {u[0]: f"urn{i}" for i, u in enumerate(self.urns)}, set()) + json.dumps([self.key_of, self.reg, self.page, self.alg, self.g, [u[1:] for u in self.urns]])

    def answer(self, r, want, what, said):
        if r.kind == "login":
            r = self.op.login(r, "diana")
        if r.kind == "ok":
            if want is False:
                raise Violation(f"{said} was accepted", sig=f"history accepted {said}")
            cb = "https://rp1.example.com/cb2" if what == "two" else "https://rp1.example.com/cb"
            if (r.target, r.get("state")) != (cb, what):
                raise Violation(f"{said}: {r!r}", sig=f"history used {said}")
        elif want:
            raise Violation(f"{said} was refused: {r!r}", sig=f"history refused {said}")
        self.g += 1

    def apply(self, o):
        op = self.op
        outer = flat(dict(BASE[self.kind], client_id="client_1", state="outer"))
        if o[0] == "value":
            self.answer(op.authz(dict(outer, request=self.make(o[1]))), self.fine(o[1]), o[1], f"an object ({o[1]}) by value")
        elif o[0] == "serve":
            self.page = o[1]
            op.web.pages[REF] = (200, self.make(o[1]))
        elif o[0] == "reference":
            n = len(op.web.log)
            want = self.page is not None and REF in self.reg and self.fine(self.page)
            r = op.authz(dict(outer, request_uri=REF))
            if REF not in self.reg and len(op.web.log) > n:
                raise Violation("fetched what is not registered", sig="history fetched")
            self.answer(r, want, self.page, f"a reference ({self.page}, registered {self.reg})")
        elif o[0] == "push":
            r = op.call("pushed_authorization", dict(outer, request=self.make(o[1]), client_secret=secret_of(op, "client_1")))
            if r.kind == "ok":
                if not self.fine(o[1]):
                    raise Violation(f"pushed object ({o[1]}) accepted", sig=f"push accepted {o[1]}")
                self.urns.append([r["request_uri"], o[1], clock.now() + 3600, False])
            elif self.fine(o[1]):
                raise Violation(f"pushed object ({o[1]}) refused: {r!r}", sig=f"push refused {o[1]}")
            self.g += 1
        elif o[0] == "use":
            u = self.urns[o[1]]
            r = op.authz(dict(outer, client_id=o[2], request_uri=u[0]) if o[2] == "client_1" else flat(dict(BASE[self.kind], client_id=o[2], redirect_uri="https://rp2.example.com/cb", request_uri=u[0])))
            want = o[2] == "client_1" and not u[3] and u[2] >= clock.now()
            if o[2] == "client_1":
                u[3] = True
            self.answer(r, want, u[1], f"pushed request {o[1]} ({u[1]}) by {o[2]}")
        elif o[0] == "rotate":
            new = "foreign" if self.key_of["client_1"] == "client_1" else "client_1"
            self.key_of["client_1"] = new
            kj = op.ctx.keyjar
            iss = kj["client_1"] if hasattr(kj, "__getitem__") else None
            secret = secret_of(op, "client_1")
            del kj["client_1"]
            kj.import_jwks(public_jwks(new), "client_1")
            kj.add_symmetric("client_1", secret)
            del iss
        elif o[0] == "registrations":
            self.reg = [] if self.reg == [REF] else [REF]
            op.ctx.cdb["client_1"]["request_uris"] = [[x, ""] for x in self.reg or ["https://rp1.example.com/none"]]
        elif o[0] == "algorithm":
            self.alg = {None: "ES256", "ES256": "RS256", "RS256": None}[self.alg]
            if self.alg:
                op.ctx.cdb["client_1"]["request_object_signing_alg"] = self.alg
            else:
                op.ctx.cdb["client_1"].pop("request_object_signing_alg")
        elif o[0] == "wait":
            clock.advance(2000)
        elif o[0] == "restore":
            new = provider(self.kind, reg={"request_uris": [[REF, ""]]})
            new.ctx.load(json.loads(json.dumps(op.ctx.dump())), init_args={"server_get": new.server.server_get, "handler": new.mngr.token_handler})
            new.web.pages.update(op.web.pages)
            self.op = new

    def check(self):
        pass


def scenarios(tier):
    d = 2 if tier == "thorough" else 0
    yield Histories("by value and reference, keys and registrations change"), 5 + d
    yield Histories("oauth2", "jar", whats=("one", "two", "foreign")), 5 + d
    yield Histories("pushed", hows=("pushed", "value"), whats=("one", "two", "other", "none"), regs=False, ttl=True), 5 + d
    yield Histories("pushed, oauth2", "oauth2", hows=("pushed", "reference"), whats=("one", "two", "foreign"), ttl=True, regs=False), 5 + d
    yield Histories("restored", hows=("pushed", "reference", "value"), whats=("one", "other"), restore=True, ttl=True), 5 + d


def main(tier):
    c = Check("C24", tier)
    c.sweep("objects", list(object_cases(tier)), one_object, rule="every object by every way: only what the client signed with an allowed algorithm is used")
    c.sweep("parameters", list(param_cases(tier)), one_params, rule="the request does what the plain request with the object's parameters does")
    c.sweep("references", list(reference_cases(tier)), one_reference, rule="only registered references are fetched and used")
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
