"""Drives a real oidcop provider at the level of HTTP messages, the way example/flask_op/views.py does."""
import atexit
import base64
import copy
import html.parser
import json
import logging
import os
import shutil
import sys
import tempfile
from urllib.parse import parse_qsl, quote_plus, urlencode, urlsplit

from mc import clock  # noqa: F401  (must come first: installs the virtual clock)

REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
if sys.path[0] != REPO_SRC:
    sys.path.insert(0, REPO_SRC)
sys.dont_write_bytecode = True

import warnings

warnings.simplefilter("ignore")

from cryptojwt import JWT  # noqa: E402
from cryptojwt.key_bundle import KeyBundle  # noqa: E402
from cryptojwt.key_jar import KeyJar  # noqa: E402
from oidcmsg.message import Message  # noqa: E402
from oidcmsg.oauth2 import ResponseMessage  # noqa: E402
from oidcmsg.oidc import AccessTokenRequest  # noqa: E402
from oidcmsg.oidc import AuthorizationRequest  # noqa: E402

import oidcop  # noqa: E402

assert os.path.realpath(oidcop.__file__).startswith(os.path.realpath(REPO_SRC)), oidcop.__file__

from oidcop.authn_event import create_authn_event  # noqa: E402
from oidcop.configure import ASConfiguration, OPConfiguration  # noqa: E402
from oidcop.server import Server  # noqa: E402
from oidcop.user_authn.user import UserAuthnMethod  # noqa: E402
from oidcop.user_info import UserInfo as UserInfoDB  # noqa: E402

from mc import keys as _keys  # noqa: E402

logging.disable(logging.CRITICAL)

KEYS = _keys.load()
ISSUER = "https://op.example.org"

# ---------------------------------------------------------------- scratch directory
_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="oidcop_mc_")
        pid = os.getpid()

        def _rm(path=_SCRATCH, pid=pid):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(_rm)
        os.chdir(_SCRATCH)
    return _SCRATCH


# ---------------------------------------------------------------- users
USERS = {
    "diana": {
        "name": "Diana Krall", "given_name": "Diana", "family_name": "Krall", "nickname": "Dina",
        "email": "diana@example.org", "email_verified": False, "phone_number": "+46 90 7865000",
        "address": {"street_address": "Umeå Universitet", "locality": "Umeå", "country": "Sweden"},
        "eduperson_scoped_affiliation": ["staff@example.org"],
    },
    "babs": {
        "name": "Barbara J Jensen", "given_name": "Barbara", "family_name": "Jensen", "nickname": "babs",
        "email": "babs@example.com", "email_verified": True,
        "address": {"street_address": "100 Universal City Plaza", "locality": "Hollywood", "country": "USA"},
    },
    "upper": {"name": "Upper Crust", "given_name": "Upper", "email": "uc@example.com", "email_verified": True},
}


class LoginPage(Exception):
    pass


class HarnessAuthn(UserAuthnMethod):
    """Interactive authentication: shows a login page; the harness answers it with OP.login()."""

    def __init__(self, server_get=None, **kwargs):
        UserAuthnMethod.__init__(self, server_get=server_get, **kwargs)
        self.action = kwargs.get("action", "verify/user")

    def __call__(self, **kwargs):
        return {"__login_page__": kwargs}


# ---------------------------------------------------------------- configuration
ACR = "urn:oasis:names:tc:SAML:2.0:ac:classes:InternetProtocolPassword"
ACR2 = "urn:oasis:names:tc:SAML:2.0:ac:classes:TimeSyncToken"

ALL_RT = ["code", "token", "id_token", "code token", "code id_token", "id_token token", "code id_token token"]


def base_conf(kind="oidc"):
    auth = "oidcop.oidc.authorization.Authorization" if kind == "oidc" else \
        "oidcop.oauth2.authorization.Authorization"
    tok = "oidcop.oidc.token.Token" if kind == "oidc" else "oidcop.oauth2.token.Token"
    c = {
        "issuer": ISSUER,
        "httpc_params": {"verify": False, "timeout": 1},
        "capabilities": {
            "subject_types_supported": ["public", "pairwise", "ephemeral"],
            "grant_types_supported": ["authorization_code", "implicit", "refresh_token",
                                      "urn:ietf:params:oauth:grant-type:jwt-bearer"],
        },
        "keys": {"uri_path": "jwks.json", "key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]}]},
        "token_handler_args": {
            "jwks_file": "token_jwks.json",
            "code": {"kwargs": {"lifetime": 600}},
            "token": {"kwargs": {"lifetime": 3600}},
            "refresh": {"kwargs": {"lifetime": 86400}},
        },
        "session_params": {"password": "ses_key_for_the_checks", "salt": "salt_for_the_checks",
                           "sub_func": {
                               "public": {"class": "oidcop.session.manager.PublicID", "kwargs": {"salt": "mysalt"}},
                               "pairwise": {"class": "oidcop.session.manager.PairWiseID",
                                            "kwargs": {"salt": "mysalt"}},
                           }},
        "cookie_handler": {
            "class": "oidcop.cookie_handler.CookieHandler",
            "kwargs": {"keys": {"private_path": "cookie_jwks.json", "read_only": False, "key_defs": [
                {"type": "OCT", "use": ["enc"], "kid": "enc"}, {"type": "OCT", "use": ["sig"], "kid": "sig"}]}},
        },
        "endpoint": {
            "authorization": {"path": "authorization", "class": auth, "kwargs": {}},
            "token": {"path": "token", "class": tok, "kwargs": {
                "client_authn_method": ["client_secret_basic", "client_secret_post", "client_secret_jwt",
                                        "private_key_jwt"]}},
            "introspection": {"path": "introspection", "class": "oidcop.oauth2.introspection.Introspection",
                              "kwargs": {"client_authn_method": ["client_secret_post"]}},
        },
        "authentication": {"user": {"acr": ACR, "class": "mc.op.HarnessAuthn", "kwargs": {}}},
        "authz": {"class": "oidcop.authz.AuthzHandling", "kwargs": {"grant_config": {
            "usage_rules": {
                "authorization_code": {"expires_in": 300,
                                       "supports_minting": ["access_token", "refresh_token", "id_token"],
                                       "max_usage": 1},
                "access_token": {"expires_in": 600},
                "refresh_token": {"expires_in": 86400, "supports_minting": ["access_token", "refresh_token"]},
            },
            "expires_in": 43200,
        }}},
        "template_dir": "template",
    }
    if kind == "oidc":
        c["token_handler_args"]["id_token"] = {"class": "oidcop.token.id_token.IDToken", "kwargs": {}}
        c["endpoint"].update({
            "provider_config": {"path": ".well-known/openid-configuration",
                                "class": "oidcop.oidc.provider_config.ProviderConfiguration", "kwargs": {}},
            "userinfo": {"path": "userinfo", "class": "oidcop.oidc.userinfo.UserInfo", "kwargs": {}},
        })
        c["endpoint"]["authorization"]["kwargs"]["response_types_supported"] = ALL_RT
    c["userinfo"] = {"class": "oidcop.user_info.UserInfo", "kwargs": {"db": copy.deepcopy(USERS)}}
    return c


def jwt_tokens(conf, which=("token", "refresh"), **kw):
    for w in which:
        life = conf["token_handler_args"][w]["kwargs"].get("lifetime")
        conf["token_handler_args"][w] = {"class": "oidcop.token.jwt_token.JWTToken",
                                         "kwargs": dict({"lifetime": life, "aud": ["https://rs.example.org"]}, **kw)}
    if {"code", "token", "refresh"} <= set(which):  # a provider without a single opaque token does not start
        conf["token_handler_args"]["jwks_def"] = {
            "key_defs": [{"type": "oct", "bytes": 24, "use": ["enc"], "kid": "unused"}]}
    return conf


def logout_conf(conf, **kw):
    conf["endpoint"]["session"] = {"path": "session", "class": "oidcop.oidc.session.Session", "kwargs": dict({
        "post_logout_uri_path": "post_logout", "signing_alg": "ES256",
        "logout_verify_url": ISSUER + "/verify_logout"}, **kw)}
    return conf


def client(n, **kw):
    d = {
        "client_secret": f"hemligt-{n}-0123456789abcdef0123456789",
        "redirect_uris": [(f"https://rp{n}.example.com/cb", None)],
        "client_salt": f"salted{n}",
        "response_types": list(ALL_RT),
    }
    d.update(kw)
    return d


def std_clients(n=2):
    return {f"client_{i}": client(i) for i in range(1, n + 1)}


# ---------------------------------------------------------------- responses
class _FormParser(html.parser.HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.forms = []
        self.inputs = []
        self.other = []
        self.text = []

    def handle_starttag(self, tag, attrs):
        if tag == "form":
            self.forms.append(dict(attrs))
        elif tag == "input":
            self.inputs.append(attrs)
        elif tag not in ("html", "head", "title", "body"):
            self.other.append(tag)

    def handle_data(self, data):
        if data.strip() and data.strip() != "Submit This Form":
            self.text.append(data.strip())

    handle_startendtag = handle_starttag


class Resp:
    """What came back.  kind: ok | error | refused | login | exc-free codes only.

    ok      - success answer; params holds its parameters
    error   - protocol error answer; params["error"]
    refused - the provider raised (deployments answer HTTP 400/500); params["exception"]
    login   - the user has to authenticate interactively
    """

    def __init__(self, kind, params=None, target=None, mode=None, cookies=None, raw=None, exc=None, headers=None,
                 stage=None, req=None, html=None):
        self.kind = kind
        self.params = params if params is not None else {}
        self.target = target
        self.mode = mode
        self.cookies = cookies or []
        self.raw = raw
        self.exc = exc
        self.headers = headers or []
        self.stage = stage
        self.req = req
        self.html = html

    @property
    def ok(self):
        return self.kind == "ok"

    def get(self, k, d=None):
        return self.params.get(k, d)

    def __getitem__(self, k):
        return self.params[k]

    def __contains__(self, k):
        return k in self.params

    def __repr__(self):
        return f"<{self.kind} {self.mode or ''} {self.target or ''} {str(self.params)[:300]} {self.exc!r}>"

    def brief(self):
        if self.kind == "refused":
            return f"refused({type(self.exc).__name__}: {str(self.exc)[:80]})"
        if self.kind == "error":
            return f"error({self.params.get('error')}: {str(self.params.get('error_description'))[:60]})"
        return f"{self.kind}({','.join(sorted(self.params))})"


def _parse_qs_strict(q):
    return parse_qsl(q, keep_blank_values=True, strict_parsing=False)


_KEYFILES = {}


class OP:
    def __init__(self, conf=None, clients=None, kind="oidc", op_keys="op", client_keys=True, tag="", httpc=None):
        scratch()
        self.kind = kind
        conf = copy.deepcopy(conf if conf is not None else base_conf(kind))
        if tag:  # a second, independent provider
            conf["token_handler_args"]["jwks_file"] = f"token_jwks_{tag}.json"
            if "cookie_handler" in conf and "keys" in conf["cookie_handler"]["kwargs"]:
                conf["cookie_handler"]["kwargs"]["keys"]["private_path"] = f"cookie_jwks_{tag}.json"
            if conf.get("session_params"):
                conf["session_params"]["password"] = f"other_pw_{tag}_0123456"
        keyjar = private_keyjar(op_keys, conf["issuer"])
        cls = OPConfiguration if kind == "oidc" else ASConfiguration
        self.conf_dict = conf
        # Key files are private to the process while they exist; their contents stay the same for its descendants.
        files = [(conf["token_handler_args"], "jwks_file")]
        if "keys" in conf.get("cookie_handler", {}).get("kwargs", {}):
            files.append((conf["cookie_handler"]["kwargs"]["keys"], "private_path"))
        made = []
        for where, attr in files:
            logical = where[attr]
            where[attr] = f"{os.getpid()}_{logical}"
            made.append((logical, os.path.join(scratch(), where[attr])))
            if logical in _KEYFILES:
                with open(made[-1][1], "w") as f:
                    f.write(_KEYFILES[logical])
        self.server = Server(cls(conf=conf, base_path=scratch()), keyjar=keyjar, cwd=scratch(), httpc=httpc)
        for logical, path in made:
            if os.path.exists(path):
                with open(path) as f:
                    _KEYFILES[logical] = f.read()
                os.unlink(path)
        self.ctx = self.server.endpoint_context
        for cid, info in (clients if clients is not None else std_clients()).items():
            self.ctx.cdb[cid] = copy.deepcopy(info)
            if info.get("client_secret"):
                self.ctx.keyjar.add_symmetric(cid, info["client_secret"])
            if client_keys and cid in KEYS:
                self.ctx.keyjar.import_jwks(public_jwks(cid), cid)
        if self.ctx.userinfo is None or not getattr(self.ctx.userinfo, "db", None):
            self.ctx.userinfo = UserInfoDB(db=copy.deepcopy(USERS))

    # -- plumbing
    @property
    def mngr(self):
        return self.ctx.session_manager

    def ep(self, name):
        return self.server.server_get("endpoint", name)

    def http_info(self, name, method="POST", auth=None, cookies=None, headers=None, url=None):
        h = {}
        if auth is not None:
            h["authorization"] = auth
        if headers:
            h.update(headers)
        info = {"headers": h, "method": method, "url": url or self.ep(name).full_path, "cookie": cookies or []}
        return info

    def parse(self, name, params, http_info):
        """First half of a request.  Returns (request, None) or (None, Resp)."""
        ep = self.ep(name)
        try:
            req = ep.parse_request(params, http_info=http_info)
        except Exception as e:
            return None, Resp("refused", {"exception": type(e).__name__}, exc=e, stage="parse")
        if isinstance(req, ResponseMessage) and "error" in req:
            return None, Resp("error", req.to_dict(), stage="parse")
        return req, None

    def process(self, name, req, http_info, **kw):
        """Second half of a request: process and build the HTTP answer."""
        ep = self.ep(name)
        try:
            if name == "token":
                args = ep.process_request(AccessTokenRequest(**req), http_info=http_info, **kw)
            else:
                args = ep.process_request(req, http_info=http_info, **kw)
        except Exception as e:
            return Resp("refused", {"exception": type(e).__name__}, exc=e, stage="process", req=req)
        return self.respond(name, req, args)

    def respond(self, name, req, args):
        ep = self.ep(name)
        if isinstance(args, ResponseMessage) and "error" in args:
            return Resp("error", args.to_dict(), stage="process", req=req)
        if "http_response" in args:
            r = args["http_response"]
            if isinstance(r, dict) and "__login_page__" in r:
                return Resp("login", {}, raw=r["__login_page__"], stage="process", req=req)
            if isinstance(r, dict):  # a JSON answer
                return Resp("error" if "error" in r else "ok", dict(r), mode="body", raw=r, stage="process", req=req)
            return Resp("refused", {"exception": "http_response", "text": r}, stage="process", req=req)
        if "redirect_location" in args:
            u = urlsplit(args["redirect_location"])
            return Resp("ok", dict(_parse_qs_strict(u.query)), target=args["redirect_location"].split("?", 1)[0],
                        mode="query", cookies=args.get("cookie", []), raw=args["redirect_location"], stage="process",
                        req=req)
        args = dict(args)
        error = args.pop("error", "")
        try:
            info = ep.do_response(request=req, error=error, **args)
        except Exception as e:
            return Resp("refused", {"exception": type(e).__name__}, exc=e, stage="response", req=req)
        placement = info.get("response_placement", ep.response_placement)
        cookies = info.get("cookie", [])
        return self._digest(ep, req, info, placement, cookies, error)

    def _digest(self, ep, req, info, placement, cookies, error):
        raw = info["response"]
        hdrs = info.get("http_headers", [])
        if placement == "url":
            u = urlsplit(raw)
            qs = _parse_qs_strict(u.query)
            fr = _parse_qs_strict(u.fragment)
            mode = "fragment" if u.fragment else "query"
            pairs = fr if u.fragment else qs
            params = dict(pairs)
            target = raw.split("#", 1)[0] if u.fragment else raw.split("?", 1)[0]
            kind = "error" if "error" in params else "ok"
            r = Resp(kind, params, target=target, mode=mode, cookies=cookies, raw=raw, headers=hdrs, stage="response",
                     req=req)
            r.pairs = pairs
            r.all_pairs = (qs, fr)
            return r
        ctype = dict(hdrs).get("Content-type", "")
        if ctype.startswith("text/html"):
            p = _FormParser()
            p.feed(raw)
            p.close()
            pairs = []
            for a in p.inputs:
                d = dict(a)
                pairs.append((d.get("name"), d.get("value")))
            params = dict(pairs)
            kind = "error" if "error" in params else "ok"
            r = Resp(kind, params, target=p.forms[0].get("action") if p.forms else None, mode="form_post",
                     cookies=cookies, raw=raw, headers=hdrs, stage="response", req=req, html=p)
            r.pairs = pairs
            return r
        try:
            params = json.loads(raw) if isinstance(raw, str) else raw
        except ValueError:
            params = {"__raw__": raw}
        if params is None:
            params = {}
        if hasattr(params, "to_dict"):
            params = params.to_dict()
        kind = "error" if (error or (isinstance(params, dict) and "error" in params)) else "ok"
        return Resp(kind, params, mode="body", cookies=cookies, raw=raw, headers=hdrs, stage="response", req=req)

    def call(self, name, params, method="POST", auth=None, cookies=None, headers=None, url=None, **kw):
        hi = self.http_info(name, method, auth, cookies, headers, url)
        req, r = self.parse(name, params, hi)
        if r is not None:
            return r
        return self.process(name, req, hi, **kw)

    # -- the endpoints
    def authz(self, params, cookies=None, **kw):
        return self.call("authorization", dict(params), method="GET", cookies=cookies, **kw)

    def login(self, resp, user, acr=None, iat=None):
        """The user answers the login page `resp` (as example/flask_op/views.py do_verify does)."""
        ep = self.ep("authorization")
        args = resp.raw
        method = self.ctx.authn_broker.get_method_by_id("user")
        try:
            req = ep.request_cls().from_urlencoded(args["query"])
            sid = ep.create_session(req, user, acr or args["authn_class_ref"], iat or clock.now(), method)
            out = ep.authz_part2(request=req, session_id=sid)
        except Exception as e:
            return Resp("refused", {"exception": type(e).__name__}, exc=e, stage="login")
        r = self.respond("authorization", req, out)
        r.sid = sid
        return r

    def authz_as(self, user, params, cookies=None, **kw):
        """Authorization request, answering the login page as `user` if one is shown."""
        r = self.authz(params, cookies, **kw)
        if r.kind == "login":
            return self.login(r, user)
        return r

    def token(self, params, auth=None, **kw):
        return self.call("token", dict(params), auth=auth, **kw)

    def userinfo(self, token, placement="header", extra=None, scheme="Bearer"):
        if placement == "header":
            return self.call("userinfo", dict(extra or {}), method="GET", auth=f"{scheme} {token}")
        return self.call("userinfo", dict({"access_token": token}, **(extra or {})))

    def introspect(self, token, client_id="client_1", secret=None, **extra):
        sec = secret if secret is not None else self.ctx.cdb[client_id]["client_secret"]
        return self.call("introspection", dict({"token": token, "client_id": client_id, "client_secret": sec}, **extra))

    def end_session(self, params, cookies=None):
        return self.call("session", dict(params), method="GET", cookies=cookies)

    def verified_logout(self, sjwt, alla=False):
        """The user confirmed (example/flask_op/views.py rp_logout).  The answer's target is where the user goes."""
        ep = self.ep("session")
        try:
            info = ep.unpack_signed_jwt(sjwt)
            frames = list(ep.do_verified_logout(alla=alla, **info))
        except Exception as e:
            return Resp("refused", {"exception": type(e).__name__}, exc=e, stage="logout")
        r = Resp("ok", info, target=info["redirect_uri"], cookies=ep.kill_cookies(), stage="logout")
        r.frames = frames
        return r

    # -- helpers
    def areq(self, client_id="client_1", scope=("openid",), state="STATE", nonce="nonce", response_type="code",
             redirect_uri=True, **kw):
        d = {"client_id": client_id, "scope": " ".join(scope), "state": state, "response_type": response_type}
        if redirect_uri is True:
            base, q = self.ctx.cdb[client_id]["redirect_uris"][0]
            d["redirect_uri"] = base + ("?" + urlencode(q, doseq=True) if q else "")
        elif redirect_uri:
            d["redirect_uri"] = redirect_uri
        if nonce and self.kind == "oidc":
            d["nonce"] = nonce
        d.update(kw)
        return d

    def treq(self, code, client_id="client_1", redirect_uri=True, secret=True, **kw):
        d = {"grant_type": "authorization_code", "code": code, "client_id": client_id}
        if redirect_uri is True:
            base, q = self.ctx.cdb[client_id]["redirect_uris"][0]
            d["redirect_uri"] = base + ("?" + urlencode(q, doseq=True) if q else "")
        elif redirect_uri:
            d["redirect_uri"] = redirect_uri
        if secret is True:
            d["client_secret"] = self.ctx.cdb[client_id]["client_secret"]
        elif secret:
            d["client_secret"] = secret
        d.update(kw)
        return d

    def rreq(self, rt, client_id="client_1", scope=None, secret=True, **kw):
        d = {"grant_type": "refresh_token", "refresh_token": rt, "client_id": client_id}
        if scope is not None:
            d["scope"] = " ".join(scope)
        if secret is True:
            d["client_secret"] = self.ctx.cdb[client_id]["client_secret"]
        elif secret:
            d["client_secret"] = secret
        d.update(kw)
        return d

    def session_cookie(self, resp):
        """The session cookies of a response in the form requests carry them."""
        return [{"name": c["name"], "value": c["value"]} for c in resp.cookies]


_KEY_OBJECTS = {}
_PUBLIC = {}


def _keys_of(who):
    """RSA private keys are expensive to load: once per process lineage (key objects are never modified)."""
    if who not in _KEY_OBJECTS:
        kj = KeyJar()
        kj.import_jwks(copy.deepcopy(KEYS[who]), "")
        _KEY_OBJECTS[who] = list(kj.get_issuer_keys(""))
        _PUBLIC[who] = json.dumps(kj.export_jwks())
    return _KEY_OBJECTS[who]


def public_jwks(who):
    _keys_of(who)
    return json.loads(_PUBLIC[who])


def private_keyjar(who, *issuers):
    kj = KeyJar()
    for i in ("",) + issuers:
        kb = KeyBundle()
        kb.set(list(_keys_of(who)))
        kj.add_kb(i, kb)
    return kj


def basic(client_id, secret):
    return "Basic " + base64.b64encode(f"{quote_plus(client_id)}:{quote_plus(secret)}".encode()).decode()


def jwt_claims(tok):
    """Claims of a JWS without verification."""
    p = tok.split(".")[1]
    return json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4)))


def jwt_header(tok):
    p = tok.split(".")[0]
    return json.loads(base64.urlsafe_b64decode(p + "=" * (-len(p) % 4)))
