A = "src/oidcop/oauth2/authorization.py"
S = "src/oidcop/oidc/session.py"
R = "src/oidcop/oidc/registration.py"
D = "src/oidcop/oauth2/add_on/dpop.py"
P = "src/oidcop/oauth2/pushed_authorization.py"
REG = """
def provider(httpc=None, **kw):
    c = base_conf()
    c["endpoint"]["registration"] = {"path": "registration", "class": "oidcop.oidc.registration.Registration", "kwargs": {"client_authn_method": None}}
    for k, v in kw.items():
        c[k].update(v)
    return OP(c, {}, httpc=httpc)
"""
BUGS = [
    dict(id="empty-allowed-scopes", prop="C05", edits=[("src/oidcop/scopes.py", """                if "allowed_scopes" in client:
""", """                if client.get("allowed_scopes"):
""")], needs="a client that is configured with an empty list of allowed scopes",
         breaks="a client that may use no scope at all may use all of them",
         demo="""
cl = client(1)
cl["allowed_scopes"] = []
op = OP(base_conf(), {"client_1": cl})
r = op.authz_as("diana", op.areq(scope=("openid", "email")))
if r.ok:
    t = op.token(op.treq(r["code"]))
    assert not t.ok or "email" not in t.get("scope", ""), t
    assert not t.ok or "email" not in op.userinfo(t["access_token"]).params
"""),
    dict(id="state-without-blanks", prop="C17", edits=[(A, """            aresp["state"] = request["state"]

        if "response_type" in request and request["response_type"] == ["none"]:
""", """            aresp["state"] = request["state"].strip()

        if "response_type" in request and request["response_type"] == ["none"]:
""")], needs="a state that begins or ends with white space", breaks="the client does not get back the state it sent",
         demo="""
op = OP()
for s in ("STATE", " STATE", "STATE\\t"):
    r = op.authz_as("diana", op.areq(state=s))
    assert r.ok and r["state"] == s, r
"""),
    dict(id="request-uri-from-content", prop="C18", edits=[(P, """        _urn = "urn:uuid:{}".format(uuid.uuid4())
""", """        _urn = "urn:uuid:{}".format(uuid.uuid5(uuid.NAMESPACE_URL, _request.to_urlencoded()))
""")], needs="the same request pushed twice before the first one is used",
         breaks="a request_uri is handed out twice, and anybody who knows the request can tell it",
         demo="""
c = base_conf()
c["endpoint"]["pushed_authorization"] = {"path": "pushed", "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization", "kwargs": {"client_authn_method": ["client_secret_post"]}}
op = OP(c)
p = dict(op.areq(), client_secret=op.ctx.cdb["client_1"]["client_secret"])
a, b = (op.call("pushed_authorization", dict(p)) for _ in range(2))
assert a.ok and b.ok and a["request_uri"] != b["request_uri"], (a, b)
for x in (a, b):
    assert op.authz_as("diana", op.areq(request_uri=x["request_uri"])).ok
    assert not op.authz_as("diana", op.areq(request_uri=x["request_uri"])).ok
"""),
    dict(id="http-redirect-with-hybrid", prop="C19", edits=[(R, """            if registration_request.get("response_types") == ["code"]:
                must_https = False
""", """            if "code" in registration_request.get("response_types", []):
                must_https = False
""")], needs="a web client that registers code and an implicit response type, with an http redirect URI",
         breaks="tokens in fragments are sent to http URIs",
         demo=REG + """
op = provider()
meta = {"redirect_uris": ["http://c.example.org/cb"], "response_types": ["code", "id_token token"]}
r = op.call("registration", meta)
assert not r.ok, r
assert op.call("registration", dict(meta, redirect_uris=["https://c.example.org/cb"])).ok
"""),
    dict(id="sector-any-redirect-uri", prop="C19", edits=[(R, """            for uri in request["redirect_uris"]:
                if uri not in si_redirects:
                    raise InvalidSectorIdentifier("redirect_uri missing from sector_identifiers")
""", """            if not any(uri in si_redirects for uri in request["redirect_uris"]):
                raise InvalidSectorIdentifier("redirect_uri missing from sector_identifiers")
""")], needs="a registration with two redirect URIs of which the sector identifier document lists one",
         breaks="a client gets pairwise identifiers of a sector that does not list all its redirect URIs",
         demo=REG + """
import json

class Web:
    def get(self, url, **kw):
        r = type("R", (), {})()
        r.status_code, r.text, r.headers = 200, json.dumps(["https://c.example.org/cb"]), {}
        return r

    def __call__(self, method, url, **kw):
        return self.get(url)

op = provider(Web())
meta = {"redirect_uris": ["https://c.example.org/cb"], "subject_type": "pairwise", "sector_identifier_uri": "https://s.example.org/all.json"}
assert op.call("registration", dict(meta)).ok
r = op.call("registration", dict(meta, redirect_uris=["https://c.example.org/cb", "https://other.example.net/cb"]))
assert not r.ok, r
"""),
    dict(id="logout-only-with-notice", prop="C20", edits=[(S, """        self.clean_sessions(_rel_sid)

        res = {}
        if bc_logouts:
            res["blu"] = bc_logouts
        if fc_iframes:
            res["flu"] = fc_iframes
        return res
""", """        res = {}
        if bc_logouts:
            self.clean_sessions(_rel_sid)
            res["blu"] = bc_logouts
        if fc_iframes:
            self.clean_sessions(_rel_sid)
            res["flu"] = fc_iframes
        return res
""")], needs="a global logout of a user whose clients registered no logout URI",
         breaks="the sessions live on after the user logged out from everything",
         demo="""
op = OP(logout_conf(base_conf()))
r = op.authz_as("diana", op.areq())
t = op.token(op.treq(r["code"]))
assert op.userinfo(t["access_token"]).ok
e = op.end_session({"id_token_hint": t["id_token"]}, r.cookies)
sid = op.ctx.session_manager.encrypted_session_id("diana", "client_1", op.ctx.session_manager.get(["diana", "client_1"]).subordinate[0])
op.ep("session").do_verified_logout(sid, alla=True)
assert not op.userinfo(t["access_token"]).ok
"""),
    dict(id="hint-of-another-user", prop="C20", edits=[(S, """            if _id_token["sub"] != _session_info["grant"].sub:
                raise ValueError("Sub doesn't match")
""", """            if "sid" not in _id_token and _id_token["sub"] != _session_info["grant"].sub:
                raise ValueError("Sub doesn't match")
""")], needs="an ID Token with sid of one user used as hint with the session cookie of another",
         breaks="a logout is acted upon although the hint names another user",
         demo="""
cl = client(1)
cl["backchannel_logout_uri"] = "https://rp1.example.com/bc"
op = OP(logout_conf(base_conf()), {"client_1": cl})
one = op.authz_as("diana", op.areq(state="a"))
two = op.authz_as("babs", op.areq(state="b"))
t = op.token(op.treq(two["code"]))
e = op.end_session({"id_token_hint": t["id_token"]}, one.cookies)
assert e.kind in ("refused", "error"), e
"""),
    dict(id="htu-is-a-prefix", prop="C21", edits=[(D, """    if _dpop["htu"] != _http_info["url"]:
""", """    if not _http_info["url"].startswith(_dpop["htu"]):
""")], needs="a DPoP proof made for a URL that the token endpoint's URL begins with",
         breaks="a proof made for another resource is accepted",
         demo="""
import json
from cryptojwt.jws.jws import JWS
from cryptojwt.key_jar import KeyJar
c = base_conf()
c["add_on"] = {"dpop": {"function": "oidcop.oauth2.add_on.dpop.add_support", "kwargs": {"dpop_signing_alg_values_supported": ["ES256"]}}}
op = OP(c)
k = private_keyjar("client_1").get_signing_key("EC", "")[0]
def proof(url):
    jwk = {a: b for a, b in k.serialize(private=False).items() if a in ("kty", "crv", "x", "y")}
    j = JWS(json.dumps({"jti": url, "htm": "POST", "htu": url, "iat": 1700000000}), alg="ES256")
    k2 = type(k)(**k.serialize(private=True)); k2.deserialize(); k2.kid = ""
    return j.sign_compact([k2], typ="dpop+jwt", jwk=jwk)
u = op.ep("token").full_path
for url, good in ((u, True), (ISSUER, False), (u[:-1], False)):
    r = op.authz_as("diana", op.areq())
    t = op.token(op.treq(r["code"]), headers={"dpop": proof(url)})
    assert t.ok == good, (url, t)
"""),
    dict(id="default-algorithm-not-supported", prop="C23", edits=[("src/oidcop/token/id_token.py", """                if not _supported:
                    args["sign_alg"] = _def_sign_alg
                else:
                    if _def_sign_alg in _supported:
                        args["sign_alg"] = _def_sign_alg
                    else:
                        args["sign_alg"] = _supported[0]
""", """                if not _supported or payload_type == "id_token":
                    args["sign_alg"] = _def_sign_alg
                else:
                    if _def_sign_alg in _supported:
                        args["sign_alg"] = _def_sign_alg
                    else:
                        args["sign_alg"] = _supported[0]
""")], needs="a provider that only supports other algorithms than RS256 for ID Tokens, a client that registered none",
         breaks="ID Tokens are signed with an algorithm the provider says it does not support",
         demo="""
c = base_conf()
c["token_handler_args"]["id_token"]["kwargs"]["id_token_signing_alg_values_supported"] = ["ES256", "ES384"]
op = OP(c)
r = op.authz_as("diana", op.areq())
t = op.token(op.treq(r["code"]))
assert t.ok and jwt_header(t["id_token"])["alg"] == "ES256", t
"""),
    dict(id="reference-below-registered", prop="C24", edits=[(A, """                if _p[0] not in [base for base, qp in _registered]:
""", """                if not any(_p[0].startswith(base) for base, qp in _registered):
""")], needs="a request_uri that begins with a registered one",
         breaks="references that are not registered are fetched and used",
         demo="""
import json
from cryptojwt.jws.jws import JWS

class Web:
    asked = []

    def get(self, url, **kw):
        self.asked.append(url)
        r = type("R", (), {})()
        r.status_code, r.text, r.headers = 404, "", {}
        return r

cl = client(1)
cl["request_uris"] = [("https://rp1.example.com/r", None)]
op = OP(base_conf(), {"client_1": cl}, httpc=Web())
for u in ("https://rp1.example.com/r2", "https://rp1.example.com/r/../x"):
    r = op.authz_as("diana", op.areq(request_uri=u))
    assert not r.ok and not Web.asked, (r, Web.asked)
"""),
    dict(id="object-adds-only", prop="C24", edits=[(A, """                for k, v in _ver_request.items():
                    request[k] = v
""", """                for k, v in _ver_request.items():
                    if k not in ("scope", "claims") or k not in request:
                        request[k] = v
""")], needs="a request object passed by reference that asks for another scope than the plain request",
         breaks="whoever passes the request on can ask for more than the client's request object does",
         demo="""
import json
from cryptojwt.jws.jws import JWS
cl = client(1)
cl["request_uris"] = [("https://rp1.example.com/r", None)]

class Web:
    def get(self, url, **kw):
        r = type("R", (), {})()
        r.status_code, r.text, r.headers = 200, self.text, {}
        return r

w = Web()
op = OP(base_conf(), {"client_1": cl}, httpc=w)
k = private_keyjar("client_1").get_signing_key("EC", "")
w.text = JWS(json.dumps(dict(op.areq(scope=("openid",)), iss="client_1", aud=ISSUER)), alg="ES256").sign_compact(k)
r = op.authz_as("diana", op.areq(scope=("openid", "email"), request_uri="https://rp1.example.com/r"))
assert r.ok, r
t = op.token(op.treq(r["code"]))
assert "email" not in t["scope"], t
"""),
]
