T = "src/oidcop/oidc/token.py"
G = "src/oidcop/session/grant.py"
K = "src/oidcop/session/token.py"
M = "src/oidcop/session/manager.py"
A = "src/oidcop/oauth2/authorization.py"
CL = "src/oidcop/session/claims.py"
BUGS = [
    dict(id="renewed-refresh-token-lives-on", prop="C03", edits=[(T, """            refresh_token.usage_rules = token.usage_rules.copy()
            _resp["refresh_token"] = refresh_token.value
""", """            refresh_token.usage_rules = token.usage_rules.copy()
            if "max_usage" in refresh_token.usage_rules:  # does not count against the first one's uses
                refresh_token.usage_rules["max_usage"] += token.used
            _resp["refresh_token"] = refresh_token.value
""")], needs="a refresh token with max_usage > 1 used twice, then the refresh token from the second use used up to its limit",
         breaks="a rotated refresh token can be used more often than its usage rules allow",
         demo="""
c = base_conf()
ur = c["authz"]["kwargs"]["grant_config"]["usage_rules"]
ur["refresh_token"]["max_usage"] = 2
op = OP(c)
r = op.authz_as("diana", op.areq(scope=("openid", "offline_access"), prompt="consent"))
rt = op.token(op.treq(r["code"]))["refresh_token"]
op.token(op.rreq(rt))
rt2 = op.token(op.rreq(rt))["refresh_token"]
n = sum(op.token(op.rreq(rt2)).ok for _ in range(4))
assert n == 2, f"used {n} times"
"""),
    dict(id="scope-of-first-ancestor", prop="C05", edits=[(G, """        if based_on:
            if based_on.scope:
                return based_on.scope

            if based_on.based_on:
                return self.find_scope(based_on.based_on)
""", """        if based_on:
            if based_on.based_on:
                return self.find_scope(based_on.based_on)

            if based_on.scope:
                return based_on.scope
""")], needs="two refreshes, the first with a narrower scope",
         breaks="a token chain gets back scopes that were given up when the chain was refreshed",
         demo="""
op = OP()
r = op.authz_as("diana", op.areq(scope=("openid", "email", "offline_access"), prompt="consent"))
rt = op.token(op.treq(r["code"]))["refresh_token"]
t = op.token(op.rreq(rt, scope=("openid", "offline_access")))
t = op.token(op.rreq(t["refresh_token"], scope=("openid", "offline_access")))
t = op.token(op.rreq(t["refresh_token"], scope=("openid", "email", "offline_access")))
assert not t.ok or "email" not in t["scope"], "scope grew"
"""),
    dict(id="redirect-path-any-case", prop="C08", edits=[(A, """            if _base == regbase:
""", """            if _base.lower() == regbase.lower():
""")], needs="a redirect URI that differs from the registered one only in upper and lower case of its path",
         breaks="codes are sent to a URI that is not registered",
         demo="""
op = OP()
r = op.authz_as("diana", op.areq(redirect_uri="https://rp1.example.com/CB"))
assert not (r.ok and "rp1.example.com/CB" in str(r.raw)), r
r = op.authz_as("diana", op.areq(redirect_uri="https://rp1.example.com/cb"))
assert r.ok
"""),
    dict(id="base-claims-remember", prop="C11", edits=[(CL, """            base_claims = module.kwargs.get("base_claims", {}).copy()
""", """            base_claims = module.kwargs.get("base_claims", {})
""")], needs="an endpoint with base_claims, a request for a further claim, then a request without",
         breaks="claims somebody once asked for are released to everybody afterwards",
         demo="""
import json
c = base_conf()
c["endpoint"]["userinfo"]["kwargs"]["base_claims"] = {"email_verified": None}
op = OP(c)
def ui(user, cid, **kw):
    r = op.authz_as(user, op.areq(cid, **kw))
    return op.userinfo(op.token(op.treq(r["code"], cid))["access_token"]).params
before = ui("diana", "client_1")
ui("diana", "client_2", claims=json.dumps({"userinfo": {"nickname": None}}))
assert ui("diana", "client_1") == before, "released what another client asked for"
"""),
    dict(id="hash-of-256-bits", prop="C12", edits=[("src/oidcop/token/id_token.py", """        halg = f"HS{alg[-3:]}"
        if code:
""", """        halg = f"HS{alg[-3:]}" if code and access_token else "HS256"
        if code:
""")], needs="an ID Token signed with a 384 or 512 bit algorithm that carries only one of c_hash and at_hash",
         breaks="c_hash/at_hash do not match the code/access token the ID Token came with",
         demo="""
from cryptojwt.jws.utils import left_hash
op = OP(clients={"client_1": client(1, id_token_signed_response_alg="RS512")})
r = op.authz_as("diana", op.areq(response_type="code id_token"))
assert r.ok, r
assert jwt_header(r["id_token"])["alg"] == "RS512"
assert jwt_claims(r["id_token"])["c_hash"] == left_hash(r["code"].encode(), "HS512")
"""),
    dict(id="silent-login-lowercases-user", prop="C13", edits=[(A, """                            user_id=user,
                            client_id=request["client_id"],
                            token_usage_rules=""", """                            user_id=user.strip().lower(),
                            client_id=request["client_id"],
                            token_usage_rules=""")],
         needs="a user whose name has upper case letters and a second authorization of the same session",
         breaks="a silently created grant belongs to another user identifier, with another subject",
         demo="""
op = OP()
op.ctx.userinfo.db["Diana"] = dict(op.ctx.userinfo.db["diana"])
r = op.authz_as("Diana", op.areq(response_type="code id_token"))
r2 = op.authz(op.areq(response_type="code id_token", state="other"), cookies=op.session_cookie(r))
assert r2.ok
assert jwt_claims(r["id_token"])["sub"] == jwt_claims(r2["id_token"])["sub"], "subject changed"
"""),
    dict(id="restored-tokens-forget-origin", prop="C14", edits=[(K, """    parameter.update(
        {
            "based_on": "",
            "claims": {},
""", """    parameter.update(
        {
            "claims": {},
""")], needs="a restart (dump and load) between the redemption of a code and its replay",
         breaks="after a restart tokens are no longer connected to the token they are based on, a replayed code does not revoke them",
         demo="""
import json
op = OP()
r = op.authz_as("diana", op.areq())
t = op.token(op.treq(r["code"]))
new = OP()
new.ctx.load(json.loads(json.dumps(op.ctx.dump())), init_args={"server_get": new.server.server_get, "handler": new.mngr.token_handler})
assert new.userinfo(t["access_token"]).ok
assert not new.token(new.treq(r["code"])).ok
assert not new.userinfo(t["access_token"]).ok, "the restored provider did not revoke the token"
"""),
    dict(id="clear-cookie-with-encryption-key", prop="C15", edits=[("src/oidcop/cookie_handler.py", """            msg = lv_pack(payload, timestamp)
""", """            msg = lv_pack(payload.strip(), timestamp)
"""), ("src/oidcop/cookie_handler.py", """                msg = lv_pack(payload, timestamp, base64.b64encode(mac).decode("utf-8"))
            else:
""", """                msg = lv_pack(payload, timestamp, base64.b64encode(mac).decode("utf-8"))
            else:
""")], needs="a cookie handler that only encrypts, a value with leading blanks",
         breaks="cookie values that start with white space are read back differently",
         demo="""
from oidcop.cookie_handler import CookieHandler
h = CookieHandler(enc_key="MDEyMzQ1Njc4OWFiY2RlZg")
c = h.make_cookie_content("n", " value", "t")
p = h.parse_cookie("n", [{"name": "n", "value": c["value"]}])
assert p[0]["value"] == " value", p
"""),
    dict(id="sso-renews-authentication", prop="C16", edits=[(A, """                        _session_id = _mngr.create_grant(
                            authn_event=authn_event,
""", """                        if "max_age" in request:  # proven fresh enough
                            authn_event["valid_until"] = max(
                                authn_event["valid_until"],
                                utc_time_sans_frac() + request["max_age"],
                            )
                        _session_id = _mngr.create_grant(
                            authn_event=authn_event,
""")], needs="a silent login with a large max_age shortly before the authentication expires, then one after it",
         breaks="silent logins prolong the authentication beyond the time it is valid for",
         demo="""
op = OP()
r = op.authz_as("diana", op.areq())
clock.advance(3000)
r2 = op.authz(op.areq(state="b", max_age="100000"), cookies=op.session_cookie(r))
assert r2.ok
clock.advance(700)
r3 = op.authz(op.areq(state="c"), cookies=op.session_cookie(r2))
assert not r3.ok, "silent login with an expired authentication"
"""),
    dict(id="cookie-of-any-grant", prop="C16", edits=[(A, """                    if grant.is_active() is False:
                        return _authenticate()
""", """                    if grant.is_active() is False and not any(
                        g.is_active() for g in _mngr.grants(session_id=_session_id)
                    ):
                        return _authenticate()
"""), (A, """                        if _csi.is_active() is False:
                            identity = None
""", """                        if _csi.is_active() is False and not any(
                            g.is_active()
                            for g in _context.session_manager.grants(session_id=_sid)
                        ):
                            identity = None
""")], needs="a grant is revoked while the user has another active one at that client, then its cookie is used",
         breaks="the cookie of a revoked session still logs in silently",
         demo="""
op = OP()
r = op.authz_as("diana", op.areq())
r2 = op.authz_as("diana", op.areq(state="two", prompt="login"))
op.mngr.revoke_grant(op.mngr.get_session_info_by_token(r["code"])["session_id"])
a = op.authz(op.areq(state="three", prompt="none"), cookies=op.session_cookie(r))
assert not a.ok, "silent login with the cookie of a revoked session"
"""),
]
