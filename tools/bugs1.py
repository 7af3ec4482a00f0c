T = "src/oidcop/oidc/token.py"
T2 = "src/oidcop/oauth2/token.py"
G = "src/oidcop/session/grant.py"
M = "src/oidcop/session/manager.py"
BUGS = [
    dict(id="replay-hidden-descendants", prop="C01", edits=[(G, """            elif based_on and t.based_on == based_on:
                t.revoked = True
                if recursive:
                    self.revoke_token(based_on=t.value)
""", """            elif based_on and t.based_on == based_on:
                if recursive and t.is_active():
                    self.revoke_token(based_on=t.value)
                t.revoked = True
""")], needs="a code is redeemed, its refresh token is used and revoked/rotated, then the code is replayed",
         breaks="tokens derived through a refresh token that is no longer active survive the replay of the code",
         demo="""
op = OP()
r = op.authz_as("diana", op.areq(scope=("openid", "offline_access"), prompt="consent"))
code = r["code"]
t = op.token(op.treq(code))
t2 = op.token(op.rreq(t["refresh_token"]))
assert t2.ok
sid = op.mngr.get_session_info_by_token(code)["session_id"]
op.mngr.revoke_token(sid, t["refresh_token"])
assert op.userinfo(t2["access_token"]).ok
assert not op.token(op.treq(code)).ok
assert not op.userinfo(t2["access_token"]).ok, "token derived from a replayed code still works"
"""),
    dict(id="redirect-uri-base-only", prop="C02", edits=[(T, """            if req["redirect_uri"] != _authn_req["redirect_uri"]:
""", """            if not req["redirect_uri"].startswith(_authn_req["redirect_uri"].split("?")[0]):
""")], needs="a client with redirect URIs that share a prefix or differ in the query part only",
         breaks="a code can be redeemed with another redirect_uri than the one it was requested with",
         demo="""
op = OP(clients={"client_1": client(1, redirect_uris=[("https://rp1.example.com/cb", {"a": ["1"]}),
                                                      ("https://rp1.example.com/cb", {"a": ["2"]})])})
r = op.authz_as("diana", op.areq(redirect_uri="https://rp1.example.com/cb?a=1"))
t = op.token(op.treq(r["code"], redirect_uri="https://rp1.example.com/cb?a=2"))
assert not t.ok, "redeemed with another redirect_uri"
assert op.token(op.treq(r["code"], redirect_uri="https://rp1.example.com/cb?a=1")).ok
"""),
    dict(id="refused-request-spends-code", prop="C02", edits=[(T, """        _based_on = grant.get_token(_access_code)
        _supports_minting = _based_on.usage_rules.get("supports_minting", [])
""", """        _based_on = grant.get_token(_access_code)
        _supports_minting = _based_on.usage_rules.get("supports_minting", [])
        if "redirect_uri" in grant.authorization_request and grant.authorization_request["redirect_uri"] != req.get("redirect_uri"):
            _based_on.register_usage()
""")], needs="a token request with the wrong redirect_uri followed by the right one",
         breaks="a refused token request uses the code up",
         demo="""
op = OP()
r = op.authz_as("diana", op.areq())
assert not op.token(op.treq(r["code"], redirect_uri="https://rp1.example.com/other")).ok
assert op.token(op.treq(r["code"])).ok, "the refused request spent the code"
"""),
    dict(id="inactive-branch-hides", prop="C04", edits=[(M, """            if t.based_on == token.value:
                t.revoked = True  # TODO: not covered yet!
                self._revoke_dependent(grant, t)
""", """            if t.based_on == token.value and not t.revoked:
                t.revoked = True  # TODO: not covered yet!
                self._revoke_dependent(grant, t)
""")], needs="a three generation token chain whose middle token was revoked alone before the first is revoked recursively",
         breaks="recursive revocation stops at tokens that are already revoked; their descendants stay usable",
         demo="""
op = OP()
r = op.authz_as("diana", op.areq(scope=("openid", "offline_access"), prompt="consent"))
t = op.token(op.treq(r["code"]))
t2 = op.token(op.rreq(t["refresh_token"]))
sid = op.mngr.get_session_info_by_token(r["code"])["session_id"]
op.mngr.revoke_token(sid, t["refresh_token"])
op.mngr.revoke_token(sid, r["code"], recursive=True)
assert not op.introspect(t2["access_token"]).get("active"), "descendant still active"
"""),
    dict(id="only-last-grant-of-session", prop="C04", edits=[(M, """        for gid in _info.subordinate:
            _grant = self.get([_user_id, _client_id, gid])
            _grant.revoke()
""", """        for _grant in self.grants(user_id=_user_id, client_id=_client_id):
            if not _grant.is_active():
                break
            _grant.revoke()
""")], needs="two grants of one user at one client, the first expired or revoked, then the client session is revoked",
         breaks="later grants of a revoked client session keep working",
         demo="""
op = OP()
rs = [op.authz_as("diana", op.areq(state=f"s{i}")) for i in (1, 2)]
ts = [op.token(op.treq(r["code"])) for r in rs]
sids = [op.mngr.get_session_info_by_token(t["access_token"])["session_id"] for t in ts]
op.mngr.revoke_grant(sids[0])
op.mngr.revoke_client_session(sids[1])
assert not op.userinfo(ts[1]["access_token"]).ok, "token of a revoked client session works"
"""),
    dict(id="refresh-token-as-code", prop="C06", edits=[(T2, """        if not isinstance(code, AuthorizationCode):
""", """        if code is None or "access_token" not in code.usage_rules.get("supports_minting", []):
""")], needs="a refresh token presented in the code parameter of an OAuth2 token request",
         breaks="the code door accepts refresh tokens",
         demo="""
c = base_conf("oauth2")
c["allowed_scopes"] = ["offline_access"]
op = OP(c, kind="oauth2")
r = op.authz_as("diana", op.areq(scope=("offline_access",)))
t = op.token(op.treq(r["code"]), issue_refresh=True)
assert not op.token(op.treq(t["refresh_token"])).ok, "a refresh token was redeemed as a code"
"""),
    dict(id="pkce-method-from-token-request", prop="C07", edits=[("src/oidcop/oidc/add_on/pkce.py", """        _method = _authn_req["code_challenge_method"]
""", """        _method = request.get("code_challenge_method", _authn_req["code_challenge_method"])
""")], needs="a token request that names a weaker code_challenge_method than the authorization request",
         breaks="who saw the challenge can redeem the code by presenting the challenge as a plain verifier",
         demo="""
import hashlib
c = base_conf()
c["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": True}}}
op = OP(c)
ch = base64.urlsafe_b64encode(hashlib.sha256(b"v" * 50).digest()).rstrip(b"=").decode()
r = op.authz_as("diana", op.areq(code_challenge=ch, code_challenge_method="S256"))
assert not op.token(op.treq(r["code"], code_verifier=ch, code_challenge_method="plain")).ok, "downgraded"
assert op.token(op.treq(r["code"], code_verifier="v" * 50)).ok
"""),
    dict(id="jti-shared-by-clients", prop="C09", edits=[("src/oidcop/client_authn.py", """            _key = "{}:{}".format(ca_jwt["iss"], _jti)
""", """            _key = "{}:{}".format(ca_jwt.jws_header.get("alg"), _jti)
""")], needs="two clients that use the same jti value in their assertions",
         breaks="a valid assertion of one client is refused because another client used the same jti",
         demo="""
op = OP()
def assertion(cid):
    j = JWT(private_keyjar(cid, cid), iss=cid, sign_alg="ES256")
    return j.pack({"sub": cid, "iss": cid, "jti": "same"}, aud=[op.ep("token").full_path], recv="")
cas = {c: assertion(c) for c in ("client_1", "client_2")}
for c in ("client_1", "client_2"):
    r = op.authz_as("diana", op.areq(c))
    t = op.token(op.treq(r["code"], c, secret=None, client_assertion=cas[c],
                         client_assertion_type="urn:ietf:params:oauth:client-assertion-type:jwt-bearer"))
    assert t.ok, (c, t)
"""),
    dict(id="relogin-forgets-session", prop="C10", edits=[(M, """            self.get([user_id, client_id])
        except (NoSuchClientSession, ValueError):
""", """            if self.get([user_id, client_id]).is_revoked():
                raise NoSuchClientSession(client_id)
        except (NoSuchClientSession, ValueError):
""")], needs="a client session is revoked and the user logs in again at that client",
         breaks="the revoked client session is replaced by an empty one: its grants are no longer under it",
         demo="""
op = OP()
r = op.authz_as("diana", op.areq(state="s1"))
sid = op.mngr.get_session_info_by_token(r["code"])["session_id"]
op.mngr.revoke_client_session(sid)
op.authz_as("diana", op.areq(state="s2"))
assert len(op.mngr.grants(user_id="diana", client_id="client_1")) == 2, "a stored grant is gone"
assert op.mngr.get_grant(sid).revoked
"""),
    dict(id="client-cannot-keep-refresh-token", prop="C22", edits=[(T, """            revoke_refresh = _context.cdb[req["client_id"]].get("revoke_refresh_on_issue")
        else:
            revoke_refresh = revoke_refresh = self.endpoint.revoke_refresh_on_issue

        if revoke_refresh:
""", """            revoke_refresh = _context.cdb[req["client_id"]].get("revoke_refresh_on_issue")
        else:
            revoke_refresh = False

        if revoke_refresh or self.endpoint.revoke_refresh_on_issue:
""")], needs="a provider that revokes refresh tokens on issue and a client with revoke_refresh_on_issue=False",
         breaks="the client's setting does not override the provider's",
         demo="""
c = base_conf()
c["endpoint"]["token"]["kwargs"]["revoke_refresh_on_issue"] = True
op = OP(c, clients={"client_1": client(1, revoke_refresh_on_issue=False)})
r = op.authz_as("diana", op.areq(scope=("openid", "offline_access"), prompt="consent"))
t = op.token(op.treq(r["code"]))
for i in range(2):
    assert op.token(op.rreq(t["refresh_token"])).ok, "the refresh token was revoked at its use"
"""),
]
