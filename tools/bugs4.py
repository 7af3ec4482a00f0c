A = "src/oidcop/oauth2/authorization.py"
OT = "src/oidcop/oidc/token.py"
R = "src/oidcop/oidc/registration.py"
I = "src/oidcop/oauth2/introspection.py"
CA = "src/oidcop/client_authn.py"
UA = "src/oidcop/user_authn/user.py"
AC = "src/oidcop/user_authn/authn_context.py"
LOGIN = """
import tempfile, json, os

def provider(users=None, **clients):
    d = tempfile.mkdtemp()
    f = os.path.join(d, "passwd.json")
    json.dump(users or {"diana": "krall", "babs": "howes"}, open(f, "w"))
    c = base_conf()
    with open(os.path.join(d, "user_pass.jinja2"), "w") as t:
        t.write("{{ action }}|{{ token }}|{{ tos_uri }}|{{ policy_uri }}|{{ logo_uri }}")
    c["template_dir"] = d
    c["authentication"] = {"user": {"acr": ACR, "class": "oidcop.user_authn.user.UserPassJinja2", "kwargs": {
        "verify_endpoint": "verify/user", "template": "user_pass.jinja2", "db": {"class": "oidcop.util.JSONDictDB", "kwargs": {"filename": f}}}}}
    return OP(c, clients or None)
"""
BUGS = [
    dict(id="introspection-uses-token", prop="C25", edits=[(I, """        if release:
            if "username" in release:
""", """        _token.register_usage()

        if release:
            if "username" in release:
""")], needs="a refresh token that may be used once is introspected before it is used",
         breaks="looking at a token uses it up", demo="""
c = base_conf()
c["authz"]["kwargs"]["grant_config"]["usage_rules"]["refresh_token"]["max_usage"] = 1
op = OP(c)
r = op.authz_as("diana", op.areq(scope=("openid", "offline_access"), prompt="consent"))
t = op.token(op.treq(r["code"]))
assert t.ok and "refresh_token" in t, t
for i in range(2):
    x = op.call("introspection", {"token": t["refresh_token"], "client_id": "client_1", "client_secret": op.ctx.cdb["client_1"]["client_secret"]})
    assert x.get("active") is True, (i, x)
u = op.token({"grant_type": "refresh_token", "refresh_token": t["refresh_token"], "client_id": "client_1", "client_secret": op.ctx.cdb["client_1"]["client_secret"]})
assert u.ok, u
"""),
    dict(id="widened-refresh-revokes", prop="C25", edits=[(OT, """            if not req_scopes.issubset(scopes):
                return self.error_cls(
""", """            if not req_scopes.issubset(scopes):
                token.revoke()
                return self.error_cls(
""")], needs="a refresh request that asks for more scopes than were granted, followed by a proper one",
         breaks="a refused refresh request costs the client its refresh token", demo="""
op = OP()
r = op.authz_as("diana", op.areq(scope=("openid", "offline_access"), prompt="consent"))
t = op.token(op.treq(r["code"]))
q = {"grant_type": "refresh_token", "refresh_token": t["refresh_token"], "client_id": "client_1", "client_secret": op.ctx.cdb["client_1"]["client_secret"]}
assert not op.token(dict(q, scope="openid email")).ok
u = op.token(dict(q))
assert u.ok, u
"""),
    dict(id="method-in-own-order", prop="C26", edits=[(AC, """    for acr in acrs:
        res = endpoint_context.authn_broker.pick(acr)
        logger.debug(f"Picked AuthN broker for ACR {str(acr)}: {str(res)}")
        if res:
            return res if pick_all else res[0]

    return None
""", """    res = [item for item in endpoint_context.authn_broker.pick() if item["acr"] in acrs]
    logger.debug(f"Picked AuthN broker for ACRs {acrs}: {res}")
    if res:
        return res if pick_all else res[0]

    return None
""")], needs="a request with two acr_values that the provider both has, in another order than in its configuration",
         breaks="the method that is used is not the one asked for first", demo="""
c = base_conf()
c["authentication"]["strong"] = {"acr": ACR2, "class": "mc.op.HarnessAuthn", "kwargs": {"action": "verify/strong"}}
op = OP(c)
for want in ([ACR, ACR2], [ACR2, ACR], [ACR2], [ACR]):
    r = op.authz(op.areq(acr_values=" ".join(want)))
    assert r.kind == "login", r
    assert r.raw["authn_class_ref"] == want[0], (want, r.raw)
"""),
    dict(id="unknown-user-no-password", prop="C26", edits=[(UA, """        username = kwargs["username"]
        if username in self.user_db and self.user_db[username] == kwargs["password"]:
            return username
""", """        username = kwargs["username"]
        try:
            _password = self.user_db[username]
        except KeyError:
            _password = None
        if _password == kwargs.get("password"):
            return username
""")], needs="a login form that is sent without its password field, with a name nobody has",
         breaks="users that do not exist can log in without a password", demo=LOGIN + """
op = provider()
m = op.ctx.authn_broker.default()["method"]
assert m.verify(username="diana", password="krall") == "diana"
for q in ({"username": "diana"}, {"username": "nobody"}, {"username": "nobody", "password": ""}, {"username": "diana", "password": "howes"}):
    try:
        u = m.verify(**q)
    except Exception:
        continue
    raise AssertionError((q, u))
"""),
    dict(id="page-remembers-links", prop="C26", edits=[(UA, """        _kwargs = self.kwargs.copy()
        for attr in ["policy", "tos", "logo"]:
""", """        _kwargs = self.kwargs
        for attr in ["policy", "tos", "logo"]:
""")], needs="login pages for a client that registered links and then for one that did not",
         breaks="a client's login page shows another client's links", demo=LOGIN + """
op = provider(client_1=client(1, tos_uri="https://rp1.example.com/tos"), client_2=client(2))
def page(cid):
    ep = op.ep("authorization")
    q = ep.parse_request(dict(op.areq(cid)), http_info=op.http_info("authorization"))
    a = ep.process_request(q, http_info=op.http_info("authorization"))
    return a["http_response"]
assert "https://rp1.example.com/tos" in page("client_1")
assert "https://rp1.example.com/tos" not in page("client_2")
"""),
    dict(id="response-types-by-word", prop="C23", edits=[(R, """    # all values in one must appear in other
    if any(rt not in other for rt in one):
        return False
    return True
""", """    # all values in one must appear in other
    return set().union(*one).issubset(set().union(*other))
""")], needs="a provider that supports code and id_token but not both together, a client that registers code id_token",
         breaks="a client may register a combination of response types that the provider does not support", demo="""
c = base_conf()
c["endpoint"]["registration"] = {"path": "registration", "class": "oidcop.oidc.registration.Registration", "kwargs": {"client_authn_method": None}}
c["endpoint"]["authorization"]["kwargs"]["response_types_supported"] = ["code", "id_token"]
op = OP(c, {})
ok = {"redirect_uris": ["https://rp.example.com/cb"], "response_types": ["code"]}
assert op.call("registration", json.dumps(ok)).ok
assert op.call("registration", json.dumps(dict(ok, response_types=["id_token code"]))).kind != "ok"
"""),
]
