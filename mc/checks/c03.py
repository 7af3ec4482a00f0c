"""C03: a token is honoured iff issued, in its lifetime, unrevoked and not used up."""
import copy

from mc import clock
from mc.explore import Violation
from mc.lifecycle import Lifecycle
from mc.lifecycle import SHORT_RULES
from mc.op import OP
from mc.op import base_conf
from mc.op import client
from mc.op import jwt_claims
from mc.op import jwt_tokens
from mc.report import Check

ALPHA = ("authz", "redeem", "refresh", "revoke", "revoke_grant", "revoke_cs", "tick")
PER_CLIENT = {
    "client_1": client(1, token_usage_rules={
        "refresh_token": {"max_usage": 2, "expires_in": 400,
                          "supports_minting": ["access_token", "refresh_token", "id_token"]},
        "authorization_code": {"expires_in": 100}}),
    "client_2": client(2, token_usage_rules={"access_token": {"expires_in": 50}}),
}


def scenarios(tier):
    th = tier == "thorough"
    k = dict(rules=SHORT_RULES, grant_exp=1200, alphabet=ALPHA)
    x = 1 if th else 0
    yield Lifecycle("oidc opaque", **k), 5 + x
    yield Lifecycle("oidc jwt", jwt=("token", "refresh"), **k), 5 + x
    yield Lifecycle("oauth2 opaque", kind="oauth2", issue_refresh=True, scopes=(("alpha", "beta"),), **k), 4 + x
    yield Lifecycle("oauth2 jwt", kind="oauth2", issue_refresh=True, scopes=(("alpha", "beta"),),
                    jwt=("token", "refresh"), **k), 4 + x
    yield Lifecycle("hybrid", rts=("code token", "id_token token", "code id_token token"), max_grants=1, **k), 4 + x
    yield Lifecycle("per client rules", clients=PER_CLIENT, cids=("client_1", "client_2"), max_grants=2, **k), 4 + x
    k2 = dict(k, grant_exp=0)
    yield Lifecycle("grants without expiry", **k2), 4 + x
    nr = dict(rules={}, grant_exp=0, alphabet=ALPHA)
    yield Lifecycle("no usage rules", **nr), 4 + x
    yield Lifecycle("no usage rules jwt", jwt=("token", "refresh"), **nr), 4 + x
    for n in (2, 3):
        ru = copy.deepcopy(SHORT_RULES)
        ru["refresh_token"]["max_usage"] = n
        for kind in ("oidc", "oauth2"):
            yield Lifecycle(f"chains of tokens with {n} uses {kind}", kind=kind, rules=ru, grant_exp=0, alphabet=("refresh",),
                            issue_refresh=True, scopes=(("openid", "offline_access"),) if kind == "oidc" else (("alpha",),),
                            start=[("authz", "diana", "client_1", 0), ("redeem", 0, "client_1")], max_tokens=20), 6 + x
    yield Lifecycle("no usage rules hybrid jwt", jwt=("token", "refresh"), rts=("code token",), **nr), 4


def lifetime_cases():
    for kind in ("oidc", "oauth2"):
        for jwt in (True, False):
            for rule in ("expires_in", "rule without expires_in", "no rule"):
                for where in ("authorization", "token", "refresh"):
                    for tok in ("access", "refresh"):
                        if (where, tok) != ("authorization", "refresh") and (kind, where) != ("oauth2", "authorization"):
                            yield kind, jwt, rule, where, tok


def lifetime(case):
    """Everything that states a lifetime (expires_in, exp-iat inside the token, exp-iat at introspection) agrees."""
    kind, jwt, rule, where, tok = case
    conf = base_conf(kind)
    if jwt:
        jwt_tokens(conf)
    rules = copy.deepcopy(SHORT_RULES)
    for k in ("access_token", "refresh_token"):
        if rule == "no rule":
            del rules[k]
        elif rule == "rule without expires_in":
            rules[k] = {"supports_minting": rules[k].get("supports_minting", []), "max_usage": 5}
    conf["authz"]["kwargs"]["grant_config"].update(usage_rules=rules, expires_in=100000)
    if kind == "oauth2":
        conf["allowed_scopes"] = ["offline_access"]
    op = OP(conf, kind=kind)
    sc = ("openid", "offline_access") if kind == "oidc" else ("offline_access",)
    r = op.authz_as("diana", op.areq(scope=sc, prompt="consent",
                                     response_type="id_token token" if where == "authorization" else "code"))
    if where != "authorization":
        r = op.token(op.treq(r["code"]), issue_refresh=True)
    if where == "refresh":
        r = op.token(op.rreq(r["refresh_token"]), issue_refresh=True)
    if not r.ok:
        raise Violation(f"{case}: {r.brief()}", sig="lifetime sweep: no answer")
    t = r[tok + "_token"]
    said = {}
    if tok == "access":
        said["expires_in"] = int(r["expires_in"]) if "expires_in" in r else None
    if jwt:
        c = jwt_claims(t)
        said["jwt"] = c["exp"] - c["iat"] if "exp" in c else None
    i = op.introspect(t)
    if not (i.ok and i.get("active")):
        raise Violation(f"{case}: {i.brief()}", sig="lifetime sweep: not active")
    said["introspection"] = i["exp"] - i["iat"] if "exp" in i else None
    life = said["introspection"]
    if rule == "expires_in" and life != SHORT_RULES[tok + "_token"]["expires_in"]:
        raise Violation(f"{case}: configured {SHORT_RULES[tok + '_token']}, applied {life}", sig="lifetime not as configured")
    if len(set(said.values())) > 1:
        raise Violation(f"{case}: lifetimes disagree: {said}",
                        sig="lifetime:" + ":".join(map(str, case)) + ":" + ",".join(f"{k}={v}" for k, v in said.items()))
    if life:
        clock.advance(life)
        if not op.introspect(t).get("active"):
            raise Violation(f"{case}: gone before {said}", sig="lifetime sweep: early")
        clock.advance(1)
    else:
        clock.advance(99000)
    i = op.introspect(t)
    if bool(i.ok and i.get("active")) == bool(life):
        raise Violation(f"{case}: announced {said}, {i.brief()} at the end of it", sig="lifetime sweep: late")
    return f"{rule}:{life}"


def main(tier):
    c = Check("C03", tier)
    c.sweep("announced lifetimes", lifetime_cases(), lifetime,
            rule="provider kind x token format x usage rule (with/without lifetime, absent) x issuing endpoint x token")
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
