"""C22: usage rules bind every minting, and one client's rules never leak to another."""
from mc.lifecycle import SHORT_RULES
from mc.lifecycle import Lifecycle
from mc.op import client
from mc.report import Check

AT, RT, IDT, CODE = "access_token", "refresh_token", "id_token", "authorization_code"
ALPHA = ("authz", "redeem", "refresh", "tick")
CL = {
    "client_1": client(1, token_usage_rules={
        CODE: {"expires_in": 50, "supports_minting": [AT, RT]},
        RT: {"max_usage": 1, "supports_minting": [AT, RT, IDT]},
        AT: {"expires_in": 70}}, revoke_refresh_on_issue=True),
    "client_2": client(2),
    "client_3": client(3, token_usage_rules={RT: {}, CODE: {"supports_minting": [AT]}},
                       revoke_refresh_on_issue=False),
}
NO_RT_MINT = {"client_1": client(1, token_usage_rules={RT: {"supports_minting": [AT], "max_usage": 2}}),
              "client_2": client(2, grant_types_supported=["authorization_code"]),
              "client_3": client(3, grant_types_supported=["authorization_code", "refresh_token"])}
ROT = {"client_1": client(1), "client_2": client(2, revoke_refresh_on_issue=True),
       "client_3": client(3, revoke_refresh_on_issue=False)}
ALL3 = ("client_1", "client_2", "client_3")


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    off = (("openid", "offline_access"), ("openid",))
    k = dict(rules=SHORT_RULES, grant_exp=1200, alphabet=ALPHA, max_tokens=12)
    yield Lifecycle("three clients", clients=CL, cids=ALL3, scopes=off[:1], max_grants=3, **k), 4 + x
    yield Lifecycle("three clients, provider rotates", clients=CL, cids=ALL3, scopes=off, max_grants=2,
                    provider_revoke_on_issue=True, **k), 4 + x
    for kind in ("oidc", "oauth2"):
        for roi in (True, False):
            yield Lifecycle(f"rotation settings {kind} {roi}", kind=kind, clients=ROT, cids=ALL3, max_grants=3,
                            scopes=off[:1] if kind == "oidc" else (("offline_access",),), issue_refresh=True,
                            provider_revoke_on_issue=roi, start=[("authz", "diana", c, 0) for c in ALL3] +
                            [("redeem", i, c) for i, c in enumerate(ALL3)],
                            **dict(k, max_tokens=18, alphabet=("refresh",))), 3 + x
    yield Lifecycle("refresh not for everybody", clients=NO_RT_MINT, cids=ALL3, scopes=off, max_grants=2, **k), 4 + x
    yield Lifecycle("client rules, no provider rules", clients=CL, cids=ALL3, scopes=off[:1], max_grants=2,
                    **dict(k, rules={}, grant_exp=0)), 4
    yield Lifecycle("issue_refresh off", clients=CL, cids=ALL3, scopes=off, max_grants=2, issue_refresh=False, **k), 3
    yield Lifecycle("issue_refresh on", clients=CL, cids=ALL3, scopes=off, max_grants=2, issue_refresh=True, **k), 3 + x
    yield Lifecycle("never expiring", clients={
        "client_1": client(1, token_usage_rules={RT: {"expires_in": -1}, AT: {"expires_in": -1}}),
        "client_2": client(2)}, cids=("client_1", "client_2"), jwt=("token", "refresh"), max_grants=2, **k), 4
    yield Lifecycle("oauth2", kind="oauth2", clients=CL, cids=ALL3, scopes=(("alpha", "offline_access"),),
                    issue_refresh=True, max_grants=2, **k), 4 + x
    yield Lifecycle("oauth2 no refresh asked", kind="oauth2", clients=CL, cids=ALL3,
                    scopes=(("alpha", "offline_access"),), max_grants=2, **k), 3
    yield Lifecycle("hybrid", clients=CL, cids=ALL3, rts=("code token", "code id_token token"), max_grants=2, **k), 3
    yield Lifecycle("rotation in depth", clients=CL, cids=("client_1", "client_2"), max_grants=2, max_tokens=16,
                    start=[("authz", "diana", "client_1", 0), ("authz", "diana", "client_2", 0),
                           ("redeem", 0, "client_1"), ("redeem", 1, "client_2")],
                    **dict({i: v for i, v in k.items() if i != "max_tokens"}, alphabet=("refresh", "tick"))), 4 + x


def main(tier):
    c = Check("C22", tier)
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
