"""C04: revocation is exact, cascades along derivation, and is final."""
from mc.lifecycle import SHORT_RULES
from mc.lifecycle import Lifecycle
from mc.report import Check

REV = ("revoke", "grant_revoke_token", "revoke_grant", "revoke_cs")
A = ("authz", "diana", "client_1", 0)
CHAIN = [A, ("redeem", 0, "client_1"), ("refresh", 2, "client_1", None), ("refresh", 5, "client_1", None)]


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    k = dict(rules=SHORT_RULES, grant_exp=1200)
    # code, at, rt, idt | at, rt | at, rt: every set of revocations of a three generation chain, then more use
    yield Lifecycle("chain", alphabet=REV, start=CHAIN, max_tokens=20, **k), 3 + x
    yield Lifecycle("chain and use", alphabet=REV + ("refresh", "redeem"), start=CHAIN[:3], max_tokens=20, **k), 3 + x
    yield Lifecycle("chain jwt", alphabet=REV + ("refresh",), start=CHAIN[:3], max_tokens=20, jwt=("token", "refresh"),
                    **k), 3
    yield Lifecycle("two users two clients", alphabet=("revoke_grant", "revoke_cs", "redeem", "authz", "refresh"),
                    users=("diana", "babs"), cids=("client_1", "client_2"), max_grants=5, max_tokens=20,
                    start=[A, ("authz", "diana", "client_1", 0), ("authz", "babs", "client_1", 0),
                           ("authz", "diana", "client_2", 0), ("redeem", 0, "client_1"), ("redeem", 1, "client_1"),
                           ("redeem", 2, "client_1")],
                    **k), 2 + x
    yield Lifecycle("two codes of one grant", alphabet=REV + ("redeem",), sso=True, max_tokens=20,
                    start=[A, ("again", 0), ("redeem", 0, "client_1"), ("redeem", 1, "client_1")], **k), 3
    yield Lifecycle("hybrid", alphabet=REV + ("redeem",), rts=("code id_token token",), max_tokens=12, max_grants=2,
                    start=[("authz", "diana", "client_1", 0, "code id_token token"), ("redeem", 0, "client_1")], **k), 3
    yield Lifecycle("oauth2", kind="oauth2", issue_refresh=True, scopes=(("alpha",),), alphabet=REV + ("refresh",
                                                                                                      "redeem"),
                    start=[A, ("redeem", 0, "client_1"), ("refresh", 2, "client_1", None)], max_tokens=16, **k), 3 + x
    yield Lifecycle("from the beginning", alphabet=REV + ("authz", "redeem", "refresh"), **k), 4 + x


def main(tier):
    c = Check("C04", tier)
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
