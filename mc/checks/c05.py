"""C05: scope only shrinks along every token chain."""
import itertools

from mc.explore import Violation
from mc.lifecycle import SHORT_RULES
from mc.lifecycle import Lifecycle
from mc.op import client
from mc.report import Check

O, P, E, F, X = "openid", "profile", "email", "offline_access", "unheard_of"
FULL = (O, P, F)


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    k = dict(rules=SHORT_RULES, grant_exp=3000)
    narrow = (None, (O,), (O, F), (O, P, F), (O, E, F), (P,))
    yield Lifecycle("narrow and widen", alphabet=("redeem", "refresh"), scopes=(FULL,), refresh_scopes=narrow,
                    max_tokens=16, start=[("authz", "diana", "client_1", 0), ("redeem", 0, "client_1")], **k), 3 + x
    yield Lifecycle("narrow and widen jwt", alphabet=("redeem", "refresh"), scopes=(FULL,), refresh_scopes=narrow,
                    max_tokens=16, jwt=("token", "refresh"),
                    start=[("authz", "diana", "client_1", 0), ("redeem", 0, "client_1")], **k), 3
    subsets = [tuple(s) for n in range(1, 4) for s in itertools.combinations((P, E, F, X), n)]
    yield Lifecycle("requested subsets", alphabet=("authz", "redeem", "refresh"), refresh_scopes=(None, (O, P), (O, X)),
                    scopes=[(O,) + s for s in subsets], max_grants=2, max_tokens=12, **k), 3
    cl = {"client_1": client(1, allowed_scopes=[O, E, F]), "client_2": client(2)}
    yield Lifecycle("client with allowed scopes", alphabet=("authz", "redeem", "refresh"), clients=cl,
                    cids=("client_1", "client_2"), scopes=((O, P, E, F), (O, P), (O, F)),
                    refresh_scopes=(None, (O, E), (O, P, F)), max_grants=2, max_tokens=12, **k), 3 + x
    yield Lifecycle("implicit and hybrid", alphabet=("authz", "redeem", "refresh"), clients=cl,
                    rts=("id_token token", "code token", "code id_token token"), scopes=((O, P, E, F), (O, E)),
                    cids=("client_1",), refresh_scopes=(None, (O, E), (O, P)), max_grants=2, max_tokens=12, **k), 3
    a = dict(k, kind="oauth2", issue_refresh=True, scopes=(("alpha", "beta"), ("alpha",), ("alpha", "beta", "nope")))
    yield Lifecycle("oauth2", alphabet=("authz", "redeem", "refresh"), max_tokens=12,
                    refresh_scopes=(None, ("alpha",), ("beta",), ("gamma",), ("alpha", "nope")), **a), 4 + x
    yield Lifecycle("oauth2 jwt", alphabet=("authz", "redeem", "refresh"), max_tokens=12, jwt=("token", "refresh"),
                    refresh_scopes=(None, ("alpha",), ("gamma",)), **a), 4
    cl2 = {"client_1": client(1, allowed_scopes=["alpha"]), "client_2": client(2)}
    yield Lifecycle("oauth2 allowed scopes", alphabet=("authz", "redeem", "refresh"), max_tokens=12, clients=cl2,
                    cids=("client_1", "client_2"), refresh_scopes=(None, ("alpha",), ("beta",)), **a), 4


    none = {"client_1": client(1, allowed_scopes=[]), "client_2": client(2)}
    yield Lifecycle("a client that is allowed nothing", alphabet=("authz", "redeem", "refresh"), clients=none, max_tokens=12,
                    scopes=((O, P), (O, E)), refresh_scopes=(None, (O,)), max_grants=2, cids=("client_1", "client_2"), **k), 3
    yield Lifecycle("oauth2, a client that is allowed nothing", alphabet=("authz", "redeem", "refresh"), max_tokens=12,
                    clients=none, cids=("client_1", "client_2"), refresh_scopes=(None, ("alpha",)), **a), 4


def main(tier):
    c = Check("C05", tier)
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
