"""C11: exactly the permitted user claims are released, whatever happened before."""
import copy
import itertools
import json

from mc.explore import C_PROBE
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.explore import op_state
from mc.op import OP
from mc.op import base_conf
from mc.op import client
from mc.op import jwt_claims
from mc.op import jwt_tokens
from mc.report import Check

USERS = {
    "diana": {"name": "Diana Krall", "given_name": "Diana", "nickname": "Dina", "email": "diana@example.org",
              "email_verified": False, "phone_number": "+46 90 7865000", "address": {"locality": "Umeå"},
              "affiliation": ["staff", "member"], "picture": None, "zoneinfo": "Europe/Stockholm",
              "client_id": "stolen", "scope": "admin"},
    "babs": {"name": "Barbara J Jensen", "nickname": "babs", "email": "babs@example.com", "email_verified": True,
             "affiliation": ["student"], "sub": "user's own idea"},
    "nobody": {},
}
CLAIMS = sorted((set(k for u in USERS.values() for k in u) | {"family_name", "website", "phone_number_verified", "shoe_size"})
                - {"sub", "client_id", "scope"})
S2C = {
    "openid": ["sub"],
    "profile": ["name", "given_name", "family_name", "middle_name", "nickname", "profile", "picture", "website",
                "gender", "birthdate", "zoneinfo", "locale", "updated_at", "preferred_username"],
    "email": ["email", "email_verified"], "address": ["address"], "phone": ["phone_number", "phone_number_verified"],
    "offline_access": [],
}
POINTS = {"oidc": ("userinfo", "introspection", "id_token", "access_token"), "oauth2": ("introspection", "access_token")}


# ------------------------------------------------------------------ reference
def as_dict(x):
    return dict(x) if isinstance(x, dict) else {k: None for k in x or ()}


def matches(value, spec):
    if value is None:
        return False
    if spec is None or not ("value" in spec or "values" in spec):
        return True
    return ("value" in spec and value == spec["value"]) or ("values" in spec and value in spec["values"])


def released(cfg, cl, point, secondary, scopes, requested, user):
    """cfg: the release point's configuration; cl: the client's configuration (None: not enabled)."""
    spec = as_dict(cfg.get("base_claims"))
    by_scope = cfg.get("add_claims_by_scope")
    if cfg.get("enable_claims_per_client"):
        add = cl.get("add_claims", {})
        always = {}
        for p in (secondary, point):
            always.update(as_dict(add.get("always", {}).get(p)))
        own = [add.get("by_scope", {})[p] for p in (point, secondary) if p in add.get("by_scope", {})]
        if own:
            by_scope = any(own)
    else:
        always = as_dict(cfg.get("always_add_claims"))
    spec.update(always)
    if by_scope:
        s2c = cl.get("scopes_to_claims", S2C)
        allowed = cl.get("allowed_scopes", list(s2c))
        for s in scopes:
            if s in allowed:
                spec.update({c: None for c in s2c.get(s, ())})
    spec.update(requested)
    return {c: user[c] for c, s in spec.items() if c in CLAIMS and c in user and matches(user[c], s)}


def conf(kind, pts):
    """pts: {point: settings}"""
    c = base_conf(kind)
    c["userinfo"]["kwargs"]["db"] = copy.deepcopy(USERS)
    jwt_tokens(c, ("token",), **pts.get("access_token", {}))
    if kind == "oidc":
        c["token_handler_args"]["id_token"]["kwargs"].update(pts.get("id_token", {}))
        c["endpoint"]["userinfo"]["kwargs"].update(pts.get("userinfo", {}))
    else:
        c["allowed_scopes"] = list(S2C)
        c["scopes_to_claims"] = S2C
    c["endpoint"]["introspection"]["kwargs"].update(pts.get("introspection", {}))
    return c


class Model:
    def __init__(self, op, pts, clients):
        self.op, self.pts, self.clients = op, pts, clients
        self.tok = []  # (kind, value, user, client, grant scope, token scope, claims request)

    def settings(self, point):
        p = self.pts.get(point, {})
        if point == "userinfo":  # claims by scope are the userinfo endpoint's default
            p = dict({"add_claims_by_scope": True}, **p)
        return p

    def expect(self, point, cid, scopes, claims, user, secondary=""):
        return released(self.settings(point), self.clients[cid], point, secondary, scopes,
                        (claims or {}).get(point, {}), USERS[user])

    def same(self, got, want, what):
        got = {k: v for k, v in got.items() if k in CLAIMS}
        if got != want:
            raise Violation(f"{what} contains user claims {got}, permitted are {want}",
                            sig="too much" if set(got) - set(want) else "too little")

    def flow(self, user, cid, scopes, claims, rt, n, refresh=None):
        op = self.op
        kw = {"prompt": "consent"} if "offline_access" in scopes else {}
        if claims:
            kw["claims"] = json.dumps(claims)
        req = op.areq(cid, scope=scopes, state=f"s{n}", nonce=f"n{n}", response_type=rt, **kw)
        r = op.authz_as(user, req)
        what = f"{cid}/{user}/{' '.join(scopes)}/{json.dumps(claims)}/{rt}"
        if not r.ok:
            raise Violation(f"{what}: {r.brief()}", sig="authorization refused")
        c = self.clients[cid]
        g = [s for s in scopes if s in c.get("allowed_scopes", list(c.get("scopes_to_claims", S2C)))]
        made = []
        if "id_token" in r:
            self.same(jwt_claims(r["id_token"]), self.expect("id_token", cid, scopes, claims, user,
                                                             "userinfo" if rt == "id_token" else ""), f"{what}: ID Token")
        if "access_token" in r:
            made.append((r["access_token"], g))
        if "code" in r:
            t = op.token(op.treq(r["code"], cid), **({"issue_refresh": True} if op.kind == "oauth2" else {}))
            if not t.ok:
                raise Violation(f"{what}: {t.brief()}", sig="redeem refused")
            made.append((t["access_token"], g))
            if "id_token" in t:
                self.same(jwt_claims(t["id_token"]), self.expect("id_token", cid, g, claims, user),
                          f"{what}: ID Token of the code")
            if refresh is not None and "refresh_token" in t:
                sc = [s for s in g if s in refresh] or g
                t2 = op.token(op.rreq(t["refresh_token"], cid, scope=sc))
                if not t2.ok:
                    raise Violation(f"{what}: {t2.brief()}", sig="refresh refused")
                made.append((t2["access_token"], sc))
                if "id_token" in t2:
                    self.same(jwt_claims(t2["id_token"]), self.expect("id_token", cid, sc, claims, user),
                              f"{what}: ID Token of the refresh")
        for v, s in made:
            self.tok.append((v, user, cid, g, s, claims, what))
            self.same(jwt_claims(v), self.expect("access_token", cid, s, claims, user), f"{what}: JWT access token")
        return made

    def probe(self, last=None):
        for v, user, cid, g, s, claims, what in self.tok[-last:] if last else self.tok:
            count(C_PROBE)
            if self.op.kind == "oidc":
                r = self.op.userinfo(v)
                if not r.ok:
                    raise Violation(f"{what}: userinfo {r.brief()}", sig="userinfo refused")
                self.same(r.params, self.expect("userinfo", cid, g, claims, user), f"{what}: userinfo")
            r = self.op.introspect(v, cid)
            if not (r.ok and r["active"]):
                raise Violation(f"{what}: introspection {r.brief()}", sig="introspection refused")
            self.same(r.params, self.expect("introspection", cid, g, claims, user), f"{what}: introspection")
            if sorted(r.get("scope", "").split()) != sorted(s) or r["client_id"] != cid:
                raise Violation(f"{what}: introspection says {r.params}", sig="introspection overridden")
            c = jwt_claims(v)
            if sorted(c.get("scope", [])) != sorted(s) or c["client_id"] != cid:
                raise Violation(f"{what}: the JWT access token says {c}", sig="access token overridden")


# ------------------------------------------------------------------ sweep: configurations x requests
def settings():
    """What can be configured at one release point."""
    for base in ({}, {"nickname": None}, {"email": {"value": "diana@example.org"}, "shoe_size": None}):
        for by in (None, True, False):
            for always in (None, ["affiliation", "email"], {"affiliation": {"values": [["staff", "member"], ["x"]]},
                                                             "name": {"essential": True}}):
                for per in (False, True):
                    d = {}
                    if base:
                        d["base_claims"] = base
                    if by is not None:
                        d["add_claims_by_scope"] = by
                    if always is not None:
                        d["always_add_claims"] = always
                    if per:
                        d["enable_claims_per_client"] = True
                    yield d


def clients():
    add = lambda always, by: {"add_claims": dict(([("always", always)] if always else []) +
                                                 ([("by_scope", by)] if by else []))}
    pts = POINTS["oidc"]
    return {
        "client_1": client(1),
        "client_2": client(2, **add({p: ["phone_number"] for p in pts}, {p: True for p in pts})),
        "client_3": client(3, **add({p: {"email": {"value": "diana@example.org"}} for p in pts}, {p: False for p in pts})),
        "client_4": client(4, allowed_scopes=["openid", "email", "offline_access"]),
        "client_5": client(5, scopes_to_claims={"openid": ["sub"], "profile": ["shoe_size", "affiliation"], "offline_access": []},
                           **add({}, {"userinfo": True})),
        "client_6": client(6, **add({"userinfo": ["nickname"], "id_token": ["name"]}, {"id_token": False, "userinfo": True})),
    }


REQS = [None, {"all": {"email": None}}, {"all": {"email": {"value": "other@example.org"}, "affiliation": {"essential": True}}},
        {"userinfo": {"nickname": {"values": ["Dina", "x"]}}, "id_token": {"shoe_size": None, "email_verified": {"value": False}}},
        {"all": {"zoneinfo": None, "picture": None, "name": {"purpose": "x"}, "client_id": None, "scope": None}},
        {"all": {"email": {"value": "a", "values": ["babs@example.com"]}, "address": {"value": {"locality": "Umeå"}}}}]
SCOPES = [("openid",), ("openid", "profile", "email"), ("openid", "phone", "address", "offline_access", "unknown")]


def expand(req, pts):
    if not req:
        return None
    out = {}
    for p, c in req.items():
        for q in (pts if p == "all" else (p,)):
            out[q] = c
    return out


def configuration(case):
    kind, which, d, reqs = case
    pts = {p: copy.deepcopy(d) for p in (POINTS[kind] if which == "all" else (which,))}
    cl = clients()
    op = OP(conf(kind, pts), copy.deepcopy(cl), kind=kind)
    m = Model(op, pts, cl)
    n = 0
    cdb0 = copy.deepcopy({k: dict(v) for k, v in op.ctx.cdb.items()})
    users = ("diana", "babs") if reqs == "many" else ("diana",)
    for cid in cl:
        for ri, req in enumerate(REQS):
            for si, sc in enumerate(SCOPES):
                if kind == "oauth2" and req is not None:
                    continue
                rts = ("code",) if kind == "oauth2" else ("code", "id_token", "code id_token token", "id_token token")
                if reqs == "few":
                    rts = (rts[(ri + si) % len(rts)],)
                for rt in rts:
                    for user in users:
                        n += 1
                        scope = sc if rt.startswith("code") else tuple(s for s in sc if s != "offline_access")
                        made = m.flow(user, cid, scope, expand(req, ("userinfo", "id_token")), rt, n,
                                      refresh=("openid", "phone", "profile"))
                        if made:
                            m.probe(len(made))
                        m.tok.clear()
                        for _ in range(2):
                            count(C_PROBE)
    for k, v in op.ctx.cdb.items():
        if {a: b for a, b in v.items() if a != "auth_method"} != cdb0[k]:
            raise Violation("a client's configuration was changed by requests", sig="configuration changed",
                            before=cdb0[k], after=dict(v))
    return which


# ------------------------------------------------------------------ histories
class History(Scenario):
    """The answers for one grant do not depend on what happened before or happens after."""

    def __init__(self, name, kind, pts, cids, requests, users=("diana",)):
        self.name, self.kind, self.pts, self.cids, self.requests, self.users = name, kind, pts, cids, requests, users

    def setup(self):
        self.cl = {k: v for k, v in clients().items() if k in self.cids}
        self.op = OP(conf(self.kind, self.pts), copy.deepcopy(self.cl), kind=self.kind)
        self.m = Model(self.op, self.pts, self.cl)
        self.n = 0

    def ops(self):
        return [(u, c, i) for u in self.users for c in self.cids for i in range(len(self.requests))]

    def apply(self, o):
        u, c, i = o
        scopes, claims, rt = self.requests[i]
        self.n += 1
        self.m.flow(u, c, scopes, claims, rt, self.n, refresh=("openid", "profile"))

    def invariant(self):
        self.m.probe()

    def key(self):
        cl = json.dumps({k: {a: b for a, b in dict(v).items() if a != "auth_method"} for k, v in self.op.ctx.cdb.items()},
                        sort_keys=True, default=str)
        return op_state(self.op, {}, set()) + cl


PER = {"enable_claims_per_client": True}
FULL = ("openid", "profile", "email", "offline_access")


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    reqs = [(FULL, None, "code"), (("openid",), {"userinfo": {"nickname": None}, "id_token": {"email": None}}, "code"),
            (("openid", "email"), {"userinfo": {"email": {"value": "nope"}}}, "code id_token token"),
            (("openid", "profile"), None, "id_token")]
    yield History("clients with their own rules", "oidc", {p: PER for p in POINTS["oidc"]},
                  ("client_1", "client_2", "client_6"), reqs), 2 + x
    yield History("one client, deep", "oidc", {p: PER for p in POINTS["oidc"]}, ("client_6",), reqs), 4 + x
    yield History("provider wide rules", "oidc", {p: {"always_add_claims": ["affiliation"], "base_claims": {"name": None}}
                                                  for p in POINTS["oidc"]}, ("client_1", "client_5"), reqs), 3 + x
    yield History("two users", "oidc", {p: {"add_claims_by_scope": True} for p in POINTS["oidc"]}, ("client_1", "client_4"),
                  reqs[:3], users=("diana", "babs", "nobody")), 2 + x
    yield History("oauth2", "oauth2", {p: dict(PER, add_claims_by_scope=True) for p in POINTS["oauth2"]},
                  ("client_2", "client_3", "client_4"), [(("profile", "email"), None, "code"), (("phone",), None, "code")],
                  users=("diana", "babs")), 3 + x


def main(tier):
    c = Check("C11", tier)
    cases = []
    for kind in ("oidc", "oauth2"):
        for d in settings():
            cases.append((kind, "all", d, "many" if c.thorough else "few"))
    for d in settings() if c.thorough else list(settings())[::5]:
        for p in POINTS["oidc"]:
            cases.append(("oidc", p, d, "few"))
    c.sweep("release rules", cases, configuration,
            rule="base claims x claims by scope x always-added claims x per-client rules, at every release point, at each "
                 "every client configuration x claims request x scope x response type: ID Token (front, code, refresh), "
                 "userinfo, JWT access token, introspection against the reference")
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
