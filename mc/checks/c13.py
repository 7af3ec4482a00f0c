"""C13: a user has one stable subject identifier per policy, and the right one."""
import json

from mc import clock
from mc.explore import C_PROBE
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.explore import op_state
from mc.op import OP
from mc.op import USERS
from mc.op import base_conf
from mc.op import client
from mc.op import jwt_claims
from mc.op import jwt_tokens
from mc.report import Check

# client -> (policy, sector); sectors that are hosts are computed from what the client registered
SECTORS = {
    "client_1": (dict(), ("public", None)),
    "client_2": (dict(subject_type="pairwise", redirect_uris=[("https://sub.example.com/cb", None), ("https://sub.example.com/x", None)]),
                 ("pairwise", "sub.example.com")),
    "client_3": (dict(subject_type="pairwise", redirect_uris=[("https://sub.example.com/other", None)]),
                 ("pairwise", "sub.example.com")),
    "client_4": (dict(subject_type="pairwise", redirect_uris=[("https://a.example.org/cb", None), ("https://b.example.org/cb", None)],
                      sector_identifier_uri="https://sector.example.net/si.json", sector_id="https://sector.example.net/si.json"),
                 ("pairwise", "sector.example.net")),
    "client_5": (dict(subject_type="pairwise", redirect_uris=[("https://c.example.org/cb", None)],
                      sector_identifier_uri="https://sector.example.net/si.json", sector_id="https://sector.example.net/si.json"),
                 ("pairwise", "sector.example.net")),
    "client_6": (dict(subject_type="public", redirect_uris=[("https://sub.example.com/six", None)]), ("public", None)),
    "client_7": (dict(subject_type="ephemeral"), ("ephemeral", None)),
    "client_8": (dict(subject_type="pairwise", redirect_uris=[("https://d.example.org/cb", None), ("https://e.example.org/cb", None)]),
                 ("pairwise", "client_8")),
}


class Model:
    def __init__(self, op, raw=False):
        self.op, self.raw = op, raw
        self.subs = {}  # class -> sub
        self.tok = []  # (kind, value, class)
        self.ngrants = 0

    def cls(self, user, cid, grant):
        pol, sector = SECTORS[cid][1]
        return json.dumps({"public": ["public", user], "pairwise": ["pairwise", user, sector],
                           "ephemeral": ["ephemeral", grant]}[pol])

    def see(self, sub, cls, what):
        if not isinstance(sub, str) or not sub:
            raise Violation(f"{what}: subject is {sub!r}", sig="no subject")
        for k, v in self.subs.items():
            if k == cls and v != sub:
                raise Violation(f"{what}: subject changed for {cls}", sig="unstable", old=v, new=sub)
            if k != cls and v == sub:
                raise Violation(f"{what}: {cls} and {k} have the same subject {sub}", sig="shared")
        self.subs[cls] = sub
        user = json.loads(cls)[1]
        if not self.raw and json.loads(cls)[0] != "ephemeral" and user and str(user) in sub:
            raise Violation(f"{what}: subject {sub} exposes the user name {user}", sig="exposed")

    def probe(self):
        for kind, v, cls, cid in self.tok:
            count(C_PROBE)
            if kind == "id_token":
                self.see(jwt_claims(v)["sub"], cls, "ID Token")
                continue
            if kind == "access_token" and self.op.kind == "oidc":
                r = self.op.userinfo(v)
                if r.ok:
                    self.see(r["sub"], cls, "userinfo")
            r = self.op.introspect(v, cid)
            if r.ok and r["active"]:
                self.see(r["sub"], cls, f"introspection of the {kind}")
            if v.count(".") == 2:
                self.see(jwt_claims(v)["sub"], cls, f"JWT {kind}")

    def got(self, r, cls, cid):
        for k in ("id_token", "access_token", "refresh_token"):
            if k in r:
                self.tok.append((k, r[k], cls, cid))


def conf(kind, subs, jwt):
    c = base_conf(kind)
    sp = c["session_params"]
    if subs == "default":
        del sp["sub_func"]
    elif subs == "raw":
        sp["sub_func"] = {"public": {"class": "oidcop.session.manager.RawID", "kwargs": {}}}
    elif subs == "same salt":
        pass
    else:
        for k, f in sp["sub_func"].items():
            f["kwargs"]["salt"] = f"salt of {k}"
    if jwt:
        jwt_tokens(c)
    if kind == "oauth2":
        c["allowed_scopes"] = ["profile", "email"]
    users = {u: dict(v, sub="their own", user_id="x") for u, v in USERS.items()}
    users["dian"] = {"name": "D"}
    for u in ODD + (" diana ",):
        users[u] = {"name": "O"}
    users["bob"], users["bobs"] = {"name": "Bob"}, {"name": "Bobs"}
    c["userinfo"]["kwargs"]["db"] = users
    return c


ODD = ("Diana", "DIANA", " diana", "diana ", "diana@example.com", "di ana", "diåna", "diana%40", "di;ana", "di/ana", "diana:client_1", "1234567890")


class History(Scenario):
    def __init__(self, name, cids, users, kind="oidc", subs="classes", jwt=False, rts=("code id_token",), noise=False,
                 maxg=3, refresh=True, restore=False):
        self.name, self.cids, self.users, self.kind, self.subs, self.jwt = name, cids, users, kind, subs, jwt
        self.rts, self.noise, self.maxg, self.refresh, self.restore = rts, noise, maxg, refresh, restore

    def setup(self):
        self.cl = {c: client(int(c[-1]), **SECTORS[c][0]) for c in self.cids}
        self.conf = conf(self.kind, self.subs, self.jwt)
        self.op = OP(self.conf, self.cl, kind=self.kind)
        self.m = Model(self.op, raw=self.subs == "raw")
        self.n, self.grants, self.cookies, self.codes, self.rt = 0, 0, [], [], []

    def ops(self):
        out = []
        if self.grants < self.maxg:
            out += [("login", u, c, rt, x) for u in self.users for c in self.cids for rt in self.rts
                    for x in ((False, True) if self.noise else (False,))]
            out += [("sso", i, c, same) for i in range(len(self.cookies)) for c in self.cids for same in (False, True)]
        out += [("redeem", i) for i in range(len(self.codes))]
        if self.refresh:
            out += [("refresh", i) for i in range(len(self.rt))]
        if self.restore:
            out += [("restore",)]
        return out

    def req(self, cid, rt, noise, n):
        kw = {}
        scope = ("profile",) if self.kind == "oauth2" else ("openid",)
        if self.refresh and self.kind == "oidc" and "code" in rt.split():
            kw["prompt"] = "consent"
            scope = ("openid", "offline_access")
        if noise:
            kw["sector_identifier_uri"] = "https://sub.example.com/si"
            kw["sub_type"] = kw["subject_type"] = "public"
            kw["sub"] = "someone else"
            if self.kind == "oidc":
                kw["claims"] = json.dumps({"userinfo": {"sub": {"essential": True}}, "id_token": {"sub": None}})
        return self.op.areq(cid, scope=scope, response_type=rt, state=f"s{n}", nonce=f"n{n}", **kw)

    def answered(self, r, user, cid, req, new=True):
        if not r.ok:
            raise Violation(f"authorization failed: {r.brief()}", sig="authorization failed")
        if new:
            self.grants += 1
            grant = self.grants
        else:
            grant = new
        cls = self.m.cls(user, cid, self.grants)
        self.m.got(r, cls, cid)
        if "code" in r:
            self.codes.append((r["code"], cls, cid, req))
        self.cookies.append((self.op.session_cookie(r), user, cid, req, cls))

    def apply(self, o):
        op = self.op
        clock.advance(1)
        if o[0] == "login":
            self.n += 1
            req = self.req(o[2], o[3], o[4], self.n)
            self.answered(op.authz_as(o[1], req), o[1], o[2], req)
        elif o[0] == "sso":
            ck, user, cid, req0, cls0 = self.cookies[o[1]]
            self.n += 1
            req = req0 if o[3] and cid == o[2] else self.req(o[2], self.rts[0], False, self.n)
            r = op.authz(req, cookies=ck)
            if r.kind == "login":
                user = self.users[0]
                self.answered(op.login(r, user), user, o[2], req)
            elif req is req0:  # the grant is used again
                self.m.got(r, cls0, cid)
                if "code" in r:
                    self.codes.append((r["code"], cls0, cid, req))
            else:
                self.answered(r, user, o[2], req)
        elif o[0] == "redeem":
            code, cls, cid, req = self.codes.pop(o[1])
            kw = {"issue_refresh": True} if op.kind == "oauth2" else {}
            r = op.token(op.treq(code, cid), **kw)
            if not r.ok:
                raise Violation(f"code refused: {r.brief()}", sig="code refused")
            self.m.got(r, cls, cid)
            if "refresh_token" in r:
                self.rt.append((r["refresh_token"], cls, cid))
        elif o[0] == "refresh":
            v, cls, cid = self.rt[o[1]]
            r = op.token(op.rreq(v, cid))
            if not r.ok:
                raise Violation(f"refresh refused: {r.brief()}", sig="refresh refused")
            self.m.got(r, cls, cid)
        elif o[0] == "restore":
            dump = json.loads(json.dumps(op.ctx.dump()))
            new = OP(self.conf, self.cl, kind=self.kind)
            new.ctx.load(dump, init_args={"server_get": new.server.server_get, "handler": new.mngr.token_handler})
            self.op = self.m.op = new

    def invariant(self):
        self.m.probe()

    def key(self):
        return op_state(self.op, {}, set()) + json.dumps([sorted(self.m.subs), [t[2:] for t in self.m.tok],
                                                          [c[1:] for c in self.codes], len(self.cookies)])


# ------------------------------------------------------------------ all pairs of (user, client)
def pairs(case):
    """One provider: every user at every client, twice; the subjects are exactly as different as the policies say."""
    kind, subs, jwt, order = case
    cl = {c: client(int(c[-1]), **SECTORS[c][0]) for c in SECTORS}
    op = OP(conf(kind, subs, jwt), cl, kind=kind)
    m = Model(op, raw=subs == "raw")
    todo = [(u, c) for u in ("diana", "dian", "babs", "upper") + ODD for c in cl] * 2
    if order:
        todo.reverse()
    for i, (u, c) in enumerate(todo):
        scope = ("profile",) if kind == "oauth2" else ("openid",)
        rt = "code" if kind == "oauth2" else ("code id_token", "id_token token", "code")[i % 3]
        r = op.authz_as(u, op.areq(c, scope=scope, response_type=rt, state=f"s{i}", nonce=f"n{i}"))
        if not r.ok:
            raise Violation(f"{u} at {c}: {r.brief()}", sig="authorization failed")
        cls = m.cls(u, c, i)
        m.got(r, cls, c)
        if "code" in r:
            t = op.token(op.treq(r["code"], c))
            if not t.ok:
                raise Violation(f"{u} at {c}: {t.brief()}", sig="redeem failed")
            m.got(t, cls, c)
        m.probe()
        m.tok.clear()
    return "ok"


def boundary(case):
    """User names and sectors that are equal when written one after the other."""
    kind, jwt = case
    c1 = client(2, subject_type="pairwise", redirect_uris=[("https://sub.example.com/cb", None)])
    c2 = client(3, subject_type="pairwise", redirect_uris=[("https://ub.example.com/cb", None)])
    op = OP(conf(kind, "classes", jwt), {"client_2": c1, "client_3": c2}, kind=kind)
    subs = {}
    for u, c in (("bob", "client_2"), ("bobs", "client_3")):
        scope = ("profile",) if kind == "oauth2" else ("openid",)
        r = op.authz_as(u, op.areq(c, scope=scope))
        t = op.token(op.treq(r["code"], c))
        subs[u, c] = op.introspect(t["access_token"], c)["sub"]
    if len(set(subs.values())) != 2:
        raise Violation(f"two users at two sectors have the same pairwise subject: {subs}", sig="name and sector run together")
    return "ok"


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    yield History("policies side by side", ("client_1", "client_2", "client_3", "client_7"), ("diana", "babs"), noise=True), 3 + x
    yield History("sectors", ("client_2", "client_4", "client_5", "client_8"), ("diana", "dian"), jwt=True), 3 + x
    yield History("single sign-on and refresh", ("client_2", "client_7"), ("diana", "babs"), maxg=4), 4 + x
    yield History("look-alike names", ("client_1", "client_2"), ("Diana", "diana", " diana ", "diåna"), maxg=3), 3 + x
    yield History("default functions", ("client_1", "client_2", "client_7"), ("diana", "babs"), subs="default"), 3 + x
    yield History("user names", ("client_1", "client_2"), ("diana", "babs"), subs="raw"), 3 + x
    yield History("oauth2", ("client_1", "client_2", "client_7"), ("diana", "babs"), kind="oauth2", rts=("code",), jwt=True), 4 + x
    yield History("restored in between", ("client_2", "client_7"), ("diana", "babs"), restore=True, refresh=False), 4 + x


def main(tier):
    c = Check("C13", tier)
    c.sweep("all users at all clients", [(k, s, j, o) for k in ("oidc", "oauth2") for s in ("classes", "default", "raw")
                                         for j in (False, True) for o in (False, True)], pairs,
            rule="subject functions x token formats x orders; 16 users x 8 clients twice: subject classes")
    c.sweep("boundaries", [(k, j) for k in ("oidc", "oauth2") for j in (False, True)], boundary,
            rule="user names and sectors whose concatenations are equal")
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
