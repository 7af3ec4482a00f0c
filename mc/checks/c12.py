"""C12: every ID Token is signed and bound to its own request, client and session."""
import base64
import copy
import hashlib
import itertools
import json

from cryptojwt.jws.jws import factory
from cryptojwt.key_jar import KeyJar

from mc import clock
from mc.explore import C_PROBE
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.explore import op_state
from mc.op import ACR
from mc.op import ACR2
from mc.op import ISSUER
from mc.op import OP
from mc.op import HarnessAuthn
from mc.op import base_conf
from mc.op import client
from mc.op import jwt_claims
from mc.op import jwt_header
from mc.op import jwt_tokens
from mc.op import logout_conf
from mc.report import Check

HASH = {"256": hashlib.sha256, "384": hashlib.sha384, "512": hashlib.sha512}
RTS = ["code", "id_token", "code id_token", "id_token token", "code id_token token", "code token"]


def half_hash(value, alg):
    d = HASH[alg[-3:]](value.encode()).digest()
    return base64.urlsafe_b64encode(d[:len(d) // 2]).decode().rstrip("=")


def published(op, cid):
    """The keys a client verifies with: those the provider publishes, and its own secret."""
    kj = KeyJar()
    kj.import_jwks(json.loads(op.ctx.keyjar.export_jwks_as_json()), "")
    keys = list(kj.get_issuer_keys(""))
    if any(k.is_private_key() for k in keys if hasattr(k, "is_private_key") and k.kty != "oct"):
        raise Violation("the published keys contain a private key", sig="private key published")
    kj2 = KeyJar()
    kj2.add_symmetric("", op.ctx.cdb[cid]["client_secret"])
    return keys, list(kj2.get_issuer_keys(""))


def verify(op, tok, cid, alg):
    h = jwt_header(tok)
    if h["alg"] != alg:
        raise Violation(f"ID Token signed with {h['alg']}, configured is {alg}", sig="wrong algorithm")
    pub, sym = published(op, cid)
    try:
        return factory(tok, alg=alg).verify_compact(tok, sym if alg.startswith("HS") else pub, sigalg=alg)
    except Exception as e:
        raise Violation(f"ID Token for {cid} does not verify: {type(e).__name__} {e}", sig="does not verify")


def check_token(op, tok, alg, sess, lifetime, beside=None, demanded=()):
    """sess: dict(client, nonce, sub, auth_time, acr); beside: {'code'/'access_token': value} returned beside it."""
    count(C_PROBE)
    c = verify(op, tok, sess["client"], alg)
    bad = {}

    def want(k, v):
        if c.get(k) != v:
            bad[k] = (c.get(k), v)

    want("iss", ISSUER)
    want("aud", [sess["client"]])
    want("nonce", sess["nonce"])
    want("auth_time", sess["auth_time"])
    want("acr", sess["acr"])
    want("iat", clock.now())
    want("exp", clock.now() + lifetime)
    if c.get("azp", sess["client"]) != sess["client"]:
        bad["azp"] = c["azp"]
    if sess.get("sub") is not None:
        want("sub", sess["sub"])
    if not c.get("sub"):
        bad["sub"] = c.get("sub")
    beside = beside or {}
    for name, what in (("c_hash", "code"), ("at_hash", "access_token")):
        if what in demanded:
            want(name, half_hash(beside[what], alg))
        elif name in c and (what not in beside or c[name] != half_hash(beside[what], alg)):
            bad[name] = (c[name], None)
    if bad:
        raise Violation(f"ID Token of {sess}: {bad}", sig="wrong " + ",".join(sorted(bad)))
    return c


def demanded(rt):
    return [x for x in (["code"] if "code" in rt.split() else []) + (["access_token"] if "token" in rt.split() else [])]


# ------------------------------------------------------------------ algorithms, lifetimes, response types
SUPPORTED = [None, ["ES256"], ["RS256"], ["PS384", "RS256", "ES256"], ["ES256", "HS256"]]
REGISTERED = [None, "RS256", "ES256", "PS256", "RS512", "HS256", "HS384"]


def expected_alg(supported, registered):
    if registered:
        return registered
    if not supported or "RS256" in supported:
        return "RS256"
    return supported[0]


def algorithms(case):
    supported, registered, lifetime, jwt_at, with_logout = case
    c = base_conf()
    kw = c["token_handler_args"]["id_token"]["kwargs"]
    if supported:
        kw["id_token_signing_alg_values_supported"] = supported
    if lifetime:
        kw["lifetime"] = lifetime
    if jwt_at:
        jwt_tokens(c)
    if with_logout:
        logout_conf(c, backchannel_logout_supported=True, backchannel_logout_session_supported=True,
                    frontchannel_logout_supported=True, frontchannel_logout_session_supported=True)
    c["userinfo"]["kwargs"]["db"]["diana"].update({"iss": "https://evil.example", "aud": "evil", "exp": 1, "acr": "evil",
                                                   "nonce": "evil", "auth_time": 1, "sub": "evil"})
    extra = {"id_token_signed_response_alg": registered} if registered else {}
    op = OP(c, {"client_1": client(1, backchannel_logout_uri="https://rp1.example.com/bc", **extra),
                "client_2": client(2)})
    life = lifetime or 300
    alg = expected_alg(supported, registered)
    evil = json.dumps({"id_token": {k: None for k in ("iss", "aud", "exp", "acr", "nonce", "auth_time", "sub")}})
    for cid in ("client_1", "client_2"):
        a = alg if cid == "client_1" else expected_alg(supported, None)
        for rt in RTS:
            for nonce in ("n-0S6_WzA2Mj", None):
                for claims in (None, evil):
                    clock.advance(7)
                    kw = {"claims": claims} if claims else {}
                    r = op.authz(op.areq(cid, scope=("openid", "offline_access") if "code" in rt.split() else ("openid",),
                                         response_type=rt, nonce=nonce, prompt="consent", **kw))
                    if nonce is None and r.kind in ("error", "refused"):
                        if "id_token" not in rt.split():
                            raise Violation(f"{rt} without nonce: {r.brief()}", sig="nonce not required")
                        continue
                    clock.advance(5)
                    r = op.login(r, "diana") if r.kind == "login" else r
                    if not r.ok:
                        raise Violation(f"{case} {rt}: {r.brief()}", sig="authorization failed")
                    sess = {"client": cid, "nonce": nonce, "auth_time": clock.now(), "acr": ACR, "sub": None}
                    if "id_token" in rt.split():
                        t = check_token(op, r["id_token"], a, sess, life, r.params, demanded(rt))
                        sess["sub"] = t["sub"]
                    elif "id_token" in r:
                        raise Violation("ID Token nobody asked for", sig="unasked")
                    if "code" in r:
                        clock.advance(3)
                        t = op.token(op.treq(r["code"], cid))
                        if not t.ok or "id_token" not in t:
                            raise Violation(f"{case} {rt}: {t.brief()}", sig="token request failed")
                        p = check_token(op, t["id_token"], a, sess, life, dict(t.params, code=r["code"]))
                        sess["sub"] = p["sub"]
                        if op.userinfo(t["access_token"]).get("sub") != p["sub"]:
                            raise Violation("ID Token and userinfo have different subjects", sig="subject")
                        clock.advance(3)
                        if "refresh_token" not in t:
                            raise Violation("no refresh token", sig="no refresh token")
                        t = op.token(op.rreq(t["refresh_token"], cid))
                        if not t.ok:
                            raise Violation(f"{case} {rt}: {t.brief()}", sig="refresh failed")
                        if "id_token" in t:
                            check_token(op, t["id_token"], a, sess, life, t.params)
    return "ok"


# ------------------------------------------------------------------ histories
class History(Scenario):
    """Authorization requests of several users at several clients, their logins, redemptions, refreshes and SSO in any
    order; every ID Token belongs to its own request."""

    def __init__(self, name, requests, users, algs=None, sso=False, refresh=True, clients=2, redeem_twice=False):
        self.name, self.requests, self.users, self.algs = name, requests, users, algs or {}
        self.sso, self.refresh, self.nclients = sso, refresh, clients

    def setup(self):
        c = base_conf()
        c["token_handler_args"]["id_token"]["kwargs"]["lifetime"] = 900
        c["authz"]["kwargs"]["grant_config"]["usage_rules"]["refresh_token"]["supports_minting"] = [
            "access_token", "refresh_token", "id_token"]
        c["authentication"]["totp"] = {"acr": ACR2, "class": "mc.op.HarnessAuthn", "kwargs": {}}
        self.op = OP(c, {f"client_{i}": client(i, **({"id_token_signed_response_alg": self.algs[i]} if i in self.algs else {}))
                         for i in range(1, self.nclients + 1)})
        self.pages, self.codes, self.rts, self.cookies, self.subs, self.n = [], [], [], [], {}, 0
        self.names = {}

    def ops(self):
        out = [("request", i) for i in range(len(self.requests))] if self.n < 3 else []
        out += [("login", i, u) for i in range(len(self.pages)) for u in self.users]
        out += [("redeem", i) for i in range(len(self.codes))]
        if self.refresh:
            out += [("refresh", i) for i in range(len(self.rts))]
        if self.sso:
            out += [("sso", i, j) for i in range(len(self.cookies)) for j in range(len(self.requests))]
        return out

    def alg(self, cid):
        return self.algs.get(int(cid[-1]), "RS256")

    def areq(self, i):
        cid, rt, nonce, acr = self.requests[i]
        self.n += 1
        kw = {"acr_values": acr} if acr else {}
        if "code" in rt.split() and self.refresh:
            kw["prompt"] = "consent"
        nonce = f"{nonce}-{self.n}" if nonce else None
        return self.op.areq(cid, scope=("openid", "offline_access") if "prompt" in kw else ("openid",), response_type=rt,
                            nonce=nonce, state=f"state{self.n}", **kw), rt, nonce

    def answer(self, r, sess, rt, state):
        if not r.ok:
            raise Violation(f"login refused: {r.brief()}", sig="login refused")
        if r.get("state") != state:
            raise Violation("state of another request", sig="state mixed up")
        if "id_token" in rt.split():
            c = check_token(self.op, r["id_token"], self.alg(sess["client"]), sess, 900, r.params, demanded(rt))
            self.same_sub(sess, c["sub"])
        if "code" in r:
            self.codes.append((r["code"], sess))
        if "access_token" in r:
            self.same_sub(sess, self.op.userinfo(r["access_token"])["sub"])
        if self.sso:
            self.cookies.append((self.op.session_cookie(r), sess))

    def same_sub(self, sess, sub):
        """Public subjects: one per user."""
        old = self.subs.setdefault(sess["user"], sub)
        if old != sub or sub in [v for k, v in self.subs.items() if k != sess["user"]]:
            raise Violation(f"subject of {sess['user']} is {sub}, others {self.subs}", sig="subject")

    def apply(self, o):
        op = self.op
        clock.advance(10)
        if o[0] == "request":
            p, rt, nonce = self.areq(o[1])
            r = op.authz(p)
            if r.kind != "login":
                raise Violation(f"no login page: {r.brief()}", sig="no login page")
            self.pages.append((r, p, rt, nonce))
        elif o[0] == "login":
            r, p, rt, nonce = self.pages.pop(o[1])
            acr = r.raw["authn_class_ref"]
            a = op.login(r, o[2])
            self.answer(a, {"client": p["client_id"], "nonce": nonce, "auth_time": clock.now(), "acr": acr, "user": o[2]},
                        rt, p["state"])
        elif o[0] == "sso":
            ck, sess = self.cookies[o[1]]
            p, rt, nonce = self.areq(o[2])
            r = op.authz(p, cookies=ck)
            if r.kind == "login":
                if p["client_id"] == sess["client"]:
                    raise Violation("SSO was expected", sig="no sso")
                self.pages.append((r, p, rt, nonce))
                return
            if p["client_id"] != sess["client"]:
                raise Violation("SSO for another client", sig="sso")
            self.answer(r, dict(sess, nonce=nonce), rt, p["state"])
        elif o[0] == "redeem":
            code, sess = self.codes.pop(o[1])
            r = op.token(op.treq(code, sess["client"]))
            if not r.ok or "id_token" not in r:
                raise Violation(f"code refused: {r.brief()}", sig="code refused")
            c = check_token(op, r["id_token"], self.alg(sess["client"]), sess, 900, dict(r.params, code=code))
            self.same_sub(sess, c["sub"])
            if "refresh_token" in r:
                self.rts.append((r["refresh_token"], sess))
        elif o[0] == "refresh":
            rt, sess = self.rts[o[1]]
            r = op.token(op.rreq(rt, sess["client"]))
            if not r.ok or "id_token" not in r:
                raise Violation(f"refresh refused: {r.brief()}", sig="refresh refused")
            c = check_token(op, r["id_token"], self.alg(sess["client"]), sess, 900, r.params)
            self.same_sub(sess, c["sub"])

    def key(self):
        return op_state(self.op, {}, set()) + json.dumps(
            [[(p["state"], rt) for _, p, rt, _ in self.pages], [s for _, s in self.codes], [s for _, s in self.rts],
             [s for _, s in self.cookies], self.n, clock.now()], default=str)


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    two = ("diana", "babs")
    yield History("code flows of two clients and users", [("client_1", "code", "n", None), ("client_2", "code", None, None)],
                  two, algs={2: "ES256"}), 5 + x
    yield History("hybrid and implicit", [("client_1", "code id_token token", "n", None), ("client_2", "id_token", "m", ACR2),
                                          ("client_1", "id_token token", "k", ACR2)], two, algs={1: "HS256"},
                  refresh=False), 5 + x
    yield History("single sign-on", [("client_1", "code", "n", None), ("client_1", "code id_token", "m", None),
                                     ("client_2", "id_token", "k", ACR2)], two, sso=True, refresh=False), 4 + x


def main(tier):
    c = Check("C12", tier)
    cases = list(itertools.product(SUPPORTED, REGISTERED, (None, 60, 86400) if c.thorough else (None, 86400), (False, True),
                                   (False, True) if c.thorough else (True,)))
    c.sweep("algorithms and response types", cases, algorithms,
            rule="provider's supported algorithms x client's registered algorithm x configured lifetime x opaque/JWT tokens; "
                 "in each: two clients x response types x nonce x hostile user attributes, at authorization, redemption, refresh")
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
