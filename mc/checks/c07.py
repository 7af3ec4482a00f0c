"""C07: PKCE - a challenged code needs its own verifier."""
import base64
import copy
import hashlib

from mc.explore import C_PROBE
from mc.explore import Violation
from mc.explore import count
from mc.lifecycle import CODE
from mc.lifecycle import SHORT_RULES
from mc.lifecycle import Lifecycle
from mc.op import OP
from mc.op import base_conf
from mc.op import client
from mc.report import Check

V = {"v1": "verifier-one-0123456789-0123456789-0123456789-abc", "v2": "verifier-two-0123456789-0123456789-0123456789-xyz"}
METHODS = ("plain", "S256", "S384", "S512")


def challenge(verifier, method):
    if method == "plain":
        return verifier
    h = {"S256": hashlib.sha256, "S384": hashlib.sha384, "S512": hashlib.sha512}[method]
    return base64.urlsafe_b64encode(h(verifier.encode()).digest()).rstrip(b"=").decode()


def pkce_conf(kind="oidc", **kw):
    c = base_conf(kind)
    c["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": kw}}
    if kind == "oauth2":
        c["allowed_scopes"] = ["alpha", "offline_access"]
    return c


class Pkce(Lifecycle):
    """Sessions with and without challenges; every verifier ever used is tried on every code."""

    def __init__(self, *a, challenges=(), verifiers=("absent", "v1", "v2", "challenge", "upper", "hash", "short", "challenge;plain", "v2;mine",
                                               "absent;mine", "v1;plain"), **k):
        Lifecycle.__init__(self, *a, **k)
        self.challenges = challenges
        self.verifiers = verifiers

    def ops(self):
        o = [x for x in Lifecycle.ops(self) if x[0] not in ("redeem", "authz")]
        if len(self.grants) < self.max_grants:
            o += [("authz", u, c, 0, rt, m, v) for u in self.users for c in self.cids for rt in self.rts
                  for m, v in self.challenges]
        if self.sso:
            o += [("sso", g.i, m, v) for g in self.grants if g.active() for m, v in self.challenges
                  if len(self.grants) < self.max_grants]
        if len(self.tokens) < self.max_tokens:
            o += [("try", t.i, w) for t in self.tokens if t.kind == CODE for w in self.verifiers]
        return o

    def areq(self, cid, s, gi, rt="code"):
        r = Lifecycle.areq(self, cid, s, gi, rt)
        m, v = self.now
        if v:
            r["code_challenge"] = challenge(V[v], m or "plain")
            if m:
                r["code_challenge_method"] = m
        return r

    def do_authz(self, user, cid, s, rt, m, v):
        self.now = (m, v)
        Lifecycle.do_authz(self, user, cid, s, rt)
        self.grants[-1].pkce = (m or "plain", v) if v else None

    def do_sso(self, gi, m, v):
        """A further request in the same browser session, with its own challenge."""
        from mc.lifecycle import MGrant
        from mc import clock
        self.now = (m, v)
        old = self.grants[gi]
        n = len(self.grants)
        req = self.areq(old.cid, 0, n)
        req.pop("prompt", None)
        req["scope"] = "openid"
        r = self.op.authz(req, old.cookies)
        g = MGrant(n, old.user, old.cid, ["openid"], clock.now() + self.grant_exp, self.m_rules(old.cid), old.authn_until)
        g.req, g.rt, g.nonce = req, "code", req.get("nonce")
        g.pkce = (m or "plain", v) if v else None
        self.grants.append(g)
        first = self._adopt_authz(r, g)
        g.cookies = self.op.session_cookie(r)
        g.sid = self.op.mngr.get_session_info_by_token(first.value)["session_id"]

    def do_try(self, ti, w):
        t = self.tokens[ti]
        g = t.grant
        req = self.op.treq(t.value, g.cid)
        own = g.req.get("code_challenge", "")
        w, _, extra = w.partition(";")  # parameters of the authorization request have no say in a token request
        if extra == "plain":
            req["code_challenge_method"] = "plain"
        elif extra == "mine":
            req.update(code_challenge=challenge(V["v2"], "S256"), code_challenge_method="S256")
        ver = {"absent": None, "challenge": own, "upper": V["v1"].upper(), "short": V["v1"][:-1],
               "hash": challenge(V["v1"], "S256")}.get(w, V.get(w))
        if ver:
            req["code_verifier"] = ver
        ok = t.active() and (g.pkce is None or (ver and challenge(ver, g.pkce[0]) == own))
        replay = self.kind == "oidc" and t.used > 0
        r = self.op.token(req, **self._kw())
        self.compare(ok, r, f"code {ti} with challenge {g.pkce} and verifier {w}")
        if replay:
            gone = [d for d in self.descendants(t)]
            for d in gone:
                d.revoked = True
        if ok:
            self.adopt_answer(r, t, g.scope)
            t.used += 1


ALLC = [(None, None), (None, "v1"), ("plain", "v1"), ("S256", "v1"), ("S256", "v2"), ("S384", "v1"), ("S512", "v2")]


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    k = dict(rules=SHORT_RULES, grant_exp=3000, max_tokens=10, scopes=(("openid", "offline_access"),))
    few = [(None, None), (None, "v1"), ("S256", "v1"), ("S256", "v2")]
    yield Pkce("every challenge and verifier", conf=pkce_conf, challenges=ALLC, max_grants=1, alphabet=("refresh",), **k), 4
    yield Pkce("two sessions", conf=pkce_conf, challenges=few, verifiers=("absent", "v1", "v2", "challenge", "challenge;plain"),
               max_grants=2, alphabet=(), **k), 4 + x
    yield Pkce("two clients", conf=pkce_conf, challenges=few[1:], verifiers=("absent", "v1", "v2"), max_grants=2,
               cids=("client_1", "client_2"), alphabet=("tick",), **k), 4
    yield Pkce("one browser session", conf=pkce_conf, challenges=few, verifiers=("absent", "v1", "v2"), max_grants=3,
               sso=True, alphabet=(), **k), 4
    yield Pkce("hybrid", conf=pkce_conf, challenges=few, verifiers=("absent", "v1", "v2"), max_grants=2,
               rts=("code token", "code id_token"), alphabet=(), **k), 3
    yield Pkce("oauth2", kind="oauth2", conf=lambda: pkce_conf("oauth2"), challenges=ALLC, max_grants=2,
               issue_refresh=True, alphabet=("refresh",), **dict(k, scopes=(("alpha",),))), 3 + x
    yield Pkce("jwt", conf=pkce_conf, challenges=few, verifiers=("absent", "v1", "v2"), max_grants=2,
               jwt=("code", "token", "refresh"), alphabet=(), **k), 3


NAMES = ("code_challenge_methods", "code_challenge_method")
SETS = (None, ("S256",), ("plain",), ("S256", "S384", "S512"), ("plain", "S512"))


def config_cases():
    for kind in ("oidc", "oauth2"):
        for name in NAMES:
            for conf in SETS:
                for form in ("list", "string"):
                    if conf is None and (form == "string" or name != NAMES[0]):
                        continue
                    if name == NAMES[0] and form == "string":
                        continue
                    for ess in (None, True, False):
                        for cess in (None, True, False):
                            yield kind, name, conf, form, ess, cess


def config(case):
    """One configuration: every request, in turn, at one provider."""
    kind, name, conf, form, ess, cess = case
    kw = {}
    if conf:
        kw[name] = list(conf) if form == "list" else " ".join(conf)
    if ess is not None:
        kw["essential"] = ess
    cl = {"client_1": client(1), "client_2": client(2)}
    if cess is not None:
        cl["client_1"]["pkce_essential"] = cess
    op = OP(pkce_conf(kind, **kw), cl, kind=kind)
    n = 0
    for cid in ("client_1", "client_2"):
        need = cess if cess is not None and cid == "client_1" else bool(ess)
        for method in (None, "plain", "S256", "S384", "S512", "s256", "S1", "none"):
            for ch in (True, False):
                for rt in ("code", "code id_token") if kind == "oidc" else ("code",):
                    n += 1
                    count(C_PROBE)
                    one(op, case + (cid, method, ch, rt), kind, cid, need, conf, method, ch, rt, n)
    return f"need={need}"


def one(op, case, kind, cid, need, conf, method, ch, rt, n):
    req = op.areq(cid, scope=("openid",) if kind == "oidc" else ("alpha",), response_type=rt, state=f"s{n}", nonce=f"n{n}")
    if method:
        req["code_challenge_method"] = method
    v = V["v1"]
    if ch:
        req["code_challenge"] = challenge(v, method) if method in METHODS else v
    r = op.authz_as("diana", req)
    ok = (not need or ch) and (not ch or (method or "plain") in (conf or METHODS))
    if r.ok != ok:
        raise Violation(f"{case}: authorization {'must work' if ok else 'must be refused'}: {r.brief()}", sig="pkce config")
    if not ok:
        return
    good = op.treq(r["code"], cid)
    bad = dict(good)
    if ch:
        good["code_verifier"] = v
        bad["code_verifier"] = v + "x"
        for b in (bad, op.treq(r["code"], cid)):
            t = op.token(b)
            if t.ok:
                raise Violation(f"{case}: redeemed with {b.get('code_verifier')}", sig="wrong verifier accepted")
    t = op.token(good)
    if not t.ok:
        raise Violation(f"{case}: not redeemed: {t.brief()}", sig="right verifier refused")


def main(tier):
    c = Check("C07", tier)
    for s, d in scenarios(tier):
        c.explore(s, d)
    cases = list(config_cases())
    c.sweep("configurations", cases, config,
            rule="provider kind x configuration name and form x allowed methods x essential (provider, client); at each "
                 "every client x request method x challenge present x response type, with right, wrong and no verifier")
    return c.finish("model_checking")
