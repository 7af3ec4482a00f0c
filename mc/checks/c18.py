"""C18: a pushed authorization request is used once, by its own client, in time."""
import itertools
import json
from urllib.parse import parse_qs

from cryptojwt.jws.jws import JWS

from mc import clock
from mc import schedule
from mc.checks.c01 import files
from mc.checks.c01 import thread_cases
from mc.checks.c07 import V
from mc.checks.c07 import challenge
from mc.checks.c09 import claims
from mc.checks.c09 import key
from mc.checks.c09 import sign
from mc.checks.c09 import sym
from mc.explore import C_PROBE
from mc.explore import C_SCHED
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.explore import op_state
from mc.op import ACR
from mc.op import ALL_RT
from mc.op import OP
from mc.op import base_conf
from mc.op import basic
from mc.op import client
from mc.op import jwt_claims
from mc.op import private_keyjar
from mc.report import Check

METHODS = ["client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt"]
OTHER = "https://rp1.example.com/other?foo=bar"


def par_conf(kind, ttl=None, pkce=False):
    c = base_conf(kind)
    c["endpoint"]["pushed_authorization"] = {
        "path": "pushed", "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization",
        "kwargs": {"client_authn_method": METHODS}}
    if ttl is not None:
        c["endpoint"]["pushed_authorization"]["kwargs"]["ttl"] = ttl
    if pkce:
        c["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {}}}
    c["allowed_scopes"] = ["alpha", "beta", "openid", "offline_access"]
    return c


def clients():
    return {"client_1": client(1, redirect_uris=[("https://rp1.example.com/cb", None), ("https://rp1.example.com/other", {"foo": ["bar"]})],
                               token_endpoint_auth_method="client_secret_post"),
            "client_2": client(2)}


# ---------------------------------------------------------------- histories
BAD = ("secret", "nobody", "no credentials", "redirect", "type", "own uri", "other uri", "plain uri", "unknown client", "object", "ttl")


def kept(op):
    """The pushed requests that are waiting, as far as they can be seen."""
    return op.ctx.dump().get("par_db") or {}


class PAR(Scenario):
    def __init__(self, name, kind="oidc", cids=("client_1", "client_2"), variants=("a",), ttl=None, pushes=2, odd=(), bad=(), ticks=(),
                 sso=False, restart=False):
        self.restart = restart
        self.name, self.kind, self.cids, self.variants, self.ttl, self.pushes = name, kind, cids, variants, ttl, pushes
        self.odd, self.bad, self.ticks, self.sso = odd, bad, ticks, sso

    def setup(self):
        self.op = OP(par_conf(self.kind, self.ttl), clients(), kind=self.kind)
        self.e = []  # dict(owner, uri, params, at, state new/spent/maybe)
        self.jar = None
        if self.sso:
            self.jar = self.op.session_cookie(self.op.authz_as("diana", self.op.areq("client_1")))

    def params(self, cid, v, n):
        sc = ("openid",) if self.kind == "oidc" else ("alpha",)
        kw = {"a": {}, "b": {"redirect_uri": OTHER} if cid == "client_1" else {}, "silent": {"prompt": "none"}, "same": {},
              "form": {"response_mode": "form_post"}}[v]
        p = self.op.areq(cid, scope=sc, state=f"S{n}", nonce=f"N{n}")
        p.update(kw)
        return p

    def ops(self):
        out = []
        if len(self.e) < self.pushes:
            out += [("push", c, v) for c in self.cids for v in self.variants]
        out += [("bad", b) for b in self.bad if b not in ("own uri", "other uri") or self.e]
        for i in range(len(self.e)):
            out += [("use", c, i) for c in self.cids]
            out += [("odd", i, w) for w in self.odd]
        if self.e:
            out += [("tick", t) for t in self.ticks]
            if self.restart:
                out.append(("restart",))
        return out

    def apply(self, o):
        op = self.op
        if o[0] == "tick":
            clock.advance(o[1])
        elif o[0] == "restart":
            self.op = restarted(self.op, par_conf(self.kind, self.ttl), self.kind)
        elif o[0] == "push":
            self.push(o[1], o[2])
        elif o[0] == "bad":
            before = self.kept()
            r = self.push_bad(o[1])
            if r.ok:
                raise Violation(f"a bad request ({o[1]}) was accepted: {r!r}", sig="bad push accepted:" + o[1])
            if self.kept() != before:
                raise Violation(f"a refused request ({o[1]}) left something behind", sig="bad push leaves traces")
        elif o[0] == "use":
            self.use(o[1], o[2])
        elif o[0] == "odd":
            uri = self.e[o[1]]["uri"]
            u = {"upper": uri.upper(), "fragment": uri + "#x", "blank": uri + " ", "cut": uri[:-1], "more": uri + "0", "urn": "urn:uuid:",
                 "other": "urn:uuid:01234567-89ab-cdef-0123-456789abcdef", "oauth": uri.replace("urn:uuid:", "urn:ietf:params:oauth:request_uri:"),
                 "query": uri + "?x=1", "bare": uri[len("urn:uuid:"):]}[o[2]]
            r = self.ask(self.e[o[1]]["owner"], u)
            if r.kind in ("ok", "login"):
                raise Violation(f"{u!r} was accepted instead of {uri!r}", sig="odd uri accepted")

    def kept(self):
        return json.dumps(kept(self.op), sort_keys=True, default=str)

    def push(self, cid, v):
        n = len(self.e)
        p = self.params(cid, v, 0 if v == "same" else n)  # same: the very request that was pushed before
        r = self.op.call("pushed_authorization", dict(p, client_secret=self.op.ctx.cdb[cid]["client_secret"]))
        if not r.ok or set(r.params) != {"request_uri", "expires_in"}:
            raise Violation(f"a good request was not accepted: {r!r}", sig="push refused")
        if int(r["expires_in"]) != (3600 if self.ttl is None else self.ttl):
            raise Violation(f"expires_in is {r['expires_in']}", sig="expires_in")
        if any(x["uri"] == r["request_uri"] for x in self.e):
            raise Violation("the same request_uri was handed out twice", sig="uri repeated")
        self.e.append({"owner": cid, "uri": r["request_uri"], "params": p, "at": clock.now(), "state": "new",
                       "ttl": int(r["expires_in"])})

    def push_bad(self, b):
        op = self.op
        sec = op.ctx.cdb["client_1"]["client_secret"]
        p = dict(self.params("client_1", "a", 99), client_secret=sec)
        if b == "secret":
            p["client_secret"] = "x" + sec[1:]
        elif b == "nobody":
            p["client_id"] = "client_2"
        elif b == "no credentials":
            del p["client_secret"]
        elif b == "redirect":
            p["redirect_uri"] = "https://rp2.example.com/cb"
        elif b == "type":
            p["response_type"] = "code id_token token x"
        elif b == "own uri":
            p["request_uri"] = self.e[0]["uri"]
        elif b == "other uri":
            p["request_uri"] = self.e[-1]["uri"]
        elif b == "plain uri":
            p["request_uri"] = "https://rp1.example.com/request"
        elif b == "unknown client":
            p["client_id"] = "client_9"
        elif b == "object":
            p["request"] = "e30.e30.e30"
        elif b == "ttl":
            p.update(expires_in="1000000", scope="", response_type="")
        return op.call("pushed_authorization", p)

    def ask(self, cid, uri):
        p = self.op.areq(cid, scope=("openid",) if self.kind == "oidc" else ("alpha",), state="OUTER", nonce="OUTER")
        p["request_uri"] = uri
        count(C_PROBE)
        return self.op.authz(p, cookies=self.jar)

    def use(self, cid, i):
        e = self.e[i]
        r = self.ask(cid, e["uri"])
        now, end = clock.now(), e["at"] + e["ttl"]
        what = f"{cid} uses the request {i} of {e['owner']}, {e['state']}, {now - e['at']} of {e['ttl']} s: {r.brief()}"
        begun = r.kind in ("ok", "login") or (r.target is not None and r.stage == "response")
        if begun:
            if cid != e["owner"]:
                raise Violation(f"another client's request is accepted, {what}", sig="foreign request_uri")
            if e["state"] == "spent":
                raise Violation(f"used twice, {what}", sig="request_uri used twice")
            if now > end:
                raise Violation(f"used too late, {what}", sig="request_uri used late")
            e["state"] = "spent"
            p = e["params"]
            if r.kind == "login":
                q = parse_qs(r.raw["query"], keep_blank_values=True)
                if {k: v[0] for k, v in q.items()} != {k: v for k, v in p.items()}:
                    raise Violation(f"the login page is about {q}, not {p}", sig="other parameters")
                r = self.op.login(r, "diana")
            silent = p.get("prompt") == "none" and not (self.jar and cid == "client_1")
            if r.target != p["redirect_uri"].split("?")[0] or r.get("state") != p["state"] or (r.kind == "error") != silent \
                    or (r.mode == "form_post") != (p.get("response_mode") == "form_post"):
                if not (r.mode == "form_post" and r.target == p["redirect_uri"]):
                    raise Violation(f"answered with {r!r} instead of according to {p}", sig="other parameters")
            if r.ok:
                g = self.op.mngr.get_session_info_by_token(r["code"], grant=True)
                if g["client_id"] != e["owner"] or g["grant"].authorization_request.get("nonce") != p.get("nonce"):
                    raise Violation(f"a code of {g['client_id']}", sig="other parameters")
        else:
            if cid == e["owner"] and e["state"] == "new" and now < end:
                raise Violation(f"can not be used, {what}", sig="request_uri refused")
            if e["state"] == "new":
                e["state"] = "maybe"
            if now > end:
                e["state"] = "spent"

    def key(self):
        names = {e["uri"]: f"U{i}" for i, e in enumerate(self.e)}
        now = clock.now()
        return op_state(self.op, names, set()) + repr([(e["owner"], e["params"].get("redirect_uri"), sorted(e["params"]), now - e["at"], e["state"])
                                                       for e in self.e])


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    yield PAR("two clients", pushes=3, variants=("a", "same")), 6 + x
    yield PAR("variants", cids=("client_1",), variants=("a", "same", "b", "silent", "form"), pushes=2 + x), 5 + x
    yield PAR("single sign-on", variants=("a", "same", "silent", "form"), pushes=2, sso=True), 4 + x
    yield PAR("lifetime", pushes=2, ticks=(1, 1800)), 6 + x
    yield PAR("short lifetime", pushes=2, ttl=60, ticks=(1, 59)), 6 + x
    yield PAR("no lifetime", cids=("client_1",), pushes=2, ttl=0, ticks=(1,)), 5 + x
    yield PAR("restarts", pushes=2, ticks=(1900,), variants=("a", "silent"), restart=True), 5 + x
    yield PAR("odd references", cids=("client_1",), pushes=1 + x,
              odd=("upper", "fragment", "blank", "cut", "more", "urn", "other", "oauth", "query", "bare")), 4
    yield PAR("bad requests", cids=("client_1",), pushes=1 + x, bad=BAD), 4
    yield PAR("oauth2", kind="oauth2", pushes=2, ticks=(3700,), variants=("a", "same", "form"), bad=("redirect", "secret", "other uri")), 4 + x


# ---------------------------------------------------------------- the same as a plain request
S256 = {"code_challenge": challenge(V["v1"], "S256"), "code_challenge_method": "S256"}
CLAIMS = json.dumps({"userinfo": {"email": None, "nickname": {"essential": True}}, "id_token": {"given_name": None, "auth_time": None}})
WANT = {
    "plain": {}, "other uri": {"redirect_uri": OTHER}, "no uri": {"redirect_uri": None}, "no state": {"state": None}, "no nonce": {"nonce": None},
    "odd state": {"state": "a&b=c#d\"><x>é%26+ "}, "claims": {"claims": CLAIMS}, "bad claims": {"claims": "{"},
    "acr claim": {"claims": json.dumps({"id_token": {"acr": {"value": ACR}}})},
    "scopes": {"scope": "openid email profile"}, "alpha": {"scope": "alpha"}, "alpha beta": {"scope": "alpha beta"}, "no scope": {"scope": None},
    "unknown scope": {"scope": "openid foo"}, "offline": {"scope": "openid offline_access"},
    "offline consent": {"scope": "openid offline_access", "prompt": "consent"}, "none": {"prompt": "none"}, "login": {"prompt": "login"},
    "none login": {"prompt": "none login"}, "login consent": {"prompt": "login consent"}, "odd prompt": {"prompt": "nonesuch"},
    "max_age": {"max_age": "100"}, "max_age 0": {"max_age": "0"}, "max_age none": {"max_age": "100", "prompt": "none"}, "bad max_age": {"max_age": "x"},
    "acr": {"acr_values": ACR}, "acr unknown": {"acr_values": "urn:x"}, "ui": {"ui_locales": "sv en", "display": "popup"},
    "bad display": {"display": "hologram"}, "token": {"response_type": "token"}, "id_token": {"response_type": "id_token"},
    "id_token no nonce": {"response_type": "id_token", "nonce": None}, "hybrid": {"response_type": "code id_token token"},
    "hybrid turned": {"response_type": "token code"}, "no type": {"response_type": None}, "odd type": {"response_type": "code x"},
    "form": {"response_mode": "form_post"}, "fragment": {"response_mode": "fragment"}, "token query": {"response_type": "token", "response_mode": "query"},
    "odd mode": {"response_mode": "pigeon"}, "pkce": S256, "pkce hybrid": dict(S256, response_type="code token"),
    "bad pkce": {"code_challenge": "x", "code_challenge_method": "S0"}, "extra": {"foo": "bar", "iss": "x"}, "login_hint": {"login_hint": "mail:a@b.c"},
    "hint": {"id_token_hint": "diana"}, "other hint": {"id_token_hint": "babs"}, "hint none": {"id_token_hint": "diana", "prompt": "none"},
    "other hint none": {"id_token_hint": "babs", "prompt": "none"}, "bad hint": {"id_token_hint": "x.y.z"},
    "evil uri": {"redirect_uri": "https://evil.example.net/cb"}, "registration": {"registration": "{}"},
}
OUTER = {
    "same": None, "least": {}, "other uri": {"redirect_uri": OTHER}, "evil uri": {"redirect_uri": "https://evil.example.net/cb"},
    "state": {"state": "OUTER"}, "nonce": {"nonce": "OUTER"}, "scope": {"scope": "openid email phone offline_access", "prompt": "consent"},
    "type": {"response_type": "code id_token token", "nonce": "OUTER"}, "mode": {"response_mode": "form_post"}, "none": {"prompt": "none"},
    "login": {"prompt": "login"}, "claims": {"claims": json.dumps({"userinfo": {"phone_number": None}, "id_token": {"email": None}})},
    "max_age": {"max_age": "0"}, "pkce": {"code_challenge": challenge(V["v2"], "S256"), "code_challenge_method": "S256"}, "extra": {"foo": "OUTER"},
}
VOLATILE = {"iat", "exp", "jti", "c_hash", "at_hash", "sid", "auth_time"}


def push_as(op, cid, p, method, how):
    """Pushes p the given way."""
    sec = op.ctx.cdb[cid]["client_secret"]
    auth = None
    p = dict(p)
    if how == "object":
        keys = private_keyjar(cid).get_signing_key("RSA", "")
        p = {"request": JWS(p | {"iss": cid}, alg="RS256").sign_compact(keys)}
        p["client_id"] = cid
    if method == "client_secret_basic":
        auth = basic(cid, sec)
        if how != "object":
            p.pop("client_id")
    elif method == "client_secret_post":
        p["client_secret"] = sec
    else:
        body = claims(op, cid, "pushed_authorization", 1)
        p["client_assertion"] = sign(body, "RS256", key(cid, "RS256")) if method == "private_key_jwt" else sign(body, "HS256", sym(sec))
        p["client_assertion_type"] = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
    return op.call("pushed_authorization", p, auth=auth)


def seen(op, kind, r, cid, verifier):
    """Everything that can be observed after the authorization request was answered with r."""
    out = []
    if r.kind == "login":
        raw = dict(r.raw)
        q = {k: sorted(" ".join(v).split()) for k, v in parse_qs(raw.pop("query"), keep_blank_values=True).items()
             if k not in ("iss", "id_token_hint", "verified_id_token_hint")}
        out.append(("login", q, {k: raw[k] for k in sorted(raw) if k not in ("state", "nonce") and isinstance(raw[k], (str, int, type(None)))}))
        r = op.login(r, "diana")
    tok = {k: v for k, v in r.params.items() if k in ("code", "access_token", "id_token", "session_state")}
    if r.kind == "refused":
        return out + [("refused",)]
    if r.target is None:
        return out + [("error",)]
    out.append((r.kind, r.target, r.mode, {k: v for k, v in r.params.items() if k not in tok}, sorted(tok)))
    if not r.ok:
        return out
    if "id_token" in r:
        out.append({k: v for k, v in jwt_claims(r["id_token"]).items() if k not in VOLATILE})
    ats = [r["access_token"]] if "access_token" in r else []
    if "code" in r:
        for kw in ({}, {"code_verifier": verifier}):
            uri = OTHER if r.target.startswith(OTHER.partition("?")[0]) else r.target
            t = op.token(op.treq(r["code"], cid, redirect_uri=uri, **kw))
            out.append((t.kind, sorted(t.params), t.get("scope"), t.get("expires_in")))
            if t.ok:
                ats.append(t["access_token"])
                if "id_token" in t:
                    out.append({k: v for k, v in jwt_claims(t["id_token"]).items() if k not in VOLATILE})
                break
    for at in ats:
        if kind == "oidc":
            u = op.userinfo(at)
            out.append((u.kind, u.params if u.ok else None))
        i = op.introspect(at, cid)
        out.append({k: v for k, v in i.params.items() if k not in VOLATILE})
    return out


def restarted(op, conf, kind):
    """The provider after a restart from what it had stored."""
    new = OP(conf, {}, kind=kind)
    new.ctx.load(json.loads(json.dumps(op.ctx.dump())), init_args={"server_get": new.server.server_get, "handler": new.mngr.token_handler})
    return new


def twin(case):
    """The same request, sent plainly to one provider and pushed to another: the same happens."""
    kind, want, method, how, outer, sso = case[:6]
    p = {"client_id": "client_1", "scope": "openid" if kind == "oidc" else "alpha", "state": "INNER", "nonce": "NINNER", "response_type": "code",
         "redirect_uri": "https://rp1.example.com/cb"}
    p.update(WANT[want])
    p = {k: v for k, v in p.items() if v is not None}
    obs = []
    count(C_PROBE)
    for pushed in (False, True):
        op = OP(par_conf(kind, pkce=True), clients(), kind=kind)
        jar = None
        q = dict(p)
        if sso or "id_token_hint" in p:
            rs = {}
            for u in ("babs", "diana"):
                rs[u] = op.authz_as(u, op.areq("client_1", scope=("openid",), **({"response_type": "code id_token"} if kind == "oidc" else {})))
            jar = op.session_cookie(rs["diana"]) if sso else None
            if "id_token_hint" in p and kind == "oidc":
                q["id_token_hint"] = rs[p["id_token_hint"]]["id_token"] if p["id_token_hint"] in rs else p["id_token_hint"]
        clock.advance(50)
        send = q
        if pushed:
            r = push_as(op, "client_1", q, method, how)
            if r.kind == "error" or r.kind == "refused":
                if kept(op):
                    raise Violation(f"{case}: a refused request is kept", sig="bad push leaves traces")
                obs.append([(r.kind,)])
                continue
            if r.get("expires_in") != 3600:
                raise Violation(f"{case}: {r!r}", sig="push answer")
            if case[6:]:
                op = restarted(op, par_conf(kind, pkce=True), kind)
            if OUTER[outer] is None:
                send = dict(q)
            else:
                send = {"client_id": "client_1", "scope": "openid" if kind == "oidc" else "alpha", "response_type": "code",
                        "redirect_uri": "https://rp1.example.com/cb"}
                send.update(OUTER[outer])
            send["request_uri"] = r["request_uri"]
        r = op.authz(send, cookies=jar)
        s = seen(op, kind, r, "client_1", V["v1"])
        obs.append(s)
    a, b = obs
    bad = ([("refused",)], [("error",)])
    if a in bad and b in bad:
        return "refused"
    if outer == "evil uri" and b in bad:
        return "outer refused"
    if json.dumps(a, sort_keys=True) != json.dumps(b, sort_keys=True):
        d = [(x, y) for x, y in itertools.zip_longest(a, b) if x != y][0]
        raise Violation(f"{case}: sent plainly {d[0]}; pushed {d[1]}", sig=f"differs:{want if outer == 'same' else outer}")
    return "ok"


class Threads:
    """Two uses of one request_uri at the same time."""

    def __init__(self, kind):
        schedule.install_locks()
        try:
            self.op = op = OP(par_conf(kind), clients(), kind=kind)
            p = op.areq("client_1", scope=("openid",) if kind == "oidc" else ("alpha",))
            r = op.call("pushed_authorization", dict(p, client_secret=op.ctx.cdb["client_1"]["client_secret"]))
            assert r.ok, r
            self.p = dict(p, request_uri=r["request_uri"])
        finally:
            schedule.restore_locks()

    def make(self):
        return [lambda: self.op.authz(self.p), lambda: self.op.authz(self.p)], self

    def judge(self, res, _):
        begun = [r for r in res if r.kind in ("ok", "login")]
        if len(begun) != 1:
            raise Violation("two concurrent uses of a request_uri: " + "; ".join(r.brief() for r in res), sig=f"concurrent uses: {len(begun)}")
        if kept(self.op):
            raise Violation("the request is kept", sig="concurrent use leaves the request")
        return "/".join(sorted(r.kind for r in res))


def main(tier):
    c = Check("C18", tier)
    for s, d in scenarios(tier):
        c.explore(s, d)
    kinds = ("oidc", "oauth2")
    c.sweep("what was pushed", [(k, w, "client_secret_post", h, o, s) for k in kinds for w in WANT for h in ("form", "object")
                                for o in ("same", "least") for s in (False, True)] +
            [(k, w, "client_secret_post", "form", "least", s, "restart") for k in kinds for w in WANT for s in (False, True)], twin, isolate=False,
            rule="provider kind x parameters x pushed as form/request object x outer parameters repeated/left out x single sign-on x restart; compared with a plain request")
    c.sweep("what is repeated", [(k, w, "client_secret_post", "form", o, s) for k in kinds for o in OUTER for s in (False, True)
                                 for w in (WANT if tier == "thorough" else ("plain", "claims", "pkce", "hybrid", "none", "no state", "offline consent"))],
            twin, isolate=False, rule="provider kind x parameters x contradicting outer parameters x single sign-on; compared with a plain request")
    c.sweep("who pushes", [(k, w, m, h, "least", False) for k in kinds for m in METHODS for h in ("form", "object")
                           for w in ("plain", "claims", "pkce", "offline consent")], twin, isolate=False,
            rule="provider kind x client authentication x parameters; compared with a plain request")
    for kind, bound in (("oidc", 1), ("oauth2", 1)) + ((("oidc", 2),) if tier == "thorough" else ()):
        th = Threads(kind)

        def run(case, th=th):
            start, s, b = case
            o = schedule.explore_from(th.make, files(False), start, () if s is None else (s,), 0 if s is None else b, th.judge,
                                      lambda n: count(C_SCHED, n))
            return ",".join(sorted(o))
        th.core = False
        c.sweep(f"threads {kind} preemptions<={bound}", thread_cases(th, bound), run, isolate=False,
                rule="every schedule of two uses of one request_uri with the given number of preemptions, at source-line granularity")
    return c.finish("model_checking")
