"""C25: a request that is refused, or that only reads, leaves the provider as it was.

In every state that a history of good requests can reach, a universe of bad requests to every endpoint, made of the very values that are around in that state, and the reading ones are sent; each of
them has to leave everything the provider knows as it was, and afterwards the history goes on (on the provider that was bothered) and has to be answered as ever.
"""
import json

from mc import clock
from mc.checks.c09 import claims
from mc.checks.c09 import key as key_of
from mc.checks.c09 import sign
from mc.checks.c18 import restarted
from mc.checks.c21 import proof
from mc.explore import C_PROBE
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.explore import op_state
from mc.op import ISSUER
from mc.op import OP
from mc.op import base_conf
from mc.op import basic
from mc.op import client
from mc.op import jwt_tokens
from mc.op import logout_conf
from mc.report import Check

VERIFIER = "v" * 50
BYE = "https://rp1.example.com/bye"


def conf(kind, jwt, pkce, par, reg, dpop=False):
    c = base_conf(kind)
    if kind == "oidc":
        logout_conf(c)
        if reg:
            c["endpoint"]["registration"] = {"path": "registration", "class": "oidcop.oidc.registration.Registration", "kwargs": {"client_authn_method": None}}
            c["endpoint"]["registration_read"] = {"path": "registration_read", "class": "oidcop.oidc.read_registration.RegistrationRead", "kwargs": {"client_authn_method": ["bearer_header"]}}
    else:
        c["allowed_scopes"] = ["alpha", "beta"]
    if par:
        c["endpoint"]["pushed_authorization"] = {"path": "pushed", "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization", "kwargs": {"client_authn_method": ["client_secret_post"]}}
    if pkce:
        c["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {"essential": False}}}
    if dpop:
        c["add_on"] = dict(c.get("add_on") or {}, dpop={"function": "oidcop.oauth2.add_on.dpop.add_support", "kwargs": {"dpop_signing_alg_values_supported": ["ES256", "RS256"]}})
    return jwt_tokens(c, ("token", "refresh")) if jwt else c


def clients():
    return {"client_1": client(1, post_logout_redirect_uri=[BYE, ""]), "client_2": client(2)}


def plain(o, seen=()):
    """Exactly what is there, without functions and without order where there is none."""
    if isinstance(o, (str, int, float, bool, bytes)) or o is None:
        return repr(o)
    if id(o) in seen or callable(o) and not hasattr(o, "__dict__"):
        return "."
    seen = seen + (id(o),)
    d = o if isinstance(o, dict) else getattr(o, "_dict", None)
    if d is None and type(o).__name__ == "DLDict":
        d = o.db
    if isinstance(d, dict):
        return {str(k): plain(v, seen) for k, v in d.items()}
    if isinstance(o, (list, tuple)):
        return [plain(x, seen) for x in o]
    if isinstance(o, (set, frozenset)):
        return sorted(str(x) for x in o)
    if isinstance(o, type) or callable(o):
        return "."
    return {k: plain(v, seen) for k, v in vars(o).items() if k not in ("server_get", "upstream_get")} if hasattr(o, "__dict__") else "."


def everything(op):
    """What the provider knows: sessions, clients, pending requests, registrations, keys and its own configuration."""
    x = op.ctx
    kj = {i: sorted((k.kid or "", k.kty, k.use or "", k.inactive_since, json.dumps(k.serialize(private=k.kty != "oct"), sort_keys=True, default=str)) for k in x.keyjar.get_issuer_keys(i))
          for i in x.keyjar.owners()}
    parts = {"sessions": x.session_manager.db, "clients": x.cdb, "pushed": x.par_db, "seen assertions": x.jti_db, "registrations": x.registration_access_token, "provider info": x.provider_info,
             "grant config": x.authz.grant_config if x.authz else None, "allowed scopes": x.scopes_handler.allowed_scopes, "scope map": x.scopes_handler._scopes_to_claims,
             "users": getattr(x.userinfo, "db", None), "authentication": {k: {a: b for a, b in v.items() if a != "method"} for k, v in x.authn_broker.db.items()},
             "endpoints": {n: [e.kwargs, e.client_authn_method and sorted(map(str, e.client_authn_method)), e.endpoint_info if hasattr(e, "endpoint_info") else None]
                           for n, e in op.server.endpoint.items()}}
    res = {"keys": kj, **{k: plain(v) for k, v in parts.items()}}
    for c in res["clients"].values():
        c.pop("auth_method", None)  # how the client last proved itself; it may have, and be refused all the same
    return res


def first_difference(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return first_difference(a.get(k), b.get(k), f"{path}/{str(k)[:40]}")
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, f"{path}/{i}")
    return f"{path}: {str(a)[:150]} became {str(b)[:150]}"


class Traces(Scenario):
    def __init__(self, name, kind="oidc", jwt=False, pkce=False, par=False, reg=False, alphabet=("login", "redeem", "refresh", "logout", "tick"), users=("diana", "babs"), max_grants=2,
                 max_tokens=9, ticks=(700,), rt="code", tick_max=2, asserted=False, dpop=False):
        self.asserted, self.dpop = asserted, dpop
        self.name, self.kind, self.jwt, self.pkce, self.par, self.reg = name, kind, jwt, pkce, par, reg
        self.alphabet, self.users, self.max_grants, self.max_tokens, self.ticks, self.rt, self.tick_max = alphabet, users, max_grants, max_tokens, ticks, rt, tick_max

    def setup(self):
        self.op = OP(conf(self.kind, self.jwt, self.pkce, self.par, self.reg, self.dpop), clients(), kind=self.kind)
        self.other = OP(conf(self.kind, self.jwt, self.pkce, self.par, self.reg, self.dpop), clients(), kind=self.kind, op_keys="foreign", tag="other")
        self.elsewhere = self.begin(self.other, "diana", "client_1", 77)
        self.g = []       # dict(user, cid, params, code, tokens [(kind, value)], jar, used)
        self.pushed = []  # [cid, uri, used]
        self.made = []    # registered clients: (id, access token)
        self.page = None
        self.ticked = 0

    # -------------------------------------------------------- good requests
    def ask(self, op, cid, n, **kw):
        scope = ("openid", "email", "offline_access") if self.kind == "oidc" else ("alpha",)
        p = op.areq(cid, scope=scope, state=f"S{n}", nonce=f"N{n}", response_type=self.rt)
        if self.kind == "oidc":
            p["prompt"] = "consent"
        if self.pkce:
            p.update(code_challenge=VERIFIER, code_challenge_method="plain")
        p.update(kw)
        return {k: v for k, v in p.items() if v is not None}

    def begin(self, op, user, cid, n):
        r = op.authz_as(user, self.ask(op, cid, n))
        if not r.ok:
            raise Violation(f"a good request was refused: {r!r}", sig="good authorization refused")
        return {"user": user, "cid": cid, "code": r.get("code"), "tokens": [(k, r[k]) for k in ("access_token", "id_token") if k in r], "jar": op.session_cookie(r), "used": False, "at": clock.now(),
                "n": n, "over": False, "alive": True}

    def ops(self):
        a, o = self.alphabet, []
        n = sum(len(g["tokens"]) for g in self.g)
        if "login" in a and len(self.g) < self.max_grants:
            o += [("login", u, c) for u in self.users for c in ("client_1", "client_2")]
        for i, g in enumerate(self.g):
            if not g["alive"]:
                continue
            if "redeem" in a and g["code"] and not g["used"] and n < self.max_tokens:
                o.append(("redeem", i))
            if "refresh" in a and any(k == "refresh_token" for k, _ in g["tokens"]) and n < self.max_tokens:
                o.append(("refresh", i))
            if "revoke" in a:
                o += [("revoke", i, t) for t, (k, _) in enumerate(g["tokens"]) if k != "id_token"]
            if "logout" in a and self.kind == "oidc":
                o.append(("logout", i))
        if "push" in a and len(self.pushed) < 2:
            o += [("push", c) for c in ("client_1", "client_2")]
        if "use" in a and len(self.g) < self.max_grants:
            o += [("use", i) for i, p in enumerate(self.pushed) if not p[2]]
        if "register" in a and len(self.made) < 2:
            o.append(("register",))
        if "tick" in a and self.ticked < self.tick_max and self.g:
            o += [("tick", t) for t in self.ticks]
        if "restart" in a:
            o.append(("restart",))
        return o

    def apply(self, o):
        op = self.op
        if o[0] == "tick":
            clock.advance(o[1])
            self.ticked += 1
        elif o[0] == "restart":
            self.op = restarted(op, conf(self.kind, self.jwt, self.pkce, self.par, self.reg, self.dpop), self.kind)
        elif o[0] == "login":
            self.g.append(self.begin(op, o[1], o[2], len(self.g)))
        elif o[0] == "redeem":
            g = self.g[o[1]]
            kw = {} if self.kind == "oidc" else {"issue_refresh": True}
            p = op.treq(g["code"], g["cid"], **({"code_verifier": VERIFIER} if self.pkce else {}))
            if self.asserted:
                del p["client_secret"]
                p.update(self.assertion(o[1], g["cid"], g["cid"]))
            r = op.token(p, headers=self.proved("ec"), **kw)
            if r.ok != (clock.now() <= g["at"] + 300):
                raise Violation(f"redeeming a code after {clock.now() - g['at']} s: {r!r}", sig="good code refused")
            g["used"] = True
            if r.ok:
                g["tokens"] += [(k, r[k]) for k in ("access_token", "refresh_token", "id_token") if k in r]
            elif self.kind == "oidc":
                pass
        elif o[0] == "refresh":
            g = self.g[o[1]]
            rt = [v for k, v in g["tokens"] if k == "refresh_token"][-1]
            clock.advance(1)
            r = op.token(op.rreq(rt, g["cid"]), headers=self.proved("ec"))
            if r.ok != (rt not in g.get("revoked", ())):
                raise Violation(f"refreshing: {r!r}", sig="good refresh refused")
            g["tokens"] += [(k, r[k]) for k in ("access_token", "refresh_token", "id_token") if k in r]
        elif o[0] == "revoke":
            g = self.g[o[1]]
            v = g["tokens"][o[2]][1]
            op.mngr.revoke_token(op.mngr.get_session_info_by_token(v)["session_id"], v)
            g.setdefault("revoked", []).append(v)
        elif o[0] == "logout":
            g = self.g[o[1]]
            idt = [v for k, v in g["tokens"] if k == "id_token"] if not self.ticked else []  # they expire
            r = op.end_session({"id_token_hint": idt[-1]} if idt else {}, g["jar"])
            if r.kind != "ok":
                raise Violation(f"asking to log out: {r!r}", sig="good logout refused")
            from urllib.parse import parse_qs, urlsplit
            sjwt = parse_qs(urlsplit(r.raw).query)["sjwt"][0]
            r = op.verified_logout(sjwt)
            if not r.ok:
                raise Violation(f"logging out: {r!r}", sig="good logout refused")
            for x in self.g:
                if (x["user"], x["cid"]) == (g["user"], g["cid"]):
                    x["alive"] = False
        elif o[0] == "push":
            p = self.ask(op, o[1], 10 + len(self.pushed))
            r = op.call("pushed_authorization", dict(p, client_secret=op.ctx.cdb[o[1]]["client_secret"]))
            if not r.ok:
                raise Violation(f"a good request was not accepted: {r!r}", sig="good push refused")
            self.pushed.append([o[1], r["request_uri"], False])
        elif o[0] == "use":
            cid, uri, _ = self.pushed[o[1]]
            self.pushed[o[1]][2] = True
            r = op.authz_as("diana", dict(op.areq(cid, scope=("openid",) if self.kind == "oidc" else ("alpha",)), request_uri=uri))
            if not r.ok or r.get("state") != f"S{10 + o[1]}":
                raise Violation(f"a pushed request was not obeyed: {r!r}", sig="good pushed request refused")
            self.g.append({"user": "diana", "cid": cid, "code": r["code"], "tokens": [], "jar": op.session_cookie(r), "used": False, "at": clock.now(), "n": 10 + o[1], "over": False, "alive": True})
        elif o[0] == "register":
            r = op.call("registration", {"redirect_uris": [f"https://new{len(self.made)}.example.net/cb"], "response_types": ["code"]})
            if not r.ok:
                raise Violation(f"a good registration was refused: {r!r}", sig="good registration refused")
            self.made.append((r["client_id"], r["registration_access_token"], r["client_secret"]))

    # -------------------------------------------------------- bad and reading requests
    def probes(self):
        """(what, expectation, function): 'no' must be refused, 'read' must be answered, '?' whatever."""
        op, oidc = self.op, self.kind == "oidc"
        out = []
        sec = {c: op.ctx.cdb[c]["client_secret"] for c in ("client_1", "client_2")}

        def add(what, exp, name, params, **kw):
            out.append((f"{name}: {what}", exp, lambda: op.call(name, params, **kw)))

        # authorization
        jars = [("", None)] + [(f" with the cookies of session {i}", g["jar"]) for i, g in enumerate(self.g)]
        for jw, jar in jars:
            def az(what, exp, _jar=jar, _jw=jw, **kw):
                p = self.ask(op, kw.pop("cid", "client_1"), 55, **dict({"prompt": None, "scope": "openid email" if oidc else "alpha"}, **kw))
                out.append((f"authorization: {what}{_jw}", exp, lambda: op.authz(p, cookies=_jar)))
            az("unknown client", "no", client_id="client_9")
            az("no client", "no", client_id=None)
            az("another redirect_uri", "no", redirect_uri="https://rp2.example.com/cb")
            az("longer redirect_uri", "no", redirect_uri="https://rp1.example.com/cb/x")
            az("fragment", "no", redirect_uri="https://rp1.example.com/cb#x")
            az("no response type", "no", response_type=None)
            az("an unknown response type", "no", response_type="code code_token")
            az("garbage for a request object", "no" if oidc else "?", prompt="login", request="e30.e30.e30")
            az("an unknown request_uri", "no" if oidc or self.par else "?", prompt="login", request_uri="urn:uuid:01234567-89ab-cdef-0123-456789abcdef")
            az("an unreachable request_uri", "no" if oidc else "?", prompt="login", request_uri="https://rp9.example.com/x")
            az("login prompt", "page", prompt="login")
            if oidc:
                az("no openid", "no", scope="email")
                az("silent and not", "no", prompt="none login")
                az("a bad hint", "no", id_token_hint="e30.e30.e30")
                az("bad claims", "?", claims="{", prompt="login")
                az("max_age 0", "?", max_age="0", prompt="login")
                az("bad max_age", "no", max_age="soon")
                az("a bad response mode", "?", response_mode="carrier_pigeon", prompt="login")
                if jar is None:
                    az("silent", "no", prompt="none")
                az("an ID Token of another provider", "no", id_token_hint=self.other_idt())
        for i, (cid, uri, used) in enumerate(self.pushed):
            if used:
                p = dict(op.areq(cid, scope=("openid",) if oidc else ("alpha",)), request_uri=uri)
                out.append((f"authorization: used pushed request {i}", "no", lambda p=p: op.authz(p)))
            else:
                o = {"client_1": "client_2", "client_2": "client_1"}[cid]
                p = dict(op.areq(o, scope=("openid",) if oidc else ("alpha",)), request_uri=uri)
                out.append((f"authorization: pushed request {i} of another client", "no", lambda p=p: op.authz(p)))
            p2 = dict(op.areq(cid, scope=("openid",) if oidc else ("alpha",)), request_uri=uri + "0")
            out.append((f"authorization: longer pushed request {i}", "no", lambda p=p2: op.authz(p)))

        # token endpoint
        v = {"code_verifier": VERIFIER} if self.pkce else {}
        codes = [(i, g) for i, g in enumerate(self.g) if g["code"] and not g["used"]]
        for i, g in codes:
            cid = g["cid"]
            o = {"client_1": "client_2", "client_2": "client_1"}[cid]

            def tk(what, params, auth=None, drop=(), exp="no", _i=i, headers=None):
                p = {k: x for k, x in params.items() if k not in drop}
                out.append((f"token: code {_i}, {what}", exp, lambda: op.token(p, auth=auth, headers=headers)))
                if self.dpop and headers is None:
                    out.append((f"token: code {_i}, {what}, with a proof", exp, lambda: op.token(p, auth=auth, headers=self.proved("rsa"))))
            good = op.treq(g["code"], cid, **v)
            tk("wrong secret", dict(good, client_secret="x" + sec[cid][1:]))
            tk("no secret", good, drop=("client_secret",))
            tk("empty secret", dict(good, client_secret=""))
            tk("basic with a wrong secret", good, drop=("client_secret",), auth=basic(cid, "wrong"))
            tk("the other client", dict(op.treq(g["code"], o, **v)))
            tk("the other client and this URI", dict(good, client_id=o, client_secret=sec[o]))
            tk("unknown client", dict(good, client_id="client_9"))
            tk("wrong redirect_uri", dict(good, redirect_uri="https://rp1.example.com/other"))
            tk("unknown grant type", dict(good, grant_type="magic"))
            tk("as a refresh token", dict(good, grant_type="refresh_token", refresh_token=g["code"]))
            tk("code cut short", dict(good, code=g["code"][:-4]))
            tk("a code of another provider", dict(good, code=self.elsewhere["code"]))
            if self.dpop:
                for what, kw in (("method", {"body": {"htm": "GET"}}), ("place", {"body": {"htu": "https://elsewhere.example.org/token"}}), ("signature", {})):
                    tk(f"proof for another {what}", good, headers={"dpop": proof(op, "rsa", **kw)} if kw else {"dpop": self.proved("rsa")["dpop"][:-6]})
            bare = {k: x for k, x in good.items() if k != "client_secret"}
            for what, who, kw in (("someone else's key", "foreign", {}), (f"{o}'s key", o, {}), ("expired", cid, {"exp": clock.now() - 1000}), ("another audience", cid, {"aud": ["https://elsewhere.example.org"]}),
                                  ("not signed", None, {})):
                tk("assertion, " + what, dict(bare, **self.assertion(i, cid, who, **kw)))
            if self.pkce:
                tk("wrong verifier", dict(good, code_verifier="w" * 50))
                tk("no verifier", good, drop=("code_verifier",))
            if clock.now() > g["at"] + 300:
                tk("too late", good)
        for i, g in enumerate(self.g):
            o = {"client_1": "client_2", "client_2": "client_1"}[g["cid"]]
            for t, (kind, val) in enumerate(g["tokens"]):
                if kind != "refresh_token":
                    out.append((f"token: {kind} {i}.{t} as refresh token", "no", lambda p=op.rreq(val, g["cid"]): op.token(p)))
                    out.append((f"token: {kind} {i}.{t} as code", "no", lambda p=op.treq(val, g["cid"], **v): op.token(p)))
                else:
                    wide = ("openid", "email", "phone") if oidc else ("alpha", "beta")
                    for what, p in (("other client", op.rreq(val, o)), ("wrong secret", op.rreq(val, g["cid"], secret="nope")), ("wider", op.rreq(val, g["cid"], scope=wide)),
                                    ("no secret", op.rreq(val, g["cid"], secret=None)), ("as code", op.treq(val, g["cid"], **v)), ("cut", op.rreq(val[:-4], g["cid"]))):
                        out.append((f"token: refresh token {i}.{t}, {what}", "no", lambda p=p: op.token(p)))
                        if self.dpop:
                            out.append((f"token: refresh token {i}.{t}, {what}, with a proof", "no", lambda p=p: op.token(p, headers=self.proved("rsa"))))
        out.append(("token: nothing", "no", lambda: op.token({"grant_type": "authorization_code", "client_id": "client_1", "client_secret": sec["client_1"]})))

        # reading: user info, introspection
        bad = [("garbage", "garbage"), ("empty", ""), ("another provider's", self.elsewhere_token())]
        for i, g in enumerate(self.g):
            bad += [(f"code {i}", g["code"])] if g["code"] else []
            for t, (kind, val) in enumerate(g["tokens"]):
                if oidc:
                    out.append((f"userinfo: {kind} {i}.{t}", "?" if kind == "access_token" else "no", lambda val=val: op.userinfo(val)))
                    if t == 0:
                        out.append((f"userinfo: {kind} {i}.{t} in the body", "?" if kind == "access_token" else "no", lambda val=val: op.userinfo(val, "body")))
                out.append((f"introspection: {kind} {i}.{t}", "?", lambda val=val: op.introspect(val)))
                out.append((f"introspection: {kind} {i}.{t} by client_2", "?", lambda val=val: op.introspect(val, "client_2", username="babs", scope="openid phone", active="true")))
                out.append((f"introspection: {kind} {i}.{t} with a wrong secret", "no", lambda val=val: op.introspect(val, secret="wrong")))
        for what, val in bad:
            if oidc:
                out.append((f"userinfo: {what}", "no", lambda val=val: op.userinfo(val)))
            out.append((f"introspection: {what}", "?", lambda val=val: op.introspect(val)))
        if oidc:
            add("nothing", "no", "userinfo", {}, method="GET")
            add("read", "read", "provider_config", {}, method="GET")
            # logging out
            for jw, jar in jars:
                for what, p in (("no hint", {"post_logout_redirect_uri": BYE}), ("bad hint", {"id_token_hint": "e30.e30.e30"}), ("another provider's ID Token", {"id_token_hint": self.other_idt()}),
                                ("another place", {"id_token_hint": self.other_idt(), "post_logout_redirect_uri": "https://evil.example.net/"})):
                    add(what + jw, "no", "session", p, method="GET", cookies=jar)
            for i, g in enumerate(self.g):
                for t, (kind, val) in enumerate(g["tokens"]):
                    if kind == "id_token":
                        add(f"ID Token {i} without cookies", "no", "session", {"id_token_hint": val}, method="GET")
                        add(f"ID Token {i} and an unregistered place", "no", "session", {"id_token_hint": val, "post_logout_redirect_uri": "https://evil.example.net/"}, method="GET", cookies=g["jar"])
                        if g["alive"]:
                            add(f"ID Token {i}, not confirmed", "?", "session", {"id_token_hint": val}, method="GET", cookies=g["jar"])
            out.append(("session: a page that was not shown", "no", lambda: op.verified_logout("e30.e30.e30", alla=True)))
        if self.reg:
            good = {"redirect_uris": ["https://c.example.net/cb"], "response_types": ["code"]}
            for what, p in (("no URIs", {"client_name": "x"}), ("fragment", {"redirect_uris": ["https://c.example.net/cb#x"]}), ("bad algorithm", dict(good, id_token_signed_response_alg="XX")),
                            ("as client_1", dict(good, client_id="client_1", redirect_uris=["https://c.example.net/cb#x"])), ("bad sector", dict(good, sector_identifier_uri="https://nowhere.example.org/")),
                            ("bad response type", dict(good, response_types=["magic"])), ("bad subject type", dict(good, subject_type="magic")),
                            ("bad logo", dict(good, logo_uri="https://evil.example.net/")), ("bad logout", dict(good, post_logout_redirect_uris=["https://c.example.net/x#y"])),
                            ("bad keys", dict(good, jwks={"keys": [{"kty": "RSA"}]}, redirect_uris=["http://c.example.net/#"]))):
                add(what, "no", "registration", json.dumps(p))
            for i, (cid, tok, s) in enumerate(self.made):
                u = op.ep("registration_read").full_path
                add(f"client {i}", "read", "registration_read", f"client_id={cid}", method="GET", auth=f"Bearer {tok}", url=f"{u}?client_id={cid}")
                add(f"client {i}, wrong token", "no", "registration_read", f"client_id={cid}", method="GET", auth=f"Bearer {tok}x", url=f"{u}?client_id={cid}")
                add(f"client_1 by client {i}", "no", "registration_read", "client_id=client_1", method="GET", auth=f"Bearer {tok}", url=f"{u}?client_id=client_1")
                out.append((f"authorization: client {i}, unregistered URI", "no", lambda cid=cid: op.authz(self.ask(op, cid, 56, redirect_uri="https://rp1.example.com/cb"))))
                out.append((f"token: client {i}, unknown code", "no", lambda cid=cid, s=s: op.token({"grant_type": "authorization_code", "code": "x", "redirect_uri": "https://rp1.example.com/cb",
                                                                                                   "client_id": cid, "client_secret": s})))
        if self.par:
            p = dict(self.ask(op, "client_1", 57), client_secret=sec["client_1"])
            for what, q in (("wrong secret", dict(p, client_secret="wrong")), ("no secret", {k: x for k, x in p.items() if k != "client_secret"}), ("other client", dict(p, client_id="client_2")),
                            ("unregistered URI", dict(p, redirect_uri="https://rp2.example.com/cb")), ("bad type", dict(p, response_type="magic")), ("reference", dict(p, request_uri="https://rp1.example.com/r")),
                            ("bad object", dict(p, request="e30.e30.e30"))):
                add(what, "no", "pushed_authorization", q)
        return out

    def proved(self, k):
        return {"dpop": proof(self.op, k)} if self.dpop else None

    def assertion(self, i, cid, who, **kw):
        """With the identifier that the client is going to use itself."""
        body = claims(self.op, cid, "token", f"-{i}", **kw)
        a = "no.such.key" if who is None else sign(body, "ES256", key_of(who, "ES256"))
        return {"client_assertion": a, "client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}

    def other_idt(self):
        if not hasattr(self, "_idt"):
            r = self.other.token(self.other.treq(self.elsewhere["code"], "client_1", **({"code_verifier": VERIFIER} if self.pkce else {})))
            self._idt = r.get("id_token", "x")
            self._at = r["access_token"]
        return self._idt

    def elsewhere_token(self):
        self.other_idt()
        return self._at

    def invariant(self):
        op = self.op
        self.other_idt()
        before = everything(op)
        for what, exp, fn in self.probes():
            count(C_PROBE)
            r = fn()
            got = "yes" if r.kind == "ok" else r.kind
            if exp == "no" and got in ("yes", "login") or exp == "read" and got != "yes" or exp == "page" and got != "login":
                raise Violation(f"{what}: {r!r}", sig="answered otherwise: " + what.split(" with ")[0])
            d = first_difference(before, everything(op))
            if d:
                raise Violation(f"{what} ({r.brief()}) left a trace: {d}", sig="trace: " + "".join(c for c in what.split(" with ")[0] if not c.isdigit()))

    def key(self):
        names = {}
        for i, g in enumerate(self.g):
            names[g["code"]] = f"C{i}"
            for t, (k, v) in enumerate(g["tokens"]):
                names[v] = f"{k}{i}.{t}"
        for i, p in enumerate(self.pushed):
            names[p[1]] = f"P{i}"
        for i, m in enumerate(self.made):
            for j, s in enumerate(m):
                names[s] = f"M{i}{j}"
        return op_state(self.op, names, set()) + repr([[(g["user"], g["cid"], g["used"], g["alive"], clock.now() - g["at"], [k for k, _ in g["tokens"]]) for g in self.g],
                                                       [(p[0], p[2]) for p in self.pushed], len(self.made), self.ticked])


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    one = ("diana",)
    yield Traces("sessions"), 3 + x
    yield Traces("one user", users=one, alphabet=("login", "redeem", "refresh", "logout", "tick", "revoke"), ticks=(301, 700)), 4 + x
    yield Traces("restarts", users=one, alphabet=("login", "redeem", "refresh", "restart")), 4 + x
    yield Traces("assertions", users=one, alphabet=("login", "redeem", "refresh"), asserted=True), 5 + x
    yield Traces("jwt", jwt=True, users=one), 4 + x
    yield Traces("pkce", pkce=True, users=one, alphabet=("login", "redeem", "refresh")), 5 + x
    yield Traces("dpop", dpop=True, jwt=True, users=one, alphabet=("login", "redeem", "refresh")), 5 + x
    yield Traces("oauth2, dpop", kind="oauth2", dpop=True, users=one, alphabet=("login", "redeem", "refresh")), 5 + x
    yield Traces("hybrid", users=one, rt="code id_token token", alphabet=("login", "redeem", "logout")), 4 + x
    yield Traces("pushed requests", users=one, par=True, alphabet=("login", "push", "use", "redeem", "tick")), 4 + x
    yield Traces("registration", users=one, reg=True, alphabet=("login", "register", "redeem")), 4 + x
    yield Traces("oauth2", kind="oauth2", users=one, alphabet=("login", "redeem", "refresh", "revoke", "tick"), ticks=(301, 700)), 5 + x
    yield Traces("oauth2, jwt, pushed requests", kind="oauth2", users=one, jwt=True, par=True, alphabet=("login", "push", "use", "redeem", "refresh")), 4 + x


def main(tier):
    c = Check("C25", tier)
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
