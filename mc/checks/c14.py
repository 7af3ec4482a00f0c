"""C14: dumping and restoring the provider at any point is invisible.

Every operation runs on four providers with the same configuration:
  A  is never interrupted
  B  is dumped, serialised and loaded into a freshly started provider after every operation
  C  the same, but only where the operation "restore" is taken (every choice of points is explored)
  M  has its session manager flushed and loaded from its own dump after every operation
The answers have to be equal up to a bijection between the random strings.
"""
import itertools
import json
import re

from mc import clock
from mc import op as mcop
from mc.explore import C_PROBE
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.explore import op_state
from mc.op import ISSUER
from mc.op import KEYS
from mc.op import OP
from mc.op import base_conf
from mc.op import client
from mc.op import jwt_claims
from mc.op import jwt_header
from mc.op import jwt_tokens
from mc.op import logout_conf
from mc.op import private_keyjar
from mc.op import public_jwks
from mc.report import Check

RANDOM = re.compile(r"^[A-Za-z0-9_\-=+/|.:;%]{8,}$")
JWT = re.compile(r"^[A-Za-z0-9_\-]+\.[A-Za-z0-9_\-]+\.[A-Za-z0-9_\-]*$")


class Differs(Exception):
    pass


class Bij:
    """Matches what two providers answered."""

    def __init__(self):
        self.ab, self.ba = {}, {}

    def pair(self, a, b, path):
        if self.ab.setdefault(a, b) != b or self.ba.setdefault(b, a) != a:
            raise Differs(f"{path}: {a[:60]!r} here is {b[:60]!r} after the restore, which is another value than before")

    def match(self, a, b, path=""):
        if isinstance(a, dict) and isinstance(b, dict):
            if sorted(map(str, a)) != sorted(map(str, b)):
                raise Differs(f"{path}: members {sorted(map(str, a))} became {sorted(map(str, b))}")
            for k in sorted(a, key=str):
                self.match(a[k], b[k], f"{path}.{k}")
        elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                raise Differs(f"{path}: {a} became {b}")
            for i, (x, y) in enumerate(zip(a, b)):
                self.match(x, y, f"{path}[{i}]")
        elif isinstance(a, str) and isinstance(b, str):
            if JWT.match(a) and JWT.match(b) and a.startswith("eyJ") and b.startswith("eyJ"):
                self.match(jwt_header(a), jwt_header(b), path + " header")
                try:
                    ca, cb = jwt_claims(a), jwt_claims(b)
                except ValueError:  # encrypted
                    ca = cb = None
                self.match(ca, cb, path + " claims")
                self.pair(a, b, path)
            elif a == b:
                if len(a) >= 16:
                    self.pair(a, b, path)
            elif RANDOM.match(a) and RANDOM.match(b):
                self.pair(a, b, path)
            else:
                raise Differs(f"{path}: {a[:120]!r} became {b[:120]!r}")
        elif type(a) is not type(b) or a != b:
            raise Differs(f"{path}: {a!r} became {b!r}")


def split_url(u):
    return re.split(r"([?&#=])", u)


class Party:
    """One provider and what its users and clients hold."""

    def __init__(self, scn, op):
        self.scn, self.op = scn, op
        self.codes, self.at, self.rt, self.idt, self.cookies, self.clients, self.par, self.sids, self.sjwt = ([] for _ in range(9))
        self.sent = []

    # -- interruptions
    def restart(self):
        dump = json.loads(json.dumps(self.op.ctx.dump()))
        new = self.scn.provider(())
        new.ctx.httpc = self.op.ctx.httpc
        new.ctx.load(dump, init_args={"server_get": new.server.server_get, "handler": new.mngr.token_handler})
        self.op = new

    def reload(self):
        dump = json.loads(json.dumps(self.op.mngr.dump()))
        self.op.mngr.flush()
        self.op.mngr.load(dump)

    # -- answers
    def digest(self, r):
        d = {"kind": r.kind, "target": r.target and split_url(r.target), "mode": r.mode}
        p = dict(r.params)
        if r.kind == "refused":
            p = {"exception": p.get("exception")}
        if r.kind == "ok" and r.mode != "body":
            d["order"] = sorted(p)
        d["params"] = {k: split_url(v) if isinstance(v, str) and v.startswith("https://") else v for k, v in p.items()}
        if r.kind == "login":
            a = r.raw
            d["page"] = {k: a[k] for k in sorted(a) if isinstance(a[k], (str, int, list, type(None))) and k != "query"}
            d["query"] = sorted(re.split("&", a.get("query", "")))
        cs = []
        for c in r.cookies if isinstance(r.cookies, list) else [r.cookies]:
            x = {k: v for k, v in c.items() if k != "value"}
            if c["value"]:
                val = self.op.ctx.cookie_handler.parse_cookie(c["name"], [{"name": c["name"], "value": c["value"]}])
                x["content"] = [dict(v, value=_json(v["value"])) for v in val or []]
            cs.append(x)
        d["cookies"] = sorted(cs, key=lambda c: c["name"])
        d["order of headers"] = [h for h in r.headers if h[0] not in ("Location",)]
        return d

    def keep(self, r, cid, req=None):
        if not r.ok:
            return
        for k, where in (("code", self.codes), ("access_token", self.at), ("refresh_token", self.rt), ("id_token", self.idt)):
            if k in r:
                where.append((r[k], cid, req))
        ck = [c for c in (r.cookies if isinstance(r.cookies, list) else [r.cookies]) if c["value"]]
        if ck and req is not None and r.mode in ("query", "fragment", "form_post"):
            self.cookies.append(([{"name": c["name"], "value": c["value"]} for c in ck], cid, req))

    def probe(self):
        """Everything that can be seen without changing anything."""
        out = []
        op = self.op
        for v, cid, _ in self.at + self.rt + self.codes:
            out.append(self.digest(op.introspect(v, *self.rs(cid))))
        for v, _, _ in self.at:
            if op.kind == "oidc":
                out.append(self.digest(op.userinfo(v)))
        m = op.mngr
        for u in ("diana", "babs"):
            try:
                subs = list(m.get_user_info(u).subordinate)
            except KeyError:
                out.append([u, None])
                continue
            out.append([u, subs])
            for c in subs:
                csi = m.get([u, c])
                out.append([c, csi.is_revoked(), csi.subordinate])
                for g in csi.subordinate:
                    gr = m.get([u, c, g])
                    out.append([gr.id == g, gr.is_active(), gr.sub, list(gr.scope), gr.claims, gr.resources, gr.used, gr.expires_at,
                                dict(gr.authentication_event.to_dict()), sorted(gr.authorization_request.to_urlencoded().split("&")), gr.extra])
                    for t in gr.issued_token:
                        out.append([t.token_class, t.value, t.is_active(), t.used, t.revoked, t.expires_at, t.issued_at, list(t.scope),
                                    t.id, t.based_on, t.usage_rules])
                    sid = m.encrypted_session_id(u, c, g)
                    i = m.get_session_info(sid, user_session_info=True, client_session_info=True, grant=True,
                                           authentication_event=True, authorization_request=True)
                    out.append([i["user_id"], i["client_id"], i["grant_id"], i["grant"] is gr])
        for c in self.clients:
            out.append(self.read(c))
        return out

    def rs(self, cid):
        c = cid if "client_secret" in self.op.ctx.cdb.get(cid, {}) else "client_1"
        return c, self.op.ctx.cdb[c]["client_secret"]

    def read(self, c):
        r = self.op.call("registration_read", {"client_id": c["client_id"]}, method="GET",
                         auth="Bearer " + c["registration_access_token"])
        return self.digest(r)

    # -- operations
    def run(self, o):
        op, k = self.op, o[0]
        if k == "login":
            _, u, cid, n, kw = o
            req = op.areq(cid, **dict({"state": f"s{n}", "nonce": f"n{n}"}, **kw))
            r = op.authz_as(u, req)
            self.keep(r, cid, req)
            return [self.digest(r)]
        if k == "sso":
            _, i, same, n, u = o
            ck, cid, req = self.cookies[i]
            if same == "other client":
                cid = "client_2" if cid == "client_1" else "client_1"
            if same != "same":
                req = dict(op.areq(cid, scope=req["scope"].split()), state=f"s{n}", nonce=f"n{n}",
                           **({"max_age": "600"} if same == "max_age" else {}), **({"prompt": "none"} if same == "prompt" else {}))
            r = op.authz(req, cookies=ck)
            out = [self.digest(r)]
            if r.kind == "login":
                r = op.login(r, u)
                out.append(self.digest(r))
            self.keep(r, cid, req)
            return out
        if k in ("redeem", "replay"):
            v, cid, req = self.codes[o[1]]
            r = op.token(op.treq(v, cid, **self.scn.treq_args(o)), **self.scn.token_kw())
            self.keep(r, cid)
            return [self.digest(r)]
        if k == "refresh":
            v, cid, _ = self.rt[o[1]]
            r = op.token(op.rreq(v, cid, scope=o[2]), **self.scn.token_kw())
            self.keep(r, cid)
            return [self.digest(r)]
        if k == "revoke":
            what, where, i = o[1], o[2], o[3]
            v = getattr(self, where)[i][0]
            m = op.mngr
            try:
                sid = m.get_session_id_by_token(v)
                if what == "token":
                    m.revoke_token(sid, v)
                elif what == "tree":
                    m.revoke_token(sid, v, recursive=True)
                elif what == "grant":
                    m.revoke_grant(sid)
                elif what == "client session":
                    m.revoke_client_session(sid)
                else:
                    m.remove_session(sid)
            except Exception as e:
                return [type(e).__name__]
            return ["done"]
        if k == "register":
            r = op.call("registration", json.dumps(o[1]))
            if r.ok:
                self.clients.append(dict(r.params))
            return [self.digest(r)]
        if k == "login registered":
            c = self.clients[o[1]]
            cid = c["client_id"]
            req = dict(op.areq(cid, state=f"s{o[2]}", nonce=f"n{o[2]}", redirect_uri=c["redirect_uris"][-1]))
            r = op.authz_as("diana", req)
            self.keep(r, cid, req)
            return [self.digest(r)]
        if k == "redeem registered":
            v, cid, req = self.codes[o[1]]
            c = next(c for c in self.clients if c["client_id"] == cid)
            p = {"grant_type": "authorization_code", "code": v, "client_id": cid, "redirect_uri": req["redirect_uri"]}
            r = op.token(self.authenticated(c, p, o[2]))
            self.keep(r, cid)
            return [self.digest(r)]
        if k == "assert":
            from mc.checks import c09
            a = c09.sign(c09.claims(op, "client_1", "introspection", 0, jti=o[2]), o[1],
                         c09.sym(op.ctx.cdb["client_1"]["client_secret"]) if o[1] == "HS256" else c09.key("client_1", o[1]))
            r = op.call("introspection", {"token": "nothing", "client_assertion": a, "client_assertion_type": c09.CT})
            return [self.digest(r)]
        if k == "push":
            cid = o[1]
            d = dict(op.areq(cid, state=f"s{o[2]}", nonce=f"n{o[2]}", **o[3]), client_secret=op.ctx.cdb[cid]["client_secret"])
            r = op.call("pushed_authorization", d)
            if r.ok:
                self.par.append((r["request_uri"], cid))
            return [self.digest(r)]
        if k == "authorize":
            uri, cid = self.par[o[1]]
            req = {"client_id": cid, "request_uri": uri, "response_type": "code", "scope": "openid", "redirect_uri":
                   op.areq(cid)["redirect_uri"]}
            r = op.authz(req)
            out = [self.digest(r)]
            if r.kind == "login":
                r = op.login(r, "diana")
                out.append(self.digest(r))
            self.keep(r, cid, req)
            return out
        if k == "logout":
            ck, cid, req = self.cookies[o[1]]
            p = {"state": "bye"}
            if o[2] == "hint":
                own = [v for v, c, _ in self.idt if c == cid]
                p["id_token_hint"] = own[-1] if own else "none"
            self.sent = op.ctx.httpc.sent = []
            r = op.end_session(p, ck)
            out = [self.digest(r)]
            if r.ok and "sjwt" in r:
                self.sjwt.append(r["sjwt"])
            return out
        if k == "confirm":
            op.ctx.httpc.sent = sent = []
            r = op.verified_logout(self.sjwt[o[1]], alla=o[2])
            frames = [re.split(r'["&?=]', f) for f in getattr(r, "frames", [])]
            return [r.kind, r.params if r.kind == "refused" else None, r.target, frames, list(sent)]
        raise ValueError(o)

    def authenticated(self, c, p, how):
        from mc.checks import c09
        if how == "post":
            return dict(p, client_secret=c["client_secret"])
        cl = {"iss": c["client_id"], "sub": c["client_id"], "aud": [self.op.ep("token").full_path], "jti": f"j{len(self.at)}",
              "iat": clock.now(), "exp": clock.now() + 300}
        a = c09.sign(cl, "HS256", c09.sym(c["client_secret"])) if how == "jwt" else c09.sign(cl, "ES256", c09.key("client_3", "ES256"))
        return dict(p, client_assertion=a, client_assertion_type=c09.CT)


def _json(v):
    try:
        return json.loads(v)
    except ValueError:
        return v


class Recorder:
    """The HTTP client of the provider: nothing leaves, what is sent is recorded."""

    def __init__(self):
        self.sent = []

    def post(self, url, **kw):
        self.sent.append([url, kw.get("data")])

        class R:
            status_code = 200
            text = ""
        return R()

    def __call__(self, method, url, **kw):
        return self.post(url, **kw)


class Base(Scenario):
    maxlogin = 2
    kind = "oidc"
    parties = "ABCM"
    maxrestore = 2

    def __init__(self, name, **kw):
        self.name = name
        self.__dict__.update(kw)

    def conf(self):
        return base_conf(self.kind)

    def cl(self):
        return {f"client_{i}": client(i) for i in (1, 2)}

    def provider(self, clients=None):
        op = OP(self._conf, clients={} if clients is not None else self._cl, kind=self.kind, httpc=Recorder())
        if clients is None:
            for cid, who in self.keys_of():
                op.ctx.keyjar.import_jwks(public_jwks(who), cid)
        return op

    def keys_of(self):
        return ()

    def treq_args(self, o):
        return {}

    def token_kw(self):
        return {"issue_refresh": True} if self.kind == "oauth2" else {}

    def setup(self):
        mcop._KEYFILES.clear()  # the first start: key files do not exist yet
        self._conf, self._cl = self.conf(), self.cl()
        first = self.provider()
        self.p = {"A": Party(self, first)}
        for n in self.parties[1:]:  # the others start with the keys and secrets A has got
            o = self.provider()
            o.ctx.load(json.loads(json.dumps(first.ctx.dump())), init_args={
                "server_get": o.server.server_get, "handler": o.mngr.token_handler})
            self.p[n] = Party(self, o)
        if "M" in self.p:  # not restored by loading everything
            m = self.p["M"].op = self.provider()
        self.bij = {n: Bij() for n in self.parties[1:]}
        self.n = self.logins = self.restores = 0
        self.fresh = True

    def apply(self, o):
        if o[0] == "restore":
            self.restores += 1
            self.fresh = True
            self.p["C"].restart()
            return
        clock.advance(o[1] if o[0] == "wait" else 1)
        if o[0] == "wait":
            self.fresh = False
            return
        self.n += 1
        self.fresh = False
        self.track(o)
        real = self.concrete(o)
        now = clock.now()
        want = self.p["A"].run(real)
        for n in self.parties[1:]:
            clock.set_now(now)
            self.check(n, want, self.p[n].run(real), o)
        clock.set_now(now)
        self.p["B"].restart()
        if "M" in self.p:
            self.p["M"].reload()

    def concrete(self, o):
        return o

    def track(self, o):
        if o[0].startswith("login") or o[0] in ("sso", "authorize"):
            self.logins += 1

    def check(self, n, a, b, o):
        try:
            self.bij[n].match(a, b)
        except Differs as e:
            who = {"B": "restored after every operation", "C": "restored where the history says", "M": "sessions reloaded"}[n]
            raise Violation(f"{o[0]}: the provider {who} answers differently: {e}", info={"expected": a, "got": b},
                            sig=f"{o[0]} differs")

    def invariant(self):
        want = self.p["A"].probe()
        for n in self.parties[1:]:
            count(C_PROBE)
            self.check(n, want, self.p[n].probe(), ("what can be seen",))

    def key(self):
        st = "".join(op_state(p.op, {}, set()) for n, p in sorted(self.p.items()) if n in "AC")
        a = self.p["A"]
        return st + json.dumps([self.fresh, bool(self.restores), self.restores >= self.maxrestore, self.logins, self.extra_key(),
                                [len(x) for x in (a.codes, a.at, a.rt, a.idt, a.cookies, a.clients, a.par, a.sjwt)]])

    def extra_key(self):
        return None

    def restore_ops(self):
        return [("restore",)] if not self.fresh and self.restores < self.maxrestore else []


OFFLINE = {"scope": ("openid", "offline_access", "profile"), "prompt": "consent"}


class Tokens(Base):
    """Codes, tokens, refresh, revocation, expiry."""
    jwt = False
    logins_ = (("diana", "client_1", OFFLINE), ("babs", "client_2", {"response_type": "code id_token", "scope": ("openid", "email")}))
    revs = ("token", "tree", "grant", "client session", "remove")
    waits = ()
    rules = False

    def conf(self):
        c = base_conf(self.kind)
        if self.jwt:
            jwt_tokens(c)
        if self.kind == "oauth2":
            c["allowed_scopes"] = ["profile", "email", "openid", "offline_access"]
        return c

    def cl(self):
        cl = Base.cl(self)
        if self.rules:
            cl["client_1"]["token_usage_rules"] = {
                "authorization_code": {"max_usage": 2, "expires_in": 100, "supports_minting": ["access_token", "refresh_token"]},
                "access_token": {"expires_in": 50},
                "refresh_token": {"max_usage": 2, "expires_in": 150, "supports_minting": ["access_token", "refresh_token"]}}
        return cl

    def ops(self):
        a = self.p["A"]
        out = []
        if self.logins < self.maxlogin:
            out += [("login", u, c, i) for i, (u, c, _) in enumerate(self.logins_)]
        out += [("redeem", i) for i in range(len(a.codes))]
        out += [("refresh", i, s) for i in range(len(a.rt)) for s in ((None, ("openid",)) if self.kind == "oidc" else (None,))]
        for w in ("codes", "at", "rt"):
            out += [("revoke", k, w, i) for i in range(len(getattr(a, w))) for k in self.revs
                    if k in ("token", "tree") or (w == "codes" and k != "tree")]
        out += [("wait", s) for s in self.waits]
        return out + self.restore_ops()

    def concrete(self, o):
        if o[0] == "login":
            return ("login", o[1], o[2], self.n, self.logins_[o[3]][2])
        return o


class SSO(Base):
    """Cookies of earlier logins are used after the restore."""
    maxlogin = 3

    def ops(self):
        a = self.p["A"]
        out = []
        if self.logins < self.maxlogin:
            out += [("login", "diana", "client_1")]
            out += [("sso", i, s) for i in range(len(a.cookies)) for s in ("same", "new", "other client", "max_age", "prompt")
                    if not (s == "same" and "max_age" in a.cookies[i][2])]  # there "600" and 600 are not the same request
        out += [("redeem", i) for i in range(len(a.codes))]
        out += [("revoke", k, "codes", i) for i in range(len(a.codes)) for k in ("grant", "client session")]
        out += [("wait", 700)] if clock.now() < clock.START + 1000 else []
        return out + self.restore_ops()

    def concrete(self, o):
        if o[0] == "login":
            return ("login", o[1], o[2], self.n, {})
        if o[0] == "sso":
            return ("sso", o[1], o[2], self.n, "babs")
        return o


CLAIMS = json.dumps({"userinfo": {"email": {"essential": True}, "phone_number": None, "nickname": {"value": "Dina"}},
                     "id_token": {"acr": {"values": [mcop.ACR]}, "given_name": None}})


class Details(Tokens):
    """Requests whose details matter later: claims, PKCE, acr, subject types, DPoP."""
    revs = ("grant",)
    waits = ()
    maxlogin = 1
    logins_ = (
        ("diana", "client_1", {"claims": CLAIMS, "scope": ("openid",), "response_type": "code id_token"}),
        ("diana", "client_1", {"code_challenge": "iMnq5o6zALKXGivsnlom_0F5_WYda32GHkxlV7mq7hQ", "code_challenge_method": "S256",
                               "scope": ("openid",)}),
        ("diana", "client_2", {"acr_values": mcop.ACR, "scope": ("openid", "offline_access"), "prompt": "consent", "max_age": "1000"}),
        ("babs", "client_2", {"response_type": "code id_token token", "scope": ("openid", "profile", "address")}),
        ("babs", "client_3", {"scope": ("openid", "offline_access"), "prompt": "consent", "resource": "https://rs.example.org"}),
        ("diana", "client_1", {"response_mode": "form_post", "ui_locales": "sv en"}),
    )

    def conf(self):
        c = Tokens.conf(self)
        c["add_on"] = {"pkce": {"function": "oidcop.oidc.add_on.pkce.add_pkce_support", "kwargs": {
            "essential": False, "code_challenge_method": "S256 S384 S512"}}}
        if self.dpop:
            c["add_on"]["dpop"] = {"function": "oidcop.oauth2.add_on.dpop.add_support", "kwargs": {
                "dpop_signing_alg_values_supported": ["ES256"]}}
        return c

    dpop = False

    def cl(self):
        return {"client_1": client(1, add_claims={"always": {"introspection": ["nickname"], "userinfo": ["address"]},
                                                  "by_scope": {"id_token": True}}),
                "client_2": client(2, subject_type="pairwise", id_token_signed_response_alg="ES256"),
                "client_3": client(3, subject_type="ephemeral", id_token_signed_response_alg="HS256", allowed_scopes=[
                    "openid", "offline_access"])}

    def treq_args(self, o):
        return {"code_verifier": "x" * 43} if o[-1] == "wrong verifier" else {"code_verifier": VERIFIER}

    def ops(self):
        out = Tokens.ops(self)
        return out + [("redeem", i, "wrong verifier") for i in range(len(self.p["A"].codes))]


VERIFIER = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKL"


class Clients(Base):
    """Dynamic registration."""
    maxclients = 2
    METAS = (
        {"redirect_uris": ["https://dyn.example.com/cb", "https://dyn.example.com/cb2?x=1&y=2"], "client_name": "Dyn",
         "response_types": ["code"], "contacts": ["a@example.com"], "logo_uri": "https://dyn.example.com/logo.png"},
        {"redirect_uris": ["https://two.example.com/cb?foo=bar"], "token_endpoint_auth_method": "private_key_jwt",
         "jwks": public_jwks("client_3"), "subject_type": "pairwise", "id_token_signed_response_alg": "ES256",
         "response_types": ["code", "code id_token"], "request_uris": ["https://two.example.com/r#abc"],
         "post_logout_redirect_uris": ["https://two.example.com/bye?a=b"]},
        {"redirect_uris": ["https://two.example.com/cb#frag"]},
    )

    def conf(self):
        c = base_conf()
        c["endpoint"]["registration"] = {"path": "registration", "class": "oidcop.oidc.registration.Registration",
                                         "kwargs": {"client_secret_expires_in": 1000}}
        c["endpoint"]["registration_read"] = {"path": "registration_api", "class": "oidcop.oidc.read_registration.RegistrationRead",
                                              "kwargs": {"client_authn_method": ["bearer_header"]}}
        return c

    def ops(self):
        a = self.p["A"]
        out = []
        if len(a.clients) < self.maxclients:
            out += [("register", i) for i in range(len(self.METAS))]
        if self.logins < self.maxlogin:
            out += [("login registered", i) for i in range(len(a.clients))]
        out += [("redeem registered", i, h) for i in range(len(a.codes)) for h in ("post", "jwt", "key")]
        out += [("wait", 1001)] if a.clients and clock.now() < clock.START + 1000 else []
        return out + self.restore_ops()

    def concrete(self, o):
        if o[0] == "register":
            return ("register", self.METAS[o[1]])
        if o[0] == "login registered":
            return ("login registered", o[1], self.n)
        return o


class Assertions(Base):
    """What has been used once stays used."""

    def conf(self):
        c = base_conf()
        c["endpoint"]["introspection"]["kwargs"]["client_authn_method"] += ["private_key_jwt", "client_secret_jwt"]
        return c

    def keys_of(self):
        return (("client_1", "client_1"),)

    def ops(self):
        return [("assert", alg, j) for alg in ("HS256", "ES256") for j in ("j1", "j2", None)] + self.restore_ops() + [("wait", 400)]


class Pushed(Base):
    """Requests pushed before, used after."""
    PUSHES = (("client_1", {"scope": ("openid", "profile")}), ("client_2", {"claims": CLAIMS, "response_type": "code id_token"}))

    def conf(self):
        c = base_conf()
        c["endpoint"]["pushed_authorization"] = {
            "path": "pushed_authorization", "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization",
            "kwargs": {"client_authn_method": ["client_secret_post"]}}
        return c

    def ops(self):
        a = self.p["A"]
        out = []
        if len(a.par) < 2:
            out += [("push", i) for i in range(len(self.PUSHES))]
        if self.logins < 3:
            out += [("authorize", i) for i in range(len(a.par))]
        out += [("redeem", i) for i in range(len(a.codes))]
        return out + self.restore_ops()

    def concrete(self, o):
        if o[0] == "push":
            cid, kw = self.PUSHES[o[1]]
            return ("push", cid, self.n, kw)
        return o


class Logout(Base):
    maxlogin = 2

    def conf(self):
        return logout_conf(base_conf(), backchannel_logout_supported=True, frontchannel_logout_supported=True)

    def cl(self):
        return {"client_1": client(1, client_id="client_1", backchannel_logout_uri="https://rp1.example.com/bc",
                                   post_logout_redirect_uri=[("https://rp1.example.com/bye", "")]),
                "client_2": client(2, client_id="client_2", frontchannel_logout_uri="https://rp2.example.com/fc",
                                   frontchannel_logout_session_required=True)}

    def ops(self):
        a = self.p["A"]
        out = []
        if self.logins < self.maxlogin:
            out += [("login", "diana", c) for c in ("client_1", "client_2")]
        out += [("redeem", i) for i in range(len(a.codes)) if len(a.at) < 2]
        if len(a.sjwt) < 2:
            out += [("logout", i, h) for i in range(len(a.cookies)) for h in ("hint", "no hint")]
        out += [("confirm", i, alla) for i in range(len(a.sjwt)) for alla in (True, False)]
        return out + self.restore_ops()

    def concrete(self, o):
        if o[0] == "login":
            return ("login", o[1], o[2], self.n, {"response_type": "code id_token"})
        return o


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    yield Tokens("tokens"), 4 + x
    yield Tokens("jwt tokens", jwt=True, revs=("token", "client session"), logins_=Tokens.logins_[:1]), 4 + x
    yield Tokens("usage rules and expiry", rules=True, waits=(60, 120), revs=(), logins_=Tokens.logins_[:1], maxlogin=1), 5 + x
    yield Tokens("oauth2", kind="oauth2", logins_=(("diana", "client_1", {"scope": ("profile",)}),
                                                   ("babs", "client_2", {"scope": ("profile", "email")}))), 4 + x
    yield SSO("single sign-on"), 4 + x
    yield Details("details of the request"), 4 + x
    yield Details("details, jwt tokens", jwt=True), 4 + x
    yield Clients("clients"), 4 + x
    yield Assertions("assertions"), 4 + x
    yield Pushed("pushed requests"), 5 + x
    yield Logout("logout"), 5 + x


def main(tier):
    c = Check("C14", tier)
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
