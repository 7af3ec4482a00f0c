"""Reference automaton of grants and tokens, and the scenario that runs the real provider in lockstep with it.

The reference is deliberately small: a list of grants, a list of tokens with parent links, lifetimes, flags.  Every
request made to the real provider is also made to the reference and the answers have to agree; after every step every
token ever issued is presented at userinfo and introspection and the answers have to agree with the reference.
"""
import copy
import os

from mc import clock
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import op_state
from mc.op import OP
from mc.op import base_conf
from mc.op import client
from mc.op import jwt_claims
from mc.op import jwt_tokens

AT, RT, CODE, IDT = "access_token", "refresh_token", "authorization_code", "id_token"
DEFAULT_MINTS = {CODE: [AT, RT, IDT], RT: [AT, RT], AT: []}


class MGrant:
    def __init__(self, i, user, cid, scope, exp, rules, authn_until, handle=None):
        self.i, self.user, self.cid, self.scope, self.exp = i, user, cid, list(scope), exp
        self.rules = rules
        self.authn_until = authn_until
        self.revoked = False
        self.sid = None
        self.sub = None
        self.nonce = None

    def active(self):
        return not self.revoked and not (self.exp and clock.now() > self.exp)


class MToken:
    def __init__(self, i, kind, grant, parent, scope, exp, value):
        self.i, self.kind, self.grant, self.parent, self.scope = i, kind, grant, parent, list(scope)
        self.exp, self.value = exp, value
        self.iat = clock.now()
        self.used = 0
        self.revoked = False
        self.max_usage = None
        self.mints = []
        self.redirect_uri = None
        self.jwt_exp = None  # expiration time the token itself carries, when it differs (see C03 'announced lifetimes')

    def own_active(self):
        return not self.revoked and not (self.jwt_exp and clock.now() > self.jwt_exp) and not (self.exp and clock.now() > self.exp) and not (
            self.max_usage is not None and self.used >= self.max_usage)

    def active(self):
        return self.own_active() and self.grant.active()


def merged_rules(provider_rules, client_rules):
    """Provider rules refined by the client's own (documented: client settings win, {} clears)."""
    r = copy.deepcopy(provider_rules or {})
    for k, v in (client_rules or {}).items():
        if v == {}:
            r[k] = {}
        else:
            r[k] = dict(r.get(k, {}), **copy.deepcopy(v))
    return r


def g_req_scope(t):
    return t.grant.req["scope"].split()


class Lifecycle(Scenario):
    """alphabet: set of op families to include."""

    def __init__(self, name, kind="oidc", jwt=(), conf=None, clients=None, users=("diana",), cids=("client_1",),
                 scopes=(("openid", "offline_access"),), refresh_scopes=(None,), alphabet=("authz", "redeem", "refresh"),
                 max_grants=2, max_tokens=9, provider_revoke_on_issue=False, cross=False, sso=False, ticks=("before",
                                                                                                       "after"),
                 probe_userinfo=True, issue_refresh=None, rules=None, grant_exp=43200, rts=("code",), start=()):
        self.name = name
        self.kind = kind
        self.jwt = tuple(jwt)
        self.conf = conf
        self.clients = clients
        self.users = users
        self.cids = cids
        self.scopes = scopes
        self.refresh_scopes = refresh_scopes
        self.alphabet = alphabet
        self.max_grants = max_grants
        self.max_tokens = max_tokens
        self.provider_roi = provider_revoke_on_issue
        self.cross = cross
        self.sso = sso
        self.ticks = ticks
        self.probe_userinfo = probe_userinfo and kind == "oidc"
        self.issue_refresh = issue_refresh
        self.rules = rules
        self.grant_exp = grant_exp
        self.rts = rts
        self.start = start

    # ------------------------------------------------------------------ setup
    def setup(self):
        conf = self.conf() if callable(self.conf) else (copy.deepcopy(self.conf) or base_conf(self.kind))
        if self.rules is not None:
            conf["authz"]["kwargs"]["grant_config"]["usage_rules"] = copy.deepcopy(self.rules)
        gc = conf["authz"]["kwargs"]["grant_config"]
        if self.grant_exp:
            gc["expires_in"] = self.grant_exp
        else:
            gc.pop("expires_in", None)
        if self.jwt:
            jwt_tokens(conf, self.jwt)
        if self.kind == "oauth2":
            conf.setdefault("allowed_scopes", ["alpha", "beta", "gamma", "offline_access"])
        if self.provider_roi:
            conf["endpoint"]["token"]["kwargs"]["revoke_refresh_on_issue"] = True
        self.conf_used = conf
        self.op = OP(conf, copy.deepcopy(self.clients), kind=self.kind)
        self.p_rules = copy.deepcopy(gc.get("usage_rules", {}))
        self.c_rules = {c: copy.deepcopy(i.get("token_usage_rules", {})) for c, i in self.op.ctx.cdb.items()}
        self.cdb0 = {c: copy.deepcopy(dict(i)) for c, i in self.op.ctx.cdb.items()}
        self.conf0 = copy.deepcopy(self.op.ctx.authz.grant_config)
        self.grants = []
        self.tokens = []
        self.cookies = {}
        self.obs = []
        for o in self.start:
            self.apply(o)
            self.invariant()

    # ------------------------------------------------------------------ reference
    def m_rules(self, cid):
        return merged_rules(self.p_rules, self.c_rules.get(cid))

    def m_exp(self, rules, kind, endpoint):
        r = rules.get(kind)
        if endpoint == "token":
            e = r.get("expires_in") if r else 1800
        else:
            e = (r or {}).get("expires_in")
        return clock.now() + int(e) if e and int(e) > 0 else None

    def m_mint(self, kind, grant, parent, scope, value, endpoint="token"):
        t = MToken(len(self.tokens), kind, grant, parent, scope, self.m_exp(grant.rules, kind, endpoint), value)
        r = grant.rules.get(kind) or {}
        t.max_usage = 1 if kind == CODE else r.get("max_usage")
        short = {AT: "token", RT: "refresh"}.get(kind)
        if short in self.jwt and "expires_in" not in r:
            # no rule: the token itself carries the lifetime of its handler (a known finding of C03)
            t.jwt_exp = clock.now() + self.conf_used["token_handler_args"][short]["kwargs"]["lifetime"]
        t.mints = r["supports_minting"] if "supports_minting" in r else DEFAULT_MINTS.get(kind, [])
        if any(x.value == value for x in self.tokens):
            raise Violation(f"the provider issued the same {kind} twice", sig="duplicate token value")
        self.tokens.append(t)
        return t

    def descendants(self, t):
        out = []
        for x in self.tokens:
            if x.parent is t:
                out.append(x)
                out.extend(self.descendants(x))
        return out

    def permitted(self, cid, scopes):
        c = self.cdb0[cid]
        if "allowed_scopes" in c:
            allowed = c["allowed_scopes"]
        else:
            allowed = list(c.get("scopes_to_claims", {})) or self.conf_used.get(
                "allowed_scopes") or ["openid", "profile", "email", "address", "phone", "offline_access"]
        return [s for s in scopes if s in allowed]

    # ------------------------------------------------------------------ operations
    def of(self, kind):
        return [t for t in self.tokens if t.kind == kind]

    def ops(self):
        a = self.alphabet
        o = []
        room = len(self.tokens) < self.max_tokens
        if "redeem" in a and room:
            for t in self.of(CODE):
                for c in (self.cids if self.cross else (t.grant.cid,)):
                    o.append(("redeem", t.i, c))
        if "refresh" in a and room:
            for t in self.of(RT):
                for sc in self.refresh_scopes:
                    for c in (self.cids if self.cross else (t.grant.cid,)):
                        o.append(("refresh", t.i, c, sc))
        if "revoke" in a:
            for t in self.tokens:
                if t.kind != IDT:
                    o.append(("revoke", t.i, True))
                    if self.kids(t):
                        o.append(("revoke", t.i, False))
        if "grant_revoke_token" in a:
            for t in self.tokens:
                o.append(("grant_revoke_token", t.i))
        if "revoke_grant" in a:
            o += [("revoke_grant", g.i) for g in self.grants]
        if "revoke_cs" in a:
            seen = set()
            for g in self.grants:
                if (g.user, g.cid) not in seen:
                    seen.add((g.user, g.cid))
                    o.append(("revoke_cs", g.i))
        if "tick" in a:
            o += [("tick", w) for w in self.ticks if self.next_expiry(w) is not None]
        if "authz" in a and len(self.grants) < self.max_grants and room:
            o += [("authz", u, c, s, rt) for u in self.users for c in self.cids for s in range(len(self.scopes))
                  for rt in self.rts]
        if self.sso and room:
            o += [("again", g.i) for g in self.grants if g.active() and g.authn_until > clock.now()]
        return o

    def kids(self, t):
        return [x for x in self.tokens if x.parent is t]

    def next_expiry(self, when):
        d = 1 if when == "after" else -1
        c = [e for t in self.tokens for e in (t.exp, t.jwt_exp) if e and t.own_active()] + \
            [g.exp for g in self.grants if g.exp and g.active()] + [g.authn_until for g in self.grants]
        c = [e + d for e in c if e + d > clock.now()]
        return min(c) if c else None

    def apply(self, o):
        getattr(self, "do_" + o[0])(*o[1:])

    def _adopt_authz(self, r, g):
        if not r.ok:
            raise Violation(f"authorization refused: {r.brief()}", sig="authz refused")
        rt = g.rt.split()
        for p, k in (("code", "code"), ("token", "access_token"), ("id_token", "id_token")):
            if (p in rt) != (k in r):
                raise Violation(f"response type {g.rt} answered with {sorted(r.params)}", sig="authz answer")
        rs = r.get("scope")
        rs = rs.split() if isinstance(rs, str) else (rs or [])
        if sorted(rs) != sorted(g.scope):
            raise Violation(f"authorization response reports scope {rs}, granted {g.scope}", sig="reported scope")
        first = None
        if "code" in rt:
            t = first = self.m_mint(CODE, g, None, g.scope, r["code"], "authz")
            t.redirect_uri = f"https://rp{g.cid[-1]}.example.com/cb"
        if "token" in rt:
            t = self.m_mint(AT, g, None, g.scope, r["access_token"], "authz")
            first = first or t
            self.check_issue(r, t)
        if "id_token" in rt:
            self.m_mint(IDT, g, None, g.scope, r["id_token"], "authz")
        return first

    def areq(self, cid, s, gi, rt="code"):
        scope = self.scopes[s]
        kw = {"prompt": "consent"} if "offline_access" in scope else {}
        return self.op.areq(cid, scope=scope, state=f"state{gi}", nonce=f"nonce{gi}", response_type=rt, **kw)

    def do_authz(self, user, cid, s, rt="code"):
        gi = len(self.grants)
        req = self.areq(cid, s, gi, rt)
        r = self.op.authz_as(user, req)
        g = MGrant(gi, user, cid, self.permitted(cid, self.scopes[s]), clock.now() + self.grant_exp if self.grant_exp else None,
                   self.m_rules(cid), clock.now() + 3600)
        g.req = req
        g.rt = rt
        g.nonce = req.get("nonce")
        self.grants.append(g)
        first = self._adopt_authz(r, g)
        g.cookies = self.op.session_cookie(r)
        g.sid = self.op.mngr.get_session_info_by_token(first.value)["session_id"]

    def do_again(self, gi):
        """The same authorization request again, with the session cookie: a second code of the same grant."""
        g = self.grants[gi]
        r = self.op.authz(g.req, g.cookies)
        if self.grant_exp:
            g.exp = clock.now() + self.grant_exp
        self._adopt_authz(r, g)

    def do_tick(self, when):
        clock.set_now(self.next_expiry(when))

    def do_revoke(self, ti, recursive):
        t = self.tokens[ti]
        self.op.mngr.revoke_token(t.grant.sid, t.value, recursive=recursive)
        t.revoked = True
        if recursive:
            for d in self.descendants(t):
                d.revoked = True

    def do_grant_revoke_token(self, ti):
        t = self.tokens[ti]
        self.op.mngr.get_grant(t.grant.sid).revoke_token(value=t.value)
        t.revoked = True
        for d in self.descendants(t):
            d.revoked = True

    def do_revoke_grant(self, gi):
        g = self.grants[gi]
        self.op.mngr.revoke_grant(g.sid)
        g.revoked = True

    def do_revoke_cs(self, gi):
        g = self.grants[gi]
        self.op.mngr.revoke_client_session(g.sid)
        for x in self.grants:
            if (x.user, x.cid) == (g.user, g.cid):
                x.revoked = True

    def _kw(self):
        return {} if self.issue_refresh is None else {"issue_refresh": self.issue_refresh}

    def wants_refresh(self, scope):
        if self.issue_refresh is not None:
            return self.issue_refresh
        return self.kind == "oidc" and "offline_access" in scope

    def client_may_refresh(self, cid):
        gts = self.cdb0[cid].get("grant_types_supported") or ["authorization_code", "refresh_token"]
        return "refresh_token" in gts

    def do_redeem(self, ti, cid, redirect_uri=None, expect_hook=None):
        t = self.tokens[ti]
        g = t.grant
        ruri = redirect_uri or t.redirect_uri
        ok = t.active() and cid == g.cid and ruri == t.redirect_uri
        replay = self.kind == "oidc" and t.used > 0
        r = self.op.token(self.op.treq(t.value, cid, redirect_uri=ruri), **self._kw())
        self.compare(ok, r, f"redeem of code {ti} by {cid}")
        if replay:
            for d in self.descendants(t):
                d.revoked = True
        if not ok:
            return r
        self.adopt_answer(r, t, g.scope, rt=self.client_may_refresh(cid))
        t.used += 1
        return r

    def adopt_answer(self, r, parent, scope, rt=True):
        g = parent.grant
        self.expect_keys(r, parent, scope, rt)
        at = self.m_mint(AT, g, parent, scope, r["access_token"])
        self.check_issue(r, at)
        if "refresh_token" in r:
            n = self.m_mint(RT, g, parent, scope, r["refresh_token"])
            if parent.kind == RT:
                n.max_usage = parent.max_usage
                n.mints = list(parent.mints)
            self.check_jwt(n)
        if "id_token" in r:
            self.m_mint(IDT, g, parent, scope, r["id_token"])
            c = jwt_claims(r["id_token"])
            if c.get("nonce") != g.nonce or c.get("aud") not in (g.cid, [g.cid]):
                raise Violation(f"ID Token for {g.cid}/{g.nonce} carries {c}", sig="id_token binding")

    def expect_keys(self, r, parent, scope, rt):
        exp_rt = rt and RT in parent.mints and self.wants_refresh(scope)
        if exp_rt != ("refresh_token" in r):
            raise Violation(f"refresh token {'missing' if exp_rt else 'issued without leave'}: {sorted(r.params)}",
                            sig="refresh token issuance")
        oidc_scope = g_req_scope(parent) if parent.kind == CODE else scope
        exp_id = self.kind == "oidc" and "openid" in oidc_scope and IDT in parent.mints
        if exp_id != ("id_token" in r):
            raise Violation(f"id token {'missing' if exp_id else 'unexpected'}: {sorted(r.params)}",
                            sig="id token issuance")
        rs = r.get("scope")
        rs = rs.split() if isinstance(rs, str) else rs
        if sorted(rs or []) != sorted(scope):
            raise Violation(f"reported scope {rs}, granted {scope}", sig="reported scope")

    def check_issue(self, r, at):
        e = r.get("expires_in")
        want = at.exp - clock.now() if at.exp else None
        if (e if e is None else int(e)) != want:
            raise Violation(f"announced expires_in {e}, applied {want}", sig="announced lifetime")
        self.check_jwt(at)

    def check_jwt(self, t):
        short = {AT: "token", RT: "refresh"}[t.kind]
        if short not in self.jwt:
            return
        c = jwt_claims(t.value)
        if c.get("exp") != (t.jwt_exp or t.exp) or c.get("iat") != clock.now():
            raise Violation(f"JWT {t.kind} exp {c.get('exp')} iat {c.get('iat')}, applied exp {t.exp} iat {t.iat}",
                            sig=f"jwt lifetime {t.kind}")
        if sorted(c.get("scope", [])) != sorted(t.scope):
            raise Violation(f"JWT {t.kind} carries scope {c.get('scope')}, reported {t.scope}", sig="jwt scope")
        if c.get("client_id") != t.grant.cid:
            raise Violation(f"JWT {t.kind} of {t.grant.cid} carries client_id {c.get('client_id')}", sig="jwt client")

    def parent_scope(self, t):
        p = t.parent
        return p.scope if p is not None and p.scope else t.grant.scope

    def revoke_on_issue(self, cid):
        c = self.cdb0[cid]
        return c["revoke_refresh_on_issue"] if "revoke_refresh_on_issue" in c else self.provider_roi

    def do_refresh(self, ti, cid, sc=None):
        t = self.tokens[ti]
        g = t.grant
        base = self.parent_scope(t)
        ok = t.active() and cid == g.cid and (sc is None or set(sc) <= set(base)) and AT in t.mints \
            and self.client_may_refresh(cid)
        r = self.op.token(self.op.rreq(t.value, cid, scope=sc), **self._kw())
        self.compare(ok, r, f"refresh with {ti} by {cid} scope {sc}")
        if not ok:
            return r
        self.adopt_answer(r, t, list(sc) if sc is not None else base)
        t.used += 1
        if self.revoke_on_issue(cid):
            t.revoked = True
        return r

    def compare(self, ok, r, what):
        if ok and not r.ok:
            raise Violation(f"{what}: the token is active, but the request was refused: {r.brief()}",
                            sig="active token refused")
        if not ok and r.ok:
            raise Violation(f"{what}: must be refused, but was answered {sorted(r.params)}", sig="inactive token honoured")

    # ------------------------------------------------------------------ invariant
    def introspect(self, t):
        return self.op.introspect(t.value, t.grant.cid)

    def invariant(self):
        for t in self.tokens:
            exp = t.active() and t.kind in (AT, RT)
            r = self.introspect(t)
            act = r.ok and r.get("active") is True
            if act != exp:
                raise Violation(
                    f"{t.kind} {t.i} is {'active' if exp else 'not active'} (revoked={t.revoked} own={t.own_active()} "
                    f"grant={t.grant.active()}), introspection says {r.brief()} active={r.get('active')}",
                    sig=f"introspection active={act}")
            if act:
                want = {"client_id": t.grant.cid, "iat": t.iat, "scope": sorted(t.scope)}
                want["exp"] = t.exp
                got = {k: r.get(k) for k in want}
                got["scope"] = sorted((r.get("scope") or "").split())
                if got != want:
                    raise Violation(f"introspection of {t.kind} {t.i}: {got}, expected {want}", sig="introspection data")
                if t.grant.sub is None:
                    t.grant.sub = r["sub"]
                elif t.grant.sub != r["sub"]:
                    raise Violation("subject changed within a grant", sig="sub changed")
            if self.probe_userinfo:
                exp = t.kind == AT and t.active() and clock.now() <= t.grant.authn_until
                r = self.op.userinfo(t.value)
                if r.ok != exp:
                    raise Violation(
                        f"{t.kind} {t.i} (active={t.active()}, grant={t.grant.active()}) at userinfo: {r.brief()}",
                        sig=f"userinfo ok={r.ok}")
                if r.ok and t.grant.sub and r["sub"] != t.grant.sub:
                    raise Violation("userinfo subject differs from introspection", sig="userinfo sub")
        self.config_untouched()

    def config_untouched(self):
        for c, i in self.op.ctx.cdb.items():
            if {k: v for k, v in i.items() if k != "auth_method"} != self.cdb0.get(c):
                raise Violation(f"client configuration of {c} changed by serving requests", sig="cdb mutated",
                                before=self.cdb0.get(c), after=dict(i))
        if self.op.ctx.authz.grant_config != self.conf0:
            raise Violation("provider grant configuration changed by serving requests", sig="grant_config mutated")

    # ------------------------------------------------------------------ state identity
    def key(self):
        names = {}
        for g in self.grants:
            if g.sid:
                names[g.sid] = f"sid{g.i}"
        for t in self.tokens:
            names[t.value] = f"tok{t.i}"
        now = clock.now()
        m = [(g.user, g.cid, g.exp and g.exp - now, g.revoked, g.authn_until - now) for g in self.grants]
        m += [(t.kind, t.grant.i, t.parent.i if t.parent else -1, t.scope, t.exp and t.exp - now, t.used, t.revoked,
               t.iat - now) for t in self.tokens]
        return repr(m) + op_state(self.op, names, STATIC)


STATIC = set()
SHORT_RULES = {
    "authorization_code": {"expires_in": 300, "supports_minting": ["access_token", "refresh_token", "id_token"],
                           "max_usage": 1},
    "access_token": {"expires_in": 600},
    "refresh_token": {"expires_in": 1500, "supports_minting": ["access_token", "refresh_token"]},
}
