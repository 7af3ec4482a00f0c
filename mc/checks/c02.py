"""C02: codes and refresh tokens work only for the client and URI they were issued to."""
from mc import clock
from mc.explore import Violation
from mc.explore import op_state
from mc.lifecycle import CODE
from mc.lifecycle import RT
from mc.lifecycle import SHORT_RULES
from mc.lifecycle import Lifecycle
from mc.op import basic
from mc.op import client
from mc.report import Check

URI = {c: f"https://rp{c[-1]}.example.com/cb" for c in ("client_1", "client_2", "client_3")}
ALT = {c: f"https://rp{c[-1]}.example.com/alt" for c in URI}


class Cross(Lifecycle):
    """Every token request by every client, with every claimed client_id, redirect_uri and way to authenticate."""

    def __init__(self, *a, styles=("post", "basic", "basic+victim"), uris=("own", "alt", "presenter", "none", "case", "sub"), **k):
        Lifecycle.__init__(self, *a, **k)
        self.styles = styles
        self.uris = uris

    def ops(self):
        o = [x for x in Lifecycle.ops(self) if x[0] not in ("redeem", "refresh", "authz")]
        if len(self.grants) < self.max_grants:
            o += [("authz", u, c, 0, "code", w) for u in self.users for c in self.cids for w in (0, 1)]
        if len(self.tokens) < self.max_tokens:
            for t in self.tokens:
                if t.kind == CODE:
                    o += [("try_code", t.i, c, s, u) for c in self.cids for s in self.styles for u in self.uris]
                elif t.kind == RT:
                    o += [("try_rt", t.i, c, s) for c in self.cids for s in self.styles]
        return o

    def areq(self, cid, s, gi, rt="code"):
        r = Lifecycle.areq(self, cid, s, gi, rt)
        r["redirect_uri"] = (URI, ALT)[self.which][cid]
        return r

    def do_authz(self, user, cid, s, rt="code", which=0):
        self.which = which
        Lifecycle.do_authz(self, user, cid, s, rt)
        for t in self.tokens:
            if t.grant is self.grants[-1]:
                t.redirect_uri = (URI, ALT)[which][cid]

    def send(self, req, presenter, style, victim):
        sec = self.op.ctx.cdb[presenter]["client_secret"]
        auth = None
        if style == "post":
            req.update(client_id=presenter, client_secret=sec)
        elif style == "basic":
            req["client_id"] = presenter
            auth = basic(presenter, sec)
        elif style == "basic+victim":  # authenticated as the presenter, claiming to be the victim
            req["client_id"] = victim
            auth = basic(presenter, sec)
        elif style == "post+victim secret":
            req.update(client_id=victim, client_secret=sec)
        elif style == "none":
            req["client_id"] = victim
        return self.op.token(req, auth=auth, **self._kw())

    def state(self):
        names = {t.value: f"tok{t.i}" for t in self.tokens}
        for c in self.op.ctx.cdb.values():
            c.pop("auth_method", None)
        return op_state(self.op, names, set())

    def attempt(self, t, req, presenter, style, ok, what):
        before = self.state()
        replay = self.kind == "oidc" and t.kind == CODE and t.used > 0
        r = self.send(req, presenter, style, t.grant.cid)
        self.compare(ok, r, what)
        if not ok:
            if replay:  # whoever replays it: what came from the code may be revoked, nothing else may happen
                gone = [d for d in self.descendants(t) if not d.revoked]
                now_gone = [d for d in gone if self.real_revoked(d)]
                if now_gone and len(now_gone) != len(gone):
                    raise Violation(f"{what}: replay revoked some of the tokens of the code", sig="partial replay")
                for d in now_gone:
                    d.revoked = True
            elif self.state() != before:
                raise Violation(f"{what}: the refused request changed the state of the provider",
                                sig="refused request changed state")
        return r

    def real_revoked(self, t):
        return self.op.mngr.get_grant(t.grant.sid).get_token(t.value).revoked

    def do_try_code(self, ti, presenter, style, uri):
        t = self.tokens[ti]
        g = t.grant
        other = (URI if t.redirect_uri == ALT[g.cid] else ALT)[g.cid]
        u = {"own": t.redirect_uri, "alt": other, "presenter": URI[presenter], "none": None,
             "case": t.redirect_uri.replace("/cb", "/CB").replace("/alt", "/Alt"), "sub": t.redirect_uri + "/x"}[uri]
        authed = presenter if style in ("post", "basic", "basic+victim") else None
        if style in ("none", "post+victim secret"):
            authed = presenter if style == "post+victim secret" and presenter == g.cid else None
        ok = t.active() and authed == g.cid and u == t.redirect_uri
        req = {"grant_type": "authorization_code", "code": t.value}
        if u is not None:
            req["redirect_uri"] = u
        r = self.attempt(t, req, presenter, style, ok, f"code {ti} of {g.cid} by {presenter} ({style}, uri {uri})")
        if ok:
            self.adopt_answer(r, t, g.scope)
            t.used += 1

    def do_try_rt(self, ti, presenter, style):
        t = self.tokens[ti]
        g = t.grant
        authed = presenter if style in ("post", "basic", "basic+victim") else (
            g.cid if style == "post+victim secret" and presenter == g.cid else None)
        ok = t.active() and authed == g.cid
        r = self.attempt(t, {"grant_type": "refresh_token", "refresh_token": t.value}, presenter, style, ok,
                         f"refresh token {ti} of {g.cid} by {presenter} ({style})")
        if ok:
            self.adopt_answer(r, t, self.parent_scope(t))
            t.used += 1


CL = {c: client(int(c[-1]), redirect_uris=[(URI[c], None), (ALT[c], None)]) for c in URI}
TWO = ("client_1", "client_2")
ALLS = ("post", "basic", "basic+victim", "post+victim secret", "none")


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    k = dict(rules=SHORT_RULES, grant_exp=3000, clients=CL, cids=TWO, max_tokens=12, alphabet=("tick",))
    yield Cross("every presentation", styles=ALLS, max_grants=2, **dict(k, alphabet=())), 3
    g2 = [("authz", "diana", "client_1", 0, "code", 0), ("authz", "diana", "client_2", 0, "code", 1)]
    yield Cross("two sessions of one user", start=g2, styles=("post", "basic+victim"), uris=("own", "presenter"),
                **k), 3 + x
    yield Cross("two users", users=("diana", "babs"), max_grants=2, styles=("basic+victim",), uris=("own", "presenter"),
                **dict(k, cids=TWO)), 4 + x
    yield Cross("jwt tokens", jwt=("token", "refresh"), start=g2, styles=("post", "basic+victim"),
                uris=("own", "alt"), **k), 3
    a = dict(k, kind="oauth2", issue_refresh=True, scopes=(("alpha",),))
    yield Cross("oauth2 every presentation", styles=ALLS, max_grants=2, **dict(a, alphabet=())), 3
    yield Cross("oauth2 two sessions", start=g2, styles=("post", "basic+victim"), uris=("own", "presenter"), **a), 3 + x
    yield Cross("oauth2 jwt", jwt=("token", "refresh"), start=g2, styles=("basic+victim",), uris=("own", "alt"), **a), 3
    yield Cross("three clients", start=g2 + [("authz", "babs", "client_3", 0, "code", 0)], styles=("basic+victim",),
                uris=("own",), **dict(k, cids=TWO + ("client_3",), alphabet=("revoke_grant",))), 3 + x


def main(tier):
    c = Check("C02", tier)
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
