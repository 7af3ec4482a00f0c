"""C16: no silent login - single sign-on only for the same live, fresh enough authentication."""
import json

from mc import clock
from mc.explore import C_PROBE
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.explore import op_state
from mc.op import OP
from mc.op import base_conf
from mc.op import jwt_claims
from mc.report import Check

R = {  # name: (client, parameters, hinted user)
    "plain": ("client_1", {}, None),
    "idt": ("client_1", {"response_type": "code id_token"}, None),
    "none": ("client_1", {"prompt": "none"}, None),
    "none idt": ("client_1", {"prompt": "none", "response_type": "code id_token"}, None),
    "login": ("client_1", {"prompt": "login"}, None),
    "login consent": ("client_1", {"prompt": "login consent"}, None),
    "consent": ("client_1", {"prompt": "consent"}, None),
    "age": ("client_1", {"max_age": "600"}, None),
    "age none": ("client_1", {"max_age": "600", "prompt": "none"}, None),
    "age0": ("client_1", {"max_age": "0"}, None),
    "age0 none": ("client_1", {"max_age": "0", "prompt": "none"}, None),
    "age long none": ("client_1", {"max_age": "100000", "prompt": "none"}, None),
    "form none": ("client_1", {"prompt": "none", "response_mode": "form_post"}, None),
    "frag none": ("client_1", {"prompt": "none", "response_type": "code token", "response_mode": "fragment"}, None),
    "other": ("client_2", {}, None),
    "other none": ("client_2", {"prompt": "none"}, None),
    "hint diana none": ("client_1", {"prompt": "none", "id_token_hint": "diana"}, "diana"),
    "hint babs none": ("client_1", {"prompt": "none", "id_token_hint": "babs"}, "babs"),
    "hint babs": ("client_1", {"id_token_hint": "babs"}, "babs"),
    "mail diana none": ("client_1", {"prompt": "none", "login_hint": "mail:diana@example.org"}, "diana"),
    "mail babs none": ("client_1", {"prompt": "none", "login_hint": "mail:babs@example.com"}, "babs"),
    "mail babs": ("client_1", {"login_hint": "mail:babs@example.com"}, "babs"),
    "mail nobody": ("client_1", {"login_hint": "mail:nobody@example.com"}, ""),
    "other mail babs none": ("client_2", {"prompt": "none", "login_hint": "mail:babs@example.com"}, "babs"),
    "upm": ("client_1", {"max_age": "600", "prompt": "none", "upm_answer": "true"}, None),
    "upm login": ("client_1", {"prompt": "login", "upm_answer": "true"}, None),
}


class G:
    def __init__(self, user, client, req, at, authn, valid, sid):
        self.user, self.client, self.req, self.at, self.authn, self.valid, self.sid = user, client, req, at, authn, valid, sid
        self.revoked = self.gone = False


class SSO(Scenario):
    def __init__(self, name, reqs, users=("diana",), ticks=(), acts=(), jars=("each", "empty"), start=(), cookies=3, kind="oidc",
                 authn_exp=None, grant_exp=None, sub=None):
        self.name, self.reqs, self.users, self.ticks, self.acts, self.jars = name, reqs, users, ticks, acts, jars
        self.start, self.max_cookies, self.kind, self.authn_exp = start, cookies, kind, authn_exp
        self.grant_exp, self.sub = grant_exp, sub

    def setup(self):
        conf = base_conf(self.kind)
        if self.authn_exp:
            conf["authentication"]["user"]["kwargs"] = {"expires_in": self.authn_exp}
        if self.grant_exp:
            conf["authz"]["kwargs"]["grant_config"]["expires_in"] = self.grant_exp
        if any("login_hint" in R[r][1] for r in self.reqs):
            conf["login_hint_lookup"] = {"class": "oidcop.login_hint.LoginHintLookup"}
        self.op = OP(conf, kind=self.kind)
        if self.sub:
            for c in self.op.ctx.cdb.values():
                c["subject_type"] = self.sub
        if self.op.ctx.login_hint_lookup:
            self.op.ctx.login_hint_lookup.userinfo = self.op.ctx.userinfo
        self.g, self.cookies, self.page = [], [], None  # cookies: (grant number, issued at, cookie)
        self.idt = {}
        self.fake = []
        if "forged" in self.jars:
            o = OP(base_conf(self.kind), kind=self.kind, tag="x")
            o.ctx.session_manager.crypt = self.op.ctx.session_manager.crypt  # knows everything but the cookie keys
            self.fake.append(("another provider's", o))
        for o in self.start:
            self.apply(o)

    def forgeries(self):
        out = []
        for name, o in self.fake:
            for i, g in enumerate(self.g):
                c = o.ctx.new_cookie(name=o.ctx.cookie_handler.name["session"], sid=g.sid, state="S")
                out.append({"name": c["name"], "value": c["value"]})
        for _, _, c in self.cookies[-1:]:
            v = c["value"]
            out.append(dict(c, value=v[:len(v) // 2]))
            out.append(dict(c, value=v[:-6] + ("A" if v[-6] != "A" else "B") + v[-5:]))
            out.append(dict(c, value=v.split("|")[0]))
            out.append(dict(c, name="other"))
            out.append(dict(c, value=""))
        return out

    def jar(self, which):
        """[(cookie, grant number or None)]"""
        if which == "empty":
            return []
        if which == "all":
            return [(c, n) for n, _, c in self.cookies]
        if which == "reversed":
            return [(c, n) for n, _, c in reversed(self.cookies)]
        if isinstance(which, tuple):
            return [(self.forgeries()[which[1]], None)]
        n, _, c = self.cookies[which]
        return [(c, n)]

    def ops(self):
        out = []
        if self.page:
            out += [("answer", u) for u in self.users]
        jars = []
        for j in self.jars:
            if j == "each":
                jars += list(range(len(self.cookies)))
            elif j == "forged":
                jars += [("forged", i) for i in range(len(self.forgeries()))]
            elif j == "empty" or len(self.cookies) > 1:
                jars.append(j)
        for r in self.reqs:
            h = R[r][1].get("id_token_hint")
            if h and h not in self.idt:
                continue
            out += [("ask", r, j) for j in jars]
        out += [("tick", t) for t in self.ticks]
        for i, g in enumerate(self.g):
            if not g.gone:
                out += [(a, i) for a in self.acts if a in ("revoke", "revoke_cs", "remove", "redeem")
                        and not (g.revoked and a in ("revoke", "redeem"))]
        if "flush" in self.acts and self.g:
            out.append(("flush",))
        return out

    def request(self, r):
        cid, kw, _ = R[r]
        kw = dict(kw)
        if "id_token_hint" in kw:
            kw["id_token_hint"] = self.idt[kw["id_token_hint"]]
        kw.setdefault("response_type", "code")
        return self.op.areq(cid, state="S", nonce="N", **kw)

    def valid(self, g, r):
        """May the request be answered silently on grounds of this session?  None: at the limit, either will do."""
        cid, kw, hint = R[r]
        now = clock.now()
        if g.gone or g.revoked or g.client != cid or "login" in kw.get("prompt", ""):
            return False
        if hint is not None and hint != g.user:
            return False
        exp = g.at + (self.grant_exp or 43200)
        if now > exp or now > g.valid:
            return False
        if "max_age" in kw and now - g.authn > int(kw["max_age"]):
            return False
        if now == exp or now == g.valid:
            return None
        return True

    def apply(self, o):
        if o[0] == "tick":
            clock.advance(o[1])
        elif o[0] == "revoke":
            self.op.mngr.revoke_grant(self.g[o[1]].sid)
            self.g[o[1]].revoked = True
        elif o[0] == "revoke_cs":
            self.op.mngr.revoke_client_session(self.g[o[1]].sid)
            for g in self.g:
                if (g.user, g.client) == (self.g[o[1]].user, self.g[o[1]].client) and not g.gone:
                    g.revoked = True
        elif o[0] == "remove":
            self.op.mngr.remove_session(self.g[o[1]].sid)
            self.g[o[1]].gone = True
        elif o[0] == "flush":
            self.op.mngr.flush()
            for g in self.g:
                g.gone = True
        elif o[0] == "answer":
            page, r, self.page = self.page[0], self.page[1], None
            a = self.op.login(page, o[1])
            if not a.ok:
                raise Violation(f"logging in failed: {a.brief()}", sig="login fails")
            self.answered(r, a, o[1], clock.now(), clock.now() + (self.authn_exp or 3600), None)
        elif o[0] == "ask":
            self.ask(*o[1:])

    def ask(self, r, which):
        jar = self.jar(which)
        a = self.op.authz(self.request(r), cookies=[c for c, _ in jar])
        count(C_PROBE)
        verdicts = [(n, self.valid(self.g[n], r)) for _, n in jar if n is not None]
        may = [n for n, v in verdicts if v is not False]
        none = "none" in R[r][1].get("prompt", "")
        what = f"{r}: {a.brief()}"
        if a.ok:
            if not may:
                raise Violation(f"answered without interaction, {what}", sig="silent:" + r,
                                sessions=[vars(self.g[n]) for _, n in jar if n is not None])
            self.page = None
            cand = [self.g[n] for n in may]
            self.answered(r, a, None, None, None, cand)
            return
        if a.kind == "login" and none:
            raise Violation(f"prompt=none but the user is asked, {what}", sig="asked:" + r)
        if a.kind == "refused":
            raise Violation(f"neither answered nor asked, {what}", sig="refused:" + r)
        if a.kind == "error" and not none:
            raise Violation(f"the user can not log in, {what}", sig="error:" + r)
        if len(verdicts) == 1 and verdicts[0][1] and not (self.g[verdicts[0][0]].authn == clock.now() and "age0" in r) \
                and "consent" not in R[r][1].get("prompt", ""):
            raise Violation(f"a live session of the same client is not used, {what}", sig="no sso:" + r)
        if a.kind == "error":
            uri = self.op.ctx.cdb[R[r][0]]["redirect_uris"][0][0]
            if a.target != uri or a.get("state") != "S":
                raise Violation(f"the error is not sent to the client: {a!r}", sig="error target:" + r)
            if set(a.params) & {"code", "id_token", "access_token"}:
                raise Violation("an error answer contains tokens", sig="error with tokens")
            if a.cookies:
                raise Violation("an error answer sets a cookie", sig="error with cookie")
            self.page = None
        else:
            if a.params or a.cookies:
                raise Violation("the login page comes with an answer", sig="login page with answer")
            self.page = (a, r)

    def answered(self, r, a, user, authn, valid, cand):
        cid = R[r][0]
        i = self.op.mngr.get_session_info_by_token(a["code"], grant=True)
        g = i["grant"]
        ev = g.authentication_event
        if cand is not None:
            ok = [x for x in cand if x.user == i["user_id"]]
            if not ok:
                raise Violation(f"the code of a silent login is for {i['user_id']}", sig="silent user")
            user = i["user_id"]
            times = {x.authn for x in ok}
        else:
            times = {authn}
        if (i["user_id"], i["client_id"], ev["uid"]) != (user, cid, user):
            raise Violation(f"code for {i['user_id']} at {i['client_id']} (event of {ev['uid']})", sig="identity")
        if ev["authn_time"] not in times:
            raise Violation(f"authentication time {ev['authn_time'] - clock.START}, but it happened at "
                            f"{sorted(t - clock.START for t in times)}", sig="authentication time")
        if cand is not None:
            valid = max(x.valid for x in ok if x.authn == ev["authn_time"])
            if ev["valid_until"] > valid:
                raise Violation("a silent login prolongs the authentication", sig="prolonged")
            valid = ev["valid_until"]
        if "id_token" in a:
            x = jwt_claims(a["id_token"])
            if x["auth_time"] not in times or x["sub"] != g.sub:
                raise Violation(f"ID Token says {x}", sig="id token")
            self.idt.setdefault(user, a["id_token"])
        n = None
        for k, x in enumerate(self.g):
            if not x.gone and x.sid and self.op.mngr.decrypt_session_id(x.sid)[2] == i["grant_id"]:
                n = k
                if cand is None:
                    raise Violation("a new login continues an old grant", sig="login reuses grant")
                if x not in cand:
                    raise Violation("a silent login continues another session's grant", sig="silent other grant")
                x.at = clock.now()  # the same request again renews the grant
        if n is None:
            self.g.append(G(user, cid, r, clock.now(), ev["authn_time"], valid, i["session_id"]))
            n = len(self.g) - 1
        cks = self.op.session_cookie(a)
        if len(cks) != 1:
            raise Violation(f"{len(cks)} session cookies", sig="cookies")
        self.cookies.append((n, clock.now(), cks[0]))
        if len(self.cookies) > self.max_cookies:
            del self.cookies[0]

    def key(self):
        now = clock.now()
        return op_state(self.op, {}, set()) + repr((
            [(g.user, g.client, g.req, now - g.at, now - g.authn, g.valid - now, g.revoked, g.gone) for g in self.g],
            [(n, now - t) for n, t, _ in self.cookies], self.page and self.page[1], sorted(self.idt)))


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    D = [("ask", "plain", "empty"), ("answer", "diana")]
    DI = [("ask", "idt", "empty"), ("answer", "diana")]
    B = [("ask", "login", "empty"), ("answer", "babs")]
    BI = [("ask", "idt", "empty"), ("answer", "babs")]
    yield SSO("prompts", ("plain", "none", "none idt", "login", "consent", "login consent", "other", "other none"), start=D), 4 + x
    yield SSO("max_age", ("plain", "age", "age none"), ticks=(350, 600), start=D, cookies=2), 5 + x
    yield SSO("max_age 0", ("plain", "age0", "age0 none", "upm", "age long none"), ticks=(1, 600), start=D, cookies=2), 3 + x
    yield SSO("lifetimes", ("none", "plain", "age long none", "idt"), ticks=(1, 1800), start=D, cookies=2), 4 + x
    yield SSO("short authentication", ("none", "plain"), ticks=(1, 500), authn_exp=1000, start=D, cookies=2), 5 + x
    yield SSO("short grant", ("none", "plain"), ticks=(1, 500), grant_exp=1000, start=D, cookies=2), 5 + x
    yield SSO("ends", ("plain", "none", "other none", "idt"), acts=("revoke", "revoke_cs", "remove", "flush", "redeem"),
              users=("diana", "babs"), start=D), 4 + x
    yield SSO("hints", ("hint diana none", "hint babs none", "hint babs", "none", "idt", "login"), users=("diana", "babs"),
              start=DI + BI, acts=("revoke", "remove"), jars=("each", "empty", "all")), 3 + x
    yield SSO("hints of clients with ephemeral subjects", ("hint diana none", "hint babs none", "idt", "none idt"),
              users=("diana", "babs"), start=DI + BI, sub="ephemeral", ticks=(1000,), jars=("each", "all", "reversed")), 3 + x
    yield SSO("hints of clients with pairwise subjects", ("hint diana none", "hint babs none", "idt", "none idt"),
              users=("diana", "babs"), start=DI + BI, sub="pairwise", jars=("each", "all", "reversed")), 3 + x
    yield SSO("login hints", ("mail diana none", "mail babs none", "mail babs", "mail nobody", "other mail babs none", "plain",
                              "other"), users=("diana", "babs"), start=D + B), 3 + x
    yield SSO("several cookies", ("none", "other none", "age none", "login", "other"), users=("diana", "babs"), start=D + B,
              jars=("each", "all", "reversed"), acts=("revoke",), ticks=(700,)), 4 + x
    yield SSO("answers", ("form none", "frag none", "none idt", "age none", "plain"), ticks=(700, 3000), start=D), 4 + x
    yield SSO("forged cookies", ("plain", "none"), jars=("each", "forged"), start=D, acts=("revoke",)), 4 + x
    yield SSO("upm_answer", ("upm", "upm login", "plain"), ticks=(700,), start=D), 4 + x
    yield SSO("oauth2", ("plain", "none", "login", "age", "age none", "other none"), kind="oauth2", ticks=(700, 3000),
              acts=("revoke", "remove"), start=D), 4 + x


def main(tier):
    c = Check("C16", tier)
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
