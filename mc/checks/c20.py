"""C20: logout ends exactly the sessions it is meant to end."""
import base64
import itertools
import json
from html.parser import HTMLParser
from urllib.parse import parse_qsl
from urllib.parse import urlencode
from urllib.parse import urlsplit

from mc import clock
from mc import schedule
from mc.checks.c01 import files
from mc.checks.c01 import thread_cases
from mc.checks.c09 import key
from mc.checks.c09 import sign
from mc.explore import C_PROBE
from mc.explore import C_SCHED
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.explore import op_state
from mc.op import ISSUER
from mc.op import OP
from mc.op import base_conf
from mc.op import client
from mc.op import jwt_claims
from mc.op import jwt_header
from mc.op import logout_conf
from mc.report import Check

EVENT = "http://schemas.openid.net/event/backchannel-logout"
OTHERS_URI = "https://rp9.example.com/bye"


class Rp:
    """The clients' back-channel logout endpoints."""

    def __init__(self, behaviour=None):
        self.behaviour = behaviour or {}
        self.got = []

    def post(self, url, data=None, headers=None, **kw):
        self.got.append((url, data, headers))
        b = self.behaviour.get(url, 200)
        if isinstance(b, type):
            raise b(url)
        r = type("R", (), {})()
        r.status_code, r.text = b, ""
        return r

    def get(self, url, **kw):
        raise ConnectionError(url)


def bc(i):
    return f"https://rp{i}.example.com/bc?x=1&y=%22"


def fc(i):
    return f"https://rp{i}.example.com/fc"


KINDS = {  # what a client registered
    "bc": lambda i: {"backchannel_logout_uri": bc(i)},
    "bc ES256": lambda i: {"backchannel_logout_uri": bc(i), "id_token_signed_response_alg": "ES256"},
    "bc HS256": lambda i: {"backchannel_logout_uri": bc(i), "id_token_signed_response_alg": "HS256"},
    "fc": lambda i: {"frontchannel_logout_uri": fc(i)},
    "fc session": lambda i: {"frontchannel_logout_uri": fc(i), "frontchannel_logout_session_required": True},
    "fc query": lambda i: {"frontchannel_logout_uri": fc(i) + "?a=b&c=%26d&e=", "frontchannel_logout_session_required": True},
    "fc odd": lambda i: {"frontchannel_logout_uri": fc(i) + "?a=\"'><script>alert(1)</script>"},
    "both": lambda i: {"backchannel_logout_uri": bc(i), "frontchannel_logout_uri": fc(i)},
    "none": lambda i: {},
}
POST = (("https://rp{}.example.com/bye", {}), ("https://rp{}.example.com/bye", {"a": ["b c"]}))


def clients(kinds):
    out = {}
    for i, k in enumerate(kinds, 1):
        out[f"client_{i}"] = client(i, post_logout_redirect_uris=[(u.format(i), q) for u, q in POST], **KINDS[k](i))
    return out


def conf(kind="oidc"):
    c = logout_conf(base_conf(kind))
    c["keys"] = {"uri_path": "jwks.json", "key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]}, {"type": "RSA", "key": "", "size": 2048, "use": ["sig"]}]}
    c["authz"]["kwargs"]["grant_config"]["usage_rules"]["refresh_token"]["supports_minting"].append("id_token")
    c["authz"]["kwargs"]["grant_config"]["usage_rules"]["authorization_code"]["expires_in"] = 100000
    c["authz"]["kwargs"]["grant_config"]["usage_rules"]["access_token"]["expires_in"] = 400000
    c["authz"]["kwargs"]["grant_config"]["usage_rules"]["refresh_token"]["expires_in"] = 400000
    c["authz"]["kwargs"]["grant_config"]["expires_in"] = 400000
    for k in ("code", "token", "refresh"):
        c["token_handler_args"][k]["kwargs"]["lifetime"] = 400000
    c["token_handler_args"]["id_token"]["kwargs"]["lifetime"] = 400000
    return c


class _Frames(HTMLParser):
    def __init__(self):
        super().__init__()
        self.src, self.other, self.closed = [], [], 0

    def handle_starttag(self, tag, attrs):
        if tag == "iframe" and [k for k, _ in attrs] == ["src"]:
            self.src.append(attrs[0][1])
        else:
            self.other.append((tag, attrs))

    def handle_endtag(self, tag):
        if tag == "iframe":
            self.closed += 1
        else:
            self.other.append((tag,))

    def handle_data(self, data):
        if data.strip():
            self.other.append(data)


def sources(frames):
    p = _Frames()
    p.feed(" ".join(frames))
    p.close()
    if p.closed != len(p.src):
        p.other.append("not closed")
    return p.src, p.other


class G:
    """A session of a user at a client: one grant."""

    def __init__(self, user, cid, at):
        self.user, self.cid, self.at = user, cid, at
        self.live = True
        self.code = self.access = self.refresh = None
        self.idt = []   # ID Tokens of it
        self.gid = None

    def brief(self):
        return [self.user, self.cid, self.live, bool(self.code), bool(self.access), bool(self.refresh), len(self.idt), clock.now() - self.at]


class Logout(Scenario):
    def __init__(self, name, kinds, users=("diana",), browsers=("A",), rts=("code",), asks=("plain",), alla=(False, True), tricks=(), sessions=3, pages=2,
                 behaviour=None, ticks=(), steps=("login",), targets=None):
        self.name, self.kinds, self.users, self.browsers, self.rts, self.asks, self.alla = name, kinds, users, browsers, rts, asks, alla
        self.tricks, self.sessions, self.pages, self.behaviour, self.ticks, self.steps = tricks, sessions, pages, behaviour, ticks, steps
        self.cids = [f"client_{i}" for i in range(1, len(kinds) + 1)]
        self.targets = targets or self.cids

    def setup(self):
        self.rp = Rp(self.behaviour)
        self.op = OP(conf(), clients(self.kinds), kind="oidc", httpc=self.rp)
        self.g = []
        self.jar = {b: None for b in self.browsers}   # browser -> (cookies, grant index)
        self.old = []  # every session cookie there ever was, with its grant
        self.page = []  # (sjwt, grant index, redirect_uri, at, used)
        self.jtis = []
        self.told = []  # logout tokens
        self.asked = 0
        self.was = None

    # -- sequences
    def ops(self):
        out = []
        if len(self.g) < self.sessions:
            for b, u, c, rt in itertools.product(self.browsers, self.users, self.targets, self.rts):
                for s in self.steps:
                    out.append((s, b, u, c, rt))
        for b in self.browsers:
            if self.jar[b] is not None:
                if len(self.page) < self.pages:
                    out += [("ask", b, a) for a in self.asks]
        out += [("confirm", i, a) for i in range(len(self.page)) for a in self.alla]
        out += [("trick", t) for t in self.tricks if self.g]
        out += [("tick", t) for t in self.ticks if self.g]
        return out

    def key(self):
        names = {}
        for i, p in enumerate(self.page):
            names[p["sjwt"]] = f"P{i}"
        return op_state(self.op, names, set()) + json.dumps([[g.brief() for g in self.g], {b: j and j[1] for b, j in self.jar.items()}, [i for _, i in self.old],
                                                             [(p["g"], p["to"], clock.now() - p["at"], p["used"]) for p in self.page], len(self.told)])

    def apply(self, o):
        self.rp.got.clear()
        if o[0] in ("login", "half"):
            self.login(*o[1:], redeem=o[0] == "login")
        elif o[0] == "ask":
            self.ask(o[1], o[2])
        elif o[0] == "confirm":
            self.confirm(o[1], o[2])
        elif o[0] == "tick":
            clock.advance(o[1])
        elif o[0] == "trick":
            self.trick(o[1])
        if o[0] != "confirm" and self.rp.got:
            raise Violation(f"{o}: notified {[u for u, _, _ in self.rp.got]}", sig="notified unasked")

    def login(self, b, user, cid, rt, redeem=True):
        op = self.op
        r = op.authz_as(user, op.areq(cid, scope=("openid", "offline_access"), response_type=rt, prompt="consent", state=f"S{len(self.g)}", nonce=f"N{len(self.g)}"))
        if r.kind != "ok":
            raise Violation(f"login of {user} at {cid}: {r!r}", sig="login")
        g = G(user, cid, clock.now())
        if "id_token" in r:
            g.idt.append(r["id_token"])
        if "access_token" in r:
            g.access = r["access_token"]
        if "code" in r:
            if redeem:
                t = op.token(op.treq(r["code"], cid))
                if t.kind != "ok":
                    raise Violation(f"{user} at {cid}: {t!r}", sig="login")
                g.access, g.refresh = t["access_token"], t.get("refresh_token")
                g.idt.append(t["id_token"])
                g.spent = r["code"]
            else:
                g.code = r["code"]
        cookies = op.session_cookie(r)
        i = len(self.g)
        self.g.append(g)
        self.jar[b] = (cookies, i)
        self.old.append((cookies, i))
        for tok in [g.code or g.access]:
            g.gid = op.mngr.get_session_info_by_token(tok)["grant_id"]

    # -- asking to be logged out
    def target(self, g, which):
        n = g.cid[-1]
        return {"bye": f"https://rp{n}.example.com/bye", "query": f"https://rp{n}.example.com/bye?a=b+c", "evil": "https://evil.example.net/", "more": f"https://rp{n}.example.com/bye/x",
                "fragment": f"https://rp{n}.example.com/bye#x", "extra": f"https://rp{n}.example.com/bye?x=y", "cb": f"https://rp{n}.example.com/cb",
                "other": "https://rp{}.example.com/bye".format(1 if n != "1" else 2)}[which]

    def ask(self, b, how):
        op = self.op
        cookies, i = self.jar[b]
        g = self.g[i]
        p, want, to = {}, True, ISSUER + "/post_logout"
        words = how.split("+")
        for w in words:
            if w == "hint":
                if not g.idt:
                    return
                p["id_token_hint"] = g.idt[-1]
                if jwt_header(g.idt[-1])["alg"] == "HS256":
                    want = None
            elif w == "state":
                p["state"] = "st&=\"ü"
            elif w in ("bye", "query", "evil", "more", "fragment", "extra", "cb", "other"):
                p["post_logout_redirect_uri"] = to = self.target(g, w)
                if w not in ("bye", "query"):
                    want = False
                elif want is not False and "hint" not in words:
                    want = False
            elif w in ("foreign", "stranger"):
                mine = [x for x in self.g if x.idt and (x.cid != g.cid if w == "foreign" else x.user != g.user and x.cid == g.cid)]
                if not mine:
                    return
                p["id_token_hint"] = mine[-1].idt[-1]
                want = False
            elif w in ("forged", "unsigned", "garbage", "edited"):
                if not g.idt:
                    return
                h, pl, s = g.idt[-1].split(".")
                none = base64.urlsafe_b64encode(b'{"alg":"none"}').decode().rstrip("=")
                p["id_token_hint"] = {"forged": ".".join((h, pl, s[:-6] + ("AAAAAA" if s[-6:] != "AAAAAA" else "BBBBBB"))), "unsigned": none + "." + pl + ".", "garbage": "a.b.c",
                                      "edited": ".".join((h, base64.urlsafe_b64encode(json.dumps(dict(jwt_claims(g.idt[-1]), edited=1)).encode()).decode().rstrip("="), s))}[w]
                want = False
            elif w == "claims client":
                p["client_id"] = "client_2" if g.cid != "client_2" else "client_1"
        if not g.live and want:
            want = None
        r = op.end_session(p, cookies=cookies)
        if r.kind != "ok":
            if want:
                raise Violation(f"asking to log out ({how}): {r!r}", sig="logout refused")
            return
        if want is False:
            raise Violation(f"asking to log out ({how}) was accepted: {p} {r!r}", sig="logout accepted:" + how)
        if r.target != ISSUER + "/verify_logout" or set(r.params) != {"sjwt"}:
            raise Violation(f"asking to log out ({how}) goes to {r.raw}", sig="logout page")
        if "state" in p and to != ISSUER + "/post_logout":
            to += ("&" if "?" in to else "?") + urlencode({"state": p["state"]})
        self.page.append({"sjwt": r["sjwt"], "g": i, "to": to, "at": clock.now(), "used": False})

    # -- what a logout does
    def confirm(self, i, alla):
        page = self.page[i]
        g = self.g[page["g"]]
        ended = [x for x in self.g if x.live and x.user == g.user and (alla or x.cid == g.cid)]
        age = clock.now() - page["at"]
        r = self.op.verified_logout(page["sjwt"], alla)
        if r.kind != "ok":
            if age < 86400 and ended and not page["used"]:
                raise Violation(f"confirmed logout: {r!r}", sig="confirm refused")
            if self.rp.got:
                raise Violation(f"refused ({r!r}), still notified {self.rp.got}", sig="notified unasked")
            return
        if age > 86400 + 60:
            raise Violation(f"a logout was confirmed {age} s after it was asked for", sig="late confirmation")
        page["used"] = True
        if r.target != page["to"]:
            raise Violation(f"the user is sent to {r.target!r}, not to {page['to']!r}", sig="post logout target")
        if any(c["value"] for c in r.cookies) or {c["name"] for c in r.cookies} != {c["name"] for c in self.op.ep("session").kill_cookies()}:
            raise Violation(f"cookies {r.cookies}", sig="cookies")
        self.notified(r, g, ended, alla, page)
        for x in ended:
            x.live = False

    def notified(self, r, g, ended, alla, page):
        posts = list(self.rp.got)
        src, other = sources(r.frames)
        if other:
            raise Violation(f"the logout page gets {r.frames}", sig="frames")
        for j, cid in enumerate(self.cids, 1):
            reg = KINDS[self.kinds[j - 1]](j)
            had = [x for x in self.g if x.cid == cid and x.user == g.user and (alla or cid == g.cid)]
            now_ = [x for x in had if x in ended]
            mine = [p for p in posts if urlsplit(p[0]).netloc == f"rp{j}.example.com"]
            fr = [s for s in src if urlsplit(s).netloc == f"rp{j}.example.com"]
            if not had and (mine or fr):
                raise Violation(f"{cid} has no session of {g.user}, and is told {mine} {fr}", sig="told a stranger")
            if "backchannel_logout_uri" not in reg and mine or "frontchannel_logout_uri" not in reg and fr:
                raise Violation(f"{cid} is told {mine} {fr}", sig="told unregistered")
            must = [x for x in now_ if x.idt] if alla else now_
            if not mine and not fr:
                if must and ("backchannel_logout_uri" in reg or "frontchannel_logout_uri" in reg):
                    raise Violation(f"{cid} is not told", sig="not told")
                continue
            if len(mine) + len(fr) > 1:
                raise Violation(f"{cid} is told more than once: {mine} {fr}", sig="told twice")
            if mine:
                sid = self.logout_token(j, cid, reg, mine[0])
            else:
                sid = self.frame(j, cid, reg, fr[0])
                if sid is None:
                    continue
            u, c_, gid = self.op.mngr.decrypt_session_id(sid)
            if (u, c_) != (g.user, cid) or gid not in [x.gid for x in had]:
                raise Violation(f"{cid} is told about {u} {c_} {gid}", sig="told about another session")
            if must and gid not in [x.gid for x in now_] and not (not alla and gid == g.gid):
                raise Violation(f"{cid} is told about a session that had ended before, not about the one that ends now", sig="told about an old session")
            of = [x for x in had if x.gid == gid][0]
            if of.idt and sid not in [jwt_claims(t)["sid"] for t in of.idt]:
                raise Violation(f"{cid} is told about the session {sid}, it knows {[jwt_claims(t)['sid'] for t in of.idt]}", sig="unknown sid")
        known = {f"rp{j}.example.com" for j in range(1, len(self.cids) + 1)}
        if any(urlsplit(p[0]).netloc not in known for p in posts) or any(urlsplit(s).netloc not in known for s in src):
            raise Violation(f"told: {posts} {src}", sig="told elsewhere")

    def logout_token(self, j, cid, reg, post):
        url, data, headers = post
        if url != reg["backchannel_logout_uri"]:
            raise Violation(f"posted to {url!r}", sig="bc target")
        body = dict(parse_qsl(data)) if isinstance(data, str) else dict(data)
        if set(body) != {"logout_token"}:
            raise Violation(f"posted {data!r}", sig="bc body")
        t = body["logout_token"]
        d, h = jwt_claims(t), jwt_header(t)
        alg = reg.get("id_token_signed_response_alg", "RS256")
        self.verify(t, alg, cid)
        now = clock.now()
        if d["iss"] != ISSUER or d["aud"] not in (cid, [cid]) or d.get("events") != {EVENT: {}} or "nonce" in d or abs(d["iat"] - now) > 1 or d.get("exp", now + 1) <= now \
                or not d.get("jti") or d["jti"] in self.jtis or h["alg"] != alg or "sid" not in d:
            raise Violation(f"logout token {h} {d}", sig="logout token")
        self.jtis.append(d["jti"])
        self.told.append(t)
        return d["sid"]

    def verify(self, t, alg, cid):
        from cryptojwt.jws.jws import JWS
        from cryptojwt.key_jar import KeyJar
        kj = KeyJar()
        if alg.startswith("HS"):
            kj.add_symmetric("", self.op.ctx.cdb[cid]["client_secret"], ["sig"])
        else:
            kj.import_jwks(json.loads(self.op.ctx.keyjar.export_jwks_as_json()), "")
        try:
            JWS(alg=alg).verify_compact(t, kj.get_signing_key(issuer_id=""))
        except Exception as e:
            raise Violation(f"the logout token does not verify: {e!r}", sig="logout token signature")

    def frame(self, j, cid, reg, src):
        uri = reg["frontchannel_logout_uri"]
        if not reg.get("frontchannel_logout_session_required"):
            if src != uri.replace('"', "%22") and src != uri:
                raise Violation(f"the frame is {src!r}", sig="fc target")
            return None
        base, _, q = src.partition("?")
        want = parse_qsl(uri.partition("?")[2], keep_blank_values=True)
        got = parse_qsl(q, keep_blank_values=True)
        extra = [x for x in got if x not in want]
        if base != uri.partition("?")[0] or sorted(x for x in got if x in want) != sorted(want) or dict(extra).keys() != {"iss", "sid"} or len(extra) != 2 or dict(extra)["iss"] != ISSUER:
            raise Violation(f"the frame is {src!r}", sig="fc target")
        return dict(extra)["sid"]

    # -- requests that are none
    def trick(self, t):
        op = self.op
        g = self.g[-1]
        sj = None
        if t == "no cookie":
            r = op.end_session({}, cookies=[])
        elif t == "hint only":
            if not g.idt:
                return
            r = op.end_session({"id_token_hint": g.idt[-1]}, cookies=[])
            if r.ok:
                return
        elif t in ("edited cookie", "swapped cookie", "empty cookie", "other cookie"):
            c = json.loads(json.dumps(self.old[-1][0]))
            c = [x for x in c if x["name"] == op.ctx.cookie_handler.name["session"]]
            if t == "edited cookie":
                v = c[0]["value"]
                c[0]["value"] = v[:10] + ("A" if v[10] != "A" else "B") + v[11:]
            elif t == "empty cookie":
                c[0]["value"] = ""
            elif t == "swapped cookie":
                c[0]["name"] = op.ctx.cookie_handler.name["session_management"]
            else:
                x = op.ctx.new_cookie(name=op.ctx.cookie_handler.name["register"], client_id=g.cid)
                c[0]["value"] = x["value"]
            r = op.end_session({"id_token_hint": g.idt[-1]} if g.idt else {}, cookies=c)
        elif t in ("id token", "logout token", "edited page", "unsigned page", "page of a client", "made up page"):
            if t == "id token":
                if not g.idt:
                    return
                sj = g.idt[-1]
            elif t == "logout token":
                if not self.told:
                    return
                sj = self.told[-1]
            elif t == "made up page":
                pl = {"sid": jwt_claims(g.idt[-1])["sid"] if g.idt else "x", "redirect_uri": "https://evil.example.net/", "iss": ISSUER, "aud": [ISSUER], "iat": clock.now(), "exp": clock.now() + 600}
                sj = sign(pl, "ES256", key("client_1", "ES256"))
            else:
                if not self.page:
                    return
                h, pl, s = self.page[-1]["sjwt"].split(".")
                d = dict(jwt_claims(self.page[-1]["sjwt"]), redirect_uri="https://evil.example.net/")
                enc = lambda x: base64.urlsafe_b64encode(json.dumps(x).encode()).decode().rstrip("=")
                if t == "edited page":
                    sj = ".".join((h, enc(d), s))
                elif t == "unsigned page":
                    sj = enc({"alg": "none"}) + "." + enc(d) + "."
                else:
                    sj = sign(d, "ES256", key("client_1", "ES256"))
            for alla in (False, True):
                r = op.verified_logout(sj, alla)
                if r.ok:
                    break
        if r.ok:
            raise Violation(f"{t}: {r!r}", sig="acted on:" + t)

    # -- afterwards
    invariant_forks = True

    def invariant(self):
        op = self.op
        bad = lambda i, what, r: Violation(f"session {i} of {self.g[i].user} at {self.g[i].cid} is {'live' if self.g[i].live else 'ended'}, {what}: {r!r}",
                                           sig=("ended session honoured:" if not self.g[i].live else "live session not honoured:") + what)
        for i, (cookies, k) in enumerate(self.old):
            g = self.g[k]
            count(C_PROBE)
            if clock.now() - g.at > 3000:  # SSO has its own end
                continue
            for prompt in ({"prompt": "none"}, {}):
                r = op.authz(op.areq(g.cid, scope=("openid",), state="PROBE", nonce="PN", **prompt), cookies=cookies)
                if (r.kind == "ok") != g.live:
                    raise bad(k, "silent login", r)
        for i, g in enumerate(self.g):
            count(C_PROBE)
            if g.access:
                r = op.userinfo(g.access)
                if (r.kind == "ok") != g.live and not (g.live and clock.now() - g.at > 3000):
                    raise bad(i, "userinfo", r)
                r = op.introspect(g.access, g.cid)
                if bool(r.get("active")) != g.live:
                    raise bad(i, "introspection", r)
            if g.refresh:
                r = op.introspect(g.refresh, g.cid)
                if bool(r.get("active")) != g.live:
                    raise bad(i, "introspection of the refresh token", r)
                r = op.token(op.rreq(g.refresh, g.cid))
                if (r.kind == "ok") != g.live:
                    raise bad(i, "refresh", r)
            if g.code:
                r = op.token(op.treq(g.code, g.cid))
                if (r.kind == "ok") != g.live:
                    raise bad(i, "code", r)


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    allk = ("bc", "fc session", "none")
    yield Logout("one browser", allk, steps=("login",), sessions=3, pages=2), 5 + x
    yield Logout("codes not used", ("bc ES256", "fc", "none"), steps=("login", "half"), sessions=2, pages=1), 4 + x
    yield Logout("two users", ("both", "fc query"), users=("diana", "babs"), browsers=("A", "B"), sessions=2, pages=2), 4 + x
    yield Logout("again at the same client", ("bc", "fc session"), browsers=("A", "B"), sessions=3, pages=2, targets=("client_1",), rts=("code", "code id_token")), 5 + x
    yield Logout("again at front channel", ("fc session", "bc"), sessions=3, pages=2), 5 + x
    asks = ["+".join(w) for w in itertools.product(("hint",), ("bye", "query", "evil", "more", "fragment", "extra", "cb", "other", "state"))] + \
        ["hint+bye+state", "hint+query+state", "hint", "bye", "bye+state", "state", "foreign", "stranger", "foreign+bye", "stranger+bye", "forged", "unsigned", "garbage", "edited", "forged+bye",
         "unsigned+bye", "edited+bye", "claims client", "claims client+hint+bye", "claims client+hint+other"]
    yield Logout("what is asked", ("none", "none"), asks=asks, sessions=2, pages=1, alla=(False,)), 4 + x
    yield Logout("what strangers ask", ("none", "none"), users=("diana", "babs"), asks=("stranger", "stranger+bye", "foreign+bye", "hint+bye+state"), sessions=2, pages=1, alla=(False,)), 4 + x
    yield Logout("tricks", ("bc ES256", "bc ES256"), rts=("code id_token",), sessions=2, pages=1, asks=("hint+bye",),
                 tricks=("no cookie", "hint only", "edited cookie", "swapped cookie", "empty cookie", "other cookie", "id token", "logout token", "edited page", "unsigned page", "page of a client",
                         "made up page")), 4 + x
    yield Logout("late", ("bc", "none"), sessions=2, pages=1, ticks=(86000, 1000)), 5 + x
    for what in (500, 404, 204, 501, 400, ConnectionError, TimeoutError, ValueError):
        yield Logout(f"a client answers {getattr(what, '__name__', what)}", ("bc", "bc", "fc"), sessions=3, pages=1, behaviour={bc(1): what}), 5
    yield Logout("symmetric", ("bc HS256", "bc"), sessions=2, pages=1), 4 + x
    yield Logout("odd URIs", ("fc odd", "fc query"), sessions=2, pages=1), 4 + x
    yield Logout("implicit", ("bc", "fc session"), rts=("id_token token", "code id_token token"), sessions=2, pages=1), 4


# ---------------------------------------------------------------- threads
class Threads:
    """A logout at the same time as something else: as if one had come after the other."""
    core = False

    def __init__(self, jobs):
        self.jobs = jobs
        schedule.install_locks()
        try:
            self.rp = Rp()
            self.op = op = OP(conf(), clients(("bc", "fc session", "bc")), kind="oidc", httpc=self.rp)
            for e in ("session", "userinfo", "introspection", "token"):
                op.ep(e)
            s = self.s = Logout("threads", ("bc", "fc session", "bc"), users=("diana", "babs"))
            s.rp, s.op, s.g, s.jar, s.old, s.page, s.jtis, s.told = self.rp, op, [], {}, [], [], [], []
            s.login("A", "babs", "client_1", "code")
            s.login("A", "diana", "client_2", "code")
            s.login("A", "diana", "client_1", "code id_token", redeem=False)
            s.ask("A", "hint+bye")
            self.page = s.page[-1]
            self.refresh = s.g[1].refresh
            self.code = s.g[2].code
        finally:
            schedule.restore_locks()

    def make(self):
        op, s = self.op, self.s
        self.rp.got.clear()
        what = {
            "out": lambda: op.verified_logout(self.page["sjwt"], False),
            "out all": lambda: op.verified_logout(self.page["sjwt"], True),
            "redeem": lambda: op.token(op.treq(self.code, "client_1")),
            "refresh": lambda: op.token(op.rreq(self.refresh, "client_2")),
            "silent": lambda: op.authz(op.areq("client_1", scope=("openid",), state="T", nonce="TN", prompt="none"), cookies=s.old[2][0]),
            "again": lambda: op.authz_as("diana", op.areq("client_1", scope=("openid",), state="T", nonce="TN")),
            "other": lambda: op.authz_as("babs", op.areq("client_1", scope=("openid",), state="T", nonce="TN")),
            "ask": lambda: op.end_session({}, cookies=s.old[2][0]),
        }
        return [what[j] for j in self.jobs], self

    def judge(self, res, _):
        op, s = self.op, self.s
        alla = "out all" in self.jobs
        out = "out" in self.jobs or alla
        told = [u for u, _, _ in self.rp.got]
        for j, r in zip(self.jobs, res):
            if j in ("out", "out all"):
                if r.kind != "ok" and "out" in self.jobs and not (self.jobs.count("out") > 1 or alla):
                    raise Violation(f"{j} together with {self.jobs}: {r!r}", sig="concurrent:" + j)
            elif j == "other" and r.kind != "ok" or j == "refresh" and not alla and r.kind != "ok":
                raise Violation(f"{j} together with {self.jobs}: {r!r}", sig="concurrent:" + j)
        if all(r.kind != "ok" for j, r in zip(self.jobs, res) if j.startswith("out")):
            raise Violation(f"{self.jobs}: {res}", sig="concurrent:out")
        if bc(1) not in told or set(told) != {bc(1)} or told.count(bc(1)) > len([j for j in self.jobs if j.startswith("out")]):
            raise Violation(f"{self.jobs}: told {told}", sig="concurrent:told")
        dead, live = [self.code], [s.g[0].access, s.g[0].refresh]
        (dead if alla else live).append(s.g[1].access)
        for j, r in zip(self.jobs, res):
            toks = [r.get(k) for k in ("code", "access_token", "refresh_token") if r.kind == "ok" and r.get(k)]
            if j == "redeem" or j == "silent":
                dead += toks
            elif j == "refresh":
                (dead if alla else live).extend(toks)
            elif j == "other":
                live += toks
            elif j == "again":  # in vain when its session is ended before it is answered
                if r.kind not in ("ok", "error"):
                    raise Violation(f"{j} together with {self.jobs}: {r!r}", sig="concurrent:again")
                if r.get("code"):
                    t = op.token(op.treq(r["code"], "client_1"))
                    if t.kind == "ok" and not op.introspect(t["access_token"], "client_1").get("active"):
                        raise Violation(f"{self.jobs}: a session half ended", sig="concurrent:half")
        for t in dead:
            self.alive(t, False)
        for t in live:
            self.alive(t, True)
        r = op.authz(op.areq("client_1", scope=("openid",), state="P", nonce="PN", prompt="none"), cookies=s.old[2][0])
        if r.kind == "ok" and "again" not in self.jobs:
            raise Violation(f"{self.jobs}: silent login with the cookie of the ended session {r!r}", sig="concurrent:cookie")
        return "/".join(r.kind for r in res)

    def alive(self, t, want):
        op = self.op
        try:
            info = op.mngr.get_session_info_by_token(t, client_session_info=True, grant=True)
        except Exception:
            if want:
                raise Violation(f"{self.jobs}: a token of another session is unknown", sig="concurrent:lost")
            return
        cid = info["client_id"]
        tok = info["grant"].get_token(t)
        if tok.token_class == "authorization_code":
            r = op.token(op.treq(t, cid))
            ok = r.kind == "ok"
        else:
            ok = bool(op.introspect(t, cid).get("active"))
            if tok.token_class == "refresh_token":
                ok = ok or op.token(op.rreq(t, cid)).kind == "ok"
        if ok != want:
            raise Violation(f"{self.jobs}: {tok.token_class} of {info['user_id']} at {cid} is {'alive' if ok else 'dead'}", sig="concurrent:" + ("outlives" if ok else "killed"))


PAIRS = (("out", "redeem"), ("out all", "refresh"), ("out", "silent"), ("out all", "silent"), ("out", "other"), ("out", "out"), ("out all", "redeem"), ("out", "refresh"), ("out", "again"), ("out all", "ask"))


def main(tier):
    c = Check("C20", tier)
    for s, d in scenarios(tier):
        c.explore(s, d)
    for pair in PAIRS:
        th = Threads(pair)

        def run(case, th=th):
            start, sch, b = case
            o = schedule.explore_from(th.make, files(False), start, () if sch is None else (sch,), 0 if sch is None else b, th.judge,
                                      lambda n: count(C_SCHED, n))
            return ",".join(sorted(o))
        c.sweep(f"threads {'+'.join(pair)} preemptions<=1", thread_cases(th, 1), run, isolate=False,
                rule="every schedule of a logout and another request with one preemption, at source-line granularity")
    return c.finish("model_checking")
