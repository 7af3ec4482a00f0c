"""C17: authorization responses carry exactly what was asked, in the requested way."""
import itertools
import json

from mc import clock
from mc.explore import C_PROBE
from mc.explore import Violation
from mc.explore import count
from mc.op import ACR
from mc.op import ACR2
from mc.op import ALL_RT
from mc.op import ISSUER
from mc.op import OP
from mc.op import base_conf
from mc.op import client
from mc.op import jwt_claims
from mc.op import logout_conf
from mc.report import Check

BASE = "https://rp1.example.com/cb"
MODES = (None, "query", "fragment", "form_post")
SPECIAL = list("&=#?%+;\"'<>\\/ ,:@") + ["%26", "&amp;", "&#34;", "\n", "\x00", "ü"]


def states(tier):
    out = ["STATE"]
    out += [f"a{chr(i)}b" for i in range(32, 127)]
    out += [chr(i) for i in range(33, 127)]
    out += [f"a{chr(i)}b" for i in list(range(0, 32)) + list(range(127, 160))]
    out += [f"a{c}b" for c in "üßñ€漢\u2028\u2029\u200b\u202e\ufeff\uffff\U0001f600\U0001f468\u200d\xa0\u0130\ud7ff"]
    out += [" a", "a ", "  ", "\ta", "a\n", "a\r\nb", "a\r\n\r\n<html>", "\r\nSet-Cookie: a=b", "a\r\nLocation: https://evil.example.net/"]
    out += ['"><script>alert(1)</script>', "'><img src=x onerror=x>", '" onfocus="x', "</form><form action=//evil.example.net>", "<!--", "-->",
            "]]>", "&lt;b&gt;", "&amp;amp;", "&#34;", "&#x22;", "&quot", "{inputs}", "{0}", "%s", "{action}", "$x", "${x}", "\\u0022", "\\", "\\n",
            "&code=evil", "&access_token=evil", "&error=x", "#access_token=evil", "&state=evil", "&iss=evil", "state=x&state=y", "a=b&c=d", "?a=b",
            "#a", "#", "&", "=", "a&", "=a", "%", "%2", "%zz", "%26", "%2526", "%23", "%3D", "%00", "%0d%0a", "+", "a+b", "%2B", "%20", "a%20b",
            "null", "None", "true", "0", "-1", "[]", "{}", '{"a":1}', '["a"]', "a b c", "code", "error", "https://rp1.example.com/?a=b&c=d#e",
            "eyJhbGciOiJub25lIn0.e30.", "a;b", ";", ",", "a,b", "\u00e9", "e\u0301"]
    out += ["x" * 4096, "&" * 600, "é" * 300, "<" * 600, "%" * 601]
    out += ["x" + a + b + "y" for a, b in itertools.product(SPECIAL, SPECIAL)]
    if tier == "thorough":
        out += [a + b + c for a, b, c in itertools.product(SPECIAL, SPECIAL, SPECIAL)]
        out += [f"a{chr(i)}b" for i in range(160, 0x800)]
        out += [f"a{chr(i)}b" for i in range(0x800, 0x11000, 97) if not 0xd800 <= i < 0xe000]
    return list(dict.fromkeys(out))


URIS = {  # redirect URI as registered, as sent
    "plain": ((BASE, None), BASE),
    "query": ((BASE, {"foo": ["bar"]}), BASE + "?foo=bar"),
    "odd query": ((BASE, {"a b": ["c&d=e", "é"], "code": ["mine"], "x": ["<\">"]}), BASE + "?a+b=c%26d%3De&a+b=%C3%A9&code=mine&x=%3C%22%3E"),
    "state query": ((BASE, {"state": ["mine"], "iss": ["mine"]}), BASE + "?state=mine&iss=mine"),
    "odd path": (("https://rp1.example.com/a%22b'c&d", None), "https://rp1.example.com/a%22b'c&d"),
    "scheme": (("com.example.app:/cb", None), "com.example.app:/cb"),
    "no path": (("https://rp1.example.com", None), "https://rp1.example.com"),
}
CIDS = ("client_1", "a b", "a&b=c", "a\"><b>", "é", "https://rp.example.com/x?y=z#w", "a%26b", "a+b")
PARTS = {"code": {"code"}, "token": {"access_token", "token_type"}, "id_token": {"id_token"}, "none": set()}


def setup(kind, uri="plain", cid="client_1", iframe=False):
    cl = client(1, client_id=cid, redirect_uris=[URIS[uri][0]], response_types=ALL_RT + ["none"])
    c = base_conf(kind)
    if iframe:
        c = logout_conf(c)
        c["endpoint"]["session"]["kwargs"]["check_session_iframe"] = ISSUER + "/check_session_iframe.html"
    op = OP(c, {cid: cl, "client_2": client(2)}, kind=kind)
    return op


def where(rt, mode):
    """Where the answer has to be; None: does not matter."""
    if mode:
        return mode
    return "query" if rt in ("code", "none") else "fragment"


def pieces(r, op, what):
    """The parameters, as a receiver finds them in the place r was delivered."""
    if any(ord(ch) < 32 or ord(ch) == 127 for ch in r.raw) and r.mode != "form_post":
        raise Violation(f"{what}: control characters in {r.raw[:300]!r}", sig="control characters")
    if r.mode == "form_post":
        p = r.html
        if len(p.forms) != 1:
            raise Violation(f"{what}: {len(p.forms)} forms", sig="form")
        f = p.forms[0]
        if set(f) != {"method", "action"} or f["method"].lower() != "post":
            raise Violation(f"{what}: the form is {f}", sig="form")
        if p.other or any(len(i) != len(dict(i)) or set(dict(i)) != {"type", "name", "value"} or dict(i)["type"] != "hidden" for i in p.inputs):
            raise Violation(f"{what}: the page contains other things: {p.other} {p.inputs}", sig="injected")
        hd = dict((k.lower(), v) for k, v in r.headers)
        if not hd.get("content-type", "").startswith("text/html"):
            raise Violation(f"{what}: sent as {hd}", sig="content type")
        return {"form_post": r.pairs}, f["action"]
    q, f = r.all_pairs
    return {"query": q, "fragment": f}, None


def examine(op, kind, r, req, uri, want, what, iframe=False, error=None):
    """r answers req: only at the place asked for, exactly the parameters asked for."""
    got, action = pieces(r, op, what)
    if action is None:
        if not r.raw.startswith(uri):
            raise Violation(f"{what}: sent to {r.raw[:200]!r}", sig="target")
        if "query" in got:
            own = r.raw[len(uri):].partition("#")[0]
            n = uri.partition("?")[2].count("&") + 1 if "?" in uri else 0
            registered, got["query"] = got["query"][:n], got["query"][n:]
            if own[:1] not in ("", "?" if not n else "&"):
                raise Violation(f"{what}: sent to {r.raw[:200]!r}", sig="target")
    elif action != uri:
        raise Violation(f"{what}: the form goes to {action!r}", sig="target")
    for place, pairs in got.items():
        if place != want and pairs:
            raise Violation(f"{what}: parameters {pairs} in the {place}", sig="wrong place")
    pairs = got.get(want) or []
    names = [k for k, _ in pairs]
    if len(set(names)) != len(names):
        raise Violation(f"{what}: parameters {names}", sig="repeated parameter")
    d = dict(pairs)
    state = req.get("state")
    if state and d.get("state") != state:
        raise Violation(f"{what}: state {state!r:.200} comes back as {d.get('state')!r:.200}", sig="state changed")
    if error:
        if d.get("error") not in error:
            raise Violation(f"{what}: {d} instead of {error}", sig="wrong error")
        legal = {"error", "error_description", "error_uri", "state", "iss", "client_id", "session_state"}
        must = {"error"}
    else:
        must = set()
        for t in req["response_type"].split():
            must |= PARTS[t]
        legal = must | {"scope", "iss", "client_id"}
        if "access_token" in must:
            legal.add("expires_in")
        if iframe:  # form_post answers come without it
            legal.add("session_state")
            if want != "form_post":
                must.add("session_state")
    if state:
        must.add("state")
        legal.add("state")
    elif not d.get("state"):
        d.pop("state", None)
    if set(d) - legal or must - set(d):
        raise Violation(f"{what}: parameters {sorted(d)}, expected {sorted(must)}", sig="wrong parameters")
    if d.get("iss", ISSUER) != ISSUER:
        raise Violation(f"{what}: iss={d['iss']!r}", sig="wrong echo")
    if d.get("client_id", req["client_id"]) != req["client_id"]:
        raise Violation(f"{what}: client_id={d['client_id']!r}", sig="wrong echo")
    if error:
        return d
    if d.get("token_type", "Bearer") != "Bearer":
        raise Violation(f"{what}: token_type={d['token_type']!r}", sig="wrong echo")
    if "scope" in d and not set(d["scope"].split()) <= set(req["scope"].split()):
        raise Violation(f"{what}: scope={d['scope']!r}", sig="wrong echo")
    for par, cls in (("code", "authorization_code"), ("access_token", "access_token")):
        if par in d:
            tok = op.mngr.find_token(op.mngr.get_session_info_by_token(d[par], grant=True)["session_id"], d[par])
            if tok is None or tok.token_class != cls or op.mngr.get_session_info_by_token(d[par])["client_id"] != req["client_id"]:
                raise Violation(f"{what}: {par} is {tok!r}", sig="wrong token")
            if par == "access_token" and "expires_in" in d and int(d["expires_in"]) != tok.expires_at - clock.now():
                raise Violation(f"{what}: expires_in={d['expires_in']!r}", sig="wrong echo")
    if "id_token" in d:
        cl = jwt_claims(d["id_token"])
        aud = cl["aud"] if isinstance(cl["aud"], list) else [cl["aud"]]
        if req["client_id"] not in aud or cl.get("nonce") != req.get("nonce"):
            raise Violation(f"{what}: the ID Token is {cl}", sig="wrong token")
    return d


MAY_REFUSE = ("unsupported_response_mode", "invalid_request")


def answers(case):
    """One kind of request and outcome, every state."""
    kind, rt, mode, how, tier = case
    op = setup(kind, iframe=how == "iframe")
    want = where(rt, mode)
    tokens = rt not in ("code", "none")
    # not every combination of response type and mode makes sense
    optional = (tokens and mode == "query") or (not tokens and mode == "fragment")
    scope = ("openid", "email") if kind == "oidc" else ("alpha",)
    cookie = None
    if how in ("sso", "sso other"):
        r = op.authz_as("diana", op.areq("client_1", scope=scope, response_type="code"))
        cookie = op.session_cookie(r)
    results = set()
    for n, st in enumerate(states(tier) + [None, ""]):
        count(C_PROBE)
        if n % 64 == 63:  # keep the session database small
            op = setup(kind, iframe=how == "iframe")
            if cookie:
                cookie = op.session_cookie(op.authz_as("diana", op.areq("client_1", scope=scope, response_type="code")))
        req = op.areq("client_1", scope=scope, response_type=rt, state=st, nonce=f"n{n}")
        if st is None:
            del req["state"]
        if mode:
            req["response_mode"] = mode
        error = None
        if how in ("silent", "unknown acr silent"):
            req["prompt"] = "none"
            error = ("login_required",)
        elif how == "sso other":
            req["prompt"] = "none"
            req["login_hint"] = "babs@example.com"
        what = f"{case[:4]} state={st!r:.100}"
        r = op.authz(req, cookies=cookie)
        if r.kind == "login":
            if error or cookie:
                raise Violation(f"{what}: a login page", sig="login page")
            r = op.login(r, "diana")
        if r.target is None:
            if r.kind == "error" and (st and r.get("state", st) != st):
                raise Violation(f"{what}: {r.brief()}", sig="state changed")
            if optional or st is None or st == "":
                results.add("refused")
                continue
            raise Violation(f"{what}: {r.brief()} {r.get('text')}", sig="no answer")
        if optional and r.kind == "error" and not error:
            got = r.mode if r.mode in ("query", "fragment") else "form_post"
            examine(op, kind, r, req, BASE, got, what, error=MAY_REFUSE, iframe=how == "iframe")
            results.add("refused")
            continue
        if optional and error:  # where an error goes that would not be the answer's place
            want_e = r.mode
            examine(op, kind, r, req, BASE, want_e, what, error=error)
            results.add("error")
            continue
        examine(op, kind, r, req, BASE, want, what, error=error, iframe=how == "iframe")
        results.add(r.kind)
    return "/".join(sorted(results))


def targets(case):
    """Redirect URIs and client identifiers with their own special characters."""
    kind, rt, mode, uri, cid = case
    op = setup(kind, uri, cid)
    want = where(rt, mode)
    optional = (rt not in ("code", "none") and mode == "query") or (rt in ("code", "none") and mode == "fragment")
    scope = ("openid",) if kind == "oidc" else ("alpha",)
    for st in ("STATE", "a&b=c#d?e \"><x>é%26+", None):
        for silent in (True, False):
            count(C_PROBE)
            req = op.areq(cid, scope=scope, response_type=rt, state=st, nonce="n", redirect_uri=URIS[uri][1])
            if st is None:
                del req["state"]
            if mode:
                req["response_mode"] = mode
            if silent:
                req["prompt"] = "none"
            what = f"{case} state={st!r} silent={silent}"
            r = op.authz(req)
            if r.kind == "login":
                r = op.login(r, "diana")
            if optional:
                continue
            if r.target is None:
                raise Violation(f"{what}: {r.brief()}", sig="no answer")
            examine(op, kind, r, req, URIS[uri][1], want, what, error=("login_required",) if silent else None)
    return "ok"


def failures(case):
    """Errors in the midst of an authorization reach the client as errors, with the state and without tokens."""
    kind, rt, mode, fault, st = case
    op = setup(kind)
    scope = ("openid",) if kind == "oidc" else ("alpha",)
    req = op.areq("client_1", scope=scope, response_type=rt, state=st, nonce="n")
    if mode:
        req["response_mode"] = mode
    what = f"{case}"
    count(C_PROBE)

    def boom(*a, **k):
        raise RuntimeError("it broke")

    r = op.authz(req)
    if r.kind != "login":
        raise Violation(f"{what}: {r.brief()}", sig="no login page")
    class Wrapped:
        def __init__(self, it, call):
            self._it, self._call = it, call

        def __getattr__(self, name):
            return getattr(self._it, name)

        def __call__(self, *a, **k):
            return self._call(*a, **k)

    if fault == "authz":
        op.ctx.authz = Wrapped(op.ctx.authz, boom)
    elif fault == "mint":
        op.ep("authorization").mint_token = boom
    elif fault == "inactive":
        az = op.ctx.authz

        def inactive(sid, request, *a, **k):
            g = az(sid, request=request)
            g.revoked = True
            return g
        op.ctx.authz = Wrapped(az, inactive)
    elif fault == "gone":
        del op.ctx.cdb["client_1"]["redirect_uris"]
    r = op.login(r, "diana")
    if r.kind == "ok":
        if fault == "mint" and rt == "none":
            return "ok"
        raise Violation(f"{what}: {r!r}", sig="answered in spite of a fault")
    if r.target is None:
        if fault == "gone":
            return "refused"
        raise Violation(f"{what}: {r.brief()}", sig="error not delivered")
    optional = (rt not in ("code", "none") and mode == "query") or (rt in ("code", "none") and mode == "fragment")
    want = r.mode if optional else where(rt, mode)
    examine(op, kind, r, req, BASE, want, what, error=("server_error", "invalid_request", "access_denied"))
    return "error"


ACRS = {  # what is asked for, can it be had
    "none": ({}, True), "known": ({"acr_values": ACR}, True), "other": ({"acr_values": ACR2}, True), "some": ({"acr_values": "urn:x " + ACR2}, True),
    "unknown": ({"acr_values": "urn:x"}, False), "unknown two": ({"acr_values": "urn:x urn:y"}, False),
    "claim": ({"claims": {"id_token": {"acr": {"value": ACR2}}}}, True), "claims": ({"claims": {"id_token": {"acr": {"values": ["urn:x", ACR]}}}}, True),
    "claim unknown": ({"claims": {"id_token": {"acr": {"value": "urn:x"}}}}, False),
    "claims unknown": ({"claims": {"id_token": {"acr": {"values": ["urn:x", "urn:y"]}}}}, False),
    "null": ({"claims": {"id_token": {"acr": None}}}, True), "essential": ({"claims": {"id_token": {"acr": {"essential": True}}}}, True),
    "other claim": ({"claims": {"id_token": {"auth_time": None}}}, True), "userinfo": ({"claims": {"userinfo": {"name": None}}}, True),
}


def acr(case):
    """Two ways to authenticate: requests for classes that exist and that do not."""
    rt, mode, name, silent, st = case
    cl = client(1, redirect_uris=[URIS["query"][0]], response_types=ALL_RT + ["none"])
    c = base_conf()
    c["authentication"]["user2"] = dict(c["authentication"]["user"], acr=ACR2)
    op = OP(c, {"client_1": cl})
    count(C_PROBE)
    extra, able = ACRS[name]
    req = op.areq("client_1", response_type=rt, state=st, nonce="n", **{k: v if isinstance(v, str) else json.dumps(v) for k, v in extra.items()})
    if mode:
        req["response_mode"] = mode
    if silent:
        req["prompt"] = "none"
    r = op.authz(req)
    if r.kind == "login":
        if silent or not able:
            raise Violation(f"{case}: a login page", sig="login page")
        r = op.login(r, "diana")
    if r.target is None:
        raise Violation(f"{case}: {r.brief()}", sig="no answer")
    optional = (rt not in ("code", "none") and mode == "query") or (rt in ("code", "none") and mode == "fragment")
    if optional and r.kind == "error":
        examine(op, "oidc", r, req, URIS["query"][1], r.mode, f"{case}", error=("login_required", "access_denied") + MAY_REFUSE)
        return "error"
    error = ("access_denied",) if not able else ("login_required",) if silent else None
    examine(op, "oidc", r, req, URIS["query"][1], where(rt, mode), f"{case}", error=error)
    return r.kind


def main(tier):
    c = Check("C17", tier)
    rts = [("oidc", rt) for rt in ALL_RT + ["none"]] + [("oauth2", rt) for rt in ("code", "token", "code token", "none")]
    c.sweep("states", [(k, rt, m, how, tier) for k, rt in rts for m in MODES for how in ("login", "sso", "silent", "iframe")], answers,
            rule="provider kind x response type x response mode x login/cookie/prompt=none/session management; every state")
    c.sweep("targets", [(k, rt, m, u, cid) for k, rt in rts for m in MODES for u in URIS for cid in CIDS], targets,
            isolate=False, rule="provider kind x response type x response mode x redirect URI x client identifier")
    c.sweep("failures", [(k, rt, m, f, st) for k, rt in rts for m in MODES for f in ("authz", "mint", "inactive", "gone")
                         for st in ("STATE", "a&b=c#d \"><x>é")], failures,
            isolate=False, rule="provider kind x response type x response mode x failing step")
    c.sweep("authentication classes", [(rt, m, a, s, st) for rt in ALL_RT + ["none"] for m in MODES for a in ACRS for s in (False, True)
                                       for st in ("STATE", "a&b=c#d \"><x>é")], acr,
            isolate=False, rule="response type x response mode x authentication classes asked for x prompt")
    return c.finish("exploration")
