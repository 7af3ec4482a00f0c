"""C09: a client is authenticated only by its own, current, fresh credentials."""
import base64
import itertools
import json

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jws.jws import JWS

from mc import clock
from mc.explore import C_PROBE
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.op import ISSUER
from mc.op import OP
from mc.op import base_conf
from mc.op import basic
from mc.op import client
from mc.op import private_keyjar
from mc.op import public_jwks
from mc.report import Check

METHODS = ("client_secret_basic", "client_secret_post", "client_secret_jwt", "private_key_jwt")
ENDPOINTS = ("token", "introspection", "pushed_authorization")
CT = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"
SHARED = "https://rp.example.com/shared"
NOKEYS = "client_nokeys"
PUB = "client_public"
EXP = "client_expired"
FAR = "client_current"
SKEW = 30  # clock difference that may be tolerated


def conf(methods):
    c = base_conf()
    c["endpoint"]["pushed_authorization"] = {
        "path": "pushed_authorization", "class": "oidcop.oauth2.pushed_authorization.PushedAuthorization", "kwargs": {}}
    for e in ENDPOINTS:
        c["endpoint"][e]["kwargs"]["client_authn_method"] = list(methods[e] if isinstance(methods, dict) else methods)
    return c


def clients():
    cl = {f"client_{i}": client(i) for i in (1, 2)}
    cl[NOKEYS] = client(4)
    cl[PUB] = client(5)
    del cl[PUB]["client_secret"]
    cl[EXP] = client(6, client_secret_expires_at=clock.now() - 1)
    cl[FAR] = client(7, client_secret_expires_at=clock.now() + 1000)
    for c in cl.values():
        c["redirect_uris"].append((SHARED, None))
    return cl


def provider(methods):
    op = OP(conf(methods), clients())
    for c, k in ((PUB, "client_3"), (EXP, "foreign"), (FAR, "client_3")):
        op.ctx.keyjar.import_jwks(public_jwks(k), c)
    return op


KEYOF = {"client_1": "client_1", "client_2": "client_2", PUB: "client_3", EXP: "foreign", FAR: "client_3"}


def b64(x):
    return base64.urlsafe_b64encode(json.dumps(x).encode()).rstrip(b"=").decode()


def claims(op, x, endpoint, n, **kw):
    d = {"iss": x, "sub": x, "aud": [op.ep(endpoint).full_path], "jti": f"jti{n}", "iat": clock.now(), "exp": clock.now() + 300}
    for k, v in kw.items():
        if v is None:
            d.pop(k)
        else:
            d[k] = v
    return d


def sym(secret):
    return [SYMKey(key=secret, use="sig")] if len(secret) >= 16 else []


def sign(payload, alg, keys, header=None):
    if not keys:
        return "no.such.key"
    j = JWS(json.dumps(payload), alg=alg)
    return j.sign_compact(keys, **(header or {}))


def key(who, alg):
    return private_keyjar(who).get_signing_key("EC" if alg.startswith("ES") else "RSA", "")


# ---------------------------------------------------------------- assertions
def assertions(op, x, y, ep, ctr):
    """(name, assertion, method it is, client it proves, certain?)  x is attacked, y the other client."""
    sx, sy = (op.ctx.cdb[c].get("client_secret") for c in (x, y))
    cl = lambda **kw: claims(op, x, ep, next(ctr), **kw)  # noqa: E731
    HS, PK = "client_secret_jwt", "private_key_jwt"
    if sx:
        for alg in ("HS256", "HS384", "HS512"):
            yield f"{alg} own secret", sign(cl(), alg, sym(sx)), HS, x, True
        yield "HS256 secret cut", sign(cl(), "HS256", sym(sx[:-1])), None, None, True
        yield "HS256 secret upper", sign(cl(), "HS256", sym(sx.upper())), None, None, True
        yield "HS256 secret twice", sign(cl(), "HS256", sym(sx * 2)), None, None, True
    if sy:
        yield "HS256 secret of the other", sign(cl(), "HS256", sym(sy)), None, None, True
        yield "other's, naming x as sub", sign(cl(iss=y), "HS256", sym(sy)), HS, y, False
        yield "no iss, secret of the other", sign(cl(iss=None), "HS256", sym(sy)), None, None, True
    pub = public_jwks(KEYOF.get(x, "client_1"))
    for k in pub["keys"]:
        yield "HS256 with the public key", sign(cl(), "HS256", sym(json.dumps(k))), None, None, True
        for part in ("n", "x"):
            if part in k:
                yield "HS256 with a part of the public key", sign(cl(), "HS256", sym(k[part])), None, None, True
    yield "HS256 with the client id", sign(cl(), "HS256", sym(x)), None, None, True
    for alg in ("RS256", "ES256", "PS256", "RS512"):
        if x in KEYOF:
            yield f"{alg} own key", sign(cl(), alg, key(KEYOF[x], alg)), PK, x, True
        yield f"{alg} other's key", sign(cl(), alg, key(KEYOF[y], alg)), None, None, True
        yield f"{alg} own key of the provider", sign(cl(), alg, key("op", alg)), None, None, True
    f = key("foreign" if x != EXP else "client_3", "RS256")
    fj = f[0].serialize()
    yield "foreign key", sign(cl(), "RS256", f), None, None, True
    yield "foreign key embedded", sign(cl(), "RS256", f, {"jwk": fj}), None, None, True
    if x in KEYOF:
        kid = key(KEYOF[x], "RS256")[0].kid
        p = cl()
        t = sign(p, "RS256", f).split(".")
        h = json.loads(base64.urlsafe_b64decode(t[0] + "=="))
        h["kid"] = kid
        yield "foreign key, kid of x", ".".join([b64(h), t[1], t[2]]), None, None, True
        t = sign(cl(), "RS256", key(KEYOF[x], "RS256")).split(".")
        yield "altered payload", ".".join([t[0], b64(cl(jti="other")), t[2]]), None, None, True
        yield "cut signature", ".".join([t[0], t[1], t[2][:-4]]), None, None, True
        yield "no signature", ".".join([t[0], t[1], ""]), None, None, True
        yield "two parts", ".".join([t[0], t[1]]), None, None, True
        yield "signature of another", ".".join([t[0], t[1], sign(cl(), "RS256", key(KEYOF[x], "RS256")).split(".")[2]]), None, None, True
    for none in ("none", "NONE", "None", "nOnE", ""):
        for sig in ("", "AAAA"):
            yield f"alg {none!r}", ".".join([b64({"alg": none}), b64(cl()), sig]), None, None, True
            yield f"alg {none!r} typ", ".".join([b64({"alg": none, "typ": "JWT"}), b64(cl()), sig]), None, None, True
    yield "unsigned json", json.dumps(cl()), None, None, True
    yield "garbage", "a.b.c", None, None, True
    yield "empty", "", None, None, True
    # claims
    signers = []
    if sx:
        signers.append(("HS256", lambda: sym(sx), HS))
    if x in KEYOF:
        signers.append(("RS256", lambda: key(KEYOF[x], "RS256"), PK))
    me = op.ep(ep).full_path
    others = [op.ep(e).full_path for e in ENDPOINTS if e != ep] + [ISSUER]
    for alg, k, m in signers:
        for aud, ok, sure in ((me, True, True), ([me], True, True), ([me, "https://x.example.net/"], True, True),
                              (["https://x.example.net/", me], True, True)):
            yield f"{alg} aud {aud}", sign(cl(aud=aud), alg, k()), m, x, sure
        for aud in others:
            yield f"{alg} aud {aud}", sign(cl(aud=[aud]), alg, k()), m, x, False
        for aud in ("https://other.example.net/token", me + "/", me + "x", me[:-1], "https://x.example.net/" + me, me.upper(), "", ISSUER[:8],
                    "token", x, [], ["https://other.example.net/token"], [me + "?a"], " ".join([me, "x"])):
            yield f"{alg} aud {aud}", sign(cl(aud=aud), alg, k()), None, None, True
        yield f"{alg} no aud", sign(cl(aud=None), alg, k()), None, None, True
        for e in (-SKEW - 1, -600, -10 ** 6):
            yield f"{alg} expired {e}", sign(cl(exp=clock.now() + e), alg, k()), None, None, True
        yield f"{alg} exp 0", sign(cl(exp=0), alg, k()), None, None, True
        yield f"{alg} no exp", sign(cl(exp=None), alg, k()), m, x, False
        yield f"{alg} not yet", sign(cl(nbf=clock.now() + 100), alg, k()), None, None, True
        yield f"{alg} short", sign(cl(exp=clock.now() + 1), alg, k()), m, x, True
        yield f"{alg} no jti", sign(cl(jti=None), alg, k()), m, x, False
        yield f"{alg} no sub", sign(cl(sub=None), alg, k()), m, x, False
        yield f"{alg} sub other", sign(cl(sub=y), alg, k()), m, x, False
        yield f"{alg} iss other", sign(cl(iss=y), alg, k()), None, None, True
        yield f"{alg} iss nobody", sign(cl(iss="nobody"), alg, k()), None, None, True
        yield f"{alg} iss provider", sign(cl(iss=ISSUER), alg, k()), None, None, True
        yield f"{alg} no iss", sign(cl(iss=None), alg, k()), None, None, True
        yield f"{alg} client_id instead of iss", sign(cl(iss=None, client_id=x), alg, k()), None, None, True


def secrets_for(op, x, y):
    """(header or None, body, method, proves): every way to present a secret."""
    sx, sy = (op.ctx.cdb[c].get("client_secret") for c in (x, y))
    right = sx or "None"
    out = []
    hs = [(None, None), (basic(x, right), x if sx else None), (basic(y, sy), y)]
    for s in (sy, right + "x", right[:-1], right.upper(), "", " " + right, right + "\n", right[:4], "None", "null", right + ":" + right):
        hs.append((basic(x, s), None))
    if sx:
        hs.append((basic(x.upper(), sx), None))
        hs.append((basic("nobody", sx), None))
        hs.append((basic("", sx), None))
        raw = base64.b64encode(f"{x}:{sx}".encode()).decode()
        hs += [("Basic " + base64.b64encode(f"{x}:{sx}:".encode()).decode(), None),
               ("Basic " + base64.b64encode(f"{x}:{sx}:{y}".encode()).decode(), None),
               ("Basic " + base64.b64encode(f"{x}{sx}".encode()).decode(), None), ("Bearer " + raw, None), ("Bearer " + sx, None),
               (raw, None), ("Basic", None), ("Basic ", None), ("Basic !", None), ("Digest " + raw, None)]
    bs = [({}, None), ({"client_id": x}, None), ({"client_id": x, "client_secret": right}, x if sx else None),
          ({"client_id": y, "client_secret": sy}, y), ({"client_id": x, "client_secret": sy}, None),
          ({"client_id": y, "client_secret": right}, None), ({"client_secret": right}, None),
          ({"client_id": "nobody", "client_secret": right}, None)]
    for s in (right + "x", right[:-1], right.upper(), "", " " + right, "None"):
        bs.append(({"client_id": x, "client_secret": s}, None))
    for h, hp in hs:
        for b, bp in bs:
            out.append((h, b, hp, bp))
    return out


class Prober:
    """Who is a request processed as?"""

    def __init__(self, op, ep):
        self.op = op
        self.ep = ep
        self.codes = {}
        self.at = op.authz_as("diana", op.areq("client_1", response_type="code id_token token"))["access_token"]
        self.n = 0

    def code(self, cid):
        c = self.codes.get(cid)
        if c is None:
            self.n += 1
            r = self.op.authz_as("diana", self.op.areq(cid, state=f"s{self.n}", nonce=f"n{self.n}"))
            c = self.codes[cid] = r["code"]
        return c

    def send(self, body, auth, owner):
        op, ep = self.op, self.ep
        count(C_PROBE)
        if ep == "token":
            req = {"grant_type": "authorization_code", "code": self.code(owner), "redirect_uri": op.ctx.cdb[owner]["redirect_uris"][0][0]}
        elif ep == "introspection":
            req = {"token": self.at}
        else:
            req = op.areq(owner, redirect_uri=SHARED)
            del req["client_id"]
        req.update(body)
        if ep == "token":
            r = op.token(req, auth=auth)
            if r.ok:
                del self.codes[owner]
                return owner, r
            return None, r
        hi = op.http_info(ep, "POST", auth)
        req, r = op.parse(ep, req, hi)
        if r is not None:
            return None, r
        who = req.get("client_id")
        r = op.process(ep, req, hi)
        if not r.ok:
            raise Violation(f"authenticated as {who} but not answered: {r.brief()}", sig="not answered")
        if ep == "pushed_authorization":
            for c in ("client_2" if who == "client_1" else "client_1", who):
                a = op.authz(op.areq(c, redirect_uri=SHARED, request_uri=r["request_uri"]))
                if (a.kind in ("ok", "login")) != (c == who):
                    raise Violation(f"authenticated as {who}, what was pushed is {'' if c == who else 'not '}refused when {c} asks for it: {a.brief()}",
                                    sig="pushed for another")
        return (who if who is not None else "?"), r


def compare(what, got, r, may, must):
    if got is not None and got not in may:
        raise Violation(f"{what}: processed as {got}, only {sorted(may) or 'nobody'} is proved", sig="wrong client authenticated")
    if must is not None and got is None:
        raise Violation(f"{what}: {must} is refused: {r.brief()}", sig="valid credentials refused")


def live(op, c):
    e = op.ctx.cdb.get(c, {}).get("client_secret_expires_at", 0)
    return c in op.ctx.cdb and (e == 0 or e >= clock.now())


def credentials(case):
    methods, ep, x = case
    y = "client_2" if x != "client_2" else "client_1"
    op = provider(methods)
    p = Prober(op, ep)
    owners = (x, y) if ep == "token" else (x,)
    for h, b, hp, bp in secrets_for(op, x, y):
        may = set()
        if hp and "client_secret_basic" in methods and live(op, hp):
            may.add(hp)
        if bp and "client_secret_post" in methods and live(op, bp):
            may.add(bp)
        for o in owners:
            got, r = p.send(dict(b), h, o)
            must = next(iter(may)) if len(may) == 1 and not (hp and bp and hp != bp) and (ep != "token" or o in may) else None
            compare(f"{case} header {h!r} body {b} for {o}", got, r, may, must)
    ctr = itertools.count()
    for name, a, m, who, sure in assertions(op, x, y, ep, ctr):
        for o in owners:
            for cid in (None, x, y):
                may = {who} if m in methods and who and live(op, who) else set()
                b = {"client_assertion": a, "client_assertion_type": CT}
                if cid:
                    b["client_id"] = cid
                got, r = p.send(b, None, o)
                compare(f"{case} assertion {name} client_id {cid} for {o}", got, r, may,
                        who if may and sure and (ep != "token" or o == who) else None)
                if got is not None:  # never twice
                    for ep2 in ENDPOINTS:
                        p2 = p if ep2 == ep else Prober(op, ep2)
                        got, r = p2.send(dict(b), None, o)
                        if got is not None:
                            raise Violation(f"{case} assertion {name}: accepted again at {ep2}", sig="assertion accepted twice")
                    break  # used up
            else:
                continue
            break
    return "ok"


def request_objects(case):
    """The signed request object as the credential of a pushed request."""
    methods, x = case
    y = "client_2" if x != "client_2" else "client_1"
    ep = "pushed_authorization"
    op = provider(dict(ALLM, pushed_authorization=methods))
    n = itertools.count()
    inner = {"response_type": "code", "client_id": x, "redirect_uri": SHARED, "scope": "openid", "state": "s", "nonce": "n"}
    base = lambda **kw: dict(inner, **claims(op, x, ep, next(n), **kw))  # noqa: E731
    me = op.ep(ep).full_path
    hs, rs = sym(op.ctx.cdb[x].get("client_secret", "")), key(KEYOF[x], "RS256") if x in KEYOF else []
    todo = []
    for alg, k in (("HS256", hs), ("RS256", rs)):
        if not k:
            continue
        for kw, ok in (({}, True), ({"aud": [ISSUER]}, None), ({"aud": me}, True), ({"aud": None}, None), ({"jti": None}, None),
                       ({"aud": ["https://other.example.net/"]}, False), ({"aud": []}, None), ({"aud": [me + "/x"]}, False),
                       ({"exp": clock.now() - SKEW - 1}, False), ({"iss": y}, False), ({"iss": "nobody"}, False), ({"iss": None}, False)):
            todo.append((f"{alg} {kw}", sign(base(**kw), alg, k), ok))
    todo.append(("RS256 other's key", sign(base(), "RS256", key(KEYOF[y], "RS256")), False))
    todo.append(("HS256 other's secret", sign(base(), "HS256", sym(op.ctx.cdb[y]["client_secret"])), False))
    todo.append(("alg none", ".".join([b64({"alg": "none"}), b64(base()), ""]), False))
    todo.append(("provider's key", sign(base(), "RS256", key("op", "RS256")), False))
    for name, a, ok in todo:
        for body in ({}, {"client_id": x}, {"client_id": y}):
            for again in (False, True):
                count(C_PROBE)
                hi = op.http_info(ep)
                req, r = op.parse(ep, dict(body, request=a), hi)
                who = None
                if r is None:
                    who = req.get("client_id")
                    r = op.process(ep, req, hi)
                may = {x} if ok is not False and "request_param" in methods and live(op, x) and not again else set()
                compare(f"{case} {name} {body} again={again}", who, r, may, x if may and ok else None)
                if who is None:
                    break
            if who is not None or again:
                break
    return "ok"


# ---------------------------------------------------------------- histories
class Fresh(Scenario):
    """Assertions presented at several endpoints in every order, while they and the secrets expire."""

    def __init__(self, name, methods, creds, ticks=(1, 200, 1000)):
        self.name = name
        self.methods = methods
        self.defs = creds
        self.ticks = ticks

    def setup(self):
        self.op = provider(self.methods)
        self.t0 = clock.now()
        self.seen = set()
        self.jtis = set()
        self.creds = {}
        urls = [self.op.ep(e).full_path for e in ENDPOINTS]
        for name, who, alg, jti, life in self.defs:
            d = {"iss": who, "sub": who, "aud": urls, "iat": self.t0, "exp": self.t0 + life}
            if jti:
                d["jti"] = jti
            k = sym(self.op.ctx.cdb[who]["client_secret"]) if alg.startswith("HS") else key(KEYOF[who], alg)
            self.creds[name] = (who, alg, jti, self.t0 + life, sign(d, alg, k))
        self.probers = {e: Prober(self.op, e) for e in ENDPOINTS}

    def ops(self):
        return [("present", n, e) for n in self.creds for e in ENDPOINTS] + \
               [("secret", c, e) for c in ("client_1", FAR) for e in ENDPOINTS[:1]] + [("tick", t) for t in self.ticks]

    def key(self):
        return repr((sorted(self.seen), clock.now() - self.t0, sorted(self.op.ctx.jti_db), repr(self.op.ctx.cdb)))

    def apply(self, o):
        if o[0] == "tick":
            clock.advance(o[1])
            self.probers = {e: Prober(self.op, e) for e in ENDPOINTS}
            return
        if o[0] == "secret":
            _, who, ep = o
            sec = self.op.ctx.cdb[who]["client_secret"]
            may = {who} if live(self.op, who) and "client_secret_post" in self.methods[ep] else set()
            got, r = self.probers[ep].send({"client_id": who, "client_secret": sec}, None, who)
            compare(str(o), got, r, may, who if may else None)
            return
        _, name, ep = o
        who, alg, jti, exp, a = self.creds[name]
        m = "client_secret_jwt" if alg.startswith("HS") else "private_key_jwt"
        may = set()
        edge = exp <= clock.now() <= exp + SKEW
        if m in self.methods[ep] and clock.now() <= exp + SKEW and live(self.op, who) and name not in self.seen:
            may = {who}
        sure = bool(may) and not edge and (jti is None or (who, jti) not in self.jtis)
        got, r = self.probers[ep].send({"client_assertion": a, "client_assertion_type": CT}, None, who)
        compare(str(o), got, r, may, who if sure else None)
        if got is not None:
            self.seen.add(name)
            if jti:
                self.jtis.add((who, jti))
        elif may:
            self.seen.add(name)  # refused for its jti or its age


ALLM = {e: METHODS for e in ENDPOINTS}
MIXED = {"token": METHODS, "introspection": ("client_secret_post", "private_key_jwt"),
         "pushed_authorization": ("client_secret_jwt", "client_secret_basic")}


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    yield Fresh("one time use", MIXED, [("a", "client_1", "RS256", "J", 300), ("b", "client_1", "HS256", "J2", 300),
                                        ("other's same jti", "client_2", "RS256", "J", 300)], ticks=(200,)), 4 + x
    yield Fresh("expiry", ALLM, [("a", "client_1", "ES256", "J", 200), ("far", FAR, "HS256", "J", 5000),
                                 ("no jti", "client_1", "RS256", None, 5000)], ticks=(1, 200, 1000)), 4 + x


def main(tier):
    c = Check("C09", tier)
    for s, d in scenarios(tier):
        c.explore(s, d)
    subsets = [m for n in range(1, 5) for m in itertools.combinations(METHODS, n)]
    subsets += [tuple(reversed(METHODS))]
    who = ("client_1", NOKEYS, PUB, EXP, FAR)
    c.sweep("credentials", [(m, e, x) for m in subsets for e in ENDPOINTS for x in who], credentials,
            rule="methods allowed at the endpoint (all subsets) x endpoint x client kind; every header x body secret combination and "
                 "every assertion x claimed client_id x owner of the code")
    c.sweep("request objects", [(m, x) for m in (("request_param",), ("client_secret_basic", "request_param"), METHODS) for x in who],
            request_objects, rule="methods allowed at the pushed authorization endpoint x client kind; every request object x client_id")
    return c.finish("model_checking")
