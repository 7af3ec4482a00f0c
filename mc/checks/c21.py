"""C21: DPoP-bound tokens are only issued against a valid proof, and stay bound."""
import base64
import hashlib
import itertools
import json
import os

from cryptojwt.jwk.hmac import SYMKey

from mc import clock
from mc import schedule
from mc.checks.c01 import files
from mc.checks.c01 import thread_cases
from mc.checks.c09 import key
from mc.explore import C_PROBE
from mc.explore import C_SCHED
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.explore import op_state
from mc.op import OP
from mc.op import REPO_SRC
from mc.op import base_conf
from mc.op import client
from mc.op import jwt_claims
from mc.op import jwt_tokens
from mc.report import Check


def b64(x):
    if not isinstance(x, bytes):
        x = json.dumps(x).encode() if not isinstance(x, str) else x.encode()
    return base64.urlsafe_b64encode(x).decode().rstrip("=")


def public(k):
    d = {a: b for a, b in k.serialize(private=False).items() if a not in ("kid", "use", "alg")}
    return {a: b.decode() if isinstance(b, bytes) else b for a, b in d.items()}


def thumbprint(jwk):
    members = {"EC": ("crv", "kty", "x", "y"), "RSA": ("e", "kty", "n"), "oct": ("k", "kty")}[jwk["kty"]]
    return b64(hashlib.sha256(json.dumps({m: jwk[m] for m in members}, separators=(",", ":"), sort_keys=True).encode()).digest())


KEYS = {"ec": key("client_1", "ES256")[0], "ec2": key("client_2", "ES256")[0], "rsa": key("client_1", "RS256")[0],
        "oct": SYMKey(key="0123456789abcdef0123456789abcdef")}
JWK = {n: public(k) for n, k in KEYS.items() if n != "oct"}
JWK["oct"] = {"kty": "oct", "k": b64("0123456789abcdef0123456789abcdef")}
JKT = {n: thumbprint(j) for n, j in JWK.items()}
ALG = {"ec": "ES256", "ec2": "ES256", "rsa": "RS256", "oct": "HS256"}


def raw_sign(header, payload, k, alg):
    """header and payload exactly as given."""
    body = b64(header) + "." + b64(payload)
    if alg == "none":
        return body + "."
    from cryptojwt.jws.jws import SIGNER_ALGS
    s = KEYS[k]
    sk = s.key if k == "oct" else s.private_key()
    return body + "." + base64.urlsafe_b64encode(SIGNER_ALGS[alg].sign(body.encode(), sk)).decode().rstrip("=")


_N = itertools.count()


def proof(op, k="ec", alg=None, head=None, body=None, sign=None, method="POST", url=None):
    """A proof with the given deviations; a value of None removes the member."""
    alg = alg or ALG[k]
    h = {"typ": "dpop+jwt", "alg": alg, "jwk": JWK[k]}
    p = {"jti": f"jti{next(_N)}", "htm": method, "htu": url or op.ep("token").full_path, "iat": clock.now()}
    for d, x in ((h, head), (p, body)):
        for m, v in (x or {}).items():
            if v is None:
                d.pop(m)
            else:
                d[m] = v
    return raw_sign(h, p, sign or k, alg if alg != "none" else "none")


ALGS = {"default": None, "ES256": ["ES256"], "both": ["ES256", "RS256"], "RS256 PS256": ["RS256", "PS256"], "all": ["ES256", "RS256", "PS256", "HS256", "none", "RS512"]}


def conf(kind, algs, jwt=True):
    c = base_conf(kind)
    kw = {} if ALGS[algs] is None else {"dpop_signing_alg_values_supported": ALGS[algs]}
    c["add_on"] = dict(c.get("add_on") or {}, dpop={"function": "oidcop.oauth2.add_on.dpop.add_support", "kwargs": kw})
    if jwt:
        jwt_tokens(c, which=("token",))
    if kind == "oauth2":
        c["allowed_scopes"] = ["profile", "offline_access"]
    return c


def supported(algs):
    return ALGS[algs] or ["RS256"]


# (name, key it would be bound to, deviations, is it valid?).  Valid: True, False, None: either; a function of the list of algorithms
def P(name, k="ec", valid=True, **kw):
    return name, k, kw, valid


def deviations(op):
    url = op.ep("token").full_path
    for k in ("ec", "ec2", "rsa"):
        yield P(f"good {k}", k)
    yield P("PS256", "rsa", alg="PS256")
    yield P("RS512", "rsa", alg="RS512")
    yield P("HS256 oct", "oct", False)
    yield P("HS256 with the public key", "ec", False, alg="HS256", sign="oct")
    yield P("none", "ec", False, alg="none")
    yield P("None", "ec", False, alg="none", head={"alg": "None"})
    yield P("unsigned", "ec", False, strip=True)
    yield P("signed by another", "ec", False, sign="ec2")
    yield P("signed by another kind", "ec", False, head={"alg": "RS256"}, alg="RS256", sign="rsa")
    for t in (None, "JWT", "", "dpop", "jwt+dpop", "dpop+jwt2", "application/jwt", 1, ["dpop+jwt"], "at+jwt"):
        yield P(f"typ {t}", "ec", False, head={"typ": t})
    yield P("typ upper", "ec", None, head={"typ": "DPoP+JWT"})
    yield P("typ full", "ec", None, head={"typ": "application/dpop+jwt"})
    yield P("no jwk", "ec", False, head={"jwk": None})
    yield P("jwk empty", "ec", False, head={"jwk": {}})
    yield P("jwk text", "ec", None, head={"jwk": json.dumps(JWK["ec"])})
    yield P("jwk list", "ec", None, head={"jwk": [JWK["ec"]]})
    yield P("jwk of another", "ec2", False, head={"jwk": JWK["ec2"]})
    yield P("jwk in payload too", "ec", None, body={"jwk": JWK["ec2"]})
    yield P("jwk only in payload", "ec", False, head={"jwk": None}, body={"jwk": JWK["ec"]})
    yield P("jwk crippled", "ec", False, head={"jwk": {x: y for x, y in JWK["ec"].items() if x != "y"}})
    yield P("jwk kid", "ec", True, head={"jwk": dict(JWK["ec"], kid="k1", use="sig")})
    yield P("jwk with junk", "ec", None, head={"jwk": dict(JWK["ec"], k=JWK["oct"]["k"])})
    yield P("kid header", "ec", None, head={"kid": "x"})
    yield P("jku instead", "ec", False, head={"jwk": None, "jku": "https://evil.example.net/jwks"})
    yield P("htm in header", "ec", False, head={"htm": "POST"}, body={"htm": "GET"})
    yield P("htm only in header", "ec", False, head={"htm": "POST"}, body={"htm": None})
    yield P("htu in header", "ec", False, head={"htu": url}, body={"htu": "https://evil.example.net/token"})
    yield P("typ in payload", "ec", False, head={"typ": "JWT"}, body={"typ": "dpop+jwt"})
    yield P("typ only in payload", "ec", False, head={"typ": None}, body={"typ": "dpop+jwt"})
    yield P("alg in payload", "rsa", lambda a: "RS512" in a, alg="RS512", body={"alg": "RS256"})
    for m in ("GET", None, "", "PUT", "POST ", ["POST"], "POSTER"):
        yield P(f"htm {m}", "ec", False, body={"htm": m})
    yield P("htm lower", "ec", None, body={"htm": "post"})
    for u in (None, "", "https://evil.example.net/token", url + "x", url[:-1], url + "/", url.replace("https", "http"), op.ep("introspection").full_path, url.replace("example.org", "example.org.evil.net"),
              url.replace("//", "//x@"), [url], url.replace("https://", "")):
        yield P(f"htu {u}", "ec", None if u == url + "/" else False, body={"htu": u})
    for u in (url + "?x=1", url + "#x", url.replace("op.example.org", "OP.example.org"), url.replace("op.example.org", "op.example.org:443")):
        yield P(f"htu {u}", "ec", None, body={"htu": u})
    for j in (None, 1, ["x"]):
        yield P(f"jti {j}", "ec", False if j is None else None, body={"jti": j})
    for i in (None, "now", [1]):
        yield P(f"iat {i}", "ec", False, body={"iat": i})
    yield P("more", "ec", True, body={"ath": "x", "nonce": "y", "exp": clock.now() + 600})
    for n, t in (("empty", ""), ("word", "x"), ("dots", "a.b.c"), ("two parts", "a.b"), ("twice", "x,y"), ("five", "a.b.c.d.e"), ("blank", " "), ("many", "." * 9), ("utf8", "ü.ü.ü")):
        yield P(n, "ec", False, text=t)
    yield P("payload list", "ec", False, payload=[1])
    yield P("payload empty", "ec", False, payload={})
    yield P("payload text", "ec", False, payload="hello")
    yield P("other proof's payload", "ec", False, splice=True)
    yield P("trailing", "ec", False, tail="x.y")
    yield P("two proofs", "ec", False, double=True)


def build(op, k, kw):
    kw = dict(kw)
    if "text" in kw:
        return kw["text"]
    if "payload" in kw:
        return raw_sign({"typ": "dpop+jwt", "alg": "ES256", "jwk": JWK["ec"]}, kw["payload"], "ec", "ES256")
    strip, splice, tail, double = (kw.pop(x, None) for x in ("strip", "splice", "tail", "double"))
    t = proof(op, k if k != "ec2" or "head" not in kw else "ec", **kw)
    if strip:
        t = t.rsplit(".", 1)[0] + "."
    if splice:
        a, b = t.split("."), proof(op, k).split(".")
        t = ".".join((a[0], b[1], a[2]))
    if tail:
        t += "." + tail
    if double:
        t += "," + proof(op, k)
    return t


def is_valid(valid, algs, k, kw):
    if callable(valid):
        return valid(supported(algs))
    alg = kw.get("alg") or ALG[k]
    if valid is not False and alg not in supported(algs):
        return False
    return valid


def tokens(op, kind, cid="client_1", **kw):
    scope = ("openid", "offline_access") if kind == "oidc" else ("profile", "offline_access")
    more = {"prompt": "consent"} if kind == "oidc" else {}
    return op.authz_as("diana", op.areq(cid, scope=scope, **dict(more, **kw)))


def bound(op, r, k, jwt, cid="client_1"):
    """Is what was answered bound to key k (None: to no key)?"""
    at = r["access_token"]
    want = "DPoP" if k else "Bearer"
    if r["token_type"].lower() != want.lower():
        raise Violation(f"the token type is {r['token_type']}, {k}", sig="token type")
    if jwt:
        cnf = jwt_claims(at).get("cnf")
        if cnf != ({"jkt": JKT[k]} if k else None):
            raise Violation(f"bound to {cnf}, the key is {k}: {JKT.get(k)}", sig="bound to")
    i = op.introspect(at, cid)
    if not i.get("active") or i.get("token_type", "Bearer").lower() != want.lower() or i.get("cnf", {"jkt": JKT.get(k)}) != {"jkt": JKT.get(k)}:
        raise Violation(f"introspection: {i!r}, the key is {k}", sig="introspection")


def issue(kind):
    return {"issue_refresh": True} if kind == "oauth2" else {}


def one_proof(case):
    kind, algs, jwt, grant, pos = case
    op = OP(conf(kind, algs, jwt), kind=kind)
    name, k, kw, valid = list(deviations(op))[pos]
    good = "ec" if "ES256" in supported(algs) else "rsa"
    r = tokens(op, kind)
    req = op.treq(r["code"])
    ask = lambda hdr: op.token(req, headers=hdr, **issue(kind))  # noqa: E731
    if grant == "refresh":
        first = ask({"dpop": proof(op, good)})
        if first.kind != "ok":
            raise Violation(f"a good proof was refused: {first!r}", sig="good refused")
        bound(op, first, good, jwt)
        req = op.rreq(first["refresh_token"])
        ask = lambda hdr: op.token(req, headers=hdr)  # noqa: E731
    want = is_valid(valid, algs, k, kw)
    r = ask({"dpop": build(op, k, kw)})
    if r.kind == "ok":
        if want is False:
            raise Violation(f"a proof ({name}; supported: {supported(algs)}) was accepted: {r!r}", sig="accepted:" + name)
        bound(op, r, k, jwt)
        out = "bound"
    else:
        if want:
            raise Violation(f"a proof ({name}; supported: {supported(algs)}) was refused: {r!r}", sig="refused:" + name)
        if "access_token" in r.params:
            raise Violation(f"{name}: {r!r}", sig="refused with token")
        out = r.kind
        # it was not used up
        r = ask({"dpop": proof(op, good)})
        if r.kind != "ok":
            raise Violation(f"after a refused proof ({name}) a good one is refused: {r!r}", sig="spent by refused")
        bound(op, r, good, jwt)
    if grant == "refresh":
        bound(op, first, good, jwt)
    return out


def proof_cases(tier):
    op = OP(conf("oidc", "ES256"))
    n = len(list(deviations(op)))
    full = tier == "thorough"
    for kind, algs, jwt, grant in itertools.product(("oidc", "oauth2"), ALGS, (True, False), ("code", "refresh")):
        if full or jwt and algs in ("both", "all") or algs == "ES256" and jwt != (kind == "oidc"):
            yield from ((kind, algs, jwt, grant, i) for i in range(n))
        else:
            yield from ((kind, algs, jwt, grant, i) for i in range(12))


def one_request(case):
    """The proof against what the request really was."""
    kind, method, real, said_m, said_u = case
    op = OP(conf(kind, "ES256"), kind=kind)
    base = op.ep("token").full_path
    urls = {"token": base, "other": "https://op2.example.org/token", "query": base + "?a=b", "introspection": op.ep("introspection").full_path}
    r = tokens(op, kind)
    t = op.token(op.treq(r["code"]), headers={"dpop": proof(op, body={"htm": said_m, "htu": urls[said_u]})}, url=urls[real], method=method)
    same = method == said_m and (real == said_u or None if {real, said_u} == {"token", "query"} else real == said_u)
    if t.kind == "ok":
        if same is False:
            raise Violation(f"a proof for {said_m} {said_u} was good for {method} {real}", sig="other request")
        bound(op, t, "ec", True)
    elif same and method == "POST":
        raise Violation(f"a proof for {said_m} {said_u}: {t!r}", sig="same request")
    return t.kind


class Bindings(Scenario):
    """Codes and refresh tokens used with and without proofs, in any order."""

    def __init__(self, name, kind, jwt=True, proofs=("ec", "ec2", None, "bad", "claimed"), rts=("code",), maxg=2, clients=("client_1",), restore=False):
        self.name, self.kind, self.jwt, self.proofs, self.rts, self.maxg, self.cids, self.restore = name, kind, jwt, proofs, rts, maxg, clients, restore

    def new(self):
        return OP(conf(self.kind, "both", self.jwt), {c: client(int(c[-1])) for c in ("client_1", "client_2")}, kind=self.kind)

    def setup(self):
        self.op = self.new()
        self.g = 0
        self.codes, self.rts_, self.at = [], [], []   # (value, cid), (value, cid), (response, key, cid)
        self.jar = []

    def ops(self):
        out = []
        if self.g < self.maxg:
            out += [("login", c, rt) for c in self.cids for rt in self.rts]
        out += [("again", i) for i in range(len(self.jar)) if len(self.at) < 5]
        out += [("redeem", i, p) for i in range(len(self.codes)) for p in self.proofs]
        if len(self.at) < 5:
            out += [("refresh", i, p) for i in range(len(self.rts_)) for p in self.proofs]
        if self.restore:
            out.append(("restore",))
        return out

    def key(self):
        return op_state(self.op, {}, set()) + json.dumps([[c for _, c in self.codes], [c for _, c in self.rts_], [(k, c) for _, k, c in self.at], len(self.jar)])

    def headers(self, p):
        if p is None or p == "claimed":
            return None
        if p == "bad":
            return {"dpop": proof(self.op, "ec", sign="ec2")}
        return {"dpop": proof(self.op, p)}

    def apply(self, o):
        op = self.op
        if o[0] == "login":
            req = None
            r = tokens(op, self.kind, o[1], response_type=o[2], state=f"s{self.g}", nonce=f"n{self.g}")
            self.g += 1
            self.got(r, None, o[1])
            req = op.areq(o[1], scope=("openid",) if self.kind == "oidc" else ("profile",), response_type=o[2], state="again", nonce="again")
            self.jar.append((op.session_cookie(r), o[1], req))
        elif o[0] == "again":
            cookie, cid, req = self.jar[o[1]]
            r = op.authz(req, cookies=cookie)
            self.got(r, None, cid)
        elif o[0] == "restore":
            dump = json.loads(json.dumps(op.ctx.dump()))
            new = self.new()
            new.ctx.load(dump, init_args={"server_get": new.server.server_get, "handler": new.mngr.token_handler})
            self.op = new
        else:
            v, cid = (self.codes if o[0] == "redeem" else self.rts_)[o[1]]
            req = op.treq(v, cid) if o[0] == "redeem" else op.rreq(v, cid)
            if o[2] == "claimed":
                req = dict(req, dpop_jkt=JKT["ec2"], cnf=json.dumps({"jkt": JKT["ec2"]}))
            r = op.token(req, headers=self.headers(o[2]), **(issue(self.kind) if o[0] == "redeem" else {}))
            if o[2] == "bad":
                if r.kind == "ok":
                    raise Violation(f"{o}: {r!r}", sig="bad proof")
                return
            if r.kind != "ok":
                raise Violation(f"{o}: {r!r}", sig="refused")
            if o[0] == "redeem":
                self.codes.pop(o[1])
            self.got(r, o[2] if o[2] != "claimed" else None, cid)

    def got(self, r, k, cid):
        if r.kind != "ok":
            raise Violation(f"{r!r}", sig="refused")
        if "code" in r:
            self.codes.append((r["code"], cid))
        if "refresh_token" in r and r["refresh_token"] not in [v for v, _ in self.rts_]:
            self.rts_.append((r["refresh_token"], cid))
        if "access_token" in r:
            self.at.append((r, k, cid))

    def invariant(self):
        for r, k, cid in self.at:
            count(C_PROBE)
            bound(self.op, r, k, self.jwt, cid)


class Threads:
    """Two token requests of one grant at once, with different keys."""
    core = False

    def __init__(self, case):
        self.kind, self.jobs = case[0], case[1:]
        schedule.install_locks()
        try:
            self.op = op = OP(conf(self.kind, "both"), kind=self.kind)
            for e in ("token", "introspection"):
                op.ep(e)
            a = tokens(op, self.kind)
            self.t = op.token(op.treq(a["code"]), **issue(self.kind))
            req = op.areq("client_1", scope=("openid",) if self.kind == "oidc" else ("profile",), state="again", nonce="again")
            self.code = op.authz(req, cookies=op.session_cookie(a))["code"]
            self.code2 = op.authz(req, cookies=op.session_cookie(a))["code"]
        finally:
            schedule.restore_locks()

    def make(self):
        op, out, codes = self.op, [], [self.code, self.code2]
        for what, k in self.jobs:
            hdr = {"dpop": proof(op, k)} if k else None
            if what == "redeem":
                out.append(lambda c=codes.pop(), h=hdr: op.token(op.treq(c), headers=h))
            else:
                out.append(lambda h=hdr: op.token(op.rreq(self.t["refresh_token"]), headers=h))
        return out, self

    def judge(self, res, _):
        for (what, k), r in zip(self.jobs, res):
            if r.kind != "ok":
                raise Violation(f"{what} {k} of {self.jobs}: {r!r}", sig="concurrent:refused")
            bound(self.op, r, k, True)
        bound(self.op, self.t, None, True)
        return "/".join(r.kind for r in res)


PAIRS = [(k,) + p for k in ("oidc", "oauth2") for p in ((("redeem", "ec"), ("redeem", "ec2")), (("redeem", "ec"), ("redeem", None)), (("redeem", None), ("refresh", "ec")), (("refresh", "ec"), ("refresh", "ec2")),
                                                       (("refresh", "ec"), ("refresh", None)))]


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    yield Bindings("oidc", "oidc"), 4 + x
    yield Bindings("oauth2", "oauth2"), 4 + x
    yield Bindings("opaque", "oidc", jwt=False, proofs=("ec", None, "bad")), 4 + x
    yield Bindings("hybrid", "oidc", proofs=("ec", None), rts=("code token", "code id_token token"), maxg=1), 5 + x
    yield Bindings("two clients", "oidc", proofs=("ec", None), clients=("client_1", "client_2")), 5 + x
    yield Bindings("restarts", "oidc", proofs=("ec", "ec2", None), restore=True, maxg=1), 5 + x


def main(tier):
    c = Check("C21", tier)
    c.sweep("proofs", list(proof_cases(tier)), one_proof, isolate=True,
            rule="kinds of provider x supported algorithms x token formats x grants x proofs with one deviation")
    c.sweep("requests", [x for x in itertools.product(("oidc", "oauth2"), ("POST", "GET"), ("token", "other", "query", "introspection"), ("POST", "GET"), ("token", "other", "query", "introspection"))], one_request,
            isolate=True, rule="the method and URL of the request x those of the proof")
    for s, d in scenarios(tier):
        c.explore(s, d)
    for pair in PAIRS:
        th = Threads(pair)
        th.core = False if tier == "thorough" else {os.path.join(REPO_SRC, "oidcop", *f.split("/")) for f in
                                                    ("oauth2/token.py", "oidc/token.py", "session/grant.py", "oauth2/add_on/dpop.py", "session/token.py")}

        def run(case, th=th):
            start, sch, b = case
            o = schedule.explore_from(th.make, files(th.core), start, () if sch is None else (sch,), 0 if sch is None else b, th.judge,
                                      lambda n: count(C_SCHED, n))
            return ",".join(sorted(o))
        c.sweep(f"threads {pair[0]} {'+'.join(w + '-' + str(k) for w, k in pair[1:])} preemptions<=1", thread_cases(th, 1), run, isolate=False,
                rule="every schedule of two token requests of one grant with one preemption, at the lines of the token code (thorough: of all files)")
    return c.finish("model_checking")
