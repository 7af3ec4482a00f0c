"""C06: only the right kind of genuine token opens each door."""
import base64
import json

from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.ec import ECKey
from cryptojwt.jws.jws import JWS

from mc import clock
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import op_state
from mc.op import KEYS
from mc.op import OP
from mc.op import base_conf
from mc.op import jwt_claims
from mc.op import jwt_header
from mc.op import jwt_tokens
from mc.op import private_keyjar
from mc.report import Check

FORMATS = ("oidc opaque", "oidc jwt", "oauth2 opaque", "oauth2 jwt", "oidc jwt code")
RIGHT = {"code": "code", "refresh": "refresh_token", "userinfo header": "access_token",
         "userinfo body": "access_token"}


def provider(fmt, tag=""):
    kind, form = fmt.split()[0], fmt.split()[1]
    conf = base_conf(kind)
    conf["authz"]["kwargs"]["grant_config"]["usage_rules"]["authorization_code"]["max_usage"] = 1
    if form == "jwt":
        jwt_tokens(conf, ("code", "token", "refresh") if fmt.endswith("code") else ("token", "refresh"))
    if kind == "oauth2":
        conf["allowed_scopes"] = ["offline_access"]
    return OP(conf, kind=kind, tag=tag, op_keys="foreign" if tag else "op")


def harvest(op, user="diana", cid="client_1", n=0):
    """One finished and one half finished flow: a live code, access token, refresh token, ID Token, session ids."""
    sc = ("openid", "offline_access") if op.kind == "oidc" else ("offline_access",)
    v = {}
    for i in (0, 1):
        r = op.authz_as(user, op.areq(cid, scope=sc, prompt="consent", state=f"s{n}{i}", nonce=f"n{n}{i}"))
        v["code"] = r["code"]
        if i == 0:
            t = op.token(op.treq(r["code"], cid), issue_refresh=True)
            assert t.ok, t
            v["spent code"] = r["code"]
            for k in ("access_token", "refresh_token", "id_token"):
                if k in t:
                    v[k] = t[k]
    sid = op.mngr.get_session_info_by_token(v["access_token"])["session_id"]
    v["session id"] = sid
    v["encrypted session id"] = op.mngr.encrypted_session_id(*op.mngr.decrypt_session_id(sid)) \
        if hasattr(op.mngr, "encrypted_session_id") else sid
    v["subject"] = op.mngr.get_grant(sid).sub
    v["client secret"] = op.ctx.cdb[cid]["client_secret"]
    v["grant id"] = str(op.mngr.get_grant(sid).id)
    v["token id"] = str(op.mngr.get_grant(sid).get_token(v["access_token"]).id)
    v["client id"] = cid
    v["user id"] = user
    v["empty"] = ""
    v["none"] = "None"
    for c in r.cookies:
        v.setdefault("cookie", c["value"])
    return v


def door(op, where, value, cid="client_1"):
    if where == "code":
        r = op.token(op.treq(value, cid), issue_refresh=True)
    elif where == "refresh":
        r = op.token(op.rreq(value, cid), issue_refresh=True)
    elif where == "userinfo header":
        r = op.userinfo(value)
    elif where == "userinfo body":
        r = op.userinfo(value, "body")
    elif where == "introspection":
        r = op.introspect(value, cid)
        return r, r.ok and r.get("active") is True
    return r, r.ok


def doors(op):
    return ("code", "refresh", "introspection") + (("userinfo header", "userinfo body") if op.kind == "oidc" else ())


OPS = {}


def setup(fmt):
    op = provider(fmt)
    v = harvest(op)
    v2 = harvest(op, "babs", "client_2", 1)
    other = provider(fmt, "other")
    f = harvest(other)
    f.update({f"foreign {k}": x for k, x in f.items()})
    OPS[fmt] = (op, v, v2, {k: x for k, x in f.items() if k.startswith("foreign ")})


def state(op):
    for c in op.ctx.cdb.values():
        c.pop("auth_method", None)
    return op_state(op, {}, set())


def expected(fmt, where, name):
    if where == "introspection":
        return name in ("access_token", "refresh_token")
    return RIGHT[where] == name or (where == "code" and name == "code")


def matrix(case):
    fmt, where, name = case
    op, v, v2, f = OPS[fmt]
    value = dict(v, **f)[name]
    before = state(op)
    r, acc = door(op, where, value)
    exp = expected(fmt, where, name)
    if acc != exp:
        raise Violation(f"{fmt}: {name} presented at {where}: {r.brief()}", sig=f"{fmt.split()[0]} {name} at {where}")
    if not exp and name != "spent code" and state(op) != before:
        raise Violation(f"{fmt}: {name} presented at {where} was refused but changed the state", sig="state changed")
    return f"{where}:{'accepted' if acc else r.kind}"


def tamper(case):
    """One altered value at one door.  The provider is shared by the cases: a refused value must not change it."""
    fmt, where, name, how = case
    op, v, v2, f = OPS[fmt]
    value = altered(v[name], v, v2, f, name, how)
    if value is None or value == v[name] or value in v.values() or value in v2.values():
        return "no alteration"
    before = CACHE.get(fmt)
    if before is None:
        before = CACHE[fmt] = state(op)
    r, acc = door(op, where, value)
    if acc:
        raise Violation(f"{fmt}: {name} altered by {how} was accepted at {where}: {r.brief()}",
                        sig=f"altered {name} accepted at {where}", value=value, original=v[name])
    if state(op) != before:
        raise Violation(f"{fmt}: {name} altered by {how} at {where} changed the state", sig="state changed")
    return f"{where}:{r.kind}"


CACHE = {}
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


def b64e(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=").decode()


def altered(x, v, v2, f, name, how):
    op, *a = how
    if op == "sub":
        i, d = a
        if i >= len(x):
            return None
        c = B64[(B64.index(x[i]) + d) % 64] if x[i] in B64 else "A"
        return x[:i] + c + x[i + 1:]
    if op == "del":
        return x[:a[0]] + x[a[0] + 1:] if a[0] < len(x) else None
    if op == "ins":
        return x[:a[0]] + "A" + x[a[0]:] if a[0] <= len(x) else None
    if op == "trunc":
        return x[:a[0]] if a[0] < len(x) else None
    if op == "tail":
        return x[a[0]:] if 0 < a[0] < len(x) else None
    if op == "append":
        return x + a[0]
    if op == "prepend":
        return a[0] + x
    if op == "case":
        return x.swapcase()
    if op == "reverse":
        return x[::-1]
    if op == "splice":
        other, i = a
        y = {**v, **{f"2 {k}": z for k, z in v2.items()}, **f}.get(other)
        return x[:i] + y[i:] if y else None
    if op == "jws":
        return rejws(x, v, v2, f, a)
    raise KeyError(op)


def key_of(who, kty="EC"):
    return [k for k in private_keyjar(who).get_issuer_keys("") if k.kty == kty][0]


def rejws(x, v, v2, f, a):
    """JWT values: parts exchanged with those of other JWTs, or payload signed again by somebody else."""
    how = a[0]
    if x.count(".") != 2:
        return None
    h, p, s = x.split(".")
    if how == "part":
        other, i = a[1:]
        y = {**v, **{f"2 {k}": z for k, z in v2.items()}, **f}.get(other)
        if not y or y.count(".") != 2:
            return None
        parts = [h, p, s]
        parts[i] = y.split(".")[i]
        return ".".join(parts)
    if how == "none":
        hd = jwt_header(x)
        hd["alg"] = a[1]
        return ".".join([b64e(json.dumps(hd).encode()), p, s if a[2] else ""])
    if how == "claims":  # signature kept
        c = jwt_claims(x)
        c[a[1]] = a[2]
        return ".".join([h, b64e(json.dumps(c).encode()), s])
    if how == "sign":
        who, claims = a[1:]
        c = dict(jwt_claims(x), **dict(claims))
        if who == "secret":
            k, alg = SYMKey(key=f"hemligt-1-0123456789abcdef0123456789"), "HS256"
        elif who == "op public as secret":
            k, alg = SYMKey(key=json.dumps(key_of("op").serialize())), "HS256"
        else:
            k, alg = key_of(who), "ES256"
        k = k if isinstance(k, SYMKey) else ECKey(**dict(k.serialize(private=True)))
        if "op kid" == a[-1]:
            k.kid = jwt_header(x).get("kid", "")
        return JWS(json.dumps(c), alg=alg).sign_compact([k])
    raise KeyError(how)


def hows(x, step):
    n = len(x)
    pos = sorted(set(range(0, n, step)) | set(range(max(0, n - 6), n)) | set(range(0, min(8, n))) |
                 {i + d for i, c in enumerate(x) if c == "." for d in (-2, -1, 0, 1, 2) if 0 <= i + d < n})
    for i in pos:
        yield ("sub", i, 1)
        yield ("trunc", i)
    for i in pos[::3]:
        yield ("sub", i, 32)
        yield ("del", i)
        yield ("ins", i)
        yield ("tail", i)
    for t in ("A", "=", "==", ".", " ", "\n", "%00", "\x00", ";;", "::"):
        yield ("append", t)
        yield ("prepend", t)
    yield ("case",)
    yield ("reverse",)
    others = [a + k for a in ("", "2 ", "foreign ") for k in ("code", "access_token", "refresh_token", "id_token")]
    for o in others:
        for i in sorted({n // 4, n // 2, 3 * n // 4, 20, 60, 100}):
            yield ("splice", o, i)
    if x.count(".") == 2:
        for o in others:
            for i in (0, 1, 2):
                yield ("jws", "part", o, i)
        for alg in ("none", "None", "NONE", "HS256", "RS256", "ES384", ""):
            for keep in (0, 1):
                yield ("jws", "none", alg, keep)
        for c, val in (("sid", "x"), ("exp", 2_000_000_000), ("ttype", "T"), ("token_class", "access_token"),
                       ("token_class", "refresh_token"), ("scope", ["openid", "admin"]), ("client_id", "client_2")):
            yield ("jws", "claims", c, val)
        for who in ("client_1", "client_2", "foreign", "secret", "op public as secret"):
            for claims in ((), (("iss", "client_1"),), (("iss", "client_2"),), (("iss", ""),),
                           (("exp", 2_000_000_000),), (("iss", "client_1"), ("token_class", "access_token"))):
                yield ("jws", "sign", who, claims)


class Removed(Scenario):
    """Values of grants the provider no longer knows, at any point of a history of removals."""

    def __init__(self, name, fmt):
        self.name, self.fmt = name, fmt

    def setup(self):
        self.op = provider(self.fmt)
        self.v = [harvest(self.op, "diana", "client_1", 0), harvest(self.op, "diana", "client_2", 1),
                  harvest(self.op, "babs", "client_1", 2)]
        self.who = [("diana", "client_1"), ("diana", "client_2"), ("babs", "client_1")]
        self.gone = set()

    def ops(self):
        return [("remove", i) for i in range(3) if i not in self.gone] + [("flush",)]

    def apply(self, o):
        if o[0] == "flush":
            self.op.mngr.flush()
            self.gone = {0, 1, 2}
        else:
            self.op.mngr.remove_session(self.v[o[1]]["session id"])
            # both flows of this user at this client: only the first one's grant is removed
            self.gone.add(o[1])

    invariant_forks = True

    def invariant(self):
        for i, v in enumerate(self.v):
            for name in ("access_token", "refresh_token"):
                for where in doors(self.op):
                    if where == "refresh":
                        continue
                    r, acc = door(self.op, where, v[name], self.who[i][1])
                    exp = i not in self.gone and expected(self.fmt, where, name)
                    if acc != exp:
                        raise Violation(f"{name} of {'a removed' if i in self.gone else 'a live'} grant at {where}: "
                                        f"{r.brief()}", sig=f"removed grant {name} at {where}")


def main(tier):
    c = Check("C06", tier)
    step = 1 if c.thorough else 9
    cases = []
    for fmt in FORMATS:
        setup(fmt)
        op, v, v2, f = OPS[fmt]
        for where in doors(op):
            cases += [(fmt, where, n) for n in list(v) + list(f)]
    c.sweep("kinds at doors", cases, matrix,
            rule="token format x endpoint/placement x every value the provider (or a foreign twin provider) handed out")
    cases = []
    for fmt in FORMATS:
        op, v, v2, f = OPS[fmt]
        for where in doors(op):
            names = {"introspection": ("access_token", "refresh_token"), "code": ("code",)}.get(where, (RIGHT.get(where),))
            for n in names:
                cases += [(fmt, where, n, h) for h in hows(v[n], step)]
    cases.sort(key=lambda x: FORMATS.index(x[0]))
    c.sweep("altered values", cases, tamper, isolate=False,
            rule="every single-character change, deletion, insertion, truncation at the listed positions, splices with "
                 "every other genuine or foreign value, JWT part exchange, alg/none, re-signing with other keys")
    OPS.clear()
    for fmt in FORMATS[:4]:
        c.explore(Removed("removed grants " + fmt, fmt), 3)
    return c.finish("model_checking")
