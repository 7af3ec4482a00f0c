"""C15: cookies round-trip exactly and any alteration is detected."""
import base64
import itertools
import json

from mc import clock
from mc.explore import Violation
from mc.op import OP
from mc.op import base_conf
from mc.op import client
from mc.report import Check

from cryptojwt.jwk.hmac import SYMKey  # noqa: E402
from oidcop.cookie_handler import CookieHandler  # noqa: E402

SIG = [SYMKey(key=bytes([i]) * 32, use="sig", kid="sig") for i in (1, 2)]
ENC = [SYMKey(key=bytes([16 + i]) * 32, use="enc", kid="enc") for i in (1, 2)]
MODES = ("sign", "enc", "both")
ALPHABET = [":", "|", "=", "a", "é", " ", '"', "7", "\n"]
LONG = ["::", "a::b", "|", "a|b", "||", "a|b::c|d", "1|2|3|4", "::::", ":::", "7:abc", "0:", "{\"sid\": \"a::b|c\", \"state\": \"x|y\"}",
        "\u65e5\u672c\u8a9e", "🍪|🍪", "\x00", "x" * 5000, "a" * 15, "b" * 16, " leading", "trailing ", "\t", "%7C%3A%3A", "a\r\nb",
        "1700000000", "::sso", "sso::", "a::sso|1700000000|", "=" * 9]
TYPES = ("", "sso", "t7", "t|t", "t:t", "session")
STAMPS = ("", 1, "1", 1699999999, "1700000000", 17000000000)


def handler(mode, s=0, e=0, **kw):
    return CookieHandler(sign_key=SIG[s] if mode != "enc" else None, enc_key=ENC[e] if mode != "sign" else None, **kw)


def read(h, value, name="n"):
    """The contents that are accepted: a list, or None when the cookie was refused."""
    try:
        r = h.parse_cookie(name, [{"name": name, "value": value}])
    except Exception:
        return None
    return [(c["value"], c["type"], str(c["timestamp"])) for c in r] if r else None


# ---------------------------------------------------------------- round trip
def round_trip(case):
    mode, first, depth = case
    h = handler(mode)
    n = 0
    if first == "long":
        todo = [(v, t, s) for v in LONG for t in TYPES for s in STAMPS]
    elif first == "":
        todo = [("", t, s) for t in TYPES[1:] for s in STAMPS]
    else:
        todo = [(first + "".join(x), t, "") for k in range(depth) for x in itertools.product(ALPHABET, repeat=k) for t in ("", "sso")]
    for v, t, s in todo:
        c = h.make_cookie_content("n", v, t, timestamp=s)
        got = read(h, c["value"])
        want = [(v, t, str(s or clock.now()))]
        n += 1
        if got != want:
            raise Violation(f"{mode}: value {v[:60]!r} type {t!r} timestamp {s!r} is read back as {str(got)[:120]}",
                            sig="round trip", info={"cookie": c["value"][:500]})
        if h.parse_cookie("other", [{"name": "n", "value": c["value"]}]):
            raise Violation("a cookie is read under another name", sig="other name")
    return {"outcome": "ok", "read": n}


# ---------------------------------------------------------------- alterations
GENUINE = [("value", "sso", 1700000000), ("7", "", 1), ("a::b|c", "t7", 17), ("é", "", 1699999999)]
CHARS = "A7|:=+/aé-_ \x00"


def altered(value, thorough):
    n = len(value)
    for i in range(n + 1):
        yield "cut", value[:i]
        yield "cut head", value[i:]
        for c in CHARS:
            yield "inserted", value[:i] + c + value[i:]
            if i < n:
                yield "replaced", value[:i] + c + value[i + 1:]
        if i < n:
            yield "removed", value[:i] + value[i + 1:]
            yield "case", value[:i] + value[i].swapcase() + value[i + 1:]
            yield "bit", value[:i] + chr(ord(value[i]) ^ 1) + value[i + 1:]
        if i + 1 < n:
            yield "swapped", value[:i] + value[i + 1] + value[i] + value[i + 2:]
    parts = value.split("|")
    for k in range(1, len(parts) + 1):
        for p in itertools.permutations(parts, k):
            yield "parts", "|".join(p)
    yield "part twice", "|".join(parts + parts[-1:])
    for j in range(len(parts)):
        yield "empty part", "|".join(parts[:j] + [""] + parts[j + 1:])
        yield "added part", "|".join(parts[:j] + ["x"] + parts[j:])
    for j in range(len(parts) - 1):  # a separator moved to everywhere
        rest = "|".join(parts[:j + 1]) + "\0" + "|".join(parts[j + 1:])
        flat = rest.replace("\0", "")
        for i in range(len(flat) + 1):
            yield "separator moved", flat[:i] + "|" + flat[i:]
    flat = "".join(parts)
    if len(flat) < 90 or thorough and len(flat) < 160:
        for w in itertools.combinations(range(len(flat) + 1), len(parts) - 1):
            out, last = [], 0
            for i in w:
                out.append(flat[last:i])
                last = i
            yield "separators moved", "|".join(out + [flat[last:]])
    # the decoded bytes of every base64 part: every bit
    for j, p in enumerate(parts):
        try:
            raw = base64.b64decode(p, validate=True)
        except Exception:
            continue
        for i in range(len(raw) * 8):
            b = bytearray(raw)
            b[i // 8] ^= 1 << (i % 8)
            yield "bit of a part", "|".join(parts[:j] + [base64.b64encode(bytes(b)).decode()] + parts[j + 1:])
        for i in range(len(raw)):
            yield "part cut", "|".join(parts[:j] + [base64.b64encode(raw[:i]).decode()] + parts[j + 1:])
            yield "part cut head", "|".join(parts[:j] + [base64.b64encode(raw[i + 1:]).decode()] + parts[j + 1:])


def alterations(case):
    mode, g, thorough = case
    h = handler(mode)
    v, t, s = GENUINE[g]
    value = h.make_cookie_content("n", v, t, timestamp=s)["value"]
    want = [(v, t, str(s))]
    n = acc = 0
    for how, x in altered(value, thorough):
        n += 1
        got = read(h, x)
        if got is not None and got != want:
            raise Violation(f"{mode}: {how}: {value[:80]!r} altered to {x[:80]!r} is accepted as {got}, issued was {want}",
                            sig=f"altered {mode}", info={"cookie": value, "altered": x})
        acc += got is not None
    return {"outcome": "ok", "read": n, "other spellings of the same content": acc}


# ---------------------------------------------------------------- splices and keys
def splices(case):
    """Every part-wise mixture of two genuine cookies, made with the same or with other keys."""
    m1, m2, k2, target = case
    a = [handler(m1).make_cookie_content("n", v, t, timestamp=s)["value"] for v, t, s in GENUINE]
    b = [handler(m2, *k2).make_cookie_content("n", v, t, timestamp=s)["value"] for v, t, s in GENUINE]
    h = handler(target)
    n = 0
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            px, py = x.split("|"), y.split("|")
            for L in {len(px), len(py)}:
                for sel in itertools.product((0, 1), repeat=L):
                    try:
                        val = "|".join((px, py)[w][p] for p, w in enumerate(sel))
                    except IndexError:
                        continue
                    n += 1
                    got = read(h, val)
                    if got is None:
                        continue
                    # what is accepted has to be what was issued with the keys of the reader
                    want = []
                    if compatible(m1, (0, 0), target, (0, 0)):
                        want.append([GENUINE[i][:2] + (str(GENUINE[i][2]),)])
                    if compatible(m2, k2, target, (0, 0)):
                        want.append([GENUINE[j][:2] + (str(GENUINE[j][2]),)])
                    if got not in want:
                        raise Violation(f"{m1}+{m2} keys {k2}: a mixture of two cookies is read as {got}", sig=f"splice {m1} {m2}",
                                        info={"first": x, "second": y, "mixture": val})
    return {"outcome": "ok", "read": n}


def compatible(m1, k1, m2, k2, same_alg=True):
    """May a cookie made in mode m1 be accepted in mode m2?  All keys it was made with that the reader has must be the same."""
    same_sig = m1 != "enc" and m2 != "enc" and k1[0] == k2[0] and same_alg
    same_enc = m1 != "sign" and m2 != "sign" and k1[1] == k2[1]
    if m1 == "both":
        return same_enc and (same_sig or m2 == "enc")
    return same_enc if m1 == "enc" else same_sig


def other_keys(case):
    """Cookies made with another key, another algorithm or in another mode are not accepted."""
    m1, k1, a1, m2, k2, a2 = case
    mk = handler(m1, *k1, sign_alg=a1)
    h = handler(m2, *k2, sign_alg=a2)
    may = compatible(m1, k1, m2, k2, a1 == a2)
    must = may and m1 == m2
    n = 0
    for v, t, s in GENUINE:
        got = read(h, mk.make_cookie_content("n", v, t, timestamp=s)["value"])
        n += 1
        if got is not None and not may:
            raise Violation(f"a cookie made by {case[:3]} is accepted by {case[3:]}", sig="other keys")
        if must and got != [(v, t, str(s))]:
            raise Violation(f"a cookie made by {case[:3]} is read by {case[3:]} as {got}", sig="same keys")
        if got is not None and got != [(v, t, str(s))]:
            raise Violation(f"a cookie made by {case[:3]} is read by {case[3:]} as {got}", sig="other content")
    return {"outcome": "accepted" if may else "refused", "read": n}


def configured(case):
    """The handler as the configuration makes it: from key definitions, with what keys there are."""
    ids, value = case
    h = CookieHandler(keys={"key_defs": [{"type": ty, "use": [u], "kid": u} for u, ty in ids]})
    for t in ("", "sso"):
        c = h.make_cookie_content("n", value, t)
        if read(h, c["value"]) != [(value, t, str(clock.now()))]:
            raise Violation(f"keys {ids}: {value!r} is read back as {read(h, c['value'])}", sig="configured keys")
        other = CookieHandler(keys={"key_defs": [{"type": ty, "use": [u], "kid": u} for u, ty in ids]})
        if read(other, c["value"]) is not None:
            raise Violation("two handlers with generated keys have the same keys", sig="configured keys shared")
    return {"outcome": "ok"}


# ---------------------------------------------------------------- several cookies
def several(case):
    """Every list of up to three cookies out of genuine, foreign, altered and differently named ones."""
    mode, combo = case
    h, f = handler(mode), handler(mode, 1, 1)
    mk = lambda hh, v: hh.make_cookie_content("n", v, "t")["value"]  # noqa: E731
    pool = {"a": ("n", mk(h, "A")), "b": ("n", mk(h, "B")), "other": ("m", mk(h, "M")), "foreign": ("n", mk(f, "F")),
            "altered": ("n", mk(h, "X")[:-5] + "AAAA="), "empty": ("n", ""), "prefix": ("nn", mk(h, "P"))}
    cookies = [{"name": pool[k][0], "value": pool[k][1]} for k in combo]
    try:
        got = [c["value"] for c in h.parse_cookie("n", cookies) or []]
    except Exception:
        got = None
    want = [{"a": "A", "b": "B"}[k] for k in combo if k in ("a", "b")]
    bad = set(combo) & {"foreign", "altered", "empty"}
    if got is None and bad:
        return {"outcome": "all refused"}
    if got != want:
        raise Violation(f"{mode}: cookies {combo} are read as {got}", sig="several cookies")
    return {"outcome": "ok"}


# ---------------------------------------------------------------- at the provider
def provider(case):
    """A session cookie of a provider, altered, never signs anybody in."""
    mode, piece, pieces = case
    c = base_conf()
    del c["cookie_handler"]["kwargs"]["keys"]
    c["cookie_handler"]["kwargs"].update({"sign_key": SIG[0] if mode != "enc" else None, "enc_key": ENC[0] if mode != "sign" else None})
    op = OP(c, {"client_1": client(1)})
    r = op.authz_as("diana", op.areq(state="s|1::x"))
    name = r.cookies[0]["name"]
    good = r.cookies[0]["value"]
    h = op.ctx.cookie_handler
    want = read(h, good, name)
    if want is None or json.loads(want[0][0])["state"] != "s|1::x":
        raise Violation(f"the session cookie is read as {want}", sig="session cookie")
    n = 0
    req = op.areq(state="s2")
    if op.authz(req, cookies=[{"name": name, "value": good}]).kind != "ok":
        raise Violation("a genuine session cookie is not accepted", sig="session cookie refused")
    for i, (how, x) in enumerate(altered_session(good)):
        if i % pieces != piece:
            continue
        same = read(h, x, name) == want
        n += 1
        a = op.authz(dict(req, state=f"t{i}"), cookies=[{"name": name, "value": x}])
        if a.kind == "ok" and not same:
            raise Violation(f"{mode}: {how}: signed in with an altered cookie: {a.brief()}", sig="signed in", info={"cookie": good,
                                                                                                                  "altered": x})
        if a.kind == "ok" and "error" in a:
            raise Violation("error", sig="x")
    return {"outcome": "ok", "requests": n}


def altered_session(value):
    for i in range(0, len(value)):
        yield "cut", value[:i]
        yield "bit", value[:i] + chr(ord(value[i]) ^ 1) + value[i + 1:]
        yield "removed", value[:i] + value[i + 1:]
        yield "inserted", value[:i] + "7" + value[i:]


def names(case):
    """Each of the provider's own cookies: what new_cookie puts in is what comes out."""
    mode, val = case
    c = base_conf()
    del c["cookie_handler"]["kwargs"]["keys"]
    c["cookie_handler"]["kwargs"].update({"sign_key": SIG[0] if mode != "enc" else None, "enc_key": ENC[0] if mode != "sign" else None})
    op = OP(c, {"client_1": client(1)})
    h = op.ctx.cookie_handler
    for kind, name in h.name.items():
        ck = op.ctx.new_cookie(name=name, sid=val, state=val, sub="x", client_id=val)
        if ck["name"] != name:
            raise Violation("cookie has another name", sig="name")
        got = read(h, ck["value"], name)
        if got is None or json.loads(got[0][0]) != {"sid": val, "state": val, "sub": "x", "client_id": val}:
            raise Violation(f"{mode}: {kind} cookie with {val!r} is read as {got}", sig="new_cookie")
    return {"outcome": "ok"}


def main(tier):
    c = Check("C15", tier)
    th = c.thorough
    d = 6 if th else 5
    c.sweep("round trip", [(m, f, d) for m in MODES for f in ALPHABET + ["", "long"]], round_trip, isolate=False,
            rule="all values up to a length over an alphabet with every separator x types x modes")
    c.sweep("alterations", [(m, g, th) for m in MODES for g in range(len(GENUINE))], alterations, isolate=False,
            rule="every single position altered, every truncation, every placement of the separators, every bit of every part")
    ks = [(0, 0), (1, 0), (0, 1), (1, 1)]
    c.sweep("splices", [(a, b, k, t) for a in MODES for b in MODES for k in ks for t in MODES], splices, isolate=False,
            rule="every part-wise mixture of two cookies of the same or other keys or modes")
    algs = ("SHA256", "SHA384", "SHA512")
    c.sweep("other keys", [(m1, k1, a1, m2, k2, a2) for m1 in MODES for m2 in MODES for k1 in ks for k2 in ks for a1 in algs for a2 in algs],
            other_keys, isolate=False, rule="maker x reader over modes, keys, algorithms")
    ids = [(("sig", t),) for t in ("OCT", "oct")] + [(("enc", t),) for t in ("OCT", "oct")] + [
        (("enc", t), ("sig", u)) for t in ("OCT", "oct") for u in ("OCT", "oct")]
    c.sweep("configured keys", [(i, v) for i in ids for v in ("v", "a::b|c", "é")], configured, isolate=False,
            rule="handlers made from key definitions")
    pool = ("a", "b", "other", "foreign", "altered", "empty", "prefix")
    c.sweep("several cookies", [(m, x) for m in MODES for k in (1, 2, 3) for x in itertools.product(pool, repeat=k)], several,
            isolate=False, rule="all lists of up to three cookies out of seven kinds")
    c.sweep("the provider's cookies", [(m, v) for m in MODES for v in LONG if v != "\x00"], names, isolate=False,
            rule="values in each cookie of the provider")
    n = 8
    c.sweep("signing in with an altered cookie", [(m, i, n) for m in MODES for i in range(n)], provider, isolate=False,
            rule="every position of a session cookie altered")
    return c.finish("exploration")
