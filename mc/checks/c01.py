"""C01: an authorization code buys tokens at most once."""
import glob
import os

from mc import clock
from mc import schedule
from mc.explore import C_SCHED
from mc.explore import Violation
from mc.explore import count
from mc.lifecycle import SHORT_RULES
from mc.lifecycle import Lifecycle
from mc.op import OP
from mc.op import REPO_SRC
from mc.op import base_conf
from mc.op import jwt_tokens
from mc.report import Check

ALPHA = ("authz", "redeem", "refresh", "revoke", "revoke_grant", "revoke_cs", "tick", "halves")


class Overlap(Lifecycle):
    """Lifecycle with token requests cut in two: parse (checks) and process (minting), arbitrarily interleaved."""

    def setup(self):
        self.pending = []
        Lifecycle.setup(self)

    def ops(self):
        o = Lifecycle.ops(self)
        if "halves" in self.alphabet:
            if len(self.pending) < 2 and len(self.tokens) < self.max_tokens:
                o += [("parse", t.i) for t in self.tokens if t.kind == "authorization_code"]
            o += [("process", n) for n in range(len(self.pending))]
        return o

    def do_parse(self, ti):
        t = self.tokens[ti]
        hi = self.op.http_info("token")
        ok = t.active()
        req, r = self.op.parse("token", dict(self.op.treq(t.value, t.grant.cid)), hi)
        if self.kind == "oidc" and t.used > 0:
            for d in self.descendants(t):
                d.revoked = True
        if r is None:
            if not t.own_active():
                raise Violation("a redemption of an inactive code passes the checks", sig="inactive code parsed")
            self.pending.append((ti, req, hi))
        elif ok:
            raise Violation(f"redemption of an active code refused: {r.brief()}", sig="active token refused")

    def do_process(self, n):
        ti, req, hi = self.pending.pop(n)
        t = self.tokens[ti]
        ok = t.active()
        r = self.op.process("token", req, hi, **self._kw())
        self.compare(ok, r, f"processing of an overlapped redemption of code {ti}")
        if ok:
            self.adopt_answer(r, t, t.grant.scope, rt=self.client_may_refresh(t.grant.cid))
            t.used += 1

    def key(self):
        return Lifecycle.key(self) + repr([p[0] for p in self.pending])


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    k = dict(rules=SHORT_RULES, grant_exp=1200)
    yield Overlap("oidc overlap", alphabet=("redeem", "refresh", "tick", "revoke_grant", "halves"),
                  start=[("authz", "diana", "client_1", 0)], **k), 5 + x
    yield Overlap("oidc two codes of one grant", alphabet=("redeem", "refresh", "halves"), sso=True, max_tokens=14,
                  start=[("authz", "diana", "client_1", 0), ("again", 0)], **k), 4 + x
    yield Overlap("oidc two clients", alphabet=("redeem", "refresh", "halves", "revoke_cs"), cross=True, max_tokens=14,
                  cids=("client_1", "client_2"), start=[("authz", "diana", "client_1", 0),
                                                        ("authz", "diana", "client_2", 0)], **k), 3 + x
    yield Overlap("oidc jwt", alphabet=("redeem", "refresh", "revoke", "halves"), jwt=("token", "refresh"),
                  start=[("authz", "diana", "client_1", 0)], **k), 4 + x
    yield Overlap("oidc full", alphabet=ALPHA, **k), 4 + x
    yield Overlap("oauth2 overlap", kind="oauth2", issue_refresh=True, scopes=(("alpha",),), alphabet=ALPHA, **k), \
        4 + x
    yield Overlap("hybrid", alphabet=("redeem", "refresh", "halves", "revoke"), rts=("code id_token token",),
                  start=[("authz", "diana", "client_1", 0, "code id_token token")], **k), 4 + x


# ------------------------------------------------------------------------------------------------- threads
def files(core):
    if isinstance(core, set):
        return core
    if core:
        return {os.path.join(REPO_SRC, "oidcop", p) for p in
                ("session/grant.py", "session/token.py", "oauth2/token.py", "oidc/token.py")}
    return set(glob.glob(os.path.join(REPO_SRC, "oidcop", "**", "*.py"), recursive=True))


class Threads:
    """Two threads of the provider answer token requests for the same code (or for two codes of one grant)."""

    def __init__(self, kind, jwt, mode, core):
        self.kind, self.jwt, self.mode, self.core = kind, jwt, mode, core
        schedule.install_locks()
        try:
            conf = base_conf(kind)
            if jwt:
                jwt_tokens(conf)
            self.op = op = OP(conf, kind=kind)
            scope = ("openid", "offline_access") if kind == "oidc" else ("alpha",)
            kw = {"prompt": "consent"} if kind == "oidc" else {}
            r = op.authz_as("diana", op.areq(scope=scope, **kw))
            assert r.ok, r
            self.codes = [r["code"], r["code"]]
            self.ikw = {} if kind == "oidc" else {"issue_refresh": True}
            self.reqs = []
            if mode == "process":  # both have passed the checks before either is processed
                for c in self.codes:
                    hi = op.http_info("token")
                    req, e = op.parse("token", dict(op.treq(c)), hi)
                    assert e is None, e
                    self.reqs.append((req, hi))
        finally:
            schedule.restore_locks()

    def make(self):
        op = self.op
        if self.mode == "process":
            return [lambda i=i: op.process("token", self.reqs[i][0], self.reqs[i][1], **self.ikw) for i in (0, 1)], self
        return [lambda i=i: op.token(op.treq(self.codes[i]), **self.ikw) for i in (0, 1)], self

    def judge(self, res, _):
        ok = [r for r in res if r.ok]
        if len(ok) > 1:
            raise Violation("one code bought tokens twice: two concurrent redemptions were both answered with tokens",
                            sig="concurrent double redemption", answers=[sorted(r.params) for r in ok])
        if not ok:
            raise Violation("neither of two concurrent redemptions of a fresh code succeeded: " +
                            "; ".join(r.brief() for r in res), sig="concurrent redemption refused")
        # what was answered is what exists
        at = [t for g in self.op.mngr.grants(user_id="diana", client_id="client_1") for t in g.issued_token
              if t.token_class == "access_token"]
        if len(at) != 1:
            raise Violation(f"{len(at)} access tokens exist after two concurrent redemptions of one code",
                            sig="concurrent double minting")
        later = self.op.token(self.op.treq(self.codes[0]))
        if later.ok:
            raise Violation("a third redemption succeeded", sig="concurrent third redemption")
        return "/".join(sorted(r.kind for r in res))


def thread_cases(th, bound):
    out = []
    for start in (0, 1):
        r = schedule.run_forked(th.make, files(th.core), start, (), th.judge)
        out.append((start, None, bound))
        if r[0] == "ok":
            out += [(start, s, bound) for s in range(r[1])]
    return out


def main(tier):
    c = Check("C01", tier)
    for s, d in scenarios(tier):
        c.explore(s, d)
    plans = [("oidc", False, "whole", False, 1), ("oidc", False, "process", True, 1), ("oauth2", True, "process", True,
                                                                                      1)]
    if tier == "thorough":
        plans += [("oidc", True, "process", False, 1), ("oauth2", True, "whole", False, 1),
                  ("oidc", False, "process", True, 2), ("oauth2", False, "whole", True, 2), ("oidc", True, "whole",
                                                                                           True, 2)]
    for kind, jwt, mode, core, bound in plans:
        name = f"threads {kind}{' jwt' if jwt else ''} {mode} {'core files' if core else 'all lines'} preemptions<={bound}"
        th = Threads(kind, jwt, mode, core)

        def run(case, th=th):
            start, s, b = case
            if s is None:
                o = schedule.explore_from(th.make, files(th.core), start, (), 0, th.judge, lambda n: count(C_SCHED, n))
            else:
                o = schedule.explore_from(th.make, files(th.core), start, (s,), b, th.judge,
                                          lambda n: count(C_SCHED, n))
            return ",".join(sorted(o))

        c.sweep(name, thread_cases(th, bound), run, isolate=False,
                rule="every schedule of two real threads with the given number of preemptions, at source-line "
                     "granularity")
    c.assumptions.append("threads are preempted only between source lines of oidcop; two threads")
    return c.finish("model_checking")
