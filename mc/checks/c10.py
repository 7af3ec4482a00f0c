"""C10: the session tree equals the history of operations on it."""
import itertools
import os

from mc import clock
from mc import schedule
from mc.checks.c01 import files
from mc.checks.c01 import thread_cases
from mc.explore import C_PROBE
from mc.explore import C_SCHED
from mc.explore import Scenario
from mc.explore import Violation
from mc.explore import count
from mc.explore import op_state
from mc.op import OP
from mc.op import REPO_SRC
from mc.op import base_conf
from mc.report import Check

FLAGS = ("user_session_info", "client_session_info", "grant", "authentication_event", "authorization_request")
GONE = (KeyError, ValueError)


class G:
    """A grant as the history says it must be."""

    def __init__(self, u, c, sid, obj, event, areq, n):
        self.u, self.c, self.sid, self.obj, self.event, self.areq, self.n = u, c, sid, obj, event, areq, n
        self.gid = obj.id
        self.revoked = False
        self.scope = list(obj.scope)
        self.tokens = {}  # value: [kind, revoked, based on]
        self.live = True


class Tree(Scenario):
    def __init__(self, name, alphabet, users=("diana", "client_1"), cids=("client_1", "client_2"), max_grants=3,
                 start=(), kind="oidc"):
        self.name, self.alphabet, self.users, self.cids = name, alphabet, users, cids
        self.max_grants, self.start, self.kind = max_grants, start, kind

    def setup(self):
        conf = base_conf(self.kind)
        if self.kind == "oauth2":
            conf["allowed_scopes"] = ["offline_access"]
        self.op = OP(conf, kind=self.kind)
        self.m = self.op.mngr
        self.g = []  # every grant ever
        self.cs = {}  # (user, client) -> {"revoked":, "extra":, "named": bool}
        self.us = {}  # user -> {"extra":, "named":}
        self.n = 0
        for o in self.start:
            self.apply(o)
            self.invariant()

    # -- operations
    def live(self, u=None, c=None):
        return [g for g in self.g if g.live and u in (None, g.u) and c in (None, g.c)]

    def ops(self):
        a = self.alphabet
        out = []
        room = len(self.live()) < self.max_grants
        pairs = [(u, c) for u in self.users for c in self.cids]
        for o in ("create", "flow", "create_grant", "add_grant"):
            if o in a and room:
                out += [(o, u, c) for u, c in pairs if o != "add_grant" or (u, c) in self.cs]
        for i, g in enumerate(self.g):
            if not g.live:
                if "remove_again" in a:
                    out.append(("remove", i))
                continue
            for o in ("revoke_grant", "remove", "update", "set"):
                if o in a:
                    out.append((o, i))
            for o in ("revoke_token", "redeem"):
                if o in a:
                    for k, v in enumerate(g.tokens):
                        if o == "revoke_token" or (k == 0 and not g.revoked):
                            out += [(o, i, k, r) for r in ((True, False) if o == "revoke_token" else (None,))]
        for p in pairs:
            if p in self.cs:
                for o in ("revoke_cs", "update_cs", "delete_cs"):
                    if o in a:
                        out.append((o,) + p)
            elif "delete_missing" in a:
                out.append(("delete_cs",) + p)
        for u in self.users:
            if u in self.us:
                for o in ("update_u", "delete_u"):
                    if o in a:
                        out.append((o, u))
                if "delete_missing" in a:
                    out.append(("delete_path", u, "nobody"))
                    out.append(("delete_path", u, self.cids[0], "nothing"))
            elif "delete_missing" in a:
                out.append(("delete_u", u))
        if "flush" in a:
            out.append(("flush",))
        return out

    def put(self, u, c, sid, obj, event, areq, named=True):
        self.us.setdefault(u, {"extra": None, "named": named})
        self.cs.setdefault((u, c), {"extra": None, "named": named, "revoked": False})
        g = G(u, c, sid, obj, event, areq, self.n)
        self.g.append(g)
        return g

    def request(self, c):
        self.n += 1
        return self.op.areq(c, scope=("openid", "offline_access") if self.kind == "oidc" else ("offline_access",),
                            state=f"state-{self.n:020d}", prompt="consent")

    def drop(self, gs):
        for g in gs:
            g.live = False
            if not self.live(g.u, g.c):
                self.cs.pop((g.u, g.c), None)
        for u in {g.u for g in gs}:
            if not [p for p in self.cs if p[0] == u]:
                self.us.pop(u, None)

    def apply(self, o):
        m, op = self.m, o[0]
        if op in ("create", "create_grant"):
            u, c = o[1:]
            ev = event(u)
            rq = self.op.ep("authorization").request_cls(**self.request(c))
            f = m.create_session if op == "create" else m.create_grant
            sid = f(authn_event=ev, auth_req=rq, user_id=u, client_id=c, scopes=["openid"])
            self.put(u, c, sid, m[sid], ev, rq, named=op == "create")
        elif op == "add_grant":
            u, c = o[1:]
            ev = event(u)
            rq = self.op.ep("authorization").request_cls(**self.request(c))
            g = m.add_grant(u, c, authentication_event=ev, authorization_request=rq, scope=["openid"])
            self.put(u, c, m.encrypted_session_id(u, c, g.id), g, ev, rq)
        elif op == "flow":
            u, c = o[1:]
            r = self.op.authz_as(u, self.request(c))
            if not r.ok:
                raise Violation(f"login failed: {r.brief()}", sig="flow:login")
            sid = m.get_session_info_by_token(r["code"])["session_id"]
            obj = m[sid]
            g = self.put(u, c, sid, obj, obj.authentication_event, obj.authorization_request)
            if any(obj is x.obj for x in self.g[:-1]):
                raise Violation("the new login's code points at another session's grant", sig="flow:shared grant")
            g.tokens[r["code"]] = ["authorization_code", False, None]
        elif op == "redeem":
            g = self.g[o[1]]
            code = list(g.tokens)[0]
            t = self.op.token(self.op.treq(code, g.c), issue_refresh=True)
            first = len(g.tokens) == 1 and not g.tokens[code][1] and not self.cs[g.u, g.c]["revoked"]
            if t.ok != first:
                raise Violation(f"redeeming gave {t.brief()}", sig="flow:redeem")
            if t.ok:
                for k in ("access_token", "refresh_token", "id_token"):
                    if k in t:
                        g.tokens[t[k]] = [k, False, code]
            elif self.kind == "oidc" and len(g.tokens) > 1:  # replay
                for v in g.tokens.values():
                    if v[2] == code:
                        v[1] = True
        elif op == "revoke_token":
            g = self.g[o[1]]
            v = list(g.tokens)[o[2]]
            m.revoke_token(g.sid, v, recursive=o[3])
            todo = [v]
            g.tokens[v][1] = True
            while o[3] and todo:
                x = todo.pop()
                for y, rec in g.tokens.items():
                    if rec[2] == x:
                        rec[1] = True
                        todo.append(y)
        elif op == "revoke_grant":
            m.revoke_grant(self.g[o[1]].sid)
            self.revoke(self.g[o[1]])
        elif op == "revoke_cs":
            gs = self.live(*o[1:])
            m.revoke_client_session(m.encrypted_session_id(*o[1:]) if not gs or self.n % 2 else gs[0].sid)
            self.cs[o[1:]]["revoked"] = True
            for g in gs:
                self.revoke(g)
        elif op == "remove":
            g = self.g[o[1]]
            m.remove_session(g.sid)
            if g.live:
                self.drop([g])
        elif op == "delete_cs":
            m.delete(list(o[1:]))
            self.drop(self.live(*o[1:]))
        elif op == "delete_u":
            m.delete([o[1]])
            self.drop(self.live(o[1]))
        elif op == "delete_path":
            m.delete(list(o[1:]))
        elif op == "flush":
            m.flush()
            self.drop(self.live())
        elif op == "update":
            g = self.g[o[1]]
            g.scope = g.scope[:1] + [f"extra{len(g.scope) % 2}"]
            m.update([g.u, g.c, g.gid], {"scope": list(g.scope)})
        elif op == "set":
            g = self.g[o[1]]
            cls = type(g.obj)
            new = cls(scope=["set"], authentication_event=g.event, authorization_request=g.areq, sub="new subject")
            m[g.sid] = new
            g.obj, g.scope, g.tokens, g.revoked = new, ["set"], {}, False
        elif op == "update_cs":
            self.cs[o[1:]]["extra"] = {"x": o[1]}
            m.update(list(o[1:]), {"extra_args": {"x": o[1]}})
        elif op == "update_u":
            self.us[o[1]]["extra"] = {"y": o[1]}
            m.update([o[1]], {"extra_args": {"y": o[1]}})

    @staticmethod
    def revoke(g):
        g.revoked = True

    # -- what must be found
    def key(self):
        gone = sorted((g.u, g.c) for g in self.g if not g.live)
        return op_state(self.op, {}, set()) + repr(sorted(set(gone)))

    def invariant(self):
        m = self.m
        count(C_PROBE)
        users = {}
        for u, c in self.cs:
            users.setdefault(u, []).append(c)
        want = {}
        for u in self.us:
            want[u] = None
        for (u, c) in self.cs:
            want[m.session_key(u, c)] = None
        for g in self.live():
            want[m.session_key(g.u, g.c, g.gid)] = g.obj
        have = dict(m.db.items())
        if set(have) != set(want):
            raise Violation("the session database has other entries than the history says",
                            sig="entries", extra=sorted(set(have) - set(want)), missing=sorted(set(want) - set(have)))
        for k, v in want.items():
            if v is not None and have[k] is not v:
                raise Violation("a stored grant is another object", sig="object", key=k)
        for u in list(self.users) + ["nobody"]:
            if u not in self.us:
                self.gone(lambda: m.get([u]), "user")
                self.gone(lambda: m.get_user_info(u), "user")
                self.gone(lambda: m.get([u, self.cids[0]]), "client session of a removed user")
                self.gone(lambda: m.grants(user_id=u, client_id=self.cids[0]), "grants of a removed user")
                continue
            x = m.get_user_info(u)
            self.eq(sorted(x.subordinate), sorted(users.get(u, [])), "clients of a user")
            self.eq(x.extra_args or None, self.us[u]["extra"], "user info")
            self.eq(x.revoked, False, "user revoked")
            if self.us[u]["named"]:
                self.eq(x.user_id, u, "user id")
            self.eq(m.get([u]) is x, True, "user object")
        for u in self.users:
            for c in self.cids:
                if (u, c) not in self.cs:
                    self.gone(lambda: m.get([u, c]), "client session")
                    self.gone(lambda: m.grants(user_id=u, client_id=c), "grants of a removed client session")
                    continue
                x = m.get([u, c])
                gs = self.live(u, c)
                self.eq(x.subordinate, [g.gid for g in gs], "grants of a client session")
                self.eq(x.revoked, self.cs[u, c]["revoked"], "client session revoked")
                self.eq(x.extra_args or None, self.cs[u, c]["extra"], "client session info")
                if self.cs[u, c]["named"]:
                    self.eq(x.client_id, c, "client id")
                self.eq([id(g) for g in m.grants(user_id=u, client_id=c)], [id(g.obj) for g in gs], "grants()")
                self.eq([id(e) for e in m.get_authentication_events(user_id=u, client_id=c)],
                        [id(g.event) for g in gs], "authentication events")
                self.gone(lambda: m.get([u, c, "nothing"]), "grant")
        for g in self.g:
            if not g.live:
                for f in (m.__getitem__, m.get_grant, m.get_authorization_request, m.get_authentication_event):
                    self.gone(lambda: f(g.sid), "removed grant through " + f.__name__)
                self.gone(lambda: m.get_session_info(g.sid, grant=True), "removed grant")
                self.gone(lambda: m.get([g.u, g.c, g.gid]), "removed grant")
                self.gone(lambda: m.find_token(g.sid, "x"), "token of a removed grant")
                self.gone(lambda: m.revoke_grant(g.sid), "revoking a removed grant")
                for v in g.tokens:
                    self.gone(lambda: m.get_session_info_by_token(v, grant=True), "removed grant through its token",
                              Exception)
                continue
            self.lookups(g)

    def lookups(self, g):
        m = self.m
        usi, csi = m.get([g.u]), m.get([g.u, g.c])
        again = m.encrypted_session_id(g.u, g.c, g.gid)
        for sid in (g.sid, again):
            for f in (m.__getitem__, m.get_grant):
                self.eq(f(sid) is g.obj, True, "grant by session id")
            self.eq(m.get_client_session_info(sid) is csi, True, "client session by session id")
            self.eq(m.get_user_session_info(sid) is usi, True, "user by session id")
            self.eq(m.client_session_is_revoked(sid), self.cs[g.u, g.c]["revoked"], "revoked by session id")
            self.eq(m.get_authorization_request(sid) is g.areq, True, "authorization request by session id")
            self.eq(m.get_authentication_event(sid) is g.event, True, "authentication event by session id")
        self.eq([id(x) for x in m.grants(session_id=g.sid)], [id(x.obj) for x in self.live(g.u, g.c)], "grants(sid)")
        self.eq([id(x) for x in m.get_authentication_events(session_id=g.sid)],
                [id(x.event) for x in self.live(g.u, g.c)], "authentication events(sid)")
        objs = dict(zip(FLAGS, (usi, csi, g.obj, g.event, g.areq)))
        values = [t for t, rec in g.tokens.items() if rec[0] != "id_token"]
        for by, arg in [("sid", g.sid)] + [("token", v) for v in values[:1]]:
            for on in itertools.product((False, True), repeat=5):
                fl = {k: True for k, b in zip(FLAGS, on) if b}
                f = m.get_session_info if by == "sid" else m.get_session_info_by_token
                try:
                    x = f(arg, **fl)
                except Exception as e:
                    raise Violation(f"get_session_info({by}, {sorted(fl)}) of a live session failed: {e!r}",
                                    sig="get_session_info fails")
                self.eq((x["user_id"], x["client_id"], x["grant_id"]), (g.u, g.c, g.gid), "identifiers")
                if by == "sid":
                    self.eq(x["session_id"], arg, "session id")
                for k in FLAGS:
                    self.eq(x.get(k) is objs[k] if k in fl else k not in x, True, f"{k} by {by}")
        for v in values:
            x = m.get_session_info_by_token(v, grant=True)
            self.eq(x["grant"] is g.obj, True, "grant by token")
            self.eq(m.decrypt_session_id(m.get_session_id_by_token(v)), [g.u, g.c, g.gid], "session id by token")
        for v, rec in g.tokens.items():
            t = m.find_token(g.sid, v)
            self.eq(t is not None and t.value == v, True, "find_token")
            if not g.revoked:  # a revoked grant may or may not mark its tokens
                self.eq(bool(t.revoked), rec[1], f"{rec[0]} revoked")
            self.eq(t.based_on, rec[2], "based on")
        for h in self.g:
            if h is not g:
                for v in h.tokens:
                    if v not in g.tokens:
                        self.eq(m.find_token(g.sid, v), None, "another grant's token")
        self.eq(len(g.obj.issued_token), len(g.tokens), "number of tokens")
        self.eq(g.obj.revoked, g.revoked, "grant revoked")
        self.eq(list(g.obj.scope), g.scope, "scope of the grant") if "update" in self.alphabet else None

    def eq(self, have, want, what):
        if have != want:
            raise Violation(f"{what}: found {have!r}, the history says {want!r}", sig="lookup:" + what)

    def gone(self, f, what, exc=GONE):
        try:
            x = f()
        except exc:
            return
        raise Violation(f"{what} is still found after its removal: {x!r}", sig="found:" + what)


def event(u):
    from oidcop.authn_event import create_authn_event
    return create_authn_event(u, authn_info="acr", authn_time=clock.now(), valid_until=clock.now() + 3600)


ALL = ("create", "flow", "create_grant", "add_grant", "revoke_grant", "remove", "update", "revoke_token", "redeem",
       "revoke_cs", "update_cs", "delete_cs", "update_u", "delete_u", "delete_missing", "flush", "remove_again", "set")
D1, D2, C1, C2 = ("diana", "client_1"), ("diana", "client_2"), ("client_1", "client_1"), ("client_1", "client_2")


def scenarios(tier):
    x = 1 if tier == "thorough" else 0
    yield Tree("structure", ("create", "remove", "delete_cs", "delete_u", "revoke_cs"), max_grants=4), 5 + x
    yield Tree("everything", ALL, max_grants=4), 3 + x
    yield Tree("full tree", ALL, max_grants=6, start=[("flow",) + D1, ("create",) + D2, ("flow",) + C1, ("create",) + C2,
                                                      ("redeem", 0, 0, None)]), 2 + x
    yield Tree("removals of a full tree", ("remove", "delete_cs", "delete_u", "delete_missing", "remove_again", "create"),
               max_grants=5, start=[("flow",) + D1, ("create",) + D1, ("create",) + D2, ("flow",) + C1]), 4 + x
    yield Tree("tokens", ("flow", "redeem", "revoke_token", "revoke_grant", "remove", "create"), users=("diana",),
               max_grants=3, start=[("flow",) + D1, ("redeem", 0, 0, None)]), 3 + x
    yield Tree("oauth2", ALL, kind="oauth2", users=("diana",), start=[("flow",) + D1, ("redeem", 0, 0, None)]), 2 + x
    yield Tree("growing", ("add_grant", "create_grant", "create", "update_cs", "update_u", "update", "set", "remove"),
               max_grants=4, users=("diana",)), 4 + x


# ---------------------------------------------------------------- threads
class Threads:
    """Two things at once to one session tree: as if one had come after the other."""
    core = False

    def __init__(self, jobs, start=()):
        self.jobs, self.start = jobs, start
        schedule.install_locks()
        try:
            self.op = OP(base_conf("oidc"))
            self.tok = {}
            for u, c in start:
                r = self.login(u, c)
                t = self.op.token(self.op.treq(r["code"], c))
                self.tok[u, c] = t["access_token"]
            self.op.ep("token"), self.op.ep("introspection")
            self.sid = {k: self.op.mngr.get_session_info_by_token(t)["session_id"] for k, t in self.tok.items()}
        finally:
            schedule.restore_locks()

    def login(self, u, c):
        return self.op.authz_as(u, self.op.areq(c, state=f"{u}{c}", nonce=f"{u}{c}"))

    def one(self, job):
        what, u, c = job
        m = self.op.mngr
        if what == "login":
            return lambda: self.login(u, c)
        if what == "revoke":
            return lambda: m.revoke_client_session(self.sid[u, c])
        if what == "remove":
            return lambda: m.remove_session(self.sid[u, c])
        return lambda: m.revoke_grant(self.sid[u, c])

    def make(self):
        return [self.one(j) for j in self.jobs], self

    def judge(self, res, _):
        op, m = self.op, self.op.mngr
        gone, dead = set(), set()
        for (what, u, c), r in zip(self.jobs, res):
            if what == "login" and not r.ok:
                if not any(w in ("revoke", "remove") and (x, y) == (u, c) for w, x, y in self.jobs):
                    raise Violation(f"{self.jobs}: {r!r}", sig="concurrent:login")
            elif what == "remove":
                gone.add((u, c))
            elif what != "login":
                dead.add((u, c))
        for k, t in self.tok.items():
            try:
                info = m.get_session_info_by_token(t, user_session_info=True, client_session_info=True, grant=True)
            except GONE:
                if k not in gone:
                    raise Violation(f"{self.jobs}: the session of {k} is lost", sig="concurrent:lost")
                continue
            if k in gone:
                raise Violation(f"{self.jobs}: the session of {k} is still there", sig="concurrent:found")
            self.linked(info)
            if bool(op.introspect(t, k[1]).get("active")) != (k not in dead):
                raise Violation(f"{self.jobs}: the session of {k} is {'dead' if k not in dead else 'live'}", sig="concurrent:revoked")
        for (what, u, c), r in zip(self.jobs, res):
            if what != "login" or not r.ok:
                continue
            try:
                info = m.get_session_info_by_token(r["code"], user_session_info=True, client_session_info=True, grant=True)
            except GONE as e:
                raise Violation(f"{self.jobs}: the new session of {u} at {c} is lost: {e!r}", sig="concurrent:lost new")
            self.linked(info)
            ended = any(w == "revoke" and (x, y) == (u, c) for w, x, y in self.jobs)
            t = op.token(op.treq(r["code"], c))
            if (t.kind != "ok") and not ended:
                raise Violation(f"{self.jobs}: the code of {u} at {c}: {t!r}", sig="concurrent:code")
        # every node is below another and points at what is there
        have = set(m.db.keys())
        want = set()
        for u in [k for k in have if ";;" not in k]:
            want.add(u)
            for c in m.db[u].subordinate:
                want.add(m.session_key(u, c))
                for g in m.db[m.session_key(u, c)].subordinate if m.session_key(u, c) in have else ():
                    want.add(m.session_key(u, c, g))
                if m.session_key(u, c) in have and len(set(m.db[m.session_key(u, c)].subordinate)) != len(m.db[m.session_key(u, c)].subordinate):
                    raise Violation(f"{self.jobs}: the same grant twice", sig="concurrent:twice")
        if have != want:
            raise Violation(f"{self.jobs}: the tree has {sorted(have - want)} too much, {sorted(want - have)} is missing", sig="concurrent:tree")
        return "/".join(getattr(r, "kind", "-") for r in res)

    def linked(self, info):
        if info["client_id"] not in info["user_session_info"].subordinate or info["grant_id"] not in info["client_session_info"].subordinate \
                or info["grant"].id != info["grant_id"]:
            raise Violation(f"{self.jobs}: {info['user_id']} {info['client_id']} {info['grant_id']} isn't where it should be", sig="concurrent:links")


def session_files():
    return {os.path.join(REPO_SRC, "oidcop", *f.split("/")) for f in ("session/database.py", "session/manager.py", "session/info.py", "oauth2/authorization.py", "authz/__init__.py")}


def _l(u, c):
    return ("login", u, c)


JOBS = [((_l(*D1), _l(*D1)), ()), ((_l(*D1), _l(*D2)), ()), ((_l(*D1), _l(*C1)), ()), ((_l(*D1), _l(*D1)), (D1,)), ((_l(*D1), _l(*D2)), (D1,)),
        ((_l(*D1), ("revoke",) + D1), (D1,)), ((_l(*D1), ("remove",) + D1), (D1,)), ((_l(*D2), ("remove",) + D1), (D1,)), ((_l(*D1), ("remove",) + D2), (D1, D2)),
        ((("remove",) + D1, ("remove",) + D2), (D1, D2)), ((("revoke",) + D1, ("remove",) + D2), (D1, D2)), ((("revoke grant",) + D1, ("revoke",) + D1), (D1,))]


def main(tier):
    c = Check("C10", tier)
    for jobs, start in JOBS:
        th = Threads(jobs, start)
        th.core = False if tier == "thorough" else session_files()

        def run(case, th=th):
            first, sch, b = case
            o = schedule.explore_from(th.make, files(th.core), first, () if sch is None else (sch,), 0 if sch is None else b, th.judge,
                                      lambda n: count(C_SCHED, n))
            return ",".join(sorted(o))
        c.sweep(f"threads {'+'.join('-'.join(j) for j in jobs)} after {len(start)} logins, preemptions<=1", thread_cases(th, 1), run, isolate=False,
                rule="every schedule of two operations with one preemption, at the lines of the session database and the authorization endpoint (thorough: of all files)")
    c.assumptions.append("identifiers of users and clients do not contain the separator ';;'")
    for s, d in scenarios(tier):
        c.explore(s, d)
    return c.finish("model_checking")
