"""Exhaustive exploration machinery.

explore()  - depth-bounded search over operation sequences on the REAL provider objects.  Every transition is taken in
             a forked copy of the process, so that all state (also state the harness does not know about) is branched
             exactly.  States already reached with at least the remaining depth (by canonical hash of the provider's
             object graph and the reference model) are not expanded again.
sweep()    - exhaustive enumeration of a finite list of cases, in parallel, each in a forked copy of the process.
schedules()- in schedule.py
"""
import ctypes
import fcntl
import gc
import hashlib
import json
import mmap
import os
import struct
import sys
import traceback

from mc import clock

NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
SLOTS = NPROC + 1
NCNT = 16
# counter indices
C_TRANS, C_STATES, C_DUP, C_LEAF, C_VIOL, C_KNOWN, C_PROBE, C_DEPTHMAX, C_EVAL, C_SCHED = range(10)
ACTIVE = []  # [shared, slot] of the running sweep case


class Violation(Exception):
    """The property does not hold.  sig identifies the failing behaviour (for the known-findings file)."""

    def __init__(self, msg, sig=None, **info):
        Exception.__init__(self, msg)
        self.msg = msg
        self.sig = sig or msg
        self.info = info


class Prune(Exception):
    """Stop exploring below this state (not a violation)."""


class Shared:
    TABLE_BITS = 21

    def __init__(self, path):
        self.path = path
        n = SLOTS * NCNT * 8
        self.cnt_m = mmap.mmap(-1, max(n, 4096))
        self.cnt = (ctypes.c_uint64 * (SLOTS * NCNT)).from_buffer(self.cnt_m)
        self.size = 1 << self.TABLE_BITS
        self.tab_m = mmap.mmap(-1, self.size * 16)
        self.tab = (ctypes.c_uint64 * (self.size * 2)).from_buffer(self.tab_m)
        self.flag = mmap.mmap(-1, 4096)
        open(path, "w").close()

    def inc(self, slot, i, n=1):
        self.cnt[slot * NCNT + i] += n

    def total(self, i):
        return sum(self.cnt[s * NCNT + i] for s in range(SLOTS))

    def stop(self):
        return self.flag[0] != 0

    def set_stop(self):
        self.flag[0] = 1

    def visit(self, key, depth):
        """True if the state still has to be expanded with `depth` remaining steps.  (new?, expand?)"""
        h = struct.unpack("<Q", hashlib.blake2b(key, digest_size=8).digest())[0] or 1
        i = h & (self.size - 1)
        for _ in range(256):
            v = self.tab[2 * i]
            if v == 0:
                self.tab[2 * i] = h
                self.tab[2 * i + 1] = depth + 1
                return True, True
            if v == h:
                if self.tab[2 * i + 1] >= depth + 1:
                    return False, False
                self.tab[2 * i + 1] = depth + 1
                return False, True
            i = (i + 1) & (self.size - 1)
        return True, True  # table full: explore without remembering

    def record(self, rec):
        data = (json.dumps(rec, default=str) + "\n").encode()
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND)
        try:
            fcntl.flock(fd, fcntl.LOCK_EX)
            os.write(fd, data)
        finally:
            os.close(fd)

    def records(self):
        out = []
        with open(self.path) as f:
            for line in f:
                if line.strip():
                    out.append(json.loads(line))
        return out


class Jobs:
    def __init__(self, n):
        self.r, self.w = os.pipe()
        fl = fcntl.fcntl(self.r, fcntl.F_GETFL)
        self.fl = fl
        for i in range(1, n):
            os.write(self.w, bytes([i]))
        # a second, non-blocking descriptor on the same pipe
        self.rn = os.open(f"/proc/self/fd/{self.r}", os.O_RDONLY | os.O_NONBLOCK)

    def try_get(self):
        try:
            b = os.read(self.rn, 1)
        except BlockingIOError:
            return None
        return b[0] if b else None

    def get(self):
        return os.read(self.r, 1)[0]

    def put(self, t):
        os.write(self.w, bytes([t]))


def canon(obj, names, static, now, seen=None, out=None, fresh=None):
    """Canonical description of an object graph: volatile strings are renamed by order of first appearance, times are
    taken relative to now."""
    if out is None:
        out, seen, fresh = [], {}, {}
    t = type(obj)
    if t is str:
        if obj in names:
            out.append(names[obj])
        elif len(obj) < 20 or obj in static:
            out.append(obj)
        elif ";;" in obj and len(obj) < 400:
            for p in obj.split(";;"):
                canon(p, names, static, now, seen, out, fresh)
        else:
            out.append(fresh.setdefault(obj, f"~{len(fresh)}"))
    elif obj is None or t is bool or t is float or t is bytes:
        out.append(repr(obj))
    elif t is int:
        out.append(f"t{obj - now}" if 1_600_000_000 < obj < 1_900_000_000 else str(obj))
    elif isinstance(obj, dict) or hasattr(obj, "_dict") or type(obj).__name__ == "DLDict":
        d = getattr(obj, "_dict", None) if not isinstance(obj, dict) else obj
        if d is None:
            d = obj.db
        if id(obj) in seen:
            out.append(f"@{seen[id(obj)]}")
            return out
        seen[id(obj)] = len(seen)
        out.append("{")
        for k, v in d.items():
            canon(k, names, static, now, seen, out, fresh)
            out.append(":")
            canon(v, names, static, now, seen, out, fresh)
        out.append("}")
    elif isinstance(obj, (list, tuple, set, frozenset)):
        out.append("[")
        for v in (sorted(obj, key=str) if isinstance(obj, (set, frozenset)) else obj):
            canon(v, names, static, now, seen, out, fresh)
        out.append("]")
    elif isinstance(obj, type) or callable(obj):
        out.append(getattr(obj, "__qualname__", str(t)))
    else:
        if id(obj) in seen:
            out.append(f"@{seen[id(obj)]}")
            return out
        seen[id(obj)] = len(seen)
        out.append("<" + t.__name__)
        try:
            v = vars(obj)
        except TypeError:
            v = {}
        for k, x in v.items():
            out.append(k)
            canon(x, names, static, now, seen, out, fresh)
        out.append(">")
    return out


def op_state(op, names, static):
    """Canonical state of one provider: everything a later answer can depend on."""
    c = op.ctx
    out, seen, fresh = [], {}, {}
    for part in (c.session_manager.db, c.jti_db, c.par_db, c.registration_access_token, c.cdb):
        canon(part, names, static, clock.now(), seen, out, fresh)
        out.append("|")
    return "\x1f".join(out)


class Scenario:
    """One exploration.  Subclasses define setup/ops/apply/key."""

    name = "scenario"

    def setup(self):
        raise NotImplementedError

    def ops(self):
        raise NotImplementedError

    def apply(self, op):
        raise NotImplementedError

    def key(self):
        return None

    def invariant(self):
        """Checked after every transition, in a throw-away copy of the process when `invariant_forks`."""

    invariant_forks = False


def _exc_record(e, trace, scn):
    if isinstance(e, Violation):
        return {"kind": "violation", "msg": e.msg, "sig": e.sig, "trace": trace, "scenario": scn, "info": e.info}
    return {"kind": "violation", "msg": "unexpected " + "".join(traceback.format_exception_only(type(e), e)).strip(),
            "sig": "exception:" + type(e).__name__, "trace": trace, "scenario": scn,
            "info": {"traceback": traceback.format_exc(limit=-6)}}


def explore(scn, depth, shared, known=None, on_leaf=None):
    """Explore all operation sequences up to `depth`.  Returns nothing; results are in `shared`."""
    jobs = Jobs(NPROC)
    known = known or (lambda sig: False)
    sys.stdout.flush()
    try:
        scn.setup()
        scn.invariant()
    except Exception as e:
        shared.record(_exc_record(e, [], scn.name))
        shared.set_stop()
        return
    gc.collect()
    gc.freeze()
    gc.disable()
    trace = []

    def handle(e, slot):
        rec = _exc_record(e, list(trace), scn.name)
        if known(rec["sig"]):
            rec["kind"] = "known"
            shared.inc(slot, C_KNOWN)
            if not any(False for _ in ()):
                shared.record(rec)
            return
        shared.inc(slot, C_VIOL)
        shared.record(rec)
        shared.set_stop()

    # returns True if this process still holds its job token
    def node(left, slot):
        holds = True
        asyncs = []
        for o in scn.ops():
            if shared.stop():
                break
            tok = jobs.try_get() if left >= 2 else None
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    s = slot if tok is None else tok
                    trace.append(o)
                    code = 0 if child(left, s) else 1
                    if tok is not None and code == 0:
                        jobs.put(s)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    os._exit(code)
            if tok is not None:
                asyncs.append(pid)
            else:
                st = os.waitpid(pid, 0)[1]
                if st != 0:
                    ec = os.waitstatus_to_exitcode(st)
                    if ec == 1:
                        slot = jobs.get()
                    else:
                        crash(ec, o)
        if asyncs:
            jobs.put(slot)
            holds = False
            for pid in asyncs:
                st = os.waitpid(pid, 0)[1]
                if st != 0:
                    ec = os.waitstatus_to_exitcode(st)
                    if ec != 1:
                        crash(ec, "?")
        return holds

    def crash(ec, o):
        shared.record({"kind": "crash", "msg": f"exploration process ended with {ec}", "trace": trace + [o],
                       "scenario": scn.name, "sig": "crash"})
        shared.set_stop()

    def child(left, slot):
        o = trace[-1]
        ACTIVE[:] = [shared, slot]
        try:
            scn.apply(o)
        except Prune:
            shared.inc(slot, C_TRANS)
            return True
        except Exception as e:
            shared.inc(slot, C_TRANS)
            handle(e, slot)
            return True
        shared.inc(slot, C_TRANS)
        k = scn.key()
        new, expand = (True, True)
        if k is not None:
            new, expand = shared.visit(k.encode() if isinstance(k, str) else k, left - 1)
        if new:
            shared.inc(slot, C_STATES)
            if scn.invariant_forks:
                pid = os.fork()
                if pid == 0:
                    try:
                        try:
                            scn.invariant()
                        except Exception as e:
                            handle(e, slot)
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)
                shared.inc(slot, C_PROBE)
            else:
                try:
                    scn.invariant()
                except Exception as e:
                    handle(e, slot)
                    return True
        else:
            shared.inc(slot, C_DUP)
        if left - 1 <= 0 or not expand:
            shared.inc(slot, C_LEAF)
            if shared.cnt[slot * NCNT + C_LEAF] in (3, 40, 400, 4000):
                shared.record({"kind": "sample", "trace": list(trace), "scenario": scn.name, "sig": "", "msg": ""})
            return True
        return node(left - 1, slot)

    node(depth, 0)
    gc.enable()
    gc.unfreeze()


def sweep(cases, run, shared, known=None, isolate=True, chunk=None, name="sweep"):
    """Run every case; run(case) returns an outcome (hashable str) or raises Violation.

    Returns {outcome: count}.  isolate: every case in its own forked copy of the process.
    """
    cases = list(cases)
    known = known or (lambda sig: False)
    n = len(cases)
    gc.collect()
    gc.freeze()
    gc.disable()
    pids = []
    res_r = []
    idx_m = mmap.mmap(-1, 4096)
    idx = ctypes.c_uint64.from_buffer(idx_m)
    lock_path = shared.path + ".lock"
    lock_fd0 = os.open(lock_path, os.O_RDWR | os.O_CREAT)
    step = chunk or max(1, min(64, n // (NPROC * 8) or 1))
    for w in range(min(NPROC, max(1, n))):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            lock_fd = os.open(lock_path, os.O_RDWR)
            outcomes = {}
            try:
                while not shared.stop():
                    fcntl.flock(lock_fd, fcntl.LOCK_EX)
                    lo = idx.value
                    idx.value = lo + step
                    fcntl.flock(lock_fd, fcntl.LOCK_UN)
                    if lo >= n:
                        break
                    for i in range(lo, min(n, lo + step)):
                        if shared.stop():
                            break
                        o = _one(cases[i], run, shared, known, isolate, w, name)
                        shared.inc(w, C_EVAL)
                        outcomes[o] = outcomes.get(o, 0) + 1
                data = json.dumps(outcomes).encode()
                with os.fdopen(wr, "wb") as f:
                    f.write(data)
            except BaseException:
                traceback.print_exc()
                shared.record({"kind": "crash", "msg": traceback.format_exc(), "trace": [], "scenario": name,
                               "sig": "crash"})
                shared.set_stop()
                os._exit(3)
            os._exit(0)
        os.close(wr)
        pids.append(pid)
        res_r.append(r)
    total = {}
    for pid, r in zip(pids, res_r):
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            for k, v in json.loads(data).items():
                total[k] = total.get(k, 0) + v
    os.close(lock_fd0)
    gc.enable()
    gc.unfreeze()
    return total


def count(i, n=1):
    if ACTIVE:
        ACTIVE[0].inc(ACTIVE[1], i, n)


def _one(case, run, shared, known, isolate, slot, name):
    ACTIVE[:] = [shared, slot]

    def body():
        try:
            return str(run(case))
        except Exception as e:
            rec = _exc_record(e, [case], name)
            if known(rec["sig"]):
                rec["kind"] = "known"
                shared.inc(slot, C_KNOWN)
                shared.record(rec)
                return "known:" + rec["sig"]
            shared.inc(slot, C_VIOL)
            shared.record(rec)
            shared.set_stop()
            return "VIOLATION"

    if not isolate:
        return body()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.write(w, body().encode()[:4000])
        except BaseException:
            traceback.print_exc()
            os._exit(3)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        out = f.read().decode()
    st = os.waitpid(pid, 0)[1]
    if st != 0:
        shared.record({"kind": "crash", "msg": f"case process ended with status {st}", "trace": [case],
                       "scenario": name, "sig": "crash"})
        shared.set_stop()
    return out
