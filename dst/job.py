"""The scheduler: one simulated job (all MPI ranks, network, clock, disk).

Ranks are forked images of the checker, each running the repository's real
entry point.  Exactly one rank runs at a time; it runs until its next seam
(MPI call, task boundary, sleep, file-system call) and parks there.  The
scheduler then chooses, from the seeded `Choices`, which rank continues or
which in-flight message is delivered.  Killing a parked process is a crash
at exactly that instruction.
"""
import os
import pickle
import select
import signal
import socket
import struct
import sys
import time as _time
import traceback

from . import disk as _disk
from .choices import Choices, sub_rng

REAL_TIMEOUT = 120.0
_real_time = _time.monotonic


class HarnessError(Exception):
    pass


ERRNO = {"ENOSPC": 28, "EIO": 5, "EDQUOT": 122, "EROFS": 30, "EMFILE": 24,
         "EACCES": 13, "EINTR": 4, "EPERM": 1, "EFBIG": 27, "ESTALE": 116,
         "ETIMEDOUT": 110, "ENODEV": 19}


class Rank:
    __slots__ = ("id", "pid", "sock", "state", "req", "disk_req", "reply",
                 "weight", "wake", "stalled", "exit", "recvs", "unexp", "done",
                 "wall")

    def __init__(self, i, pid, sock):
        self.id, self.pid, self.sock = i, pid, sock
        self.state = "new"
        self.req = None
        self.disk_req = None
        self.weight = 1.0
        self.wake = None
        self.stalled = 0
        self.exit = None
        self.recvs = []      # posted receives: [rid, source, tag, cid, msg|None]
        self.unexp = []      # arrived, unmatched messages


class Msg:
    __slots__ = ("src", "dst", "tag", "cid", "payload", "rid", "matched")

    def __init__(self, src, dst, tag, cid, payload, rid):
        self.src, self.dst, self.tag, self.cid = src, dst, tag, cid
        self.payload, self.rid, self.matched = payload, rid, False


class JobResult:
    def __init__(self):
        self.outcome = None      # ok | error | hang | livelock | spin | crash
        self.detail = ""
        self.steps = 0
        self.simtime = 0.0
        self.events = []         # recorded history
        self.choices = []
        self.fired = []          # faults that actually fired
        self.exits = {}
        self.disk_ops = 0
        self.opcounts = {}
        self.power = None
        self.sig = 0


class Job:
    """Run `target(rank, seam)` on `size` simulated ranks."""

    def __init__(self, cfg, root, target, log_path, max_steps=6000,
                 on_event=None):
        self.cfg = cfg
        self.size = cfg["size"]
        self.root = root
        self.target = target
        self.log_path = log_path
        self.max_steps = max_steps
        self.ch = Choices(cfg.get("sched_seed", 0), cfg.get("sched"))
        self.crng = sub_rng("clock", cfg.get("sched_seed", 0))
        self.now = 0.0
        self.ranks = []
        self.chan = {}           # (src,dst,cidkey) -> [Msg]
        self.nextrid = 1
        self.sends = {}          # rid -> Msg for pending synchronous isend
        self.res = JobResult()
        self.opn = {}
        self.gen_n = 0
        self.deliv_n = 0
        self.faults = [dict(f) for f in cfg.get("faults", [])]
        self.sticky = None       # [errno, remaining, ops]
        self.crashed = None
        self.model = None
        self.on_event = on_event
        self.sleepers = 0

    # ---------------------------------------------------------- life cycle
    def run(self):
        if self.cfg.get("blackout") or any(f["act"]["kind"] == "crash" and f["act"].get("power") for f in self.faults):
            self.model = _disk.DiskModel(self.root)
        try:
            self._spawn()
            self._loop()
        finally:
            self._killall()
        r = self.res
        r.simtime = self.now
        r.choices = self.ch.out
        r.disk_ops = self.opn.get("any", 0)
        r.opcounts = dict(self.opn)
        dark = r.outcome == "crash" and self.crashed.get("power")
        if self.cfg.get("blackout") and not dark:       # power is lost as soon as the job has ended
            r.fired.append("power@end")
            dark = True
        if dark:
            r.power = self.model.power_loss(sub_rng("power", self.cfg.get("sched_seed", 0),
                                                    (self.crashed or {}).get("pick", 0)))
        return r

    def _spawn(self):
        weights = self.cfg.get("weights") or [1.0] * self.size
        for i in range(self.size):
            a, b = socket.socketpair()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    a.close()
                    for r in self.ranks:
                        r.sock.close()
                    self._child(i, b)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            b.close()
            rk = Rank(i, pid, a)
            rk.weight = weights[i % len(weights)]
            self.ranks.append(rk)
        for r in self.ranks:       # every process parks at "start" before any runs
            self._await(r)

    def _child(self, i, sock):
        from . import seam as sm
        sm.die_with_parent()
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        signal.signal(signal.SIGTERM, signal.SIG_DFL)
        sm.redirect_output(self.log_path)
        s = sm.Seam(sock.fileno(), self.root, self.cfg.get("read_faults", False),
                    wall_offset=self.cfg.get("wall_offset", {}).get(str(i), 0.0))
        sm.SEAM = s
        s.call("start")
        status = ("ok", None)
        try:
            self.target(i, self.size, s)
        except SystemExit as e:
            c = e.code
            if c is None or c == 0:
                status = ("ok", None)
            else:
                status = ("exit", str(c))
                print(f"[rank {i}] SystemExit: {c}", file=sys.stderr)
        except BaseException as e:
            traceback.print_exc()
            kind = "harness" if type(e).__name__ == "Unsupported" else "exc"
            status = (kind, f"{type(e).__name__}: {e}"[:500])
        try:
            sys.stderr.flush()
            sys.stdout.flush()
        except BaseException:
            pass
        s.call("exit", *status)
        os._exit(0)

    def _killall(self):
        for r in self.ranks:
            if r.pid:
                try:
                    os.kill(r.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        for r in self.ranks:
            if r.pid:
                try:
                    os.waitpid(r.pid, 0)
                except ChildProcessError:
                    pass
                r.pid = 0
            r.sock.close()

    # ------------------------------------------------------------ transport
    def _recvn(self, r, n):
        out = b""
        deadline = _real_time() + REAL_TIMEOUT
        while len(out) < n:
            left = deadline - _real_time()
            if left <= 0 or not select.select([r.sock], [], [], left)[0]:
                raise TimeoutError
            k = r.sock.recv(n - len(out))
            if not k:
                raise ConnectionError
            out += k
        return out

    def _frame(self, r):
        h = self._recvn(r, 5)
        n, = struct.unpack("<I", h[:4])
        return chr(h[4]), self._recvn(r, n - 1) if n > 1 else b""

    def _await(self, r):
        """Let rank r run to its next request; record reported outcomes."""
        r.state = "running"
        while True:
            try:
                t, body = self._frame(r)
            except TimeoutError:
                r.state = "spin"
                self.res.outcome = "spin"
                self.res.detail = f"rank {r.id} ran {REAL_TIMEOUT:.0f} s without reaching any seam"
                return
            except ConnectionError:
                r.state = "gone"
                pid, st = os.waitpid(r.pid, 0)
                r.pid = 0
                self._ev("died", r.id, st)
                self.res.outcome = "error"
                self.res.exits[r.id] = ("died", f"wait status {st}")
                self.res.detail = f"rank {r.id} process died (wait status {st}); job killed"
                return
            if t == "R":
                ret, err, ino = (int(x) for x in body.split())
                op, args, data, dec = r.disk_req
                self._ev("ret", r.id, op, min(ret, 0) if op == "open" else ret, err)
                if self.model is not None:
                    self.model.apply(op, args, data, ret, ino)
                r.disk_req = None
                if dec in "BK":
                    self._crash_now()
                    return
                continue
            if t == "D":
                z = body.index(b"\0")
                parts = body[:z].decode("utf-8", "surrogateescape").split("\t")
                r.req = ("disk", parts[0], parts[1:], body[z + 1:])
                r.state = "ready"
                return
            r.req = pickle.loads(body)
            self._park(r)
            return

    def _reply(self, r, val=None):
        b = pickle.dumps((self.now, val), protocol=4)
        self._raw(r, b)

    def _raw(self, r, b):
        try:
            r.sock.sendall(struct.pack("<I", len(b)) + b)
        except (BrokenPipeError, ConnectionResetError):
            pass  # the process is gone; _await notices

    def _ev(self, *e):
        self.res.events.append(e)
        self.res.sig = hash((self.res.sig, e)) if False else self.res.sig
        if self.on_event:
            self.on_event(e)

    # ------------------------------------------------- parking and matching
    def _ckey(self, cid):
        return repr(cid)

    def _park(self, r):
        k = r.req[0]
        if k == "recv":
            _, src, tag, cid = r.req
            rid = self._post(r, src, tag, cid)
            r.req = ("wait", rid)
            self._recheck(r)
        elif k in ("wait", "idle", "probe"):
            self._recheck(r)
        elif k == "sleep":
            r.wake = self.now + r.req[1]
            r.state = "sleep"
        elif k == "send" and r.req[5] in ("std", "sync"):
            # a standard send may or may not buffer: the schedule decides
            sync = r.req[5] == "sync" or self.crng.random() < self.cfg.get("sync_p", 0.3)
            r.state = "ready"
            if sync:
                r.req = r.req[:5] + ("rendezvous",)
        elif k == "exit":
            r.state = "ready"
        else:
            r.state = "ready"

    def _post(self, r, src, tag, cid):
        rid = self.nextrid
        self.nextrid += 1
        ent = [rid, src, tag, self._ckey(cid), None]
        r.recvs.append(ent)
        for m in r.unexp:
            if self._fits(ent, m):
                r.unexp.remove(m)
                self._match(ent, m)
                break
        return rid

    @staticmethod
    def _fits(ent, m):
        return (ent[4] is None and ent[3] == m.cid
                and (ent[1] == -2 or ent[1] == m.src)
                and (ent[2] == -1 or ent[2] == m.tag))

    def _match(self, ent, m):
        ent[4] = m
        m.matched = True
        if m.rid is not None:      # a synchronous send completes
            self.sends.pop(m.rid, None)
            s = self.ranks[m.src]
            if s.state == "blocked":
                self._recheck(s)

    def _arrive(self, m):
        d = self.ranks[m.dst]
        for ent in d.recvs:
            if self._fits(ent, m):
                self._match(ent, m)
                break
        else:
            d.unexp.append(m)
        if d.state == "blocked":
            self._recheck(d)

    def _complete(self, r, rid):
        """Has request rid of rank r completed?"""
        for ent in r.recvs:
            if ent[0] == rid:
                return ent[4] is not None
        return rid not in self.sends

    def _probe(self, r, src, tag, cid):
        ent = [0, src, tag, self._ckey(cid), None]
        for m in r.unexp:
            if self._fits(ent, m):
                return (m.src, m.tag, len(m.payload))
        return None

    def _recheck(self, r):
        k = r.req[0]
        if k == "wait":
            ok = self._complete(r, r.req[1])
        elif k == "idle":
            ok = any(self._complete(r, x) for x in r.req[1])
        elif k == "probe":
            ok = self._probe(r, *r.req[1:]) is not None
        elif k == "sendwait":
            ok = r.req[1] not in self.sends
        else:
            ok = True
        r.state = "ready" if ok else "blocked"

    # ----------------------------------------------------------- main loop
    def _loop(self):
        cfg = self.cfg
        netw = cfg.get("net_weight", 1.0)
        while self.res.outcome is None:
            self.res.steps += 1
            if self.res.steps > self.max_steps:
                self.res.outcome = "livelock"
                self.res.detail = f"no termination within {self.max_steps} simulator steps"
                return
            for f in self.faults:
                if f["trig"].get("step") == self.res.steps and not f.get("done"):
                    f["done"] = True
                    if f["act"]["kind"] == "crash":
                        self._fire(f, "step")
                        self.crashed = f["act"]
                        self._crash_now()
                        return
                    if f["act"]["kind"] == "stall":
                        rk = self.ranks[f["act"]["rank"] % self.size]
                        rk.stalled = f["act"]["steps"]
                        self._fire(f, "stall")
            opts, ws = [], []
            for key in sorted(k for k, q in self.chan.items() if q):
                opts.append(("net", key))
                ws.append(netw)
            stalled = []
            for r in self.ranks:
                if r.state == "ready":
                    if r.stalled > 0:
                        r.stalled -= 1
                        stalled.append(r)
                        continue
                    opts.append(("run", r))
                    ws.append(r.weight)
            if not opts and stalled:
                for r in stalled:
                    r.stalled = 0
                    opts.append(("run", r))
                    ws.append(r.weight)
            if not opts:
                sl = [r for r in self.ranks if r.state == "sleep"]
                if sl:
                    t = min(r.wake for r in sl)
                    self.now = max(self.now, t)
                    for r in sl:
                        if r.wake <= self.now:
                            r.state = "ready"
                    continue
                self._terminal()
                return
            for r in self.ranks:
                if r.state == "sleep" and r.wake <= self.now:
                    r.state = "ready"
            kind, x = opts[self.ch.pick(ws)]
            if not (cfg.get("frozen_p", 0.0) and self.crng.random() < cfg["frozen_p"]):
                self.now += self.crng.random() * cfg.get("tick", 0.01)
            if kind == "net":
                m = self.chan[x].pop(0)
                self._ev("deliver", m.src, m.dst)
                self._arrive(m)
                continue
            self._step(x)

    def _terminal(self):
        """Nothing can run: every rank finished, or the job is stuck."""
        live = [r for r in self.ranks if r.state != "finished"]
        if live:
            self.res.outcome = "hang"
            self.res.detail = "; ".join(
                f"rank {r.id} blocked in {r.req[0]}{tuple(r.req[1:3])}" for r in live)
            ex = {i: s for i, s in self.res.exits.items() if s[0] != "ok"}
            if ex:
                self.res.detail += f"; failed ranks: {ex}"
            return
        bad = {i: s for i, s in self.res.exits.items() if s[0] != "ok"}
        self.res.outcome = "error" if bad else "ok"
        self.res.detail = str(bad) if bad else ""

    def _step(self, r):
        q = r.req
        k = q[0]
        if k == "disk":
            return self._disk(r, q[1], q[2], q[3])
        if k == "exit":
            r.state = "finished"
            self.res.exits[r.id] = (q[1], q[2])
            self._ev("exit", r.id, q[1], q[2])
            if q[1] == "harness":
                raise HarnessError(q[2])
            if self.size == 1 and q[1] != "ok":
                pass
            return
        if k == "abort":
            self._ev("abort", r.id, q[1])
            self.res.exits[r.id] = ("abort", str(q[1]))
            self.res.outcome = "error" if True else None
            self.res.detail = f"MPI_Abort({q[1]}) by rank {r.id}"
            if q[1] == 0:
                self.res.detail += " (errorcode 0)"
            return
        if k == "send":
            _, dst, tag, cid, payload, mode = q
            sync = mode in ("rendezvous", "isync")
            rid = None
            if sync:
                rid = self.nextrid
                self.nextrid += 1
            m = Msg(r.id, dst, tag, self._ckey(cid), payload, rid)
            if sync:
                self.sends[rid] = m
            if dst == r.id:
                self._arrive(m)
            else:
                self.chan.setdefault((r.id, dst, m.cid), []).append(m)
            self._ev("send", r.id, dst, len(payload) if not isinstance(payload, str) else 0)
            if mode == "rendezvous":
                r.req = ("sendwait", rid)
                self._recheck(r)
                return
            self._reply(r, rid)
        elif k == "sendwait":
            self._reply(r, None)
        elif k == "wait":
            val = None
            for ent in r.recvs:
                if ent[0] == q[1]:
                    m = ent[4]
                    val = (m.payload, m.src, m.tag)
                    r.recvs.remove(ent)
                    self._ev("recv", r.id, m.src)
                    if r.id == 0 and not self._on_recv():
                        return
                    break
            self._reply(r, val)
        elif k == "test":
            if not self._complete(r, q[1]):
                self._reply(r, None)
            else:
                val = None
                for ent in r.recvs:
                    if ent[0] == q[1]:
                        m = ent[4]
                        val = (m.payload, m.src, m.tag)
                        r.recvs.remove(ent)
                        self._ev("recv", r.id, m.src)
                        if r.id == 0 and not self._on_recv():
                            return
                        break
                self._reply(r, (val,))
        elif k == "cancel":
            for ent in list(r.recvs):
                if ent[0] == q[1] and ent[4] is None:
                    r.recvs.remove(ent)
            self._reply(r)
        elif k == "idle":
            self._reply(r)
        elif k == "irecv":
            self._reply(r, self._post(r, q[1], q[2], q[3]))
        elif k in ("probe", "iprobe"):
            self._reply(r, self._probe(r, q[1], q[2], q[3]))
        elif k == "sleep":
            self._reply(r)
        elif k == "gen":
            # a task starts on this rank: q[1] = sample uid
            self.gen_n += 1
            self._ev("gen", r.id, q[1])
            lo, hi = self.cfg.get("gen_cost", (0.0, 1.0))
            self.now += lo + (hi - lo) * self.crng.random()
            for f in self.faults:
                if f["trig"].get("gen") == self.gen_n and not f.get("done"):
                    f["done"] = True
                    if f["act"]["kind"] == "crash":
                        self._fire(f, "gen")
                        self.crashed = f["act"]
                        self._crash_now()
                        return
                    if f["act"]["kind"] == "raise":
                        self._fire(f, "gen")
                        self._reply(r, ("raise", f["act"]["exc"]))
                        self._await(r)
                        return
            ov = self.cfg.get("mode_override", {}).get(repr(q[1]))
            self._reply(r, ("mode", ov) if ov is not None else None)
        elif k == "note":
            self._ev("note", r.id, *q[1:])
            self._reply(r)
        else:   # start, yield
            self._reply(r)
        self._await(r)

    def _on_recv(self):
        self.deliv_n += 1
        for f in self.faults:
            if f["trig"].get("recv") == self.deliv_n and not f.get("done"):
                f["done"] = True
                self._fire(f, "recv")
                self.crashed = f["act"]
                self._crash_now()
                return False
        return True

    # ------------------------------------------------------------------ disk
    def _fire(self, f, where):
        a = f["act"]
        name = a["kind"]
        if name == "crash":
            name = ("power" if a.get("power") else "kill") + "@" + where
        elif name == "errno":
            name = a["errno"] + "@" + where
        elif name in ("short", "full"):
            name = name + "@" + where
        elif name == "raise":
            name = "raise-" + a["exc"]
        self.res.fired.append(name)
        self._ev("fault", name)

    def _crash_now(self):
        self.res.outcome = "crash"
        self.res.detail = f"crash ({'power loss' if self.crashed.get('power') else 'kill'})"
        self._ev("crash")

    def _disk(self, r, op, args, data):
        for k in ("any", op):
            self.opn[k] = self.opn.get(k, 0) + 1
        short = [a.replace(self.root, "$") for a in args[:2]] if op in ("open", "rename", "link", "unlink", "mkdir", "rmdir") else [args[0].replace(self.root, "$")]
        self._ev("disk", r.id, op, *short, len(data))
        dec = b"G"
        n = int(args[3]) if op in ("write", "read") and len(args) > 3 else 0
        if self.sticky and op in self.sticky[2] and self.sticky[1] > 0:
            self.sticky[1] -= 1
            self._ev("fault", "sticky")
            dec = b"E%d" % self.sticky[0]
        else:
            for f in self.faults:
                t = f["trig"]
                if "op" not in t or f.get("done"):
                    continue
                if t.get("path") and not any(t["path"] in os.path.basename(a) for a in args[:2]):
                    continue
                if t["op"] not in ("any", op):
                    continue
                f["seen"] = f.get("seen", 0) + 1
                if f["seen"] != t["n"]:
                    continue
                f["done"] = True
                a = f["act"]
                if a["kind"] == "crash":
                    self._fire(f, op)
                    self.crashed = a
                    if a["when"] == "before":
                        self._crash_now()
                        return
                    if a["when"] == "mid" and op == "write" and n > 0:
                        dec = b"K%d" % min(n - 1, max(0, int(a.get("frac", 0.5) * n)))
                    else:
                        dec = b"B"
                elif a["kind"] == "errno":
                    self._fire(f, op)
                    dec = b"E%d" % ERRNO[a["errno"]]
                    if a.get("count", 1) > 1:
                        self.sticky = [ERRNO[a["errno"]], a["count"] - 1, (op,)]
                elif a["kind"] == "short" and op in ("write", "read") and n > 1:
                    self._fire(f, op)
                    dec = b"S%d" % max(1, int(a.get("frac", 0.5) * n))
                elif a["kind"] == "full":
                    # the disk fills up: this write is cut short, later ones fail
                    self._fire(f, op)
                    if op == "write" and n > 1:
                        dec = b"S%d" % max(1, int(a.get("frac", 0.5) * n))
                    else:
                        dec = b"E28"
                    self.sticky = [28, a.get("count", 10 ** 9), ("write", "mkdir")]
                break
        r.disk_req = (op, args, data, chr(dec[0]))
        self._raw(r, dec)
        self._await(r)
