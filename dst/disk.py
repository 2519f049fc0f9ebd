"""Model of what a power loss may leave on disk.

A process kill leaves the real directory exactly as the completed system
calls left it.  A power loss additionally loses what was never made durable:
file data written since the last fsync of that file may be missing, cut short
or zero-filled; namespace operations (create, rename, unlink) reach the disk
in order (a journaling file system), so a suffix of those since the last
fsync may be missing -- independently of the data, which is how a rename can
survive while the contents it published do not.
"""
import os
import shutil


class FileObj:
    __slots__ = ("durable", "cur", "pending")

    def __init__(self, data=b""):
        self.durable = data
        self.cur = bytearray(data)
        self.pending = []


class DiskModel:
    def __init__(self, root):
        self.root = root
        self.files = {}       # ino -> FileObj
        self.base = {}        # path -> FileObj
        self.ns = {}          # current namespace
        self.log = []         # namespace operations
        self.synced = 0
        for d, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(d, f)
                if os.path.islink(p):
                    continue
                with open(p, "rb") as h:
                    fo = FileObj(h.read())
                self.files[os.stat(p).st_ino] = fo
                self.base[p] = fo
        self.ns = dict(self.base)

    # -- called with the reported outcome of each operation
    def apply(self, op, args, data, ret, ino):
        if ret < 0:
            return
        if op == "open":
            path, flags, existed = args[0], int(args[1]), int(args[2])
            fo = self.ns.get(path)
            if fo is None or not existed:
                fo = FileObj()
                self.ns[path] = fo
                self.log.append(("bind", path, fo))
            elif flags & os.O_TRUNC and flags & (os.O_WRONLY | os.O_RDWR):
                if fo.cur:
                    fo.pending.append(("trunc", 0))
                fo.cur = bytearray()
            self.files[ino] = fo
        elif op == "write":
            fo = self.files.get(int(args[1]))
            if fo is None or ret == 0:
                return
            off = int(args[2])
            if off < 0:
                off = len(fo.cur)
            fo.pending.append(("write", off, bytes(data[:ret])))
            self._w(fo.cur, off, data[:ret])
        elif op == "ftruncate":
            fo = self.files.get(int(args[1]))
            if fo is not None:
                fo.pending.append(("trunc", int(args[2])))
                self._t(fo.cur, int(args[2]))
        elif op == "truncate":
            fo = self.ns.get(args[0])
            if fo is not None:
                fo.pending.append(("trunc", int(args[1])))
                self._t(fo.cur, int(args[1]))
        elif op == "fsync":
            fo = self.files.get(int(args[1]))
            if fo is not None:
                fo.durable = bytes(fo.cur)
                fo.pending = []
            self.synced = len(self.log)
        elif op == "rename":
            a, b = args
            fo = self.ns.pop(a, None)
            if fo is not None:
                self.ns[b] = fo
                self.log.append(("move", a, b, fo))
        elif op == "link":
            fo = self.ns.get(args[0])
            if fo is not None:
                self.ns[args[1]] = fo
                self.log.append(("bind", args[1], fo))
        elif op == "unlink":
            if self.ns.pop(args[0], None) is not None:
                self.log.append(("drop", args[0]))

    @staticmethod
    def _w(buf, off, data):
        if off > len(buf):
            buf.extend(b"\0" * (off - len(buf)))
        buf[off:off + len(data)] = data

    @staticmethod
    def _t(buf, n):
        if n < len(buf):
            del buf[n:]
        else:
            buf.extend(b"\0" * (n - len(buf)))

    def power_loss(self, rng):
        """Pick one legal post-crash state and write it over the directory."""
        k = rng.randint(self.synced, len(self.log))
        ns = dict(self.base)
        for ev in self.log[:k]:
            if ev[0] == "bind":
                ns[ev[1]] = ev[2]
            elif ev[0] == "move":
                ns.pop(ev[1], None)
                ns[ev[2]] = ev[3]
            else:
                ns.pop(ev[1], None)
        picks = {}
        torn = []
        for path in sorted(ns):
            fo = ns[path]
            if id(fo) in picks:
                continue
            if not fo.pending:
                picks[id(fo)] = bytes(fo.cur)
                continue
            mode = rng.choice(["none", "all", "prefix", "torn", "zeros"])
            torn.append((path, mode))
            buf = bytearray(fo.durable)
            if mode == "all":
                buf = bytearray(fo.cur)
            elif mode == "zeros":
                buf = bytearray(fo.durable)
                self._t(buf, len(fo.cur))
            elif mode in ("prefix", "torn"):
                j = rng.randint(0, len(fo.pending))
                for ev in fo.pending[:j]:
                    if ev[0] == "trunc":
                        self._t(buf, ev[1])
                    else:
                        self._w(buf, ev[1], ev[2])
                if mode == "torn" and j < len(fo.pending) and fo.pending[j][0] == "write":
                    ev = fo.pending[j]
                    self._w(buf, ev[1], ev[2][:rng.randint(0, len(ev[2]))])
            picks[id(fo)] = bytes(buf)
        lost_ns = len(self.log) - k
        for d, _, fs in os.walk(self.root):
            for f in fs:
                os.unlink(os.path.join(d, f))
        for path, fo in ns.items():
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as h:
                h.write(picks[id(fo)])
        return {"lost_namespace_ops": lost_ns, "data": torn}


def wipe(path):
    shutil.rmtree(path, ignore_errors=True)
