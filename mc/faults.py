"""Scripted network and crash injection for the download checks.

The server is a stand-in for ``urllib.request.urlopen``; crashes end a forked
child with ``os._exit`` (no cleanup code runs, unflushed buffers are lost),
either inside a network read or just before a chosen file-system operation
(seen through the interpreter's audit events, so independent of which API the
code uses).  Everything happens below a scratch directory.
"""
import email.message
import gc
import hashlib
import io
import os
import sys
import urllib.error
import urllib.request

CRASH = 77

_sha1, _md5, _new = hashlib.sha1, hashlib.md5, hashlib.new
_ALIAS = {}


class _Hash:
    """A hash whose digest of the scripted content is the published digest."""

    def __init__(self, h):
        self._h = h

    def update(self, b):
        self._h.update(b)

    def hexdigest(self):
        d = self._h.hexdigest()
        return _ALIAS.get(d, d)

    def digest(self):
        return bytes.fromhex(self.hexdigest())

    def copy(self):
        return _Hash(self._h.copy())

    def __getattr__(self, k):
        return getattr(self._h, k)


def install_hashes():
    """Must run before the code under test is imported."""
    hashlib.sha1 = lambda *a, **k: _Hash(_sha1(*a, **k))
    hashlib.md5 = lambda *a, **k: _Hash(_md5(*a, **k))
    hashlib.new = lambda n, *a, **k: _Hash(_new(n, *a, **k))


def alias(kind, content, published):
    _ALIAS[{"sha1": _sha1, "md5": _md5}[kind](content).hexdigest()] = published


class Response(io.RawIOBase):
    def __init__(self, url, body, fault, served):
        self.url, self._b, self._p, self._fault, self._served = url, body, 0, fault, served
        self.status = self.code = 200
        self.headers = email.message.Message()
        self.headers["Content-Length"] = str(len(body))
        self.headers["Content-Type"] = "application/octet-stream"

    length = property(lambda s: len(s._b))

    def getcode(self):
        return 200

    def geturl(self):
        return self.url

    def info(self):
        return self.headers

    def getheader(self, k, d=None):
        return self.headers.get(k, d)

    def readable(self):
        return True

    def read(self, n=-1):
        f = self._fault
        half = len(self._b) // 2
        if f == "crash_read":
            os._exit(CRASH)
        if f in ("read_error", "crash_mid", "short"):
            if self._p >= half:
                if f == "read_error":
                    raise ConnectionResetError("scripted reset")
                if f == "crash_mid":
                    os._exit(CRASH)
                return b""
            end = half if n is None or n < 0 else min(half, self._p + n)
        else:
            end = len(self._b) if n is None or n < 0 else min(len(self._b), self._p + n)
        if f == "crash_eof" and self._p >= len(self._b):
            os._exit(CRASH)
        out = self._b[self._p:end]
        self._p = end
        if n is None or n < 0:
            if f == "read_error":
                raise ConnectionResetError("scripted reset")
            if f in ("crash_mid", "crash_eof"):
                os._exit(CRASH)
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


ERRORS = ["open_error", "http_error", "read_error", "short", "empty", "flip", "html", "extra"]
CRASHES = ["crash_open", "crash_read", "crash_mid", "crash_eof"]


class Server:
    """content: url -> bytes.  faults: {request number or url: kind}."""

    def __init__(self, content, faults=None):
        self.content, self.faults, self.log = content, dict(faults or {}), []

    def urlopen(self, url, *a, **k):
        if hasattr(url, "full_url"):
            url = url.full_url
        n = len(self.log)
        self.log.append(url)
        f = self.faults.get(n, self.faults.get(url))
        if f == "crash_open":
            os._exit(CRASH)
        if f == "open_error":
            raise urllib.error.URLError("scripted failure")
        if f == "http_error" or url not in self.content:
            raise urllib.error.HTTPError(url, 404, "not found", email.message.Message(), None)
        b = self.content[url]
        if f == "empty":
            b = b""
        elif f == "flip":
            b = b[:-5] + bytes([b[-5] ^ 1]) + b[-4:]
        elif f == "html":
            b = b"<html>busy</html>"
        elif f == "extra":
            b = b + b"\0trailing"
        return Response(url, b, f, self.log)

    def __enter__(self):
        self._old = urllib.request.urlopen
        urllib.request.urlopen = self.urlopen
        return self

    def __exit__(self, *a):
        urllib.request.urlopen = self._old
        return False


_WRITE = {"os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.truncate", "shutil.rmtree", "os.chmod", "os.utime"}


def in_child(fn, root=None, crash_at=None, after=False, action=None, limit=None, full=False, kinds=None):
    """Run fn in a forked child. Returns ("ok"|"error"|"crash", info).

    crash_at=k ends the child just before its k-th mutating file-system
    operation below ``root``; with ``after``, opening a file for writing is
    carried out first (the file is there but empty); with ``action``, that is
    called at this point instead and the child goes on (a preemption).
    With ``kinds=[]`` (and crash_at=-1) the result is the list of operations.
    ``limit=n`` ends the child when a file grows beyond n bytes (a torn
    write); with ``full`` such a write fails instead (disk full).
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        gc.disable()
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            if limit is not None:
                import resource
                import signal
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN if full else signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if crash_at is not None:
                base = os.path.abspath(str(root))
                seen = [0]

                def hook(ev, args):
                    if ev == "open":
                        p, mode, flags = args[:3]
                        if not (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)):
                            return
                    elif ev in _WRITE:
                        p = args[0]
                    else:
                        return
                    try:
                        p = os.path.abspath(os.fspath(p))
                    except TypeError:
                        if ev != "shutil.rmtree" and args[-1:] == (-1,):
                            return
                        p = base
                    if isinstance(p, bytes):
                        p = os.fsdecode(p)
                    if ev in ("os.remove", "os.rmdir", "os.mkdir") and isinstance(args[-1], int) and args[-1] >= 0:
                        p = base  # relative to a directory handle (rmtree)
                    if p.startswith(base):
                        if kinds is not None:
                            kinds.append(ev)
                        if seen[0] == crash_at:
                            seen[0] += 1
                            if action is not None:
                                action()
                                return
                            if after and ev == "open":
                                os.open(p, os.O_CREAT | os.O_TRUNC | os.O_WRONLY)
                            os._exit(CRASH)
                        seen[0] += 1

                sys.addaudithook(hook)
            try:
                info = fn()
                out, code = repr(info if kinds is None else kinds), 0
            except Exception as e:
                out, code = f"{type(e).__name__}: {e}", 1
            os.write(w, out.encode()[:60000])
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    return {0: "ok", 1: "error", CRASH: "crash", -25: "crash"}.get(code, f"died{code}"), data.decode()
