"""Evaluates one problem in a process in which the package has never solved anything (fork server, one child per request).

The server is forked before the worker's first solve, so caches, module state or class attributes left behind by the monitored
history cannot reach the answer it gives.
"""
import os
import pickle
import struct
import traceback

_server = None


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('<Q', len(data)) + data
    while data:
        data = data[os.write(fd, data[:1 << 16]):]


def _read(fd, n):
    out = b''
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            raise EOFError
        out += part
    return out


def _recv(fd):
    n, = struct.unpack('<Q', _read(fd, 8))
    return pickle.loads(_read(fd, n))


def _warm():
    import drive
    m = drive.meent()
    for b in (0, 2):
        m.call_mee(backend=b)      # imports the backend; nothing is solved


def start():
    global _server
    if _server is not None and _server[0] == os.getpid():
        return
    _warm()
    rq, wq = os.pipe()
    ra, wa = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(wq)
        os.close(ra)
        while True:
            try:
                job = _recv(rq)
            except EOFError:
                os._exit(0)
            child = os.fork()
            if child == 0:
                try:
                    mod, fn, args = job
                    import importlib
                    ans = ('ok', getattr(importlib.import_module(mod), fn)(*args))
                except BaseException:
                    ans = ('error', traceback.format_exc())
                try:
                    _send(wa, ans)
                finally:
                    os._exit(0)
            os.waitpid(child, 0)
    os.close(rq)
    os.close(wa)
    _server = (os.getpid(), wq, ra)


def call(mod, fn, *args):
    """Result of mod.fn(*args) computed in an untouched process."""
    start()
    _send(_server[1], (mod, fn, args))
    kind, val = _recv(_server[2])
    if kind != 'ok':
        raise RuntimeError('in a fresh process: ' + val)
    return val
