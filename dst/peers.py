"""Other processes: interpreters started with another string hash seed.  Each request runs in a fork of such a process."""
import os
import pickle
import select
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import traceback

_dir = None
_socks = []
_procs = []


class PeerFailed(Exception):
    pass


def start(prop, hashseeds):
    global _dir
    _dir = tempfile.mkdtemp(prefix='dstpeer')
    for h in hashseeds:
        path = os.path.join(_dir, f's{h}')
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        p = subprocess.Popen([sys.executable, '-m', 'dst.peers', prop, path], env=env, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        _procs.append(p)
        _socks.append(path)
    for p in _procs:
        p.stdout.readline()


def stop():
    for p in _procs:
        try:
            p.stdin.close()
            p.wait(5)
        except Exception:
            p.kill()
    if _dir:
        shutil.rmtree(_dir, ignore_errors=True)


def count():
    return len(_socks)


def _recv(s):
    def exact(n):
        b = b''
        while len(b) < n:
            c = s.recv(min(1 << 16, n - len(b)))
            if not c:
                raise PeerFailed('peer process died')
            b += c
        return b
    n, = struct.unpack('>Q', exact(8))
    return pickle.loads(exact(n))


def _send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(struct.pack('>Q', len(b)) + b)


def call(i, fn, *args, timeout=120):
    """run module-level function fn(*args) of the property module in peer i"""
    s = socket.socket(socket.AF_UNIX)
    s.settimeout(timeout)
    s.connect(_socks[i])
    try:
        _send(s, (fn, args))
        ok, res = _recv(s)
    finally:
        s.close()
    if not ok:
        raise PeerFailed(res)
    return res


def main():
    prop, path = sys.argv[1:3]
    out = os.dup(1)
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    from .runner import load
    m = load(prop)
    import gc
    gc.collect()
    gc.freeze()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    os.write(out, b'ready\n')
    while True:
        r, _, _ = select.select([srv, sys.stdin], [], [])
        if sys.stdin in r:
            return
        c, _ = srv.accept()
        if os.fork() == 0:
            try:
                fn, args = _recv(c)
                try:
                    res = (True, getattr(m, fn)(*args))
                except BaseException as e:
                    res = (False, ''.join(traceback.format_exception(e))[-1500:])
                _send(c, res)
            finally:
                os._exit(0)
        c.close()


if __name__ == '__main__':
    main()
