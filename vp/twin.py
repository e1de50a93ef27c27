"""Twin processes: the same /repo code under other numba settings (bounds checked, interpreted), reached over a local socket.

The twin warms up once, then forks one handler per connection.  It ends with its parent."""
import contextlib, io, os, pickle, socket, struct, subprocess, sys, time

import numpy as np

from . import core


def send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(struct.pack("q", len(b)) + b)


def recv(s):
    h = b""
    while len(h) < 8:
        c = s.recv(8-len(h))
        if not c:
            raise EOFError
        h += c
    n = struct.unpack("q", h)[0]
    out = bytearray()
    while len(out) < n:
        c = s.recv(min(1 << 20, n-len(out)))
        if not c:
            raise EOFError
        out += c
    return pickle.loads(bytes(out))


def dirty(rng):
    """leave random bytes in the small-block caches, so that uninitialised memory shows"""
    for n in (3, 5, 6, 9, 15, 18, 36, 600):
        a = rng.normal(size=n)*1e3
        del a


def execute(req):
    """one request in this process: ("call", name, args) or ("solve", spec); result or exception, and arguments afterwards"""
    from . import flows, sut
    if req[0] == "solve":
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fl = flows.fly(req[1])
            return ("ok", dict(exitcode=fl.exitcode, converge=bool(fl.converge), **flows.histories(fl)))
        except Exception as e:
            return ("exc", type(e).__name__, str(e)[:200])
    _, name, args = req
    if name.startswith("law:"):
        fns = sut.symbolic(name[4:])
        ctrl = sut.api("lyapunov_control_angles")
        f = lambda *a: ctrl(fns[0], *a)
    else:
        f = sut.api(name)
    if f is None:
        return ("absent",)
    a = [sut.api(x[1]) if isinstance(x, tuple) and len(x) == 2 and x[0] == "fn" else x for x in args]
    try:
        dirty(np.random.default_rng())
        r = f(*a)
        flat = flatten(r)
        return ("ok", flat, [x for x in a if isinstance(x, np.ndarray)])
    except Exception as e:
        return ("exc", type(e).__name__, str(e)[:200])


def flatten(r):
    if isinstance(r, (tuple, list)):
        return np.concatenate([flatten(x) for x in r]) if len(r) else np.zeros(0)
    return np.asarray(r, dtype=float).ravel().copy()


def serve(fd, ppid):
    """entry point of the twin process"""
    core.import_sut()
    from . import flows
    flows.warm_all()
    ls = socket.socket(fileno=fd)
    ls.settimeout(2.0)
    while os.getppid() == ppid:
        try:
            os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            pass
        try:
            c, _ = ls.accept()
        except socket.timeout:
            continue
        if os.fork() == 0:
            try:
                c.settimeout(None)
                while True:
                    send(c, execute(recv(c)))
            except (EOFError, ConnectionError):
                pass
            finally:
                os._exit(0)
        c.close()
    os._exit(0)


class Twin:
    def __init__(self, tag, env):
        self.addr = "\0vp-%s-%d-%d" % (tag, os.getpid(), time.monotonic_ns())
        ls = socket.socket(socket.AF_UNIX)
        ls.bind(self.addr)
        ls.listen(64)
        e = dict(os.environ, **env)
        code = ("import sys; sys.path.insert(0, %r); import numpy as np; np.seterr(all='ignore'); from vp import twin; twin.serve(%d, %d)"
                % (core.HERE, ls.fileno(), os.getpid()))
        self.p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", code], env=e, pass_fds=[ls.fileno()], stdout=subprocess.DEVNULL,
                                  stderr=open(os.path.join(core.EVID, tag + ".err"), "w"))
        ls.close()
        self.conn, self.pid = None, None

    def connect(self):
        if self.pid != os.getpid():
            self.conn = socket.socket(socket.AF_UNIX)
            self.conn.connect(self.addr)
            self.pid = os.getpid()
        return self.conn

    def ask(self, req):
        self.post(req)
        return self.get()

    def post(self, req):
        send(self.connect(), req)

    def get(self):
        try:
            return recv(self.conn)
        except (EOFError, ConnectionError):
            self.pid = None
            return ("died",)
