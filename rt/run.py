"""Runs programs through the real command, each in its own forked process,
and records everything observable about the run."""
import gc
import io
import os
import re
import resource
import select
import signal
import subprocess
import sys
import time
import traceback


class Result:
    __slots__ = ("rc", "sig", "out", "err", "module", "timeout", "cpu", "rss", "reached")

    @property
    def crashed(self):
        """Why this run counts as a crash of the system itself, or None"""
        if self.timeout:
            return "hang"
        if self.sig:
            return f"killed by signal {self.sig}"
        e = self.err
        if b"panicked at" in e:
            return "panic"
        if b"Traceback (most recent call last)" in e:
            return "traceback"
        return None

    @property
    def kind(self):
        if self.crashed:
            return "crash"
        if not self.reached:
            return "diag"
        if self.rc == 0:
            return "ok"
        return "rterr"

    def brief(self):
        return (
            f"kind={self.kind} rc={self.rc} sig={self.sig} crashed={self.crashed} reached_vm={self.reached}\n"
            f"--- stdout\n{self.out.decode('utf-8', 'replace')[-4000:]}\n--- stderr\n{self.err.decode('utf-8', 'replace')[-4000:]}\n"
        )


def mem(name):
    return os.memfd_create(name, os.MFD_CLOEXEC)


def slurp(fd):
    n = os.fstat(fd).st_size
    b = b""
    os.lseek(fd, 0, 0)
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            break
        b += c
    os.close(fd)
    return b


class Runner:
    """One per worker process. The compiler's modules are imported once, then
    every program runs in a fork that behaves like a fresh 'python -m amanda'."""

    loaded = False
    before = None  # runs in the process of a program, before the command

    def __init__(self, system, workdir):
        self.sys = system
        self.dir = workdir
        os.makedirs(workdir, exist_ok=True)

    @classmethod
    def preload(cls, system):
        if cls.loaded:
            return
        sys.dont_write_bytecode = True
        sys.path.insert(0, system.root)
        import amanda.__main__  # noqa

        cls.loaded = True

    def write(self, files):
        for name, text in files.items():
            p = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass"))

    def run(self, files, main="main.ama", stdin=b"", args=(), norun=False, cpu=10, wall=90, cwd=None, path=None):
        self.write(files)
        fo, fe, fd, fm, fi = mem("o"), mem("e"), mem("d"), mem("m"), mem("i")
        if isinstance(stdin, str):
            stdin = stdin.encode()
        os.write(fi, stdin)
        os.lseek(fi, 0, 0)
        pid = os.fork()
        if pid == 0:
            self.child(fo, fe, fd, fm, fi, cwd or self.dir, [*args, path or main], norun, cpu)
        r = Result()
        r.timeout = False
        pfd = os.pidfd_open(pid)
        po = select.poll()
        po.register(pfd, select.POLLIN)
        if not po.poll(wall * 1000):
            os.kill(pid, signal.SIGKILL)
            r.timeout = True
        _, st, ru = os.wait4(pid, 0)
        os.close(pfd)
        r.sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        r.rc = os.WEXITSTATUS(st) if os.WIFEXITED(st) else None
        if r.sig in (signal.SIGXCPU,) or (r.sig == signal.SIGKILL and ru.ru_utime + ru.ru_stime >= cpu - 0.5):
            r.timeout = True
        r.cpu = ru.ru_utime + ru.ru_stime
        r.rss = ru.ru_maxrss
        r.out, r.err, r.module = slurp(fo), slurp(fe), slurp(fd)
        r.reached = bool(slurp(fm))
        os.close(fi)
        return r

    def child(self, fo, fe, fd, fm, fi, cwd, args, norun, cpu):
        code = 1
        try:
            os.dup2(fi, 0)
            os.dup2(fo, 1)
            os.dup2(fe, 2)
            os.chdir(cwd)
            os.environ["AMV_DUMP_FD"] = str(fd)
            os.environ["AMV_MARK_FD"] = str(fm)
            os.environ["RUST_BACKTRACE"] = "0"
            if norun:
                os.environ["AMV_NORUN"] = "1"
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            sys.stdin = io.TextIOWrapper(open(0, "rb", closefd=False), encoding="utf-8")
            sys.stdout = io.TextIOWrapper(open(1, "wb", closefd=False), encoding="utf-8")
            sys.stderr = io.TextIOWrapper(open(2, "wb", 0, closefd=False), encoding="utf-8", errors="backslashreplace", write_through=True)
            sys.setrecursionlimit(1000)
            from amanda.__main__ import main

            if self.before:
                self.before(main)
            sys.argv = ["amanda", *args]

            try:
                # A fresh process starts with an almost empty stack
                fresh(main)
                code = 0
            except SystemExit as e:
                if e.code is None:
                    code = 0
                elif isinstance(e.code, int):
                    code = e.code & 0xFF
                else:
                    sys.stderr.write(str(e.code) + "\n")
                    code = 1
            except BaseException:
                traceback.print_exc(file=sys.stderr)
                code = 1
            try:
                sys.stdout.flush()
                sys.stderr.flush()
            except Exception:
                pass
        finally:
            os._exit(code)

    # ------------------------------------------------ genuine process
    def cli(self, argv, cwd=None, stdin=b"", env=None, timeout=60, stdout=None, root=None):
        e = dict(os.environ)
        e.update({"PYTHONPATH": root or self.sys.root, "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1", "RUST_BACKTRACE": "0"})
        for k in ("AMV_DUMP_FD", "AMV_MARK_FD", "AMV_NORUN"):
            e.pop(k, None)
        if env:
            e.update(env)
            e = {k: v for k, v in e.items() if v is not None}
        fd, fm = mem("d"), mem("m")
        os.set_inheritable(fd, True)
        os.set_inheritable(fm, True)
        e["AMV_DUMP_FD"], e["AMV_MARK_FD"] = str(fd), str(fm)
        r = Result()
        r.timeout, r.sig, r.cpu, r.rss = False, 0, 0, 0
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "amanda", *argv], cwd=cwd or self.dir, input=stdin,
                               stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, pass_fds=(fd, fm))
            r.rc, r.out, r.err = p.returncode, p.stdout or b"", p.stderr
            if r.rc < 0:
                r.sig, r.rc = -r.rc, None
        except subprocess.TimeoutExpired as x:
            r.timeout, r.rc, r.out, r.err = True, None, x.stdout or b"", x.stderr or b""
        r.module, r.reached = slurp(fd), bool(slurp(fm))
        return r


def fresh(main):
    """Runs main on a stack as shallow as the one of a fresh process"""
    import sys as _s

    f = _s._getframe()
    depth = 0
    while f:
        depth += 1
        f = f.f_back
    _s.setrecursionlimit(1000 + depth)
    main()


RE_FRAME = re.compile(r"^    Linha (\d+), na função (.+)$")
RE_ERR = re.compile(r"^Erro na linha (\d+): (.*)\.$", re.S)


def parse_rterr(err):
    """-> (frames [(line, function)], line, message) or None"""
    t = err.decode("utf-8", "replace")
    frames = []
    lines = t.split("\n")
    i = 0
    if lines and lines[0].startswith("Fluxo de execução:"):
        i = 1
        while i < len(lines):
            m = RE_FRAME.match(lines[i])
            if not m:
                break
            frames.append((int(m.group(1)), m.group(2)))
            i += 1
    m = RE_ERR.match("\n".join(lines[i:]).rstrip("\n"))
    if not m:
        return None
    return frames, int(m.group(1)), m.group(2)
