"""C21: sequences of input calls against input streams. The model hands out
one line per call; the whole output (prompts included), the values and the
outcome are compared. The same programs are driven through pipes and
terminals, where each line is only sent after its prompt was seen."""
import _boot
import os
import pty
import select
import subprocess
import termios
import time
from rt.check import Check
from rt import clusters as cl
from rt.lang import is_tie, real_text
from rt.run import parse_rterr

c = Check("C21", "histories of 'leia', 'leia_int' and 'leia_real' calls (in instructions, arguments, operands, loops, functions, methods, conditions, f-strings and imported modules) against streams with empty lines, CR LF, missing final line ends, long lines, Unicode, malformed numbers, bytes that are no text and early end; non-trivial: distinct (program, stream) pairs whose complete outcome was compared")
c.system()


class Stop(Exception):
    pass


def lit(s, r):
    return cl.literal(s, r)


def line_text(r):
    k = r.randrange(9)
    if k == 0:
        return ""
    if k == 1:
        return r.choice(["  ", " a", "a ", "\t", "a\tb", " x y ", "\u00a0", "\u3000fim\u3000"])
    if k == 2:
        return "".join(cl.text(r)).replace("\n", " ")
    if k == 3:
        return r.choice(["fim", "'", '"', "{a}", "\\n", "\\", "# nada", "123", "-4", "2.5", "verdadeiro", "\u0085", "a\u2028b", "\x0c", "\x0b", "a\rb", "\ufeff", "\x1a", "\x04", "\0", "a\0b", "\x7f"])
    if k == 4 and r.random() < 0.3:
        return r.choice("aé字😀") * r.choice([1000, 4095, 8191, 8192, 8193, 20000, 70000])
    return "".join(r.choice("abcdefghij klmnopáéçõ0123456789,.-") for _ in range(r.choice([1, 3, 10, 30])))


def int_line(r):
    """-> (line, value | None when it spells none, also allowed to be refused)"""
    k = r.randrange(12)
    if k < 6:
        v = r.choice([0, 1, -1, 9, 10, -10, 2**63 - 1, -(2**63), 2**31, 2**32, -(2**31) - 1, 2**53 + 1, r.randrange(-(2**63), 2**63), r.randrange(-999, 999), r.randrange(-999, 999)])
        return str(v), v, False
    if k == 6:
        v = r.choice([2**63, -(2**63) - 1, 2**64, 2**64 + 5, 10**30, -(10**19), r.randrange(2**63, 2**70)])
        return str(v), None, False
    if k == 7:
        s = r.choice(["", "", "", "-", "+", "abc", "1a", "a1", "1 2", "1,5", "1.5", "1.0", "2e3", "0x10", "--1", "1-", "verdadeiro", "nulo", "\u0661", "\uff11\uff12", "\u00b2", "1_000", "12\u0301", "½", "inf"])
        return s, None, False
    if k == 8:
        v = r.randrange(1000)
        s = r.choice([f"+{v}", f"00{v}", f"-00{v}", f"000000000000000000000000{v}"])
        return s, int(s), True
    if k == 9:
        v = r.randrange(1000)
        return r.choice([f" {v}", f"{v} ", f"\t{v}", f"{v}\t "]), v, True
    v = r.randrange(100000)
    return str(v), v, False


def real_line(r):
    k = r.randrange(12)
    if k < 6:
        s = r.choice(["0", "0.0", "1", "-1", "3.25", "-0.5", "0.1", "123456789.125", "1e3", "1E-3", "2.5e10", "-0.0", "9007199254740993", "0.30000000000000004", "1.7976931348623157e308", "5e-324", "100000000000000000000000", repr(r.random()), repr(r.uniform(-1e6, 1e6)), str(r.randrange(-(10**6), 10**6)), f"{r.randrange(10**9)}.{r.randrange(10**9)}"])
        return s, float(s), False
    if k == 6:
        s = r.choice(["", "", "-", "abc", "1.2.3", "1,5", "1 2", "1e", "e5", ".", "--1", "1.5x", "0x1p3", "verdadeiro", "\u0661", "1_0.5", "1/2", "R$1", "1.5f"])
        return s, None, False
    if k == 7:
        s = r.choice(["+1.5", "1.", ".5", "-.25", "00012.5", "inf", "-inf", "NaN", "1e400", "-1e400", "infinity", "1e-400", " 2.5", "2.5 ", "\t7"])
        return s, float(s), True
    s = f"{r.randrange(1000)}.{r.randrange(1000)}"
    return s, float(s), False


class Hist:
    """A program written next to what it has to do with the stream"""

    def __init__(self, r, plain=False):
        self.r, self.src, self.out, self.lines = r, [], [], []
        self.n, self.calls, self.soft, self.plain = 0, 0, False, plain
        self.pre = []
        self.stop = None  # what ends the program: 'eof' | 'number' | 'bytes'
        self.sent = []  # (output before the answer, the line)
        self.left = r.choice([3, 6, 10, 20]) if r.random() < 0.9 else 60
        self.end = r.choice([None, None, "eof", "number", "number", "bytes"])
        self.crlf = r.random() < 0.25
        self.files = {}

    def name(self, p="v"):
        self.n += 1
        return f"{p}{self.n}_"

    def emit(self, s):
        if self.stop is None:
            self.out.append(s)

    # ------------------------------------------------ one call
    def prompt(self, show=True):
        """-> (expression, text)"""
        r = self.r
        s = r.choice(["", "? ", "n: ", "nome\n", "\n", "> ", "valor {x}", "é: ", "😀", "a b"]) if not self.plain else f"p{self.calls}> "
        return lit(s, r), s

    def line(self, kind):
        r = self.r
        last = self.left <= 1
        if last and self.end == "eof":
            self.stop = "eof"
            return None
        if last and self.end == "bytes" and not self.plain:
            self.stop = "bytes"
            self.lines.append(r.choice([b"\xff", b"abc\xff\xfe", b"\xc3", b"a\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80"]))
            return None
        while True:
            if kind == "t":
                s = v = line_text(r)
                soft = False
            elif kind == "i":
                s, v, soft = int_line(r)
            else:
                s, v, soft = real_line(r)
                if v is not None and v - v == 0 and is_tie(v):
                    continue
            if self.plain and (any(ord(x) < 32 or ord(x) == 127 for x in s) or len(s.encode()) > 3000):
                continue
            if s.endswith("\r"):
                continue
            bad = v is None
            if bad != (last and self.end == "number" and kind != "t"):
                continue
            if soft and not (last and self.end == "number") and r.random() < 0.7:
                continue
            break
        self.lines.append(s.encode())
        if bad:
            self.stop = "number"
        if soft:
            self.soft = True
            self.softs.append(len(self.out_len()))
        return v

    softs = ()

    def out_len(self):
        return "".join(self.out)

    def call(self, kind=None, prompt=None):
        """-> (expression, value); the value is taken from the stream now"""
        r = self.r
        kind = kind or r.choice("ttir")
        e, s = prompt or self.prompt()
        f = {"t": "leia", "i": "leia_int", "r": "leia_real"}[kind]
        return f"{f}({e})", self.take(kind, s)

    def take(self, kind, s):
        if self.stop:
            return {"t": "", "i": 0, "r": 0.0}[kind]
        self.emit(s)
        self.calls += 1
        n = len(self.lines)
        mark = len(self.out_len().encode("utf-8", "surrogatepass"))
        v = self.line(kind)
        self.left -= 1
        if len(self.lines) > n:
            self.sent.append((mark, len(self.lines) - 1))
        return v if v is not None else {"t": "", "i": 0, "r": 0.0}[kind]

    def via(self, kind=None):
        """A call made directly, by a function, a method or a module"""
        r = self.r
        kind = kind or r.choice("ttir")
        k = r.randrange(6)
        ty = {"t": "texto", "i": "int", "r": "real"}[kind]
        f = {"t": "leia", "i": "leia_int", "r": "leia_real"}[kind]
        e, s = self.prompt()
        if k == 0:
            n = self.name("pede")
            self.pre.append(f"func {n}(m: texto): {ty}\n  retorna {f}(m)\nfim")
            return f"{n}({e})", self.take(kind, s)
        if k == 1:
            n = self.name("pede")
            self.pre.append(f"func {n}(): {ty}\n  v: {ty} = {f}({e})\n  retorna v\nfim")
            return f"{n}()", self.take(kind, s)
        if k == 2:
            n = self.name("pede")
            self.pre.append(f"met texto::{n}(alvo): {ty}\n  retorna {f}(alvo)\nfim")
            return f"({e}).{n}()", self.take(kind, s)
        if k == 3 and kind == "t":
            self.files.setdefault("lib.ama", 'func pede(m: texto): texto\n  retorna leia(m)\nfim\n')
            return f"lib.pede({e})", self.take(kind, s)
        return f"{f}({e})", self.take(kind, s)

    def put(self, s):
        self.src.append(s)

    def show(self, e, v):
        self.put(self.r.choice([f"mostra {e}", f"escrevaln({e})", f'escreva({e})\nescreva("\\n")']))
        self.emit(self.form(v) + "\n")

    @staticmethod
    def form(v):
        if isinstance(v, bool):
            return "verdadeiro" if v else "falso"
        return real_text(v) if isinstance(v, float) else str(v)

    # ------------------------------------------------ one instruction
    def step(self):
        r = self.r
        k = r.randrange(17)
        ty = lambda kind: {"t": "texto", "i": "int", "r": "real"}[kind]
        if k <= 2:
            kind = r.choice("ttir")
            n = self.name()
            e, v = self.via(kind)
            self.put(f"{n}: {ty(kind)} = {e}")
            self.show(n, v)
        elif k == 3:
            # the value of the call is not used
            e, _ = self.via()
            self.put(e)
            if r.random() < 0.5:
                self.show(lit("depois", r), "depois")
        elif k == 4:
            e1, a = self.via("t")
            e2, b = self.via("t")
            n = self.name("f")
            self.pre.append(f'func {n}(a: texto, b: texto): texto\n  retorna f"[{{a}}|{{b}}]"\nfim')
            self.show(f"{n}({e1}, {e2})", f"[{a}|{b}]")
        elif k == 5:
            e1, a = self.via("r")
            e2, b = self.via("r")
            op = r.choice(["<", ">=", "==", "!="])
            w = {"<": a < b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
            self.show(f"{e1} {op} {e2}", w)
        elif k == 6:
            n = self.name()
            parts = [self.via(kind) for kind in "tir"[: r.choice([2, 3])]]
            if any('"' in e for e, _ in parts) or any("{" in e or "}" in e or "\\" in e for e, _ in parts):
                # the same with variables: an f-string can't hold these
                ns = []
                for e, v in parts:
                    m = self.name()
                    self.put(f"{m}: {ty('i' if isinstance(v, int) else 'r' if isinstance(v, float) else 't')} = {e}")
                    ns.append(m)
                self.show('f"' + "".join(f"<{{{m}}}>" for m in ns) + '"', "".join(f"<{self.form(v)}>" for _, v in parts))
            else:
                self.show('f"' + "".join(f"<{{{e}}}>" for e, _ in parts) + '"', "".join(f"<{self.form(v)}>" for _, v in parts))
        elif k == 7:
            m = r.choice([1, 2, 4])
            n = self.name()
            first = True
            kind = r.choice("ti")
            f = {"t": "leia", "i": "leia_int"}[kind]
            self.put(f'para i de 0..{m} faca\n  {n}: {ty(kind)} = {f}(f"{{i}}: ")\n  mostra {n}\nfim')
            for i in range(m):
                v = self.take(kind, f"{i}: ")
                self.emit(self.form(v) + "\n")
        elif k == 8:
            # until a given line
            n = self.name()
            key = r.choice(["fim", "sair", ""]) if not self.plain else "sair"
            self.put(f'{n}: texto = leia("")\nenquanto {n} != {lit(key, r)} faca\n  mostra f"({{{n}}})"\n  {n} = leia("mais ")\nfim')
            p = ""
            for _ in range(r.choice([0, 1, 3])):
                v = self.take("t", p)
                if v == key or self.stop:
                    break
                p = "mais "
                self.emit(f"({v})\n")
            else:
                v = None
            if v != key and not self.stop:
                self.forced(p, key)
        elif k == 9:
            n = r.choice([1, 2, 3])
            vs = [self.via("i") for _ in range(n)]
            self.show(f"[int: {', '.join(e for e, _ in vs)}]", V([v for _, v in vs]))
        elif k == 10:
            e, v = self.via("i")
            self.put(f"se {e} > 10 entao\n  mostra 1\nsenao\n  mostra 2\nfim")
            self.emit("1\n" if v > 10 else "2\n")
        elif k == 11:
            e, v = self.via("t")
            self.put(f"escolha {e}:\ncaso 'sim':\n  mostra 1\ncaso {lit(v if cl.writable(v) and not self.stop and len(v) < 200 else 'x', r)}:\n  mostra 2\nsenao:\n  mostra 3\nfim")
            self.emit("1\n" if v == "sim" else "2\n" if cl.writable(v) and len(v) < 200 else "2\n" if v == "x" else "3\n")
        elif k == 12:
            n = self.name("R")
            self.pre.append(f"registo {n}\n  a: texto\n  b: int\nfim")
            e1, a = self.via("t")
            m = self.name()
            self.put(f"{m}: {n} = {n}(b: 1, a: {e1})")
            self.show(f"{m}.a", a)
        elif k == 13:
            e, v = self.via("t")
            self.show(f"tam({e})", len(v) if v.isascii() else None) if v.isascii() else self.show(e, v)
        elif k == 14:
            e, v = self.via("t")
            n = self.name()
            self.put(f"{n}: texto? = {e}")
            self.show(f"{n}.valor", v)
        elif k == 15:
            v = r.choice(["texto", 5, 2.5, True])
            self.show(lit(v, r) if isinstance(v, str) else self.form(v), v)
        else:
            s = r.choice(["parte ", "...", ""])
            self.put(f"escreva({lit(s, r)})")
            self.emit(s)

    def forced(self, p, s):
        self.emit(p)
        self.calls += 1
        self.sent.append((len(self.out_len().encode("utf-8", "surrogatepass")), len(self.lines)))
        self.lines.append(s.encode())
        self.left -= 1

    def build(self):
        r = self.r
        self.softs = []
        if r.random() < 0.15 and not self.stop:
            # read while a module is being prepared
            self.files["lib.ama"] = f'func pede(m: texto): texto\n  retorna leia(m)\nfim\nguardado: texto = leia("lib? ")\n'
            v = self.take("t", "lib? ")
            if self.stop is None:
                self.show("lib.guardado", v)
        while self.left > 0 and self.stop is None:
            self.step()
        if self.stop is None:
            self.show(lit("pronto", r), "pronto")
        head = 'usa "lib" => lib\n' if self.files else ""
        self.files["main.ama"] = head + "\n".join(self.pre) + "\n" + "\n".join(self.src) + "\n"
        extra = []
        if self.stop != "eof" and r.random() < 0.3:
            extra = [line_text(r).encode() for _ in range(r.choice([1, 5, 40]))]
        # how the lines end
        ls = self.lines
        self.ended = [x + (b"\r\n" if self.crlf and r.random() < 0.6 else b"\n") for x in ls]
        if not extra and ls and ls[-1] and not ls[-1].endswith(b"\r") and r.random() < 0.5:
            self.ended[-1] = ls[-1]
        if self.stop == "bytes" and not extra and r.random() < 0.5:
            self.ended[-1] = ls[-1]
        self.stream = b"".join(self.ended) + b"\n".join(extra)
        return self


class V(list):
    def __str__(self):
        return "[" + ", ".join(map(str, self)) + "]"


WHAT = {None: "the end of the program", "eof": "a runtime error at the end of the input", "number": "a runtime error for a line that is no number", "bytes": "a runtime error for a line that is no text"}


def verdict(h, r, how):
    """-> None or (signature, message)"""
    want = h.out_len().encode("utf-8", "surrogatepass")
    if r.kind == "crash" and not r.reached or r.kind == "diag":
        return ("rejected", "a program that follows the rules was not compiled")
    if r.kind == "rterr" and h.soft:
        # one of the spellings that may be refused was refused
        e = parse_rterr(r.err)
        if e and "válido" in e[2] and any(r.out == want.decode("utf-8", "surrogatepass")[:k].encode("utf-8", "surrogatepass") for k in h.softs):
            return None
    if r.out != want:
        k = next((i for i, (a, b) in enumerate(zip(r.out, want)) if a != b), min(len(r.out), len(want)))
        return ("output", f"{how}: output differs at byte {k}\nexpected ...{want[max(0, k - 60):k + 60]!r}\ngot      ...{r.out[max(0, k - 60):k + 60]!r}")
    if h.stop is None:
        if r.kind != "ok":
            return ("outcome", f"{how}: expected {WHAT[None]}")
    else:
        if r.kind != "rterr" or r.rc != 1 or parse_rterr(r.err) is None:
            return ("outcome", f"{how}: expected {WHAT[h.stop]}")
    return None


def count(out, h):
    out.n["evaluations"] += 1
    out.n["input calls"] += h.calls
    out.n["lines given"] += len(h.lines)
    out.n["ended by " + str(h.stop)] += 1
    out.n["streams with CR LF"] += h.crlf
    out.n["streams without a final line end"] += not h.stream.endswith(b"\n")
    out.n["bytes of input"] += len(h.stream)


def streams(i, out, run):
    h = Hist(c.rng("s", i)).build()
    r = run.run(h.files, stdin=h.stream)
    count(out, h)
    out.sample(h.files["main.ama"] + "\n--- input\n" + h.stream.decode("utf-8", "replace")[:500])
    out.seen(h.files["main.ama"].encode("utf-8", "surrogatepass") + b"\0" + h.stream)
    v = verdict(h, r, "input from a file")
    if v:
        out.violation(v[0], v[1] + "\n" + r.brief(), {**h.files, "stdin.bin": h.stream, "expected_stdout.bin": h.out_len()})


# ---------------------------------------------------------------- live
PATIENCE = 10


class Live:
    kind = None


def live(i, out, run):
    """Each line is only sent once everything before it, its prompt included,
    was seen. A machine that holds its output back never gets the line."""
    r = c.rng("l", i)
    h = Hist(r, plain=True)
    h.left = min(h.left, 8)
    h.build()
    mode = ["pipe", "pipe, bytes apart", "terminal"][i % 3]
    if mode == "terminal":
        h.ended = [x + b"\n" for x in h.lines]
    run.write(h.files)
    want = h.out_len().encode()
    env = {**os.environ, "PYTHONPATH": run.sys.root, "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1", "RUST_BACKTRACE": "0"}
    fm = os.memfd_create("m")
    os.set_inheritable(fm, True)
    fd = os.memfd_create("d")
    os.set_inheritable(fd, True)
    env["AMV_MARK_FD"], env["AMV_DUMP_FD"] = str(fm), str(fd)
    fe = os.memfd_create("e")
    if mode == "terminal":
        m, s = pty.openpty()
        a = termios.tcgetattr(s)
        a[1] &= ~termios.OPOST
        a[3] &= ~termios.ECHO
        termios.tcsetattr(s, termios.TCSANOW, a)
        fi, fo = m, m
        p = subprocess.Popen(["/opt/venv/bin/python", "-m", "amanda", "main.ama"], cwd=run.dir, stdin=s, stdout=s, stderr=fe, env=env, pass_fds=(fm, fd), start_new_session=True)
        os.close(s)
    else:
        p = subprocess.Popen(["/opt/venv/bin/python", "-m", "amanda", "main.ama"], cwd=run.dir, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=fe, env=env, pass_fds=(fm, fd), bufsize=0)
        fi, fo = p.stdin.fileno(), p.stdout.fileno()
    got = b""
    po = select.poll()
    po.register(fo, select.POLLIN)

    def read(upto, limit):
        nonlocal got
        t = time.time() + limit
        while len(got) < upto:
            left = t - time.time()
            if left <= 0 or not po.poll(left * 1000):
                return time.time() < t
            try:
                b = os.read(fo, 1 << 16)
            except OSError:
                b = b""
            if not b:
                return True
            got += b
        return True

    late = None
    for mark, k in h.sent:
        if not read(mark, PATIENCE):
            late = (mark, k)
            break
        if got[:mark] != want[:mark] or len(got) > mark:
            break
        line = h.ended[k]
        try:
            if mode == "pipe, bytes apart" and len(line) < 200:
                for j in range(len(line)):
                    os.write(fi, line[j : j + 1])
                    if j < 12:
                        time.sleep(0.002)
            else:
                b = line
                while b:
                    b = b[os.write(fi, b) :]
        except BrokenPipeError:
            break
        out.n["lines sent after their prompt was seen"] += 1
    if mode == "terminal":
        if h.stop == "eof" and late is None:
            read(len(want), PATIENCE)
            os.write(fi, b"\x04")
    else:
        p.stdin.close()
    read(1 << 40, PATIENCE)
    try:
        p.wait(PATIENCE)
        hung = False
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        hung = True
    if mode == "terminal":
        os.close(m)
    else:
        p.stdout.close()
    from rt.run import Result, slurp

    q = Result()
    q.rc, q.sig, q.out, q.err, q.module, q.timeout, q.cpu, q.rss = p.returncode, max(0, -p.returncode), got, slurp(fe), b"", hung, 0, 0
    q.reached = bool(slurp(fm))
    os.close(fd)
    count(out, h)
    out.n["live: " + mode] += 1
    out.seen(h.files["main.ama"].encode() + b"\1" + b"".join(h.ended))
    if late:
        v = ("late", f"input from a {mode}: the output before line {late[1] + 1} ({late[0]} bytes) was not seen while the program waited for the line\nseen {got!r}")
    else:
        v = verdict(h, q, f"input from a {mode}")
    if v:
        out.violation("live " + v[0], v[1] + "\n" + q.brief(), {**h.files, "stdin.bin": b"".join(h.ended), "expected_stdout.bin": want})


K = float(os.environ.get("AMV_SCALE", "1"))
c.pmap(streams, int((60000 if c.thorough else 5000) * K), label="s")
if not c.out.viol:
    c.pmap(live, int((4000 if c.thorough else 240) * K), label="l", nproc=8)


def probe(e, run):
    r = run.run({"main.ama": e["program"]}, stdin=e["stdin"])
    return r.out.decode("utf-8", "replace") != e["expected"]


c.probe_known(probe)
c.assumptions = ["blanks around a number, a leading '+', spellings such as 'inf' or '1.' may be accepted with their value or refused"]
c.finish()
