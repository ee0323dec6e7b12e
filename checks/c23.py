"""C23: the command's exit status, streams and debug listing, over outcomes
crossed with what the streams are connected to, spellings of the path, working
directories, locales and flags."""
import _boot
import os
import pty
import re
import select
import shutil
import socket
import subprocess
import termios
import time
from rt.check import Check
from rt import bdoc, bcode, lang
from rt import clusters as cl
from rt.forms import COMBOS, combo, KINDS, big
from rt.gen import Gen
from rt.mods import World
from rt.run import parse_rterr, slurp, mem

c = Check("C23", "programs whose output and outcome are known (completed, every kind of runtime error, syntax, type and import errors, files that do not exist) run by the real command with standard output as pipe, slow pipe, file, appended file, terminal, socket and together with standard error, with every spelling of the path, several working directories and locales, with and without the debug flag; and debug listings of random programs compared with the module handed to the machine; non-trivial: distinct (program, configuration) fully compared, distinct listings")
c.system()
bcode.renumber()
AMA = b""


# ------------------------------------------------- programs of known outcome
RT = [
    ("a: int = {z}\nmostra 1 // a", "division"),
    ("a: int = {z}\nmostra 7 % a", "modulo"),
    ("v: [int] = [int: 1, 2]\nmostra v[{n}]", "index"),
    ('mostra "abc"[{n}]', "text index"),
    ("o: int? = nulo\nmostra o.valor", "no value"),
    ('mostra "{t}x" :> int', "conversion"),
    ('mostra "{t}x" :> real', "conversion"),
    ("func sem_fim(n: int): int\n  retorna sem_fim(n + 1) + 1\nfim\nmostra sem_fim(0)", "depth"),
    ('mostra leia("")', "input"),
    ("v: [int] = vec(int, 0 - {n})", "vector"),
    ("v: [[int]] = vec(int, 2, 2)\nremova(v[1], {n})", "index"),
    ("func f(a: int): int\n  retorna g_(a)\nfim", None),
    ("x: indef = \"{t}\"\ny: int = (x :> int)", "conversion"),
]
CT = ["mostra 1 +", "x: int = \"a\"", "mostra nada_disto", "fim", "func f(: int", "se 1 entao\n  mostra 2\nfim", 'usa "nao_existe_mod"', "mostra 'aberto", "retorna 1", "x: int = 1\nx: int = 2", "@@@", "mostra (1", "escreva()", "a: NaoTipo = 1", "quebra", "func f(): int\n  mostra 1\nfim", "mostra 12 + verdadeiro", "\ue000"]


class Known:
    """A program together with all it must print"""

    def __init__(self, r, end=None, size=None):
        self.r, self.files = r, {}
        self.end = end if end is not None else r.choice(["ok", "ok", "ok", "rt", "rt", "rt", "ct", "ct"])
        src, out = [], []
        r_ = r
        for _ in range(size if size is not None else r.choice([0, 1, 3, 8, 20])):
            self.piece(src, out)
        self.depth = 0
        if self.end == "rt":
            while True:
                t, kind = r.choice(RT)
                if kind:
                    break
            src.append(t.replace("{z}", "0").replace("{n}", str(r.choice([5, 99, 12345]))).replace("{t}", "abc"))
            self.kind = kind
            after = []
            self.piece(after, [])
            src += after
        elif self.end == "ct":
            t = r.choice(CT)
            self.kind = "compile"
            if t.startswith("usa"):
                src.insert(0, t)
            elif r.random() < 0.2 and t not in ("retorna 1",):
                # the error is in a module
                self.files["errado.ama"] = 'mostra "nunca"\n' + t + "\n"
                src.insert(0, 'usa "errado" => errado')
            else:
                src.append(t)
        else:
            self.kind = "ok"
        if not any(s.startswith("usa") for s in src) and r.random() < 0.2 and self.end != "ct":
            s2, o2 = [], []
            for _ in range(2):
                self.piece(s2, o2, top=False)
            self.files["mod_aux.ama"] = "\n".join(s2) + "\n"
            src.insert(0, 'usa "mod_aux" => mod_aux')
            out = o2 + out
        self.src = "\n".join(src) + r.choice(["", "\n", "\n\n# fim"])
        self.out = "".join(out)
        self.want = b"" if self.end == "ct" else self.out.encode()

    n = 0

    def piece(self, src, out, top=True):
        r = self.r
        Known.n += 1
        k = r.randrange(9)
        s = "".join(cl.text(r)) if r.random() < 0.5 else r.choice(["olá", "", "a b", "x" * 300, "linha\noutra"])
        if not cl.writable(s):
            s = "?"
        e = cl.literal(s, r)
        if k == 0:
            src.append(f"mostra {e}")
            out.append(s + "\n")
        elif k == 1:
            src.append(f"escreva({e})")
            out.append(s)
        elif k == 2:
            src.append(f"escrevaln({e})")
            out.append(s + "\n")
        elif k == 3:
            n = r.choice([2, 5, 50, 400])
            src.append(f"para i{Known.n}_ de 0..{n} faca\n  escreva(i{Known.n}_)\n  escreva(\" \")\nfim")
            out.append("".join(f"{i} " for i in range(n)))
        elif k == 4:
            n = r.choice([1, 30, 300])
            src.append(f"para i{Known.n}_ de 0..{n} faca\n  mostra f\"{{i{Known.n}_}} {{i{Known.n}_ * i{Known.n}_}}\"\nfim")
            out.append("".join(f"{i} {i * i}\n" for i in range(n)))
        elif k == 5:
            src.append(f"func g{Known.n}_(a: texto)\n  mostra a\n  escreva(1)\nfim\ng{Known.n}_({e})")
            out.append(s + "\n1")
        elif k == 6:
            v = r.randrange(-1000, 1000)
            src.append(f"mostra {v}" if v >= 0 else f"mostra 0 - {-v}")
            out.append(f"{v}\n")
        elif k == 7:
            src.append("mostra [real: 1.5, 2.0]\nmostra verdadeiro\nmostra nulo == nulo" if False else "mostra [real: 1.5, 2.0]\nmostra verdadeiro")
            out.append("[1.5, 2.0]\nverdadeiro\n")
        else:
            src.append(f"se 1 < 2 entao\n  mostra {e}\nsenao\n  mostra 2\nfim")
            out.append(s + "\n")


def outcome(k, rc, sout, serr, names, reached=None):
    """-> None or (signature, message)"""
    t = serr.decode("utf-8", "replace")
    if "Traceback (most recent call last)" in t or "panicked at" in t:
        return "crash", "the command crashed"
    if sout != k.want:
        j = next((i for i, (a, b) in enumerate(zip(sout, k.want)) if a != b), min(len(sout), len(k.want)))
        return "output", f"standard output differs at byte {j} (of {len(k.want)} expected, {len(sout)} seen)\nexpected ...{k.want[max(0, j - 40):j + 60]!r}\ngot      ...{sout[max(0, j - 40):j + 60]!r}"
    if k.end == "ok":
        if rc != 0:
            return "status", f"the program completed but the exit status is {rc}"
        if serr:
            return "stderr", "the program completed but something was written on standard error"
    elif k.end == "rt":
        if rc != 1:
            return "status", f"the program stopped with a runtime error but the exit status is {rc}"
        if parse_rterr(serr) is None:
            return "report", "no report of the runtime error on standard error"
    else:
        if "Ficheiro" not in t or not t.strip():
            return "report", "no diagnostic on standard error"
        if names and not any(n in t for n in names):
            return "report", "the diagnostic does not have the name of the file"
        if rc == 1 and "Fluxo de execução" in t:
            return "ran", "the program was run"
    return None


def fast(i, out, run):
    """The outcome with and without the debug flag"""
    r = c.rng("f", i)
    k = Known(r)
    files = {**k.files, "main.ama": k.src}
    listing = os.path.join(run.dir, "debug.amasm")
    q = run.run(files)
    out.n["evaluations"] += 1
    out.n["outcome " + k.kind] += 1
    out.seen(k.src)
    out.sample(k.src)
    names = ["main.ama", *k.files]
    bad = outcome(k, q.rc, q.out, q.err, names)
    if not bad and k.end == "ct" and q.reached:
        bad = ("ran", "a program with a compile error reached the machine")
    if bad:
        out.violation("plain " + bad[0], bad[1] + "\n" + q.brief(), {**files, "expected_stdout.txt": k.want})
        return
    stale = r.random() < 0.5
    if os.path.exists(listing):
        os.unlink(listing)
    if stale:
        with open(listing, "w") as f:
            f.write("antigo\n" * 5000)
    d = flagged(run, r, files)
    out.n["evaluations"] += 1
    out.n["runs with the debug flag"] += 1
    bad = changed(q, d)
    if not bad and q.module:
        bad = listed(out, q, listing)
    if bad:
        out.violation("debug " + bad[0], bad[1] + "\n--- without\n" + q.brief() + "--- with\n" + d.brief(), {**files, "expected_stdout.txt": k.want})


def flagged(run, r, files):
    f = r.choice(["-d", "--debug"])
    if r.random() < 0.5:
        return run.run(files, args=(f,))
    return run.run(files, args=("main.ama",), path=f)


def changed(q, d):
    for w in ("rc", "out", "err", "reached", "module"):
        a, b = getattr(q, w), getattr(d, w)
        if a != b:
            return w, f"the debug flag changes the run: {dict(rc='exit status', out='standard output', err='standard error', reached='whether the program is run', module='the module that is run')[w]}"
    return None


# --------------------------------------------------------------- listing
def expected_listing(m):
    s = [f".entry_space: {m['entry_locals']}\n.consts\n"]
    s += [f"{i}: {v}\n" for i, v in enumerate(m["constants"])]
    s.append(".names\n")
    s += [f"{i}: {v}\n" for i, v in enumerate(m["names"])]
    s.append(".ops\n")
    for at, (n, a, _) in bcode.decode(m["ops"]).items():
        s.append(" ".join([f"{at}:", n, *map(str, a)]) + "\n")
    return "".join(s)


def listed(out, q, path):
    try:
        m = bdoc.module(q.module)
        want = expected_listing(m)
    except (bdoc.Bad, bcode.Bad):
        out.n["module not readable (not judged here)"] += 1
        return None
    try:
        with open(path, "rb") as f:
            got = f.read()
    except FileNotFoundError:
        return "no listing", "no listing was written"
    out.n["listings compared"] += 1
    out.n["instructions listed"] += len(bcode.decode(m["ops"]))
    out.n["constants listed"] += len(m["constants"])
    out.n["names listed"] += len(m["names"])
    out.seen(got)
    if got != want.encode():
        g, w = got.decode("utf-8", "replace").split("\n"), want.split("\n")
        j = next((i for i, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))
        return "listing", f"the listing is not of the module that is run. Line {j + 1}: {g[j:j + 1]}, the module has {w[j:j + 1]}"
    return None


BASE = dict(funcs=4, methods=2, depth=4, edepth=3, stmts=9, blk=4, trace=0.4, unsafe=0.05, free=0)
P = [BASE, {**BASE, "methods": 4, "regs": 2, "unis": 2}, {**BASE, "iguala": 3, "unis": 2, "seiguala": 3}, {**BASE, "vecs": 3, "opts": 3, "regs": 2}]


def listings(i, out, run):
    r = c.rng("d", i)
    k = i % 5
    if k == 3:
        a = r.choice(COMBOS)
        try:
            files = {"main.ama": combo_src(r)}
        except Exception:
            return
    elif k == 4:
        kind = r.choice(KINDS)
        n = r.choice([10, 255, 256, 300]) if kind != "columns" else 8
        files = {"main.ama": big(kind, n, r)[kind]() + "\n"}
    elif k == 2:
        w = World(r)
        files = w.files(r.random())
        w.path = "main.ama"
    else:
        files = {"main.ama": lang.render(Gen(r, **P[i % len(P)]).program(), r.random(), wild=False)}
    if "main.ama" not in files:
        out.n["without a main file"] += 1
        return
    q = run.run(files, cpu=20)
    listing = os.path.join(run.dir, "debug.amasm")
    if os.path.exists(listing):
        os.unlink(listing)
    d = flagged(run, r, files)
    out.n["evaluations"] += 2
    out.n["outcome of random programs: " + q.kind] += 1
    bad = None
    if not (q.timeout or d.timeout):
        bad = changed(q, d)
        if not bad and q.rc == 0 and q.kind == "ok" and q.err:
            bad = ("stderr", "exit status 0 with something on standard error")
        if not bad and q.kind == "rterr" and (q.rc != 1 or parse_rterr(q.err) is None):
            bad = ("status", f"exit status {q.rc} for what standard error reports")
        if not bad and q.module:
            bad = listed(out, q, listing)
    if bad:
        out.violation("debug " + bad[0], bad[1] + "\n--- without\n" + q.brief()[:3000] + "--- with\n" + d.brief()[:3000], files)
    for p in files:
        os.unlink(os.path.join(run.dir, p))


def combo_src(r):
    f, t, pl = r.choice(COMBOS)
    xs, program = combo(r, t, f, pl)
    return program(xs)


# --------------------------------------------------------- real processes
SINKS = ["pipe", "slow pipe", "file", "append", "terminal", "socket", "together (pipe)", "together (file)", "null", "stderr closed by file"]
ENVS = [{}, {}, {"PYTHONUTF8": None}, {"PYTHONUTF8": None, "LC_ALL": "C"}, {"PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "LC_ALL": "C"}, {"PYTHONUTF8": "0", "LC_ALL": "C.UTF-8"}, {"PYTHONUNBUFFERED": "1"}, {"RUST_BACKTRACE": "1"}, {"TERM": "dumb", "NO_COLOR": "1"}]


def spawn(argv, cwd, env, stdout, stderr, stdin=subprocess.DEVNULL, root=None):
    e = {**os.environ, "PYTHONPATH": root, "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1", "RUST_BACKTRACE": "0"}
    for x in ("AMV_DUMP_FD", "AMV_MARK_FD", "AMV_NORUN"):
        e.pop(x, None)
    e.update(env)
    e = {a: b for a, b in e.items() if b is not None}
    return subprocess.Popen(["/opt/venv/bin/python", "-m", "amanda", *argv], cwd=cwd, stdin=stdin, stdout=stdout, stderr=stderr, env=e, start_new_session=True)


def drain(fd, slow=False):
    b = b""
    while True:
        if slow:
            time.sleep(0.001)
        try:
            x = os.read(fd, 700 if slow else 1 << 16)
        except OSError:
            return b
        if not x:
            return b
        b += x


def execute(sink, argv, cwd, env, root, d):
    """-> (status, stdout, stderr, both or None)"""
    fe = mem("e")
    err = fe
    both = None
    if sink in ("pipe", "slow pipe"):
        a, b = os.pipe()
        p = spawn(argv, cwd, env, b, err, root=root)
        os.close(b)
        so = drain(a, sink == "slow pipe")
        os.close(a)
    elif sink == "socket":
        a, b = socket.socketpair()
        p = spawn(argv, cwd, env, b.fileno(), err, root=root)
        b.close()
        so = drain(a.fileno())
        a.close()
    elif sink == "terminal":
        a, b = pty.openpty()
        t = termios.tcgetattr(b)
        t[1] &= ~termios.OPOST
        termios.tcsetattr(b, termios.TCSANOW, t)
        p = spawn(argv, cwd, env, b, err, root=root)
        os.close(b)
        so = drain(a)
        os.close(a)
    elif sink == "together (pipe)":
        a, b = os.pipe()
        p = spawn(argv, cwd, env, b, b, root=root)
        os.close(b)
        both = drain(a)
        os.close(a)
    elif sink == "null":
        p = spawn(argv, cwd, env, subprocess.DEVNULL, err, root=root)
        so = None
    else:
        f = os.path.join(d, "saida")
        if sink == "append":
            with open(f, "wb") as x:
                x.write(b"antes\n")
        fd = os.open(f, os.O_WRONLY | os.O_CREAT | (os.O_APPEND if sink == "append" else os.O_TRUNC), 0o600)
        p = spawn(argv, cwd, env, fd, fd if sink.startswith("together") else err, root=root)
        os.close(fd)
        p.wait(60)
        with open(f, "rb") as x:
            so = x.read()
        os.unlink(f)
        if sink == "append":
            so = so[6:] if so.startswith(b"antes\n") else b"?" + so
        if sink.startswith("together"):
            both = so
    try:
        p.wait(60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    se = slurp(fe)
    if both is not None:
        return p.returncode, None, se, both
    return p.returncode, so, se, None


NAMES = ["main.ama", "main.ama", "a.ama", "programa", "x.txt", "a.b.ama", "a.ama.ama", "ficheiro com espaços.ama", "ação_字.ama", "-x.ama", ".oculto.ama", "MAIN.AMA", "e.ama", "fim.ama", "main", "a'b.ama", 'a"b.ama', "a%sb{}.ama", "c\u0327.ama", b"n\xe3o.ama", b"\xff\xfe.ama", "n" * 200 + ".ama", "a\nb.ama"]


def paths(r, top, name):
    """-> (cwd, argument, directory of the file)"""
    name = os.fsencode(name)
    k = r.randrange(8)
    top = os.fsencode(top)
    sub = os.path.join(top, r.choice([b"sub", "dir com espaço".encode(), b"a/b/c", "ç".encode()]))
    os.makedirs(sub, exist_ok=True)
    dot = b"./" if name.startswith(b"-") else b""
    if k == 0:
        return top, dot + name, top
    if k == 1:
        return top, b"./" + name, top
    if k == 2:
        return top, os.path.join(os.path.relpath(sub, top), name), sub
    if k == 3:
        return sub, os.path.join(os.path.relpath(top, sub), name), top
    if k == 4:
        return sub, os.path.join(top, name), top
    if k == 5:
        return b"/", os.path.join(sub, name), sub
    if k == 6:
        return top, os.path.join(os.path.relpath(sub, top), b"..", b".", os.path.relpath(sub, top).split(b"/")[0], name), os.path.join(top, os.path.relpath(sub, top).split(b"/")[0]) if b"/" not in os.path.relpath(sub, top) else None
    # a link to the directory
    l = os.path.join(top, b"ligacao")
    if os.path.lexists(l):
        os.unlink(l)
    os.symlink(sub, l)
    return top, os.path.join(b"ligacao", name), sub


def real(i, out, run):
    r = c.rng("r", i)
    k = Known(r)
    sink = SINKS[i % len(SINKS)] if r.random() < 0.8 else "pipe"
    if sink == "stderr closed by file":
        sink = "file"
    if r.random() < 0.1 and k.end == "ok":
        n = r.choice([20000, 60000])
        k = Known(r, "ok", 1)
        k.src += f"\npara grande_ de 0..{n} faca\n  mostra grande_\nfim\nescreva('sem fim de linha')"
        k.want = (k.out + "".join(f"{x}\n" for x in range(n)) + "sem fim de linha").encode()
        k.kind = "large"
    top = os.path.join(run.dir, "t")
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    name = r.choice(NAMES)
    cwd, arg, where = paths(r, top, name)
    if where is None:
        cwd, arg, where = os.fsencode(top), b"./" + os.fsencode(name), os.fsencode(top)
    if k.files and cwd == b"/":
        cwd = where
    with open(os.path.join(where, os.fsencode(name)), "wb") as f:
        f.write(k.src.encode())
    for n, t in k.files.items():
        # modules are looked for in the working directory
        with open(os.path.join(cwd, os.fsencode(n)), "wb") as f:
            f.write(t.encode())
    debug = r.choice([[], [], [b"-d"], [b"--debug"]]) if cwd != b"/" else []
    argv = debug + [arg] if r.random() < 0.7 else [arg] + debug
    env = r.choice(ENVS)
    rc, so, se, both = execute(sink, argv, cwd, env, run.sys.root, run.dir)
    out.n["evaluations"] += 1
    out.n["real process: stdout is " + sink] += 1
    out.n["real process: outcome " + k.kind] += 1
    out.n["real process: debug flag"] += bool(debug)
    out.n["bytes of output"] += len(k.want)
    out.seen(repr((k.src, sink, argv, env)))
    # the spelling of the name depends on the locale
    shown = os.fsencode(name)
    names = [shown.decode(), *k.files] if shown.isascii() and b"\n" not in shown else None
    if both is not None:
        if not both.startswith(k.want):
            bad = ("order", f"with both streams together, the output is not first\nexpected {k.want[-200:]!r}\ngot {both[-600:]!r}")
        else:
            bad = outcome(k, rc, k.want, both[len(k.want):], names)
    else:
        bad = outcome(k, rc, k.want if so is None else so, se, names)
    if not bad and debug and k.end != "ct":
        try:
            with open(os.path.join(cwd, b"debug.amasm"), "rb") as f:
                text = f.read().decode()
            if not text.startswith(".entry_space: ") or "HALT" not in text.split("\n")[-2]:
                bad = ("listing", "the listing is not complete")
        except FileNotFoundError:
            bad = ("listing", "no listing was written in the working directory")
    if bad:
        out.violation(f"real {bad[0]}", f"stdout is {sink}, arguments {argv}, cwd {cwd}, environment {env}, exit status {rc}\n{bad[1]}\n--- stderr\n{(se or both or b'')[-1500:].decode('utf-8', 'replace')}", {"program.ama": k.src, **k.files, "expected_stdout.txt": k.want})
    shutil.rmtree(top, ignore_errors=True)


def missing(i, out, run):
    r = c.rng("m", i)
    top = os.path.join(run.dir, "t")
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(os.path.join(top, "dir.ama"))
    with open(os.path.join(top, "existe.ama"), "w") as f:
        f.write("mostra 1\n")
    os.symlink("nada.ama", os.path.join(top, "perdida.ama"))
    name = r.choice(["nada.ama", "existe", "Existe.ama", "existe.ama/", "existe.ama/x.ama", "dir.ama", "perdida.ama", "x/y/z.ama", "../nao_ha.ama", "não há.ama", "/nao/ha.ama", "existe.ama ", "n" * 300, "a\tb", "dir.ama/nada"])
    debug = r.choice([[], ["-d"]])
    sink = r.choice(["pipe", "file", "terminal"])
    rc, so, se, _ = execute(sink, debug + [name], top, r.choice(ENVS[:3]), run.sys.root, run.dir)
    out.n["evaluations"] += 1
    out.n["missing files"] += 1
    out.seen(repr((name, debug, sink)))
    t = se.decode("utf-8", "replace")
    bad = None
    if rc == 0 or rc is None or rc < 0:
        bad = f"the exit status is {rc}"
    elif so:
        bad = f"something on standard output: {so[:200]!r}"
    elif "Traceback" in t:
        bad = "the command crashed"
    elif os.path.basename(name.rstrip("/")).strip() not in t:
        bad = "the file is not named"
    if bad:
        out.violation("missing", f"file {name!r} does not exist: {bad}\n{t[-800:]}", {"name.txt": name})
    shutil.rmtree(top, ignore_errors=True)


K = float(os.environ.get("AMV_SCALE", "1"))
c.pmap(fast, int((30000 if c.thorough else 1200) * K), label="f")
c.pmap(listings, int((30000 if c.thorough else 900) * K), label="d")
if not c.out.viol:
    c.pmap(real, int((8000 if c.thorough else 400) * K), label="r")
    c.pmap(missing, int((600 if c.thorough else 60) * K), label="m")


def probe(e, run):
    r = run.run({"main.ama": e["program"]})
    return r.out.decode("utf-8", "replace") != e["expected"]


c.probe_known(probe)
c.assumptions = ["the format of a line of the listing is 'offset: INSTRUCTION operands'; what is compared is that the listing holds the module's own contents", "a standard output that refuses data is not exercised"]
c.finish()
