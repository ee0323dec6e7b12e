"""C18: the same sources compiled and run by processes that differ in
everything that should not matter; modules, outputs and file trees are
compared."""
import _boot
import gc
import hashlib
import json
import os
import pickle
import subprocess
import sys

HERE = os.path.abspath(__file__)


def tree(d):
    out = {}
    for base, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x != "__pycache__"]
        for f in ds + fs:
            p = os.path.join(base, f)
            st = os.lstat(p)
            h = None
            if f in fs:
                with open(p, "rb") as fh:
                    h = hashlib.md5(fh.read()).hexdigest()
            out[os.path.relpath(p, d)] = (st.st_mode, st.st_mtime_ns if f in fs else 0, h)
    return out


def changed(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


# what each process does differently
VARIANTS = [
    dict(seed="0"),
    dict(seed="1", name="dot"),
    dict(seed="2", args=["-d"]),
    dict(seed="3", name="abs"),
    dict(seed="4", env={"LC_ALL": "C", "LANG": "pt_PT", "TZ": "Asia/Tokyo", "TERM": "dumb", "COLUMNS": "20", "USER": "x", "AMANDA": "1", "PYTHONHOME": None, "PWD": "/"}),
    dict(seed="5", seq=1),
    dict(seed="random", name="up"),
    dict(seed="17", args=["--debug"], name="dots"),
]


def worker(k, base, root, outfile):
    """Runs every program in this process' conditions"""
    from rt.run import Runner

    v = VARIANTS[k]

    class S:
        pass

    s = S()
    s.root = root
    Runner.preload(s)
    with open(os.path.join(base, "programs.pickle"), "rb") as f:
        progs = pickle.load(f)
    run = Runner(s, os.path.join(base, f"w{k}"))
    home = os.path.join(base, f"home{k}")
    os.makedirs(home)
    os.environ["HOME"] = os.environ["TMPDIR"] = home
    res = []
    earlier = []
    root0, home0 = tree(root), tree(home)
    gc.collect()
    gc.freeze()
    for n, files in enumerate(progs):
        run.dir = os.path.join(base, f"w{k}", f"p{n}")
        os.makedirs(os.path.join(run.dir, "outro"))
        run.write(files)
        t0 = tree(run.dir)
        single = len(files) == 1
        cwd, path = run.dir, "main.ama"
        name = v.get("name")
        if name == "dot":
            path = "./main.ama"
        elif name == "abs":
            path = os.path.join(run.dir, "main.ama")
        elif name == "dots":
            path = "outro/../main.ama"
        elif name == "up" and single:
            cwd, path = os.path.join(run.dir, "outro"), "../main.ama"
        run.before = None
        if v.get("seq"):
            before = earlier[-v["seq"] :]

            def prelude(main):
                # other programs are compiled first, in the same process
                fd = os.environ.pop("AMV_DUMP_FD")
                os.environ["AMV_NORUN"] = "1"
                err, here = sys.stderr, os.getcwd()
                sys.stderr = open(os.devnull, "w")
                for d in before:
                    os.chdir(d)
                    sys.argv = ["amanda", "main.ama"]
                    try:
                        main()
                    except SystemExit:
                        pass
                os.chdir(here)
                sys.stderr = err
                del os.environ["AMV_NORUN"]
                os.environ["AMV_DUMP_FD"] = fd

            run.before = prelude
        r = run.run({}, args=v.get("args", ()), cwd=cwd, path=path)
        t1 = tree(run.dir)
        ch = changed(t0, t1)
        listing = None
        if v.get("args") and r.reached:
            want = [os.path.relpath(os.path.join(cwd, "debug.amasm"), run.dir)]
            if ch == want:
                with open(os.path.join(cwd, "debug.amasm"), "rb") as f:
                    listing = f.read()
                ch = []
            elif not ch:
                ch = ["(the listing was not written)"]
        res.append((r.kind, r.rc, r.out, r.err, r.module, ch, listing, path))
        earlier.append(run.dir)
    ch = changed(root0, tree(root)) + changed(home0, tree(home))
    with open(outfile, "wb") as f:
        pickle.dump((res, ch), f)


if len(sys.argv) > 1 and sys.argv[1] == "--worker":
    sys.setrecursionlimit(60000)
    worker(int(sys.argv[2]), *sys.argv[3:6])
    sys.exit(0)

from rt.check import Check
from rt import lang, pats
from rt.gen import Gen
from rt.mods import World
from rt.lang import *

c = Check("C18", "random programs, graphs of modules, programs that stop with errors and programs that are rejected, each compiled and run by processes with different hash seeds, names for the file, working directories, environments, debug flag and programs compiled before in the same process; module bytes, outputs, status and the file trees are compared; non-trivial: distinct program run in every condition")
c.system()


def program(i):
    r = c.rng("p", i)
    k = i % 8
    if k in (0, 1, 2):
        return {"main.ama": lang.render(Gen(r, funcs=4, methods=3, regs=2, unis=2, iguala=2, seiguala=2, unsafe=0.1 if k else 0.01, free=0).program(), r.random(), wild=r.random() < 0.3)}
    if k == 3:
        # methods of basic types, vectors
        p = Gen(r, methods=8, funcs=1, vecs=2, opts=2).program()
        return {"main.ama": lang.render(p, r.random())}
    if k in (4, 5):
        return World(r, profile=dict(methods=3)).files(r.random())
    if k == 6:
        # rejected: patterns in fault are listed
        ts = pats.Types(r)
        ty = r.choice(ts.unis)
        rows = pats.Rows(r).rows(ty, exhaustive=False)
        p = Decl("v", ty)
        f = Func("f", [p], VOID)
        f.body = [N("iguala", None, [N("var", ty, x=p)], [(q, "block", [N("mostra", None, [N("lit", INT, x=j)])]) for j, q in enumerate(rows)])]
        return {"main.ama": lang.render(ts.decls() + [N("func", None, [], f)], r.random())}
    # rejected: a random word of a program is replaced by another
    src = lang.render(Gen(r, funcs=3, methods=2, unis=2).program(), r.random())
    ws = src.split(" ")
    for _ in range(r.choice([1, 1, 2])):
        a, b = r.randrange(len(ws)), r.randrange(len(ws))
        ws[a] = ws[b]
    return {"main.ama": " ".join(ws)}


N_ = c.scale(240, 12000)
BATCH = 600
for start in range(0, N_, BATCH):
    progs = [program(i) for i in range(start, min(N_, start + BATCH))]
    base = os.path.join(c.sys.dir, f"batch{start}")
    os.makedirs(base)
    with open(os.path.join(base, "programs.pickle"), "wb") as f:
        pickle.dump(progs, f)
    ps = []
    for k, v in enumerate(VARIANTS):
        env = dict(os.environ, PYTHONHASHSEED=v["seed"], PYTHONUTF8="1")
        for x, y in v.get("env", {}).items():
            if y is None:
                env.pop(x, None)
            else:
                env[x] = y
        ps.append(subprocess.Popen(["/opt/venv/bin/python", HERE, "--worker", str(k), base, c.sys.root, os.path.join(base, f"out{k}")], env=env, stderr=subprocess.PIPE))
    outs = []
    for k, p in enumerate(ps):
        _, err = p.communicate()
        if p.returncode:
            print(f"C18: process {k} failed\n" + err.decode("utf-8", "replace")[-2000:], file=sys.stderr)
            sys.exit(2)
        with open(os.path.join(base, f"out{k}"), "rb") as f:
            outs.append(pickle.load(f))
    for k, (_, ch) in enumerate(outs):
        if ch:
            c.out.violation("files-elsewhere", f"running programs changed {ch[:5]} (the system's own files, HOME or TMPDIR)", {})
    for n, files in enumerate(progs):
        c.out.n["evaluations"] += 1
        ref = outs[0][0][n]
        c.out.n["kind " + ref[0]] += 1
        c.out.seen("\0".join(files.values()))
        if n < 3:
            c.out.sample(list(files.values())[0])
        lst = None
        for k, v in enumerate(VARIANTS):
            g = outs[k][0][n]
            c.out.n["runs"] += 1
            c.out.n["module bytes compared"] += len(g[4])
            what = None
            diag = ref[0] == "diag"
            far = diag and v.get("name") in ("abs", "up", "dots", "dot")
            cut = (lambda e: e.split(b"\n", 2)[-1]) if far else (lambda e: e)
            if g[5]:
                what = ("files", f"running the program changed {g[5]}")
            elif g[0] != ref[0] or g[1] != ref[1]:
                what = ("outcome", f"outcome {g[:2]} instead of {ref[:2]}")
            elif g[4] != ref[4]:
                what = ("module", "the module is not the same")
            elif g[2] != ref[2]:
                what = ("output", "the output is not the same")
            elif cut(g[3]) != cut(ref[3]):
                what = ("errors", "the text on the error stream is not the same")
            elif g[6] is not None:
                if lst is not None and lst != g[6]:
                    what = ("listing", "the debug listing is not the same")
                lst = g[6]
                c.out.n["listings compared"] += 1
            if what:
                c.out.violation(what[0] + ("-seq" if v.get("seq") else ""), f"{what[1]}; conditions: {v} against {VARIANTS[0]}\n--- one\n{(ref[2] + ref[3]).decode('utf-8', 'replace')[-700:]}\n--- other\n{(g[2] + g[3]).decode('utf-8', 'replace')[-700:]}", {**files, "conditions.json": json.dumps(v), "one.bin": ref[4], "other.bin": g[4]})
                break
    import shutil

    shutil.rmtree(base)
    if len(c.out.viol) >= 4 or (c.thorough and __import__("time").time() - c.t0 > 3000):
        break


# the command itself, as separate processes
def cli(i, out, run):
    r = c.rng("cli", i)
    files = program(r.randrange(10**6))
    for n in os.listdir(run.dir):
        p = os.path.join(run.dir, n)
        shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    run.write(files)
    out.n["evaluations"] += 1
    out.seen("\0".join(files.values()))
    a = run.run({})
    t0 = tree(run.dir)
    for env in ({"PYTHONHASHSEED": str(i)}, {"PYTHONHASHSEED": "random", "LC_ALL": "C", "LANG": "C", "PYTHONUTF8": None}):
        b = run.cli(["main.ama"], env=env)
        out.n["separate processes"] += 1
        if (a.kind, a.rc, a.out, a.module) != (b.kind, b.rc, b.out, b.module) or (a.kind != "diag" and a.err != b.err):
            out.violation("process", f"a separate process ({env}) behaves differently\n{a.brief()[:1500]}\n{b.brief()[:1500]}", files)
        ch = changed(t0, tree(run.dir))
        if ch:
            out.violation("process-files", f"running the program changed {ch}", files)


c.pmap(cli, c.scale(40, 600), label="cli")
c.assumptions = ["files are watched in the working directory, HOME, TMPDIR and the system's own folders", "a diagnostic may name the file as it was given"]
c.finish()
