"""Plants a bug: makes /verif/seeded/<id> from a change of the source, confirms
that it counts (original lines, builds, passes the stable tests, the
demonstration tells it apart) and runs checks against it.

  plant.py make SPEC.json     SPEC: id, property, needs, what_it_breaks,
                              edits [[file, old, new]...], files {name: text}
  plant.py check ID [CHECK..] runs the checks (default: the property's)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

REPO = "/repo"
SEEDED = os.environ.get("AMV_SEEDED", "/verif/seeded")
DEMO = r'''#!/bin/bash
# Runs the programs beside this file on the real compiler and virtual machine
# and compares what they print, and their exit status, with what is expected.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:$PATH:/root/.cargo/bin PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/sys" "$d/vm" "$d/run"
cp -a "$repo/amanda" "$repo/std" "$repo/utils" "$d/sys/" || exit 3
rm -rf "$d/sys/amanda/vm/target"
cp -a "$d/sys/amanda/vm/src" "$d/vm/src"
cat > "$d/vm/Cargo.toml" <<'T'
[package]
name = "vm"
version = "0.1.0"
edition = "2018"
[dependencies]
unicode-segmentation = "1.12.0"
rustc-hash = "2.1.3"
[lib]
name = "amanda"
crate-type = ["cdylib"]
T
if [ -f "$d/sys/amanda/vm/build.rs" ]; then cp "$d/sys/amanda/vm/build.rs" "$d/vm/"; fi
(cd "$d/vm" && cargo build --offline >"$d/log" 2>&1) || { cat "$d/log"; echo "the virtual machine does not build"; exit 3; }
mkdir -p "$d/sys/amanda/vm/target/debug"
cp "$d/vm/target/debug/libamanda.so" "$d/sys/amanda/vm/target/debug/"
cp "$here"/* "$d/run/"
cd "$d/run"
bad=0
for e in *.exp; do
    p=${e%.exp}
    in=/dev/null
    [ -f "$p.in" ] && in=$p.in
    flags=
    [ -f "$p.flags" ] && flags=$(cat "$p.flags")
    PYTHONPATH=$d/sys timeout 60 python -m amanda $flags "$p.ama" <"$in" >got.out 2>got.err
    echo "status $?" >>got.out
    # the listing that the debug flag asks for
    if [ -f debug.amasm ]; then cat debug.amasm >>got.out; rm -f debug.amasm; fi
    # what a diagnostic or a runtime error says, without paths
    sed -e 's/"[^"]*\//"/g' got.err >>got.out
    if ! cmp -s got.out "$e"; then
        bad=1
        echo "$p: expected / got"
        diff "$e" got.out | head -20
    fi
done
exit $bad
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original():
    """The commit the work started from"""
    log = sh(f"git -C {REPO} log --format='%H %s'").stdout.strip().split("\n")
    for line in log:
        if not line.split(" ", 1)[1].startswith(("fix:", "hook")):
            return line.split()[0]


def scratch():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    sh(f"cp -a {REPO}/. {d}/")
    sh(f"git -C {d} checkout -q -- .")
    return d


def own_lines(d, f):
    """Lines of f at HEAD that the original had too, by blame"""
    base = original()
    ours = set(sh(f"git -C {d} log --format=%H {base}..HEAD").stdout.split())
    out = sh(f"git -C {d} blame -l -s HEAD -- {f}").stdout.split("\n")
    return [i + 1 for i, l in enumerate(out) if l and l.split()[0].lstrip("^") in ours]


def in_copy(d, cmd):
    """Runs a command that names /repo against the copy"""
    return sh(cmd.replace("/repo", d))


def stable(d):
    t = tempfile.mkdtemp(prefix="plant.t.", dir="/tmp")
    for n in ("build.sh", "test.sh"):
        txt = open(f"/opt/vp/{n}").read().replace("cd /repo", f"cd {d}").replace("rep=/opt/vp/reports", f"rep={t}/reports")
        txt = txt.replace("/opt/vp/check.py", f"{t}/check.py").replace("/opt/vp/e2e.py", f"{t}/e2e.py")
        open(f"{t}/{n}", "w").write(txt)
    for n in ("check.py", "e2e.py"):
        open(f"{t}/{n}", "w").write(open(f"/opt/vp/{n}").read().replace("/repo", d))
    b = sh(f"bash {t}/build.sh")
    sh(f"bash {t}/test.sh {t}/out.json")
    try:
        got = json.load(open(f"{t}/out.json"))
    except OSError:
        got = {}
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base.get("tests")
    passed = set(got.get("passed", []))
    missing = [x for x in want if x not in passed]
    sh(f"rm -rf {t}")
    return b.returncode, missing, b.stdout[-300:] + b.stderr[-300:]


def demo(folder, d):
    t = tempfile.mkdtemp(prefix="plant.d.", dir="/tmp")
    sh(f"cp {folder}/* {t}/; rm -f {t}/patch.diff {t}/meta.json")
    r = sh(f"cd {d} && timeout 300 bash {t}/demo.sh")
    sh(f"rm -rf {t}")
    return r


def make(spec):
    folder = f"{SEEDED}/{spec['id']}"
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    d = scratch()
    try:
        for f, old, new in spec["edits"]:
            p = f"{d}/{f}"
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                print("EDIT", f, "found", n, "times:", old[:60])
                return False
            open(p, "w").write(t.replace(old, new))
        diff = sh(f"git -C {d} diff").stdout
        open(f"{folder}/patch.diff", "w").write(diff)
        # removed lines must be original ones
        for f in {e[0] for e in spec["edits"]}:
            mine = set(own_lines(d, f))
            n = 0
            for l in sh(f"git -C {d} diff -U0 -- {f}").stdout.split("\n"):
                if l.startswith("@@"):
                    n = int(l.split()[1].lstrip("-").split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    if n in mine:
                        print("NOT ORIGINAL", f, n, l)
                    n += 1
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]}, open(f"{folder}/meta.json", "w"), indent=1, ensure_ascii=False)
        for name, text in spec.get("files", {}).items():
            open(f"{folder}/{name}", "w", newline="").write(text)
        open(f"{folder}/demo.sh", "w").write(spec.get("demo", DEMO))
        # expected outputs come from the unchanged tree, and are reviewed
        if "demo" not in spec:
            for name in spec["files"]:
                if name.endswith(".ama") and not name.startswith("m_"):
                    open(f"{folder}/{name[:-4]}.exp", "w").write("?")
            good = sh(f"cd {REPO} && KEEP=1 bash -c 'true'")
            t = tempfile.mkdtemp(prefix="plant.e.", dir="/tmp")
            sh(f"cp {folder}/* {t}/")
            s = open(f"{t}/demo.sh").read().replace('if ! cmp -s got.out "$e"; then', 'cp got.out "$here/$e"; if false; then')
            open(f"{t}/demo.sh", "w").write(s)
            sh(f"cd {REPO} && bash {t}/demo.sh")
            for n in os.listdir(t):
                if n.endswith(".exp"):
                    shutil.copy(f"{t}/{n}", f"{folder}/{n}")
                    print(f"--- {n}\n" + open(f"{folder}/{n}").read()[:700])
            sh(f"rm -rf {t}")
        r0 = demo(folder, REPO)
        r1 = demo(folder, d)
        code, missing, log = stable(d)
        ok = r0.returncode == 0 and r1.returncode not in (0, 3) and code == 0 and not missing
        print(f"{spec['id']}: demo unchanged {r0.returncode}, with patch {r1.returncode}; build {code}; missing {missing[:4]} -> {'OK' if ok else 'BAD'}")
        print(r1.stdout[:700])
        if r0.returncode:
            print(r0.stdout[:500], r0.stderr[:500])
        if code:
            print(log)
        return ok
    finally:
        sh(f"rm -rf {d}")


def check(ident, checks):
    folder = f"{SEEDED}/{ident}"
    prop = json.load(open(f"{folder}/meta.json"))["property"]
    d = scratch()
    try:
        r = sh(f"git -C {d} apply {folder}/patch.diff")
        if r.returncode:
            print(r.stderr)
            return
        for p in checks or [prop]:
            r = sh(f"cd {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))} && AMV_REPO={d} VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python checks/{p.lower()}.py")
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            print(f"{ident}: {p} exit {r.returncode}, {len(v)} violations: {'CAUGHT' if r.returncode == 1 and v else 'MISSED'}", flush=True)
            for l in r.stdout.split("\n")[:400]:
                if l.startswith("VIOLATION"):
                    print("   ", l[:200])
                    break
            if r.returncode not in (0, 1):
                print(r.stdout[-500:], r.stderr[-500:])
            sh(f"rm -rf {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))}/replays/{p}")
    finally:
        sh(f"rm -rf {d}")


if sys.argv[1] == "make":
    specs = json.load(open(sys.argv[2]))
    for s in specs if isinstance(specs, list) else [specs]:
        make(s)
else:
    check(sys.argv[2], sys.argv[3:])
