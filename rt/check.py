"""Common shape of the checks: tiers, seeds, worker processes, evidence,
known findings, violation reports."""
import gc
import hashlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import sys
import time
import traceback
from collections import Counter

from .build import System, BuildError
from .run import Runner

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = min(8, os.cpu_count() or 8)
sys.setrecursionlimit(60000)
import warnings

warnings.filterwarnings("ignore", category=DeprecationWarning)


class Out:
    """What one worker (or the whole check) observed."""

    def __init__(self):
        self.n = Counter()
        self.viol = []  # (signature, message, files)
        self.distinct = set()
        self.samples = []
        self.vals = {}

    def seen(self, text):
        self.distinct.add(hashlib.blake2b(text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass"), digest_size=8).digest())

    def sample(self, text, cap=2):
        if len(self.samples) < cap:
            self.samples.append(text[:1500])

    def violation(self, sig, msg, files):
        self.n["violations"] += 1
        if len(self.viol) < 6:
            self.viol.append((sig, msg, files))

    def add(self, o):
        self.n.update(o.n)
        self.viol.extend(o.viol)
        self.distinct |= o.distinct
        self.samples.extend(o.samples)
        for k, v in o.vals.items():
            if isinstance(v, set):
                self.vals.setdefault(k, set()).update(v)
            elif isinstance(v, (int, float)):
                self.vals[k] = max(self.vals.get(k, v), v)


class Check:
    level = "exploration"

    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.out = Out()
        self.sys = None
        self.assumptions = []
        self.extra = {}
        self.level_name = "exploration"

    def scale(self, quick, thorough):
        n = thorough if self.thorough else quick
        return int(n * float(os.environ.get("AMV_SCALE", "1")))

    def system(self, vm=True):
        if self.sys is None:
            try:
                self.sys = System(self.pid, vm)
            except BuildError as e:
                print(str(e), file=sys.stderr)
                sys.exit(2)
            Runner.preload(self.sys)
        return self.sys

    def rng(self, *key):
        return random.Random(f"{self.seed}/{self.pid}/" + "/".join(map(str, key)))

    # ---------------------------------------------------------- workers
    def pmap(self, job, count, budget=None, label="w", nproc=NCPU):
        """Runs job(i, out, runner) for i in range(count) over forked workers.
        A job that cannot judge raises nothing and records a counter."""
        budget = budget or (3000 if self.thorough else 260)
        deadline = time.time() + budget
        procs = []
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(nproc):
            rp, wp = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rp)
                for _, fd in procs:
                    os.close(fd)
                code = 0
                try:
                    self._work(job, w, count, nproc, deadline, wp, label)
                finally:
                    os._exit(code)
            os.close(wp)
            procs.append((pid, rp))
        res = Out()
        for pid, rp in procs:
            buf = b""
            while True:
                c = os.read(rp, 1 << 20)
                if not c:
                    break
                buf += c
            os.close(rp)
            _, st = os.waitpid(pid, 0)
            if not buf:
                print(f"{self.pid}: worker ended without a report (status {st})", file=sys.stderr)
                sys.exit(2)
            o, err = pickle.loads(buf)
            if err:
                print(f"{self.pid}: internal error in a worker:\n{err}", file=sys.stderr)
                sys.exit(2)
            res.add(o)
        self.out.add(res)
        return res

    def _work(self, job, w, count, nproc, deadline, wp, label):
        out = Out()
        err = None
        try:
            gc.collect()
            gc.freeze()
            runner = Runner(self.sys, os.path.join(self.sys.dir, f"{label}{w}")) if self.sys else None
            for i in range(w, count, nproc):
                if time.time() > deadline:
                    out.n["skipped_for_time"] += 1
                    continue
                job(i, out, runner)
                if len(out.viol) >= 4:
                    break
        except BaseException:
            err = traceback.format_exc()
        data = pickle.dumps((out, err))
        v = memoryview(data)
        while v:
            v = v[os.write(wp, v) :]
        os.close(wp)

    # ---------------------------------------------------------- findings
    def known(self):
        try:
            with open(os.path.join(VERIF, "known-findings.json")) as f:
                return [e for e in json.load(f)["findings"] if e["property"] == self.pid]
        except FileNotFoundError:
            return []

    def probe_known(self, probe):
        """probe(entry, runner) -> True when the listed finding still fails"""
        r = Runner(self.sys, os.path.join(self.sys.dir, "known")) if self.sys else None
        for e in self.known():
            try:
                still = probe(e, r)
            except Exception:
                traceback.print_exc()
                still = False
            if still:
                print(f"KNOWN-FINDING: property={self.pid} {e['what']}")
                self.out.n["known_findings_reproduced"] += 1

    # ---------------------------------------------------------- reporting
    def finish(self):
        o = self.out
        viol = o.viol
        rdir = os.path.join(VERIF, "replays", self.pid)
        if viol:
            shutil.rmtree(rdir, ignore_errors=True)
            seen = set()
            for sig, msg, files in viol:
                if sig in seen or len(seen) >= 8:
                    continue
                seen.add(sig)
                d = os.path.join(rdir, str(len(seen)))
                os.makedirs(d, exist_ok=True)
                with open(os.path.join(d, "what.txt"), "w", encoding="utf-8", errors="backslashreplace") as f:
                    f.write(f"property {self.pid}\nsignature {sig}\nseed {self.seed} tier {self.tier}\n{msg}\n")
                for name, text in files.items():
                    p = os.path.join(d, name)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as f:
                        f.write(text if isinstance(text, bytes) else text.encode("utf-8", "backslashreplace"))
                print(f"VIOLATION property={self.pid} replay={d}")
                print("  " + msg[:600].replace("\n", "\n  "))
        cov = {
            "evaluations": int(o.n.get("evaluations", 0)),
            "distinct_nontrivial": len(o.distinct),
            "rule": self.rule,
            "samples": o.samples[:6] or ["(none)"],
            "observed": {k: int(v) for k, v in sorted(o.n.items()) if k != "evaluations"},
        }
        for k, v in o.vals.items():
            cov[k] = sorted(v)[:200] if isinstance(v, set) else v
        cov.update(self.extra)
        ev = {
            "property": self.pid,
            "tier": "thorough" if self.thorough else "quick",
            "seed": self.seed,
            "level": self.level_name,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, ensure_ascii=False, indent=1)
        if self.sys:
            self.sys.clean()
        print(f"{self.pid}: {cov['evaluations']} evaluations, {cov['distinct_nontrivial']} distinct, {len(viol)} violations, {ev['wall_s']} s")
        sys.stdout.flush()
        sys.exit(1 if viol else 0)
