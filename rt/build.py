"""Builds the system under test from /repo's working tree into a scratch
folder: a copy of the compiler and of the standard library, the virtual machine
compiled from the copied sources, and a recording shim in front of it."""
import os
import shutil
import subprocess
import sys
import tempfile
import atexit
import time

REPO = os.environ.get("AMV_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"

CARGO = """[package]
name = "vm"
version = "0.1.0"
edition = "2018"
[dependencies]
unicode-segmentation = "1.12.0"
rustc-hash = "2.1.3"
[lib]
name = "amanda"
crate-type = ["cdylib", "rlib"]
[[bin]]
name = "runmod"
path = "runmod/main.rs"
[profile.dev]
debug = 1
"""

# Runs serialised modules in a native process: used by the sanitizers
RUNMOD = r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Read;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

// Counts what is allocated and not yet released
struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);

fn more(n: usize) {
    CALLS.fetch_add(1, Relaxed);
    let live = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(live, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { more(l.size()); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() { more(l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
            more(n);
        }
        q
    }
}

#[global_allocator]
static COUNTING: Counting = Counting;

fn main() {
    let report = std::env::var("AMV_PEAK").is_ok();
    for path in std::env::args().skip(1) {
        let mut f = std::fs::File::open(&path).unwrap();
        let mut v = Vec::new();
        f.read_to_end(&mut v).unwrap();
        // exactly as long as the module: reads beyond it are out of bounds
        let mut b = v.into_boxed_slice();
        let n = b.len() as u32;
        PEAK.store(LIVE.load(Relaxed), Relaxed);
        let code = amanda::run_module(b.as_mut_ptr(), n);
        if report {
            eprintln!("\nPEAK {} LIVE {} CALLS {}", PEAK.load(Relaxed), LIVE.load(Relaxed), CALLS.load(Relaxed));
        }
        if code != 0 && std::env::args().len() == 2 { std::process::exit(code as i32); }
    }
}
"""

SHIM = r"""
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
/* Stands between the compiler and the virtual machine: records the module
 * that is run, then runs it. */
int run_module(unsigned char *p, unsigned int n) {
    const char *d = getenv("AMV_DUMP_FD");
    if (d) {
        int fd = atoi(d);
        unsigned char *q = p; size_t left = n;
        while (left) { ssize_t k = write(fd, q, left); if (k <= 0) break; q += k; left -= k; }
        (void)!write(fd, "", 0);
        const char *m = getenv("AMV_MARK_FD");
        if (m) (void)!write(atoi(m), "R", 1);
    }
    if (getenv("AMV_NORUN")) return 0;
    Dl_info info; char path[4096];
    dladdr((void *)run_module, &info);
    snprintf(path, sizeof path, "%s", info.dli_fname);
    char *s = strrchr(path, '/');
    strcpy(s + 1, "libamanda_real.so");
    void *h = dlopen(path, RTLD_NOW);
    if (!h) { fprintf(stderr, "shim: %s\n", dlerror()); abort(); }
    int (*f)(unsigned char *, unsigned int) = (int (*)(unsigned char *, unsigned int))dlsym(h, "run_module");
    return f(p, n);
}
"""


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


class System:
    def __init__(self, name="sys", vm=True):
        # Scratch copies left behind by a killed run are removed by the next
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="amv-" + name + "-")
        self.pid = os.getpid()
        atexit.register(self.clean)
        self.root = os.path.join(self.dir, "sys")
        os.mkdir(self.root)
        ig = shutil.ignore_patterns("target", "__pycache__", ".git", "*.pyc")
        for d in ("amanda", "std", "utils"):
            src = os.path.join(REPO, d)
            if os.path.isdir(src):
                shutil.copytree(src, os.path.join(self.root, d), ignore=ig)
        self.crate = os.path.join(self.dir, "crate")
        self.built_vm = False
        if vm == "shim":
            # modules are compiled and recorded, never run
            self.build_shim()
        elif vm:
            self.build_vm()

    def build_shim(self):
        out = os.path.join(self.root, "amanda/vm/target/debug")
        os.makedirs(out, exist_ok=True)
        c = os.path.join(self.dir, "shim.c")
        with open(c, "w") as f:
            f.write(SHIM)
        r = sh(["gcc", "-O1", "-shared", "-fPIC", "-o", os.path.join(out, "libamanda.so"), c, "-ldl"])
        if r.returncode != 0:
            raise BuildError(r.stderr)

    def build_vm(self):
        os.makedirs(os.path.join(self.crate, "runmod"), exist_ok=True)
        shutil.copytree(os.path.join(REPO, "amanda/vm/src"), os.path.join(self.crate, "src"))
        with open(os.path.join(self.crate, "Cargo.toml"), "w") as f:
            f.write(CARGO)
        with open(os.path.join(self.crate, "runmod/main.rs"), "w") as f:
            f.write(RUNMOD)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(self.dir, "target"), CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        r = sh(["cargo", "build", "--offline"], cwd=self.crate, env=env)
        if r.returncode != 0:
            raise BuildError("the virtual machine does not build:\n" + r.stderr[-3000:])
        out = os.path.join(self.root, "amanda/vm/target/debug")
        os.makedirs(out, exist_ok=True)
        shutil.copy(os.path.join(self.dir, "target/debug/libamanda.so"), os.path.join(out, "libamanda_real.so"))
        self.runmod = os.path.join(self.dir, "target/debug/runmod")
        self.build_shim()
        self.built_vm = True

    def build_asan(self):
        """The runner of serialised modules, instrumented with AddressSanitizer."""
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(self.dir, "target-asan"), CARGO_NET_OFFLINE="true",
                   RUSTFLAGS="-Zsanitizer=address")
        r = sh(["cargo", "+nightly", "build", "--offline", "--bin", "runmod", "--target", "x86_64-unknown-linux-gnu"],
               cwd=self.crate, env=env)
        if r.returncode != 0:
            raise BuildError("ASan build failed:\n" + r.stderr[-3000:])
        return os.path.join(self.dir, "target-asan/x86_64-unknown-linux-gnu/debug/runmod")

    def build_miri(self):
        """-> function(paths, timeout) that runs serialised modules in the
        interpreter that detects undefined behaviour, or None"""
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(self.dir, "target-miri"), CARGO_NET_OFFLINE="true",
                   MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks", RUST_BACKTRACE="0")
        env.pop("RUSTFLAGS", None)

        def go(paths, timeout, build=False):
            cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", "runmod", "--", *paths]
            try:
                return subprocess.run(cmd, cwd=self.crate, env=env, capture_output=True, timeout=timeout, stdin=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                return None

        r = go([], 200)
        return go if r is not None and r.returncode == 0 else None

    def clean(self):
        if os.getpid() == self.pid:
            shutil.rmtree(self.dir, ignore_errors=True)
