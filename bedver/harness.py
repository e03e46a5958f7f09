"""Builds and runs the replay / bounded stand-in programs of /verif/harness against /repo's current sources."""
import os, subprocess, hashlib, glob, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
from . import front as Fr
from .front import REPO, BUILD, VERIF, _sha, repo_sources, cxxflags, FrontError
H = os.path.join(VERIF, "harness")
CXX = "clang++-18"
class HarnessError(Exception): pass
def lib_sources():
    out = []
    for d in ("libstuff", "sqlitecluster", "plugins", "."):
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            if os.path.basename(f) != "main.cpp": out.append(os.path.normpath(f))
    return out
def _obj(src, hk, flags, cc=CXX):
    key = hashlib.sha256((hk + _sha([src]) + " ".join(flags)).encode()).hexdigest()[:20]
    o = os.path.join(BUILD, "obj-" + key + ".o")
    if not os.path.exists(o):
        t = o + ".tmp%d" % os.getpid()
        r = subprocess.run([cc] + flags + ["-c", src, "-o", t], capture_output=True, text=True)
        if r.returncode: raise HarnessError("compile %s: %s" % (src, r.stderr[-3000:]))
        os.rename(t, o)
    return o
WRAP = ["sqlite3_prepare_v2", "sqlite3_prepare_v3", "sleep"]
def build(name, extra=(), wrap=()):
    os.makedirs(BUILD, exist_ok=True)
    hk = _sha([p for p in repo_sources() if not p.endswith(".cpp")])
    fl = ["-O0", "-g0"] + cxxflags()
    pch = []
    jobs = [(s, hk, fl, CXX) for s in lib_sources()]
    cfl = ["-O0", "-w", "-I" + REPO, "-I" + REPO + "/libstuff"]
    if os.path.exists(REPO + "/libstuff/qrf.c"): jobs.append((REPO + "/libstuff/qrf.c", hk, cfl, "clang-18"))
    hh = hk + _sha(sorted(glob.glob(H + "/*.h")))
    hs = [os.path.join(H, name + ".cpp"), os.path.join(H, "shim.cpp")] + [os.path.join(H, e) for e in extra]
    jobs += [(s, hh, fl + ["-I" + H], CXX) for s in hs]
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(lambda j: _obj(*j), jobs))
    out = os.path.join(BUILD, "h-%s-%s" % (name, hashlib.sha256((" ".join(objs) + " ".join(wrap)).encode()).hexdigest()[:16]))
    if not os.path.exists(out):
        t = out + ".tmp%d" % os.getpid()
        r = subprocess.run([CXX, "-o", t] + objs + ["-Wl,--wrap=" + w for w in WRAP + list(wrap)] + ["-lsqlite3", "-ldl", "-lpcre2-8", "-lpthread", "-lmbedtls", "-lmbedx509", "-lmbedcrypto", "-lz", "-lzstd", "-lm", "-rdynamic"], capture_output=True, text=True)
        if r.returncode: raise HarnessError("link %s: %s" % (name, r.stderr[-3000:]))
        os.rename(t, out)
    return out
def run(name, args, timeout=240, extra=(), wrap=()):
    """-> (returncode, output): 0 no violation found; 1 a violation was reproduced on the real code; other: harness trouble"""
    exe = build(name, extra, wrap)
    d = tempfile.mkdtemp(prefix="bedver-")
    try:
        env = dict(os.environ, TMPDIR=d)
        p = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, cwd=d, env=env, errors="replace")
        return p.returncode, (p.stdout + p.stderr)[-20000:]
    except subprocess.TimeoutExpired as e:
        return 124, "timeout after %ss\n%s" % (timeout, (e.stdout or b"")[-4000:])
    finally: shutil.rmtree(d, ignore_errors=True)
