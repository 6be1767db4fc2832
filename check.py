#!/usr/bin/env python3
"""check.py <property>: builds what the check of a property needs from /repo's working tree, runs
its monitors, exits 0 (held), 1 (VIOLATION line) or otherwise (no answer).
check.py setup: builds everything. check.py replay <file>: one case again."""
import fcntl, hashlib, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
HARNESS = HERE + "/harness"
FEAT = HARNESS + "/feat"
TARGET = HARNESS + "/target"
REPO = "/repo"
HOST = "x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED") or 1)
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ALGOS = ["bup", "buzhash", "gear", "fastcdc", "gzip", "pigz", "zpaq", "zstd", "mii", "ram"]
CPUS = 8


class Broken(Exception):
    pass


def log(*a):
    print("check.py:", *a, file=sys.stderr, flush=True)


def env(**more):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("RUST", "CARGO_BUILD", "CARGO_TARGET", "CARGO_PROFILE", "MIRI"))
         or k in ("RUSTUP_HOME", "RUSTUP_TOOLCHAIN_BACKUP")}
    e["CARGO_NET_OFFLINE"] = "true"
    e.update({k: v for k, v in more.items() if v is not None})
    return e


def tree():
    """what the builds are made of"""
    h = hashlib.sha256()
    def add(path):
        h.update(path.encode() + b"\0")
        with open(path, "rb") as f:
            h.update(f.read() + b"\0")
    for top in (REPO, HARNESS):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".in", ".sh", ".json")):
                    add(d + "/" + f)
    return h.hexdigest()


TREE = tree()


def fresh(target):
    """cargo goes by modification times; what is in the tree may be older than the build of
    another tree"""
    os.makedirs(target, exist_ok=True)
    stamp = target + "/tree"
    try:
        old = open(stamp).read()
    except OSError:
        old = ""
    if old == TREE:
        return
    for d, ds, _ in os.walk(target):
        if d.endswith("/.fingerprint"):
            for x in ds:
                if x.startswith(("hash-roll-", "adapt-", "feat-", "mon-", "probe-")):
                    shutil.rmtree(d + "/" + x, ignore_errors=True)
            ds[:] = []
    with open(stamp, "w") as f:
        f.write(TREE)


def cargo(where, target, args, toolchain=None, timeout=600, **e):
    fresh(target)
    cmd = ["cargo"] + (["+" + toolchain] if toolchain else []) + args + ["--offline", "--target-dir", target]
    e.setdefault("RUSTFLAGS", "--cap-lints=warn")
    try:
        r = subprocess.run(cmd, cwd=where, env=env(**e), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        return False, "timeout: " + " ".join(cmd)
    out = r.stdout.decode(errors="replace")
    return r.returncode == 0, " ".join(cmd) + "\n" + out[-3000:]


def need(r):
    if not r[0]:
        raise Broken(r[1])


def mon(instrumented=True):
    if instrumented:
        t = TARGET + "/mon"
        need(cargo(HARNESS, t, ["build", "--release"], RUSTC_WRAPPER=HARNESS + "/rustc-wrap.sh"))
    else:
        t = TARGET + "/plain"
        need(cargo(HARNESS, t, ["build", "--release"]))
    return t + "/release/mon"


# ---- sanitizers and the interpreter, on small cases (harness/feat/src/tiny.rs)

class Stages:
    def __init__(self, prop):
        self.file = "%s/stages-%s-%d" % (TARGET, prop, os.getpid())
        self.lines = []

    def ok(self, n, what):
        self.lines.append("ok %d %s" % (n, what))

    def bad(self, text):
        self.lines.append("bad " + " ".join(text.split())[:3000])

    def write(self):
        with open(self.file, "w") as f:
            f.write("\n".join(self.lines) + "\n")
        return self.file


def run(cmd, timeout, cwd=None, **e):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env(**e), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode(errors="replace")


def parallel(jobs):
    with ThreadPoolExecutor(CPUS) as ex:
        return list(ex.map(lambda j: j(), jobs))


MARKS = ("ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "Undefined Behavior", "FOUND ",
         "error: deadlock", "the evaluated program aborted", "data race")


def judge(st, what, results, cmds):
    """counts what ran to its end; a report or a crash is a violation"""
    cases = edges = quiet = 0
    for (rc, out), cmd in zip(results, cmds):
        last = [l for l in out.splitlines() if l.startswith("cases ")]
        hit = [m for m in MARKS if m in out]
        if hit:
            i = min(out.index(m) for m in hit)
            st.bad("%s, in %s: %s" % (what, cmd, out[i:i + 1500]))
        elif rc is not None and (rc in (-4, -5, -6, -7, -8, -11)):
            st.bad("%s: signal %d in %s" % (what, -rc, cmd))
        elif rc == 0 and last:
            w = last[-1].split()
            cases += int(w[1])
            edges += int(w[3])
        else:
            quiet += 1
            log(what, "gave no answer:", cmd, rc, out[-500:])
    st.ok(cases, "cases under " + what)
    st.ok(edges, "edges under " + what)
    if quiet:
        st.ok(quiet, "runs without an answer under " + what)


def ranges(n, each):
    base = (SEED % 100000) * 10_000_000
    return [(str(base + i * each), str(base + (i + 1) * each)) for i in range(n)]


def sanitizer(st, name, opts, jobs, timeout, std):
    t = "%s/%s" % (TARGET, name)
    short = {"asan": "address", "tsan": "thread"}[name]
    flags = "-Zsanitizer=%s --cap-lints=warn" % short
    ok, out = cargo(FEAT, t, ["build", "--release", "--target", HOST] + (["-Zbuild-std=std,panic_unwind"] if std else []),
                    toolchain="nightly", RUSTFLAGS=flags)
    what = {"asan": "AddressSanitizer", "tsan": "ThreadSanitizer"}[name]
    if not ok:
        log(out)
        st.ok(0, "cases under %s, which could not be built" % what)
        return
    exe = "%s/%s/release/feat" % (t, HOST)
    cmds = [[exe, "tiny", str(SEED)] + j for j in jobs]
    res = parallel([lambda c=c: run(c, timeout, **opts) for c in cmds])
    judge(st, what, res, [" ".join(c) for c in cmds])


def sysroot(triple):
    if triple == HOST and os.path.isdir("/root/.cache/miri/lib/rustlib/" + HOST):
        return "/root/.cache/miri"
    d = "%s/sys-%s" % (TARGET, triple)
    if not os.path.isdir("%s/lib/rustlib/%s" % (d, triple)):
        rc, out = run(["cargo", "+nightly", "miri", "setup", "--target", triple], 400, cwd=FEAT, MIRI_SYSROOT=d)
        if rc != 0:
            log(out[-1000:])
            return None
    return d


def miri(triple, jobs, timeout, seeds=False, fast=False):
    """(results, commands), or None if it does not run"""
    s = sysroot(triple)
    if s is None:
        return None
    t = "%s/miri-%s" % (TARGET, triple.split("-")[0])
    fresh(t)
    def cmd(j):
        return ["cargo", "+nightly", "miri", "run", "--offline", "--target", triple,
                "--target-dir", t, "--", "tiny", str(SEED)] + j
    def e(i):
        return dict(MIRI_SYSROOT=s, RUSTFLAGS="--cap-lints=warn",
                    MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks"
                    + (" -Zmiri-disable-stacked-borrows -Zmiri-disable-validation" if fast else "") + (" -Zmiri-seed=%d" % (SEED * 1000 + i) if seeds else ""))
    # builds
    rc, out = run(cmd(["0", "0"]), 400, cwd=FEAT, **e(0))
    if rc != 0:
        log(out[-1000:])
        return None
    cmds = [cmd(j) for j in jobs]
    res = parallel([lambda c=c, i=i: run(c, timeout, cwd=FEAT, **e(i)) for i, c in enumerate(cmds)])
    return res, ["harness/feat$ " + " ".join(c) for c in cmds]


def c06(st):
    n, b, m = (3000, 60, 10) if not THOROUGH else (50000, 1000, 70)
    jobs = [list(r) for r in ranges(CPUS, n)] + [list(r) + ["big"] for r in ranges(CPUS, b)]
    sanitizer(st, "asan", dict(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=1"), jobs, 240, False)
    jobs = [list(r) for r in ranges(CPUS, m)]
    r = miri(HOST, jobs, 300)
    if r is None:
        st.ok(0, "cases under Miri, which does not run")
    else:
        judge(st, "Miri", *r)


def c22(st):
    n, m = (1500, 10) if not THOROUGH else (20000, 60)
    jobs = [list(r) + ["threads"] for r in ranges(CPUS, n)]
    sanitizer(st, "tsan", dict(TSAN_OPTIONS="halt_on_error=1:exitcode=66"), jobs, 240, True)
    jobs = [list(r) + ["threads"] for r in ranges(CPUS, m)]
    r = miri(HOST, jobs, 300, seeds=True)
    if r is None:
        st.ok(0, "cases with threads under Miri, which does not run")
    else:
        judge(st, "Miri with threads", *r)


# ---- C27: builds

def builds(st):
    """lines for mon; the algorithms of a build are those it was built with"""
    nos = list(range(10))
    sets = [(a, [i]) for i, a in enumerate(ALGOS)]
    sets += [("no-" + a, [k for k in nos if k != i]) for i, a in enumerate(ALGOS)]
    # every way three of them can be in or out (a Plackett-Burman design; the row of none at all is
    # left out, what it adds are triples left out that the single ones have too)
    pb = "++-+++---+-"
    for n in range(11):
        sets.append(("design%d" % n, [k for k in nos if pb[(k + n) % 11] == "+"]))
    if THOROUGH:
        sets += [("%s+%s" % (ALGOS[i], ALGOS[k]), [i, k]) for i in nos for k in nos if i < k]
        r = random.Random(SEED)
        for n in range(12):
            sets.append(("subset%d" % n, sorted(r.sample(nos, r.randint(3, 8)))))
    every = ",".join(map(str, nos))
    jobs = [("release", every, ["--release"], {}),
            ("dev", every, [], {}),
            ("size", every, ["--profile", "size"], {}),
            ("checked", every, ["--profile", "checked"], {}),
            ("native", every, ["--release"], dict(RUSTFLAGS="-Ctarget-cpu=native --cap-lints=warn"))]
    for name, s in sets:
        fl = ["--no-default-features", "--features", ",".join(ALGOS[i] for i in s)]
        jobs.append((name, ",".join(map(str, s)), ["--release"] + fl, {}))

    def one(job):
        name, algos, args, e = job
        t = "%s/f-%s" % (TARGET, name)
        d = {"dev": "debug", "size": "size", "checked": "checked"}.get(name, "release")
        ok, out = cargo(FEAT, t, ["build", "-j", "2"] + args, **e)
        exe = "%s/f-%s.exe" % (TARGET, name)
        if ok:
            shutil.copy2("%s/%s/feat" % (t, d), exe)
        if "+" in name or name.startswith("subset"):
            shutil.rmtree(t, ignore_errors=True)
        return name, algos, exe, ok, out

    res = parallel([lambda j=j: one(j) for j in jobs])
    by = {r[0]: r for r in res}
    need((by["release"][3], by["release"][4]))
    lines = []
    for name, algos, exe, ok, out in res:
        if ok:
            lines.append("%s %s %s" % (name, algos, exe))
        else:
            st.bad("build %s does not compile, all features together do: %s" % (name, out[-1200:]))
    return lines, by["release"][2]


def targets(st, native):
    """32-bit and big-endian machines, interpreted"""
    n, m = (6, 120) if not THOROUGH else (120, 1500)
    for triple in ("i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"):
        jobs = [list(r) + ["show"] for r in ranges(CPUS, n)] + [list(r) + ["far"] for r in ranges(CPUS, m)]
        r = miri(triple, jobs, 380, fast=True)
        if r is None:
            st.ok(0, "cases for %s, which does not run" % triple)
            continue
        same = 0
        for (rc, out), j in zip(r[0], jobs):
            want = run([native, "tiny", str(SEED)] + j, 100)[1]
            want = {l.split()[1]: l.split() for l in want.splitlines() if l.startswith("CASE ")}
            for l in out.splitlines():
                w = l.split()
                if l.startswith("CASE ") and len(w) == 6 and w[1] in want and w[3] == want[w[1]][3]:
                    if w[4:] != want[w[1]][4:]:
                        st.bad("case %s of tiny %d, %s: cuts %s on %s and %s here" % (
                            w[1], SEED, w[2], w[4:], triple, want[w[1]][4:]))
                    same += 1
        st.ok(same, "cases compared with those interpreted for " + triple)


def main(prop):
    e = {}
    st = Stages(prop)
    t0 = time.time()
    if prop == "C27":
        exe = mon(False)
        lines, native = builds(st)
        targets(st, native)
        e["VERIF_BUILDS"] = "\n".join(lines)
    elif prop == "C30":
        exe = mon(False)
    else:
        exe = mon()
        if prop == "C06":
            c06(st)
        elif prop == "C22":
            c22(st)
    e["VERIF_STAGES"] = st.write()
    used = int(time.time() - t0)
    e["VERIF_CAP"] = str(max(120, 800 - used) if THOROUGH else 120)
    log("prepared in %d s" % used)
    x = os.environ.copy()
    x.update(e)
    try:
        return subprocess.run([exe, prop], env=x, stdin=subprocess.DEVNULL).returncode
    finally:
        os.unlink(st.file)


def setup():
    mon()
    mon(False)
    st = Stages("setup")
    builds(st)
    for f in (c06, c22):
        globals()["ranges"] = lambda n, each: [("0", "0")]
        f(st)
    for t in ("i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"):
        sysroot(t)
    return 0


if __name__ == "__main__":
    os.makedirs(TARGET, exist_ok=True)
    lock = open(TARGET + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if sys.argv[1:] == ["setup"]:
            sys.exit(setup())
        if len(sys.argv) == 3 and sys.argv[1] == "replay":
            sys.exit(subprocess.run([mon(), "replay", sys.argv[2]]).returncode)
        if len(sys.argv) != 2:
            sys.exit(__doc__)
        sys.exit(main(sys.argv[1]))
    except Broken as x:
        log("no answer:", x)
        sys.exit(2)
