#!/usr/bin/env python3
"""Development aid: vets planted changes in boxes (a mount namespace in which copies stand in for
/repo, /verif and /opt/vp/hr/out), so that nothing real is touched.
vet.py [-t] [-c own|all|none|C01,C02] [-s SEED] [-j BOXES] [-T] ITEM...
  ITEM: a folder under seeded/, a patch file, revert:COMMIT, or 'none'
  -t: also build, run the stable tests and the demo (with and without the patch)
  -c: the checks to run (own: the property named in meta.json)    -T: thorough tier"""
import json, os, queue, shutil, subprocess, sys, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("MX", "/tmp/mx")
opt = {"t": False, "c": "own", "s": "1", "j": 2, "T": False}
a = sys.argv[1:]
while a and a[0].startswith("-"):
    k = a.pop(0)[1:]
    opt[k] = True if k in "tT" else type(opt[k])(a.pop(0))
ALL = [json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl")]
BASE = "6903cb7"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


class Box:
    def __init__(self, n):
        self.d = "%s/%d" % (ROOT, n)
        os.makedirs(self.d + "/out", exist_ok=True)
        # the current tree of /verif, with the build output of earlier runs kept
        v = self.d + "/verif"
        os.makedirs(v, exist_ok=True)
        for e in os.listdir(v):
            if e != "harness":
                p = v + "/" + e
                shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
        sh("cd %s && tar cf - --exclude=./harness/target --exclude=./.git --exclude=./seeded --exclude=./evidence . | tar xf - -C %s" % (VERIF, v))
        if not os.path.isdir(v + "/harness/target") and os.path.isdir(VERIF + "/harness/target"):
            sh("cp -a %s/harness/target %s/harness/target" % (VERIF, v))

    def tree(self, item):
        r = self.d + "/repo"
        t = self.d + "/repotarget"
        if os.path.isdir(r + "/target"):
            shutil.rmtree(t, ignore_errors=True)
            os.rename(r + "/target", t)
        shutil.rmtree(r, ignore_errors=True)
        sh("git clone -q /repo %s" % r)
        if os.path.isdir(t):
            os.rename(t, r + "/target")
        for f in ("Cargo.lock",):
            if os.path.exists("/repo/" + f) and not os.path.exists(r + "/" + f):
                shutil.copy("/repo/" + f, r + "/" + f)
        return self.apply(item)

    def apply(self, item):
        r = self.d + "/repo"
        if item == "none":
            return True
        if item.startswith("revert:"):
            x = sh("git -C %s -c user.name=x -c user.email=x revert --no-edit %s" % (r, item[7:]))
        else:
            p = item if os.path.isfile(item) else item + "/patch.diff"
            x = sh("git -C %s apply %s" % (r, os.path.abspath(p)))
        if x.returncode:
            self.say = x.stdout
        return x.returncode == 0

    def run(self, cmd, timeout=1000, **env):
        script = ("mount --bind %(d)s/repo /repo && mount --bind %(d)s/verif /verif && mount --bind %(d)s/out /opt/vp/hr/out && " % {"d": self.d}) + cmd
        try:
            x = subprocess.run(["unshare", "-Urm", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout, cwd="/", env=dict(os.environ, **env))
            return x.returncode, x.stdout
        except subprocess.TimeoutExpired:
            return -9, "timeout"


lock = threading.Lock()


def vet(b, item):
    name = os.path.basename(item.rstrip("/"))
    msg, t0 = [], time.time()
    if not b.tree("none"):
        return name, ["?"]
    isdir = os.path.isdir(item)
    demo = isdir and os.path.exists(item + "/demo.sh")
    if isdir:
        f = None
        for l in open(item + "/patch.diff"):
            if l.startswith("--- a/"):
                f = sh("git -C /repo show %s:%s" % (BASE, l[6:].strip())).stdout.splitlines()
            elif l.startswith("-") and l[1:].strip() and l[1:].rstrip() not in f:
                msg.append("NOT-ORIGINAL %r" % l[1:].strip())
    if opt["t"] and demo:
        dd = b.d + "/demo"
        shutil.rmtree(dd, ignore_errors=True)
        shutil.copytree(item, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        rc, out = b.run("cd /repo && bash %s/demo.sh" % dd, 320)
        msg.append("demo-clean:%s" % rc)
        if rc:
            msg.append(out[-1500:])
    if not b.apply(item):
        return name, msg + ["DOES NOT APPLY " + b.say[-300:]]
    if opt["t"]:
        rc, out = b.run("bash /opt/vp/build.sh")
        if rc:
            return name, msg + ["BUILD FAILS " + out[-2500:]]
        b.run("bash /opt/vp/test.sh /opt/vp/hr/out/res.json; cp /opt/vp/hr/out/res.json /repo/res.json")
        # test.sh removes and makes its log folder again, which a mount point does not allow: rerun by hand if missing
        res = b.d + "/repo/res.json"
        if os.path.exists(res):
            ok = set(json.load(open(res))["passed"])
            bad = sorted(STABLE - ok)
            msg.append("tests:%s" % ("ok" if not bad else bad))
            os.remove(res)
        else:
            msg.append("tests:?")
        if demo:
            rc, out = b.run("cd /repo && bash %s/demo.sh" % dd, 320)
            msg.append("demo-patched:%s" % rc)
            if os.environ.get("V") or rc == 0:
                msg.append(out[-500:])
    own = json.load(open(item + "/meta.json"))["property"] if isdir else None
    cs = {"own": [own] if own else ALL, "all": ALL, "none": []}.get(opt["c"]) if opt["c"] in ("own", "all", "none") else opt["c"].split(",")
    got = []
    for c in cs:
        rc, out = b.run("cd /verif && ./check.py " + c, VERIF_SEED=opt["s"], VERIF_TIER="thorough" if opt["T"] else "quick")
        if rc == 1 and "VIOLATION property=%s " % c in out:
            got.append(c)
            if os.environ.get("V"):
                got.append(str([l[:300] for l in out.splitlines() if l.startswith(c + ":")][:2]))
        elif rc:
            got.append("%s?rc%s %s" % (c, rc, out[-400:]))
    if cs:
        msg.append("%s-> %s" % ("" if not own else own + ("CAUGHT " if own in got else "MISSED "), " ".join(got) or "NOTHING"))
    msg.append("%ds" % (time.time() - t0))
    return name, msg


q = queue.Queue()
for i in a:
    q.put(i)


def work(n):
    b = Box(n)
    while True:
        try:
            i = q.get_nowait()
        except queue.Empty:
            return
        name, msg = vet(b, i)
        with lock:
            print(name, *msg, flush=True)


ts = [threading.Thread(target=work, args=(n,)) for n in range(min(opt["j"], len(a)))]
[t.start() for t in ts]
[t.join() for t in ts]
