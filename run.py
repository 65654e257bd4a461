#!/usr/bin/env python3
"""run.py check ID [--tier quick|thorough]   decide one property on /repo's working tree
run.py replay FILE                        run one recorded case again
run.py list                               the checks
run.py setup                              check the tools, build everything once

Each check compiles /repo/lib (and, where a check compares, the committed reference
/verif/golden) into shared objects with the instrumentation the property needs, runs the
monitors of /verif/harness on them, and reports what they saw."""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KV_REPO", "/repo")
GOLD = VERIF + "/golden"
HARN = VERIF + "/harness"
CPUS = max(1, min(8, os.cpu_count() or 1))
KNOWN = VERIF + "/known/KNOWN_FINDINGS"

sys.path.insert(0, VERIF)
from checks import CHECKS, VARIANTS   # noqa: E402


class HarnessError(Exception):
    pass


def sh(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors="replace", text=True)
    return p.returncode, p.stdout, p.stderr


# ---------------------------------------------------------------- building
# what the project's own compiler lets pass with a warning must not stop the other one
LENIENT = ["-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=int-conversion", "-Wno-error=incompatible-pointer-types"]


class Builder:
    def __init__(self, tmp):
        self.tmp = tmp
        self.pool = cf.ThreadPoolExecutor(CPUS)
        self.libs, self.drvs = {}, {}
        self.faults = {}        # what a build itself shows, by variant

    def _cc(self, cmd):
        rc, out, err = sh(cmd)
        if rc:
            raise HarnessError("compile failed: %s\n%s" % (" ".join(cmd), (out + err)[-3000:]))

    def lib_start(self, root, variant):
        """compile root's library for a variant; returns a thunk giving the .so"""
        k = (root, variant)
        if k in self.libs:
            return self.libs[k]
        v = VARIANTS[variant]
        d = tempfile.mkdtemp(dir=self.tmp)
        srcs = sorted(glob.glob(root + "/lib/*.c") + glob.glob(root + "/lib/**/*.c", recursive=True))
        srcs = sorted(set(srcs))
        if not srcs:
            raise HarnessError("no sources under %s/lib" % root)
        if v.get("m32"):
            return self.m32_start(k, d, [s for s in srcs if os.path.basename(s) != "random.c"], root, v)
        objs, fs = [], []
        base = [v["cc"], "-std=c99", "-w"] + LENIENT + ["-g1", "-fPIC", "-DKRIPTO_UNIX", "-I" + root + "/include", "-I" + root + "/lib"]
        for i, s in enumerate(srcs):
            o = "%s/%d.o" % (d, i)
            objs.append(o)
            fs.append(self.pool.submit(self._cc, base + v["cflags"] + ["-c", s, "-o", o]))
        out = "%s/%s-%s.so" % (d, "gold" if root == GOLD else "lib", variant)

        def fin():
            if not os.path.exists(out):
                for f in fs:
                    f.result()
                self._cc([v["cc"], "-shared", "-Wl,-Bsymbolic", "-o", out] + v["cflags"] + objs + v.get("ld", []) + ["-lm"])
                for o in objs:
                    os.unlink(o)
            return out
        self.libs[k] = fin
        return fin

    def m32_start(self, k, d, srcs, root, v):
        """an image of the library with 32-bit pointers (harness/m_ilp32.c), or None
        where there is no way to build or run one"""
        inc = subprocess.run([v["cc"], "-print-file-name=include"], capture_output=True, text=True).stdout.strip()
        base = [v["cc"], "-m32", "-std=c99", "-w"] + LENIENT + ["-g1", "-ffreestanding", "-nostdinc", "-fno-pic", "-fno-stack-protector", "-fcf-protection=none",
                "-isystem", HARN + "/ilp32", "-isystem", inc, "-I" + root + "/include", "-I" + root + "/lib", "-DKRIPTO_UNIX"]
        objs = ["%s/%d.o" % (d, i) for i in range(len(srcs) + 1)]
        fs = [self.pool.submit(self._cc, base + v["cflags"] + ["-c", s, "-o", o]) for s, o in zip(srcs, objs)]
        # optimised, the copying loops would become calls of themselves
        fs.append(self.pool.submit(self._cc, base + ["-O2", "-fno-tree-loop-distribute-patterns", "-c", HARN + "/ilp32/rt32.c", "-o", objs[-1]]))
        out = d + "/lib.m32"
        drv = self.drv_start("plain")
        done = []

        def fin():
            if not done:
                try:
                    for f in fs:
                        f.result()
                    self._cc([v["cc"], "-m32", "-nostdlib", "-static", "-no-pie", "-Wl,-Ttext-segment=0x20000000,--build-id=none,-e,0", "-o", out] + objs)
                    r = subprocess.run([drv(), "ilp32probe", "--also", out, "--count", "1"], capture_output=True, text=True, timeout=60)
                    done.append(out if "ILP32\tyes" in r.stdout else None)
                    why = "cannot run: %s %s" % (r.returncode, r.stderr[-200:])
                except (HarnessError, subprocess.TimeoutExpired) as e:
                    done.append(None)
                    why = str(e)
                    # inline assembly that does not suit the processor it is written for
                    # is the library's; whatever else is missing may be this harness's
                    m = re.search(r"[^\n]*(: Error: |: error: (unsupported size for integer register|[^\n]*\basm\b))[^\n]*", why)
                    if m and HARN not in m.group(0):
                        f = re.search(r"-c (\S+)", why)
                        self.faults["ilp32"] = ("build32:" + (os.path.relpath(f.group(1), root) if f else "?"), "the library's assembly does not build for 32-bit processors: " + m.group(0).strip())
                if not done[0]:
                    print("note: no 32-bit build here: %s" % why[-600:].replace("\n", " "))
            return done[0]
        self.libs[k] = fin
        return fin

    def shim_start(self, variant):
        """the public inline helpers, built as this variant"""
        k = ("shim", variant)
        if k in self.libs:
            return self.libs[k]
        v = VARIANTS[variant]
        d = tempfile.mkdtemp(dir=self.tmp)
        self._cc([sys.executable, VERIF + "/tools/shim.py", REPO, d + "/shim.c"])
        out = "%s/shim-%s.so" % (d, variant)
        f = self.pool.submit(self._cc, [v["cc"], "-std=c99", "-w"] + LENIENT + ["-g1", "-fPIC", "-shared", "-I" + REPO + "/include"] + v["cflags"] + ["-o", out, d + "/shim.c"])

        def fin():
            f.result()
            return out
        self.libs[k] = fin
        return fin

    def iface_start(self, spec):
        """a part of a user's program: the public headers in some order, for some compiler"""
        cc, order = spec.split(":")
        lib = self.lib_start(REPO, "plain")
        d = tempfile.mkdtemp(dir=self.tmp)
        out = "%s/%s-%s.so" % (d, cc.replace(" ", ""), order)
        made = []

        def fin():
            if not made:
                so = lib()
                self._cc([sys.executable, VERIF + "/tools/iface.py", REPO, so, order, d + "/i.c"])
                rc, o, err = sh(cc.split() + ["-w", "-fPIC", "-shared", "-I" + REPO + "/include", d + "/i.c", "-o", out, "-x", "none", "-Wl,--no-as-needed", so])
                if rc:      # the headers cannot be used so: the monitor reports it
                    lines = [l for l in err.splitlines() if "error" in l] + ["compiler failed"]
                    open(d + "/e.c", "w").write("const char kv_error[] = %s;\n" % json.dumps(re.sub(r"[^ -~]", "?", lines[0][-300:]).replace("%", "")))
                    self._cc(["gcc", "-shared", "-fPIC", d + "/e.c", "-o", out])
                made.append(1)
            return out
        return fin

    def drv_start(self, variant):
        v = VARIANTS[variant]
        k = v.get("drv", variant)
        if k in self.drvs:
            return self.drvs[k]
        v = VARIANTS[k]
        d = tempfile.mkdtemp(dir=self.tmp)
        orc = k == "plain"
        flags = [v["cc"], "-std=gnu11", "-O1", "-g1", "-w", "-I" + GOLD + "/include"] + v.get("drvflags", []) + (["-DORC"] if orc else [])
        objs, fs = [], []
        for s in sorted(glob.glob(HARN + "/*.c")):
            if s.endswith("m_orc.c") and not orc:
                continue
            o = d + "/" + os.path.basename(s)[:-2] + ".o"
            objs.append(o)
            fs.append(self.pool.submit(self._cc, flags + ["-c", s, "-o", o]))
        out = d + "/drv"

        def fin():
            if not os.path.exists(out):
                for f in fs:
                    f.result()
                self._cc([v["cc"]] + v.get("drvflags", []) + ["-o", out] + objs + ["-rdynamic", "-ldl", "-lpthread"] + (["-lcrypto"] if orc else []))
            return out
        self.drvs[k] = fin
        return fin


# ---------------------------------------------------------------- running
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:detect_odr_violation=0:handle_segv=1",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:history_size=4:second_deadlock_stack=1",
    "MSAN_OPTIONS": "halt_on_error=1:exitcode=99:poison_in_dtor=1",
}


STUCK = 60


def wait_watching(p, timeout, progress, res):
    """the exit status, or None: out of time, or nothing in the process group has used the
    processor, or wanted to, through STUCK seconds of one case"""
    end, idle, last = time.time() + timeout, 0, None
    while time.time() < end:
        try:
            return p.wait(min(5, max(0.1, end - time.time())))
        except subprocess.TimeoutExpired:
            pass
        now = (group_cpu(p.pid), open(progress, "rb").read(256) if os.path.exists(progress) else b"")
        if now[0] is None or now != last:
            idle, last = 0, now
        else:
            idle += 1       # counted, so that a pause of the whole machine is not one of the case
            if idle * 5 > STUCK:
                res["stuck"] = True
                return None
    return None


def group_cpu(pgid):
    """the processor time of the group, or None where one of its threads is not asleep"""
    cpu = {}
    for e in os.listdir("/proc"):
        if not e.isdigit():
            continue
        try:
            if os.getpgid(int(e)) != pgid:
                continue
            for t in os.listdir("/proc/%s/task" % e):
                f = open("/proc/%s/task/%s/stat" % (e, t)).read().rsplit(")", 1)[1].split()
                if f[0] not in "SZ":
                    return None
                cpu[t] = (int(f[11]), int(f[12]))
        except OSError:
            continue
    return cpu


def run_one(job, drv, lib, gold, also, seed, tier, tmp, first, count, shard, nshard, timeout, only=None):
    d = tempfile.mkdtemp(dir=tmp)
    cmd = [drv, job["mode"]] + (["--lib", lib] if lib else []) + ["--seed", str(seed), "--first", str(first), "--count", str(count), "--shard", str(shard),
           "--nshard", str(nshard), "--tmp", d, "--tier", tier, "--hashes", d + "/hashes", "--progress", d + "/progress"]
    if gold:
        cmd += ["--gold", gold]
    for a in also:
        cmd += ["--also", a]
    env = dict(os.environ)
    env.update(SAN_ENV)
    env["LC_ALL"] = "C"
    res = {"mode": job["mode"], "variant": job["variant"], "viol": [], "stats": {}, "samples": [], "hashes": set(), "timeout": False, "shard": shard}
    with open(d + "/out", "wb") as fo, open(d + "/err", "wb") as fe:
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, start_new_session=True, cwd=d)
        rc = wait_watching(p, timeout, d + "/progress", res)
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        if rc is None:
            p.wait()
    out = open(d + "/out", errors="replace").read()
    err = open(d + "/err", errors="replace").read()
    prog = ""
    try:
        prog = open(d + "/progress", "rb").read().split(b"\0")[0].decode("latin1")
    except OSError:
        pass
    done = False
    for line in out.splitlines():
        f = line.split("\t", 2)
        if f[0] == "VIOL" and len(f) == 3:
            res["viol"].append((f[1], f[2]))
            if f[1] == "hang":
                done = True
        elif f[0] == "STAT" and len(f) == 3:
            res["stats"][f[1]] = res["stats"].get(f[1], 0) + int(f[2])
        elif f[0] == "SAMPLE":
            res["samples"].append(line.split("\t", 1)[1])
        elif f[0] == "DONE":
            done = True
    if os.path.exists(d + "/hashes"):
        b = open(d + "/hashes", "rb").read()
        res["hashes"] = set(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    if res.get("stuck"):
        res["viol"].append(("hang", "one case does not end: every thread of the process has slept for %d s: %s" % (STUCK, prog or "start-up")))
    elif rc is None:
        res["timeout"] = True
        res["where"] = prog
    elif rc == 3:
        raise HarnessError("%s: %s" % (" ".join(cmd), (err + out)[-2000:]))
    elif not done or rc != 0:
        what, key = describe_crash(rc, err)
        res["viol"].append((key, "%s; running: %s" % (what, prog or "start-up")))
    shutil.rmtree(d, ignore_errors=True)
    return res


def describe_crash(rc, err):
    """what ended the driver: a sanitizer report, an assertion, a signal"""
    fn = ""
    m = re.search(r"(SUMMARY: \w+Sanitizer: [^\n]*)", err)
    for fr in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\w+) (\S+)", err):
        if "/lib/" in fr.group(2) or ".so" in fr.group(2):
            fn = fr.group(1)
            break
    if m:
        w = re.search(r"(AddressSanitizer|ThreadSanitizer|MemorySanitizer|UndefinedBehaviorSanitizer|LeakSanitizer):? ([\w-]+)", m.group(1))
        e = re.search(r"runtime error: ([^\n]*)", err) or re.search(r"(ERROR: [^\n]*|WARNING: [^\n]*)", err)
        return "%s %s [in %s]" % (m.group(1), e.group(1) if e else "", fn), "sanitizer:%s" % (w.group(2) if w else "report")
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        return "undefined behaviour: %s [in %s]" % (m.group(1), fn), "sanitizer:undefined-behavior"
    m = re.search(r"Assertion `([^\n]*)' failed", err)
    if m:
        return "assertion failed in the library: %s" % err.strip().splitlines()[-1][-300:], "assertion"
    if rc is not None and rc < 0:
        return "the process died of signal %d %s" % (-rc, err.strip()[-300:].replace("\n", " | ")), "signal:%d" % -rc
    return "the process ended with status %s %s" % (rc, err.strip()[-300:].replace("\n", " | ")), "exit"


def load_known():
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3)
            elif l.startswith("fixed:"):
                fixed.append(l)
    return known, fixed


def check(pid, tier, seed, verbose=False):
    t0 = time.time()
    c = CHECKS[pid]
    jobs = [dict(j) for j in c["jobs"]]
    tmp = tempfile.mkdtemp(prefix="kv-%s-" % pid)
    known, _ = load_known()
    evals, hashes, samples, stats, found = 0, set(), [], {}, []
    try:
        b = Builder(tmp)
        # start every compile, then run the jobs as their libraries become ready
        for j in jobs:
            j["_lib"] = (lambda: None) if j.get("shims") else b.lib_start(REPO, j["variant"])
            j["_gold"] = b.lib_start(GOLD, "gold") if j.get("gold") else None
            j["_also"] = [b.lib_start(REPO, x) for x in j.get("also", [])] + [b.shim_start(x) for x in j.get("shims", [])] + [b.iface_start(x) for x in j.get("ifaces", [])]
            j["_drv"] = b.drv_start(j["variant"])
        tasks = []
        with cf.ThreadPoolExecutor(CPUS) as ex:
            for j in jobs:
                n = j["n"][0 if tier == "quick" else 1]
                if not n:
                    continue
                lib, gold, also, drv = j["_lib"](), j["_gold"]() if j["_gold"] else None, [f() for f in j["_also"]], j["_drv"]()
                if None in also or (not lib and not j.get("shims")):
                    stats["%s[%s]" % (j["mode"], j["variant"])] = {"builds_not_available": 1}
                    also = [x for x in also if x]
                    for k, d in b.faults.items():
                        if k in j.get("also", []):
                            found.append((d[0], d[1], j))
                    if not lib and not j.get("shims"):
                        continue
                ns = min(j.get("shards", CPUS), n)
                for s in range(ns):
                    a = (j, drv, lib, gold, also, seed, tier, tmp, 0, n, s, ns, j.get("timeout", 390 if tier == "quick" else 7200))
                    tasks.append((a, ex.submit(run_one, *a)))
        inconclusive = []
        for a, f in tasks:
            r = f.result()
            if r["timeout"]:
                left = 850 - (time.time() - t0) if tier == "quick" else 7200
                if left > 60:
                    r = run_one(*(a[:-1] + (min(a[-1], left),)))     # again, with the machine to itself
                if r["timeout"]:
                    inconclusive.append("%s/%s shard %d: %s" % (r["mode"], r["variant"], r["shard"], r.get("where", "")))
            nc = r["stats"].pop("cases", 0)
            evals += nc
            hashes |= r["hashes"]
            m = stats.setdefault("%s[%s]" % (r["mode"], r["variant"]), {})
            m["cases"] = m.get("cases", 0) + nc
            for k, v in r["stats"].items():
                m[k] = m.get(k, 0) + v
            for s in r["samples"][:2]:
                if sum(1 for x in samples if x.startswith(r["mode"] + ":")) < 3:
                    samples.append((r["mode"] + ": " + s)[:400])
            for key, det in r["viol"]:
                found.append((key, det, a[0]))
        return report(pid, tier, seed, c, evals, hashes, samples, stats, found, known, inconclusive, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(pid, tier, seed, c, evals, hashes, samples, stats, found, known, inconclusive, t0):
    rep = VERIF + "/out/replay"
    os.makedirs(rep, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    new, kf, seen = [], {}, {}
    for key, det, j in found:
        if (pid, key) in known:
            kf.setdefault(key, det)
            continue
        seen[key] = seen.get(key, 0) + 1
        new.append((key, det, j))
    for key, det in sorted(kf.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[(pid, key)], key))
    n, shown = 0, {}
    for key, det, j in new:
        shown[key] = shown.get(key, 0) + 1
        if shown[key] > 2 or n >= 10:
            continue
        n += 1
        m = re.search(r"case (\d+) of", det)
        path = "%s/%s-%d.json" % (rep, pid, n)
        json.dump({"property": pid, "tier": tier, "seed": seed, "mode": j["mode"], "variant": j["variant"], "case": int(m.group(1)) if m else None,
                   "job": {k: v for k, v in j.items() if not k.startswith("_")}, "key": key, "detail": det}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: %s" % (key, det[:1500]))
    if len(new) > n:
        print("  (%d violations in all: %s)" % (len(new), ", ".join("%s x%d" % kv for kv in sorted(seen.items()))))
    cov = {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": c["rule"], "samples": samples[:12] or ["none"], "monitors": stats}
    if kf:
        cov["known_findings_seen"] = sorted(kf)
    if inconclusive:
        cov["inconclusive"] = inconclusive
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"), "coverage": cov, "assumptions": c.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d: %d cases, %d distinct, %d violations, %d known, %.1f s" % (pid, tier, seed, evals, len(hashes), len(new), len(kf), time.time() - t0))
    if inconclusive:
        print("inconclusive (ran out of time): " + "; ".join(inconclusive))
    if new:
        return 1
    if evals == 0:
        print("no case ran")
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    j = r["job"]
    tmp = tempfile.mkdtemp(prefix="kv-replay-")
    try:
        b = Builder(tmp)
        lib = None if j.get("shims") else b.lib_start(REPO, j["variant"])()
        gold = b.lib_start(GOLD, "gold")() if j.get("gold") else None
        also = [b.lib_start(REPO, x)() for x in j.get("also", [])] + [b.shim_start(x)() for x in j.get("shims", [])] + [b.iface_start(x)() for x in j.get("ifaces", [])]
        drv = b.drv_start(j["variant"])()
        first, count = (r["case"], 1) if r["case"] is not None else (0, j["n"][0 if r["tier"] == "quick" else 1])
        if b.faults:
            x = {"viol": list(b.faults.values())}
        else:
            x = run_one(j, drv, lib, gold, also, r["seed"], r["tier"], tmp, first, count, 0, 1, 900)
        for k, d in x["viol"]:
            print("VIOLATION property=%s replay=%s\n  %s: %s" % (r["property"], path, k, d))
        if not x["viol"]:
            print("no violation in this case now")
        return 1 if x["viol"] else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    tmp = tempfile.mkdtemp(prefix="kv-setup-")
    try:
        b = Builder(tmp)
        fs = []
        for v in VARIANTS:
            fs.append(b.lib_start(GOLD if v == "gold" else REPO, v))
            if VARIANTS[v].get("drv", v) == v:
                fs.append(b.drv_start(v))
        for f in fs:
            f()
        print("setup: %d variants build" % len(VARIANTS))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = argparse.ArgumentParser(description=__doc__, formatter_class=argparse.RawDescriptionHelpFormatter)
    a.add_argument("cmd", choices=["check", "replay", "list", "setup"])
    a.add_argument("arg", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    o = a.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    try:
        if o.cmd == "list":
            for k, c in sorted(CHECKS.items()):
                print(k, ", ".join("%s[%s]x%d/%d" % (j["mode"], j["variant"], j["n"][0], j["n"][1]) for j in c["jobs"]))
            return 0
        if o.cmd == "setup":
            return setup()
        if o.cmd == "replay":
            return replay(o.arg)
        return check(o.arg, o.tier, seed)
    except HarnessError as e:
        print("ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
