"""Builds the real sources of /repo with the concrete drivers and runs them.

The drivers (driver/cXX.cpp) call the real classes and compare them with
independent reference computations.  They replay counterexamples of failed
proof obligations, search for a failing input when an obligation is not
discharged, and stand in (bounded) for functions outside the prover's reach.
"""
import os, re, shutil, signal, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("XVC_REPO", "/repo")
BASE = ["g++", "-std=c++14", "-w", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS",
        "-fsanitize=address", "-fno-omit-frame-pointer"]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_abort=1:allocator_may_return_null=1",
           LC_ALL="C")


def sources():
    out = []
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith(".cpp")]
    deps = []
    for root, _, files in os.walk(os.path.join(REPO, "dependencies/jsoncpp")):
        if "test" in root:
            continue
        deps += [os.path.join(root, f) for f in sorted(files)
                 if f.endswith(".cpp") and "main" not in f and "test" not in f]
    return sorted(out), sorted(deps)


def includes():
    return ["-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(REPO, "dependencies/jsoncpp/include")]


class Build:
    """one scratch build: objects of the library and one driver"""

    def __init__(self, prop):
        self.dir = tempfile.mkdtemp(prefix="xvc-%s-" % prop)
        self.prop = prop
        self.exe = None
        self.error = None
        self.priv = False

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _cc(self, src, obj, extra=()):
        p = subprocess.run(BASE + list(extra) + includes() + ["-c", src, "-o", obj],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        return p.returncode, p.stdout

    def build(self):
        drv = os.path.join(VERIF, "driver", self.prop.lower() + ".cpp")
        lib, deps = sources()
        jobs, objs = [], []
        inc = ["-I" + os.path.join(VERIF, "driver")]
        pool = ThreadPoolExecutor(8)
        variants = [("priv", ["-fno-access-control", "-DXVC_PRIV"]), ("pub", [])]
        drvjobs = [(n, os.path.join(self.dir, "drv_%s.o" % n), pool.submit(
            self._cc, drv, os.path.join(self.dir, "drv_%s.o" % n), inc + ex)) for n, ex in variants]
        for i, s in enumerate(lib + deps):
            o = os.path.join(self.dir, "o%03d.o" % i)
            objs.append(o)
            jobs.append((s, pool.submit(self._cc, s, o)))
        try:
            for s, j in jobs:
                rc, out = j.result()
                if rc:
                    self.error = "the library source %s does not compile: %s" % (s, out[-1500:])
                    return False
            for n, o, j in drvjobs:
                rc, out = j.result()
                if rc:
                    self.error = "driver (%s) does not compile: %s" % (n, out[-1500:])
                    continue
                exe = os.path.join(self.dir, "drv_" + n)
                p = subprocess.run(["g++", "-fsanitize=address", o] + objs + ["-lpthread", "-o", exe],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
                if p.returncode:
                    self.error = "driver (%s) does not link: %s" % (n, p.stdout[-1500:])
                    continue
                self.exe, self.priv, self.error = exe, n == "priv", None
                return True
            return False
        except subprocess.TimeoutExpired:
            self.error = "compiler timeout"
            return False
        finally:
            pool.shutdown(wait=True, cancel_futures=True)

    def run(self, seed, secs, case=None, limit=None):
        cmd = [self.exe, str(seed), str(secs)]
        if case is not None:
            cmd.append(str(case))
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=limit or secs + 60, env=ENV, cwd=self.dir)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            o = e.stdout or ""
            return 124, o if isinstance(o, str) else o.decode(errors="replace")

    def search(self, seed, secs, workers=6):
        """run the driver with several seeds; returns dict"""
        t0 = time.time()
        seeds = [seed * 64 + w for w in range(workers)]
        with ThreadPoolExecutor(workers) as pool:
            res = list(pool.map(lambda s: (s,) + self.run(s, secs), seeds))
        out = {"cases": 0, "fail": None, "unconfirmed": [], "samples": [], "wall_s": 0.0}
        for s, rc, txt in res:
            m = re.search(r"^OK cases=(\d+)", txt, re.M)
            if rc == 0 and m:
                out["cases"] += int(m.group(1))
                out["samples"].append("seed %d: %s cases" % (s, m.group(1)))
                continue
            m = re.search(r"^FAIL case=(-?\d+) (.*)$", txt, re.M)
            case = int(m.group(1)) if m else None
            msg = m.group(2) if m else "driver ended with status %d: %s" % (rc, txt[-400:])
            if case is None:
                out["unconfirmed"].append(msg)
                continue
            out["cases"] += max(case, 0)
            ok = None
            for k in range(3):
                rc2, txt2 = self.run(s, 1, case, limit=90)
                if rc2 == 0:
                    continue
                m2 = re.search(r"^FAIL case=(-?\d+) (.*)$", txt2, re.M)
                if rc2 == 124:
                    continue
                ok = m2.group(2) if m2 else msg
                break
            if ok is None:
                # state left by earlier cases may matter: replay from the start
                rc2, txt2 = self.run(s, secs)
                m2 = re.search(r"^FAIL case=(-?\d+) (.*)$", txt2, re.M)
                if m2 and int(m2.group(1)) == case:
                    ok = m2.group(2)
            if ok is None:
                out["unconfirmed"].append("seed %d case %d: %s" % (s, case, msg))
            elif out["fail"] is None:
                out["fail"] = {"seed": s, "case": case, "message": ok, "output": txt[-6000:]}
        out["wall_s"] = time.time() - t0
        return out
