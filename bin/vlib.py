#!/usr/bin/env python3
"""Shared machinery of the checks: build drivers from /repo, run TLC, validate
traces, write evidence, report violations (only when a re-run repeats them)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")          # override only used for development
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
CACHE = os.path.join(ROOT, ".cache")
NCPU = os.cpu_count() or 4
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


class Rejected(Exception):
    """The implementation's behaviour is not one the specification allows."""
    def __init__(self, what, files=()):
        super().__init__(what)
        self.what = what
        self.files = list(files)


def flat(x, top=True):
    """Flatten a scenario step into whitespace separated tokens for the driver."""
    if isinstance(x, bool):
        return ["1" if x else "0"]
    if isinstance(x, (int, str)):
        return [str(x)]
    if isinstance(x, (list, tuple)):
        out = [] if top else [str(len(x))]
        for y in x:
            out += flat(y, False)
        return out
    raise TypeError(repr(x))


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % pid)
        self.cov = dict(states=0, transitions=0,
                        traces_validated_against_impl=0, trace_events=0, samples=[])
        self.notes = []
        self.kinds = {}

    # ---------------------------------------------------------------- build
    def _hash(self, parts, dirs):
        h = hashlib.sha256()
        for p in parts:
            h.update(repr(p).encode())
        for d in dirs:
            for dp, dn, fn in sorted(os.walk(d)):
                for f in sorted(fn):
                    q = os.path.join(dp, f)
                    h.update(os.path.relpath(q, d).encode())
                    with open(q, "rb") as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
        return h.hexdigest()[:32]

    def build(self, driver, libs=(), defs=(), opt="-O0", san=None, cxx="clang++", extra_src=()):
        """Compile harness/<driver>.cpp with the given /repo/src/*.cpp against the
        current /repo tree.  Content-addressed cache (keyed by every source byte)."""
        flags = ["-std=c++17", "-w", opt, "-g0"]
        if cxx == "clang++":
            flags += ["-include", "proxsuite-nlp/warning.hpp"]
        if san:
            flags += ["-fsanitize=" + san, "-fno-sanitize-recover=all"]
            if "address" in san:
                flags += ["-fno-omit-frame-pointer"]
        flags += ["-D" + d for d in defs]
        flags += ["-I" + os.path.join(HARN, "shim"), "-I" + HARN,
                  "-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3"]
        if libs == "all":
            libs = sorted(os.path.basename(f)[:-4] for f in glob.glob(os.path.join(REPO, "src", "*.cpp")))
        key = self._hash([driver, tuple(libs), tuple(f for f in flags if REPO not in f and ROOT not in f), cxx,
                          [open(os.path.join(HARN, x + ".cpp")).read() for x in (driver,) + tuple(extra_src)],
                          [open(os.path.join(HARN, x)).read() for x in sorted(os.listdir(HARN)) if x.endswith(".hpp")]],
                         [os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(HARN, "shim")])
        exe = os.path.join(CACHE, key, driver)
        if os.path.exists(exe):
            os.utime(os.path.dirname(exe))
            return exe
        srcs = [(os.path.join(HARN, driver + ".cpp"), "drv.o")]
        srcs += [(os.path.join(HARN, x + ".cpp"), x + ".o") for x in extra_src]
        srcs += [(os.path.join(REPO, "src", l + ".cpp"), "lib_%s.o" % l) for l in libs]
        bdir = os.path.join(self.work, "build_" + driver)
        os.makedirs(bdir, exist_ok=True)
        # longest first
        srcs.sort(key=lambda s: 0 if s[1] == "drv.o" or "prox-solver" in s[1] else 1)

        def cc(s):
            p = subprocess.run([cxx] + flags + ["-c", s[0], "-o", os.path.join(bdir, s[1])],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return s[0], p.returncode, p.stdout
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(cc, srcs))
        for f, rc, out in res:
            if rc != 0:
                raise CheckError("cannot compile %s:\n%s" % (f, out[-3000:]))
        tmp = os.path.join(bdir, driver)
        p = subprocess.run([cxx] + (["-fsanitize=" + san] if san else []) +
                           [os.path.join(bdir, s[1]) for s in srcs] + ["-o", tmp, "-lfmt", "-lpthread"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("cannot link %s:\n%s" % (driver, p.stdout[-3000:]))
        try:
            os.makedirs(CACHE, exist_ok=True)
            for old in sorted(glob.glob(CACHE + "/*"), key=os.path.getmtime)[:-60]:
                shutil.rmtree(old, ignore_errors=True)
            stage = tempfile.mkdtemp(dir=CACHE, prefix="tmp_")
            shutil.copy2(tmp, os.path.join(stage, driver))
            try:
                os.rename(stage, os.path.dirname(exe))
            except OSError:
                shutil.rmtree(stage, ignore_errors=True)
            if os.path.exists(exe):
                return exe
        except OSError:
            pass
        return tmp

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg_text, files=None, args=(), timeout=600, workers=None, heap=None, name=None, deadlock=False):
        """Run TLC on spec/<module>.tla with the given cfg text.  Returns dict."""
        d = tempfile.mkdtemp(dir=self.work, prefix="tlc_")
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        for dst, src in (files or {}).items():
            if isinstance(src, bytes) or (isinstance(src, str) and "\n" in src) or src == "":
                with open(os.path.join(d, dst), "wb" if isinstance(src, bytes) else "w") as fh:
                    fh.write(src)
            else:
                os.symlink(src, os.path.join(d, dst))
        with open(os.path.join(d, "run.cfg"), "w") as fh:
            fh.write(cfg_text)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m"]
        if heap:
            cmd.append("-Xmx" + heap)
        cmd += ["-cp", JAVA_CP, "tlc2.TLC", "-config", "run.cfg", "-workers", str(workers or 1),
                "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-cleanup"]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(args) + [module + ".tla"]
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise CheckError("TLC timed out after %ds on %s" % (timeout, module))
        out = p.stdout
        m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
        r = dict(rc=p.returncode, out=out, dir=d, wall=time.time() - t,
                 generated=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0)
        return r

    def design(self, module, cfg_text, files=None, timeout=600, workers=None, expect_actions=(), args=()):
        """Exhaustively model-check a design specification.  A failure here is an
        error of the specification (exit 2), never an alarm about the code."""
        r = self.tlc(module, cfg_text, files=files, timeout=timeout, workers=workers or NCPU, args=args)
        if r["rc"] != 0:
            raise CheckError("design check of %s failed:\n%s" % (module, r["out"][-3000:]))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.notes.append("design %s: %d distinct states, %d transitions, %.1fs" %
                          (module, r["distinct"], r["generated"], r["wall"]))
        return r

    def generate(self, module, cfg_text, marker="GEN", num=None, depth=None, files=None, timeout=600, seed=None):
        """Behaviours of the specification (printed by TLC as JSON after marker)."""
        args = []
        if num is not None:
            args = ["-simulate", "num=%d" % num, "-seed", str(seed if seed is not None else self.seed)]
            if depth:
                args += ["-depth", str(depth)]
        r = self.tlc(module, cfg_text, args=args, files=files, timeout=timeout)
        outs = []
        pat = '<<"%s", "' % marker
        for line in r["out"].splitlines():
            if line.startswith(pat) and line.endswith('">>'):
                body = line[len(pat):-3]
                outs.append(json.loads(json.loads('"' + body + '"')))
        if not outs:
            raise CheckError("no behaviour generated by %s:\n%s" % (module, r["out"][-3000:]))
        if r["rc"] != 0:
            raise CheckError("generator %s failed:\n%s" % (module, r["out"][-3000:]))
        self.cov["transitions"] += r["generated"]
        return outs

    # --------------------------------------------------------------- driver
    def run_driver(self, exe, args=(), stdin=None, timeout=300, env=None, ok_codes=(0,), stdout_file=None):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=97"
        e["UBSAN_OPTIONS"] = "print_stacktrace=0"
        if env:
            e.update(env)
        try:
            p = subprocess.run([exe] + list(args), input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               text=True, timeout=timeout, cwd=self.work, env=e)
        except subprocess.TimeoutExpired:
            raise Rejected("driver %s did not terminate within %ds" % (os.path.basename(exe), timeout))
        if p.returncode not in ok_codes:
            raise Rejected("driver %s ended with code %d: %s" % (os.path.basename(exe), p.returncode, p.stderr[-2000:]),
                           files=[])
        return p

    def replay(self, exe, ops_list, name="run", timeout=300, env=None):
        """ops_list: list of scenarios (lists of steps).  Writes ops/res ndjson."""
        opsf = os.path.join(self.work, name + "_ops.ndjson")
        tokf = os.path.join(self.work, name + "_ops.txt")
        resf = os.path.join(self.work, name + "_res.ndjson")
        n = 0
        with open(opsf, "w") as a, open(tokf, "w") as b:
            for sc in ops_list:
                for st in sc:
                    a.write(json.dumps(st, separators=(",", ":")) + "\n")
                    b.write(" ".join(flat(st)) + "\n")
                    n += 1
        if os.path.exists(resf):
            os.remove(resf)
        try:
            self.run_driver(exe, [tokf, resf], timeout=timeout, env=env)
        except Rejected as e:
            k = sum(1 for _ in open(resf)) if os.path.exists(resf) else 0
            ops = open(opsf).read().splitlines()
            e.what += "\n  at step %d: %s" % (k + 1, ops[k] if k < len(ops) else "?")
            e.files += [opsf, resf]
            raise
        k = sum(1 for _ in open(resf))
        if k != n:
            raise CheckError("driver answered %d of %d steps" % (k, n))
        return opsf, resf, n

    def validate(self, module, cfg_text, files, nsteps, ntraces, timeout=600, what=""):
        """Trace validation: TLC must accept the complete trace."""
        r = self.tlc(module, cfg_text, files=files, timeout=timeout)
        ok = r["rc"] == 0 and "TRACE-ACCEPTED" in r["out"]
        if ok:
            self.cov["traces_validated_against_impl"] += ntraces
            self.cov["trace_events"] += nsteps
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["generated"]
            self.notes.append("trace %s: %d events in %d traces, %.1fs" % (module, nsteps, ntraces, r["wall"]))
            return
        m = re.search(r'"TRACE-REJECTED"(.*)', r["out"], re.S)
        if m:
            txt = m.group(1)
            cut = txt.find("\nError:")
            pre = r["out"][:m.start()]
            i = max(pre.rfind('<<"FAIL"'), pre.rfind('<< "FAIL"'), pre.rfind('"EXPECTED"'))
            why = pre[i:i + 1500] if i >= 0 else ""
            raise Rejected("%s: %s rejects the trace:%s\n%s" % (what, module, txt[:cut if cut > 0 else 3000][:3000], why),
                           files=list(v for v in files.values() if isinstance(v, str) and v.startswith("/")))
        if "Attempted to" in r["out"] and "Parsing or semantic analysis failed" not in r["out"]:
            # the inputs are the same on every tree: only a recorded value outside
            # the specification's types can make the evaluation fail
            i = r["out"].find("Attempted to")
            raise Rejected("%s: %s cannot interpret a recorded value: %s" % (what, module, r["out"][i:i + 1500]),
                           files=list(v for v in files.values() if isinstance(v, str) and v.startswith("/")))
        raise CheckError("TLC failed on trace %s:\n%s" % (module, r["out"][-4000:]))

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            s = json.dumps(x) if not isinstance(x, str) else x
            self.cov["samples"].append(s[:600])

    def evidence(self, level, violations):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        self.cov["notes"] = self.notes
        self.cov["step_kinds"] = self.kinds
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(violations))
        if violations:
            ev["violation"] = violations
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)

    def count(self, ops_list):
        for sc in ops_list:
            for st in sc:
                k = st[0] if isinstance(st, (list, tuple)) else st.get("ev", "?")
                self.kinds[k] = self.kinds.get(k, 0) + 1

    def close(self):
        if os.environ.get("VERIF_KEEP"):
            print("kept", self.work)
        else:
            shutil.rmtree(self.work, ignore_errors=True)


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    fn, level = checks[a.pid]
    failures = []
    for attempt in range(2):
        c = Check(a.pid, a.tier, seed)
        try:
            try:
                fn(c)
                c.evidence(level, [])
                if failures:
                    # not repeated: not believed
                    print("note: a rejection was not repeated by the second run:\n" + failures[0], file=sys.stderr)
                print("OK property=%s tier=%s %.1fs: %s" % (a.pid, a.tier, time.time() - c.t0, "; ".join(c.notes)))
                return 0
            except Rejected as e:
                failures.append(e.what)
                if attempt == 1:
                    rd = os.path.join(ROOT, "evidence", "replay", a.pid)
                    shutil.rmtree(rd, ignore_errors=True)
                    os.makedirs(rd, exist_ok=True)
                    with open(os.path.join(rd, "what.txt"), "w") as fh:
                        fh.write(e.what + "\n")
                    for f in e.files:
                        if os.path.isfile(f):
                            shutil.copy(f, rd)
                    c.evidence(level, [e.what[:2000]])
                    print(e.what[:3000])
                    print("VIOLATION property=%s replay=%s" % (a.pid, os.path.relpath(rd, ROOT)))
                    return 1
            except CheckError as e:
                print("ERROR in check %s: %s" % (a.pid, e), file=sys.stderr)
                return 2
        finally:
            c.close()
    return 2
