"""Executable specifications: compiled with /repo's current sources, driven by case lines."""
import os, random, subprocess, sys, time, concurrent.futures as cf, hashlib
from . import frontend

GXX = "g++"


class BuildError(Exception):
    pass


class Harness:
    """main: file in /verif/harness; srcs: files of /repo/src compiled unchanged;
    gen(rng, budget, tier) yields case lines; rule: text for the evidence."""

    def __init__(self, scratch, main, srcs, gen, rule, libs=("-lfftw3", "-lfftw3f"), flags=(), trivial=None, tmo=240, per=None):
        self.scratch, self.main, self.srcs, self.gen, self.rule = scratch, main, srcs, gen, rule
        self.libs, self.flags, self.trivial, self.tmo = list(libs), list(flags), trivial, tmo
        self.exe = os.path.join(scratch, "harness")
        self.pool = None
        self.here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

    def base(self):
        return [GXX, "-std=c++17", "-O1", "-g0", "-w", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(frontend.REPO, "src"),
                "-I" + os.path.join(self.here, "harness")] + self.flags

    def start_build(self):
        self.pool = cf.ThreadPoolExecutor(8)
        self.futs = []
        objs = []
        for s in [os.path.join(self.here, "harness", self.main)] + [os.path.join(frontend.REPO, "src", x) for x in self.srcs]:
            o = os.path.join(self.scratch, "%s_%s.o" % (os.path.basename(s), hashlib.md5(s.encode()).hexdigest()[:6]))
            objs.append(o)
            self.futs.append(self.pool.submit(self.cc, self.base() + ["-c", s, "-o", o]))
        self.objs = objs

    def cc(self, cmd):
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            raise BuildError("timeout: " + " ".join(cmd))
        if p.returncode != 0:
            raise BuildError(" ".join(cmd) + "\n" + p.stderr[:3000])

    def finish_build(self):
        for f in self.futs:
            f.result()
        self.cc([GXX] + [f for f in self.flags if f.startswith("-fsan")] + ["-o", self.exe] + self.objs + self.libs)

    def replay_cmd(self):
        return "build harness/%s with the sources %s of /repo/src and feed it the case line(s) on stdin" % (self.main, ",".join(self.srcs))

    def exec_lines(self, lines, tmo):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=0")
        os.makedirs(os.path.join(self.scratch, "w"), exist_ok=True)
        try:
            p = subprocess.run([self.exe], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=tmo, errors="replace",
                               cwd=os.path.join(self.scratch, "w"), env=env)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b""
            if isinstance(out, bytes):
                out = out.decode(errors="replace")
            return -99, out, "timeout"

    def run_chunk(self, lines, tmo):
        """runs the lines, isolating a line that crashes the process or hangs"""
        fails, done = [], 0
        todo = list(lines)
        while todo:
            rc, out, err = self.exec_lines(todo, tmo)
            ok = [l for l in out.split("\n") if l.startswith(("OK ", "FAIL "))]
            for l in ok:
                if l.startswith("FAIL "):
                    fails.append(l[5:])
            done += len(ok)
            if rc == 0 and len(ok) >= len(todo):
                break
            if len(ok) >= len(todo):
                fails.append("%s :: process ended with status %d after the last case: %s" % (todo[-1], rc, err.strip()[:200]))
                break
            bad = todo[len(ok)]
            if rc == -99:
                # a hang counts only if the single case alone exceeds the limit
                alone = max(20, tmo // 4)
                rc2, out2, _ = self.exec_lines([bad], alone)
                if rc2 == -99:
                    fails.append("%s :: does not finish within %ds" % (bad, alone))
                    break
            else:
                fails.append("%s :: crashed (status %d): %s" % (bad, rc, err.strip()[-300:].replace("\n", " | ")))
            done += 1
            todo = todo[len(ok) + 1:]
            if len(fails) > 30:
                break
        return fails, done

    def run(self, seed, budget, tier, extra=()):
        rng = random.Random(seed)
        lines = list(extra) + list(self.gen(rng, budget, tier))
        seen = []
        for l in lines:
            assert "\n" not in l
            seen.append(l)
        k = 8
        chunks = [seen[i::k] for i in range(k) if seen[i::k]]
        fails, n = [], 0
        with cf.ThreadPoolExecutor(k) as p:
            for f, d in p.map(lambda c: self.run_chunk(c, self.tmo), chunks):
                fails += f
                n += d
        triv = self.trivial or (lambda l: False)
        return fails, {"evaluations": n, "distinct": len({l for l in seen if not triv(l)}), "rule": self.rule,
                       "samples": [l for l in seen[:3]] + seen[len(seen) // 2:len(seen) // 2 + 2]}


PYBIND = "/opt/gfft/venv/lib/python3.12/site-packages/pybind11/include"
PY = "/opt/gfft/venv/bin/python"
EXT_SRCS = ["gaussfftinterface.cpp", "gaussfft.cpp", "nrlib/random/dSFMT.cpp", "nrlib/random/random.cpp", "nrlib/random/randomgenerator.cpp",
            "nrlib/variogram/variogram.cpp", "nrlib/variogram/variogramtypes.cpp", "nrlib/variogram/gaussianfield.cpp",
            "nrlib/variogram/fftcovgrid.cpp", "nrlib/fft/fftgrid3d.cpp", "nrlib/fft/fft.cpp", "nrlib/fft/fftgrid2d.cpp",
            "nrlib/math/constants.cpp", "nrlib/iotools/stringtools.cpp"]


class PyHarness(Harness):
    """the extension module built from /repo/src, driven through Python by harness/<main>"""

    def __init__(self, scratch, main, gen, rule, tmo=300, flags=(), trivial=None, ref=None):
        Harness.__init__(self, scratch, main, EXT_SRCS, gen, rule, flags=list(flags), tmo=tmo, trivial=trivial)
        self.ref = ref        # (source in /verif/harness, module name): a second extension linked with the same objects

    def base(self):
        return [GXX, "-std=gnu++17", "-O1", "-g0", "-w", "-fPIC", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-fvisibility=hidden", "-I" + os.path.join(frontend.REPO, "src"),
                "-I" + PYBIND, "-I/usr/include/python3.12"] + self.flags

    def start_build(self):
        self.pool = cf.ThreadPoolExecutor(8)
        self.futs, self.objs = [], []
        for x in self.srcs:
            s = os.path.join(frontend.REPO, "src", x)
            o = os.path.join(self.scratch, os.path.basename(x) + ".o")
            self.objs.append(o)
            self.futs.append(self.pool.submit(self.cc, self.base() + ["-c", s, "-o", o]))
        if self.ref:
            self.ro = os.path.join(self.scratch, self.ref[1] + ".o")
            self.futs.append(self.pool.submit(self.cc, self.base() + ["-c", os.path.join(self.here, "harness", self.ref[0]), "-o", self.ro]))

    def finish_build(self):
        for f in self.futs:
            f.result()
        if self.ref:
            self.cc([GXX, "-shared", "-o", os.path.join(self.scratch, self.ref[1] + ".so"), self.ro] + [o for o in self.objs if "gaussfft" not in os.path.basename(o)] + self.libs)
        self.so = os.path.join(self.scratch, "_gaussianfft.so")
        self.cc([GXX, "-shared", "-o", self.so] + self.objs + self.libs)

    def replay_cmd(self):
        return "build the extension from /repo/src and run harness/%s with the case line(s) on stdin" % self.main

    def exec_lines(self, lines, tmo):
        env = dict(os.environ, PYTHONPATH=self.scratch, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=frontend.REPO, OMP_NUM_THREADS="1")
        os.makedirs(os.path.join(self.scratch, "w"), exist_ok=True)
        try:
            p = subprocess.run([PY, os.path.join(self.here, "harness", self.main)], input="\n".join(lines) + "\n", capture_output=True,
                               text=True, timeout=tmo, errors="replace", cwd=os.path.join(self.scratch, "w"), env=env)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b""
            if isinstance(out, bytes):
                out = out.decode(errors="replace")
            return -99, out, "timeout"
