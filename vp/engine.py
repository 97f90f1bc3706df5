"""Symbolic checking engine: /repo sources -> goto programs -> SMT/SAT verdicts -> native replay.

Every run: (1) compiles every /repo/src/**/*.c with goto-cc, (2) links each case's
harness against it, (3) lets CBMC execute the real code symbolically and hands the
negated assertions to an SMT/SAT solver, (4) replays every counterexample against a
native build of the same sources and reports a violation only when it reproduces.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
ALLOC = ["-Dmalloc=vp_malloc", "-Dfree=vp_free", "-Dcalloc=vp_calloc", "-Drealloc=vp_realloc"]
NCPU = os.cpu_count() or 4
SHORT = 15     # seconds every back end gets before any of them gets its full time

CBMC_BASE = [
    "--unwinding-assertions", "--no-malloc-may-fail", "--drop-unused-functions",
    "--no-signed-overflow-check", "--max-field-sensitivity-array-size", "4096",
    "--slice-formula", "--object-bits", "14", "--verbosity", "8", "--json-ui",
]
BACKENDS = {
    "cvc5": ["--cvc5"],
    "sat": [],
    "kissat": ["--external-sat-solver", "kissat"],
    "z3": ["--z3", "--fpa"],
}


class Case:
    def __init__(self, name, src, defs=None, unwind=80, backends=("cvc5", "sat"), timeout=60,
                 tier="quick", witness=True, stage2=True, flags=(), group=None, expect=None,
                 finding=None, reach=False, backends2=None, cost=1, short=SHORT):
        self.name, self.src, self.defs = name, src, dict(defs or {})
        self.unwind, self.backends, self.timeout = unwind, tuple(backends), timeout
        self.tier, self.witness, self.stage2 = tier, witness, stage2
        self.flags, self.group = tuple(flags), group or src
        self.finding = finding
        self.backends2 = backends2
        self.cost = cost
        self.short = short          # seconds each back end gets in the first round
        self.searched = False
        self.reach = reach          # a query whose expected verdict is "reachable"


def dflags(defs):
    out = []
    for k, v in defs.items():
        out.append("-D%s" % k if v is None else "-D%s=%s" % (k, v))
    return out


class Stop(Exception):
    pass


class Engine:
    def __init__(self, prop, deadline):
        self.prop = prop
        self.work = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        self.t0 = time.time()
        self.deadline = self.t0 + deadline
        self.lock = threading.Lock()
        self.procs = set()
        self.stopping = False
        self.stat = dict(queries=0, sat=0, unsat=0, timeout=0, error=0, solver_s=0.0, symex_s=0.0,
                         steps=0, vccs=0, vccs_solver=0, replays=0, replays_ok=0, assignments=0)
        self.functions = set()
        self.nat_built = {}
        self.nat_lock = threading.Lock()
        self.debug = os.environ.get("VP_DEBUG")

    # ------------------------------------------------------------------ processes
    def run(self, cmd, timeout, **kw):
        with self.lock:
            if self.stopping:
                raise Stop()
            left = self.deadline - time.time()
            if left <= 1:
                raise Stop()
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 start_new_session=True, **kw)
            self.procs.add(p)
        try:
            try:
                out, err = p.communicate(timeout=min(timeout, left))
                return p.returncode, out, err
            except subprocess.TimeoutExpired:
                self.kill(p)
                p.communicate()
                return None, b"", b""
        finally:
            with self.lock:
                self.procs.discard(p)

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass

    def stop_all(self):
        with self.lock:
            self.stopping = True
            for p in list(self.procs):
                self.kill(p)

    def cleanup(self):
        self.stop_all()
        if self.work.startswith(tempfile.gettempdir() + os.sep + "vp_"):
            shutil.rmtree(self.work, ignore_errors=True)

    # ------------------------------------------------------------------ build
    def sources(self):
        return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))

    def build_repo(self):
        self.objs = []

        def one(s):
            o = os.path.join(self.work, "goto_" + os.path.relpath(s, REPO).replace("/", "_") + ".o")
            rc, _, err = self.run(["goto-cc", "-DVP_CBMC", "-I" + REPO, "-w"] + ALLOC + ["-c", s, "-o", o], 120)
            if rc != 0:
                raise RuntimeError("goto-cc failed on %s: %s" % (s, err.decode(errors="replace")[-800:]))
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex:
            self.objs = list(ex.map(one, self.sources()))
        rc, _, err = self.run(["goto-cc", "-DVP_CBMC", "-I" + REPO, "-I" + HARNESS, "-w",
                               os.path.join(HARNESS, "vp.c"), "-c", "-o", os.path.join(self.work, "vp.o")], 60)
        if rc != 0:
            raise RuntimeError("goto-cc vp.c: " + err.decode(errors="replace")[-800:])

    def link(self, case, extra, tag):
        gb = os.path.join(self.work, "%s_%s.gb" % (re.sub(r"\W", "_", case.name), tag))
        cmd = (["goto-cc", "-DVP_CBMC", "-I" + REPO, "-I" + HARNESS, "-w"] + dflags(case.defs) + extra +
               [os.path.join(HARNESS, case.src), os.path.join(HARNESS, "vp_math.c"),
                os.path.join(self.work, "vp.o")] + self.objs + ["-o", gb])
        rc, _, err = self.run(cmd, 120)
        if rc != 0:
            raise RuntimeError("goto-cc harness %s: %s" % (case.name, err.decode(errors="replace")[-1200:]))
        return gb

    NAT = {
        "asan": ["gcc", "-g", "-O0", "-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow,shift,float-cast-overflow",
                 "-fno-sanitize-recover=undefined", "-ftrivial-auto-var-init=pattern"],
        "plain": ["gcc", "-g", "-O0", "-ftrivial-auto-var-init=pattern"],
    }

    def native_lib(self, variant):
        with self.nat_lock:
            if variant in self.nat_built:
                return self.nat_built[variant]
            cc = self.NAT[variant]

            def one(s):
                o = os.path.join(self.work, "nat_%s_" % variant + os.path.relpath(s, "/").replace("/", "_") + ".o")
                extra = [] if s.startswith(HARNESS) else ALLOC
                rc, _, err = self.run(cc + ["-w", "-I" + REPO, "-I" + HARNESS] + extra + ["-c", s, "-o", o], 120)
                if rc != 0:
                    raise RuntimeError("gcc %s: %s" % (s, err.decode(errors="replace")[-800:]))
                return o
            with cf.ThreadPoolExecutor(NCPU) as ex:
                objs = list(ex.map(one, self.sources() + [os.path.join(HARNESS, "vp.c")]))
            self.nat_built[variant] = objs
            return objs

    def native_exe(self, case, extra, variant, tag):
        objs = self.native_lib(variant)
        exe = os.path.join(self.work, "%s_%s_%s.exe" % (re.sub(r"\W", "_", case.name), tag, variant))
        cmd = (self.NAT[variant] + ["-w", "-I" + REPO, "-I" + HARNESS] + dflags(case.defs) + extra +
               [os.path.join(HARNESS, case.src)] + objs + ["-lm", "-o", exe])
        rc, _, err = self.run(cmd, 120)
        if rc != 0:
            raise RuntimeError("gcc %s: %s" % (case.name, err.decode(errors="replace")[-800:]))
        return exe

    # ------------------------------------------------------------------ queries
    def cbmc(self, gb, case, backend, timeout, extra=(), unwind=None):
        cmd = (["cbmc", gb, "--unwind", str(unwind or case.unwind)] + CBMC_BASE +
               [f for f in case.flags if not (f == "--conversion-check" and "--no-standard-checks" in extra)] +
               BACKENDS[backend] + ["--stop-on-fail", "--trace"] + list(extra))
        t = time.time()
        rc, out, err = self.run(cmd, timeout)
        dt = time.time() - t
        res = dict(backend=backend, wall=dt, verdict="timeout", inputs=[], prop=None, desc=None, loc=None)
        if rc is None:
            with self.lock:
                self.stat["timeout"] += 1
                self.stat["queries"] += 1
            return res
        try:
            js = json.loads(out.decode(errors="replace"))
        except ValueError:
            js = []
        status = None
        for e in js:
            m = e.get("messageText", "")
            if m:
                g = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
                if g:
                    res["vccs"], res["vccs_solver"] = int(g.group(1)), int(g.group(2))
                g = re.match(r"size of program expression: (\d+) steps", m)
                if g:
                    res["steps"] = int(g.group(1))
                g = re.match(r"slicing removed (\d+) assignments", m)
                if g:
                    res["assignments"] = int(g.group(1))
                g = re.match(r"Runtime (Symex|Solver|decision procedure): ([\d.e+-]+)s", m)
                if g:
                    res["t_" + g.group(1)] = float(g.group(2))
                if e.get("messageType") == "ERROR":
                    res["err"] = m
            if "cProverStatus" in e:
                status = e["cProverStatus"]
            for r in e.get("result", []) + ([e] if "property" in e and "trace" in e else []):
                if r.get("status", "").lower().startswith("fail"):
                    res["prop"], res["desc"] = r.get("property"), r.get("description")
                    tr = r.get("trace", [])
                    for s in tr:
                        if s.get("stepType") == "input" and s.get("inputID") == "vpin":
                            v = s["values"][0]
                            b = v.get("binary")
                            res["inputs"].append(int(b, 2) if b else int(re.sub(r"[^0-9-]", "", v.get("data", "0")) or 0) & (2**64 - 1))
                        if s.get("stepType") == "failure":
                            l = s.get("sourceLocation", {})
                            res["loc"] = "%s:%s (%s)" % (l.get("file"), l.get("line"), l.get("function"))
        if status == "success":
            res["verdict"] = "unsat"
        elif status == "failure" and res["prop"]:
            res["verdict"] = "sat"
        else:
            res["verdict"] = "error"
            res.setdefault("err", err.decode(errors="replace")[-300:])
        with self.lock:
            st = self.stat
            st["queries"] += 1
            st[res["verdict"]] += 1
            st["solver_s"] += res.get("t_decision procedure", 0.0)
            st["symex_s"] += res.get("t_Symex", 0.0)
            st["steps"] += res.get("steps", 0)
            st["assignments"] += res.get("assignments", 0)
            st["vccs"] += res.get("vccs", 0)
            st["vccs_solver"] += res.get("vccs_solver", 0)
        if self.debug:
            print("  [%s] %s %.1fs %s" % (case.name, backend, dt, res["verdict"]), res.get("desc"), res.get("loc"), res.get("err", "")[:200], file=sys.stderr)
        return res

    # ------------------------------------------------------------------ native replay
    def replay(self, case, extra, tag, inputs, want_ok=False):
        """Run the same harness natively on the solver's values. Returns (reproduced, text)."""
        path = os.path.join(self.work, "%s_%s.in" % (re.sub(r"\W", "_", case.name), tag))
        with open(path, "w") as f:
            for v in inputs:
                f.write("%x\n" % v)
        with self.lock:
            self.stat["replays"] += 1
        last = ""
        variants = ["asan"] if want_ok else ["asan", "plain"]
        for variant in variants:
            exe = self.native_exe(case, extra, variant, tag)
            for fill in (["a5"] if want_ok else ["a5", "00", "ff", "7f"]):
                env = dict(os.environ, VP_REPLAY=path, VP_FILL=fill,
                           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048",
                           UBSAN_OPTIONS="print_stacktrace=1")
                rc, out, err = self.run([exe], 30, env=env)
                if rc is None and time.time() > self.deadline - 2:
                    raise Stop()
                txt = (out + err).decode(errors="replace")
                last = "%s fill=%s rc=%s\n%s" % (variant, fill, rc, txt[:4000])
                if rc == 77:
                    return (False, last)
                if rc != 0:
                    return (True, last)
        return (False, last)

    def save_replay(self, case, extra, res, text):
        d = os.path.join(VERIF, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, re.sub(r"\W", "_", case.name) + ".json")
        with open(f, "w") as h:
            json.dump(dict(property=self.prop, case=case.name, harness=case.src, defs=case.defs, extra=extra,
                           failed_assertion=res["desc"], location=res["loc"], backend=res["backend"],
                           inputs=["%x" % v for v in res["inputs"]], native=text,
                           how="python3 %s/vp/replay.py %s" % (VERIF, f)), h, indent=1)
        return f

    # ------------------------------------------------------------------ one case
    def search(self, case):
        """Before the long queries: look for a counterexample by case split (once)."""
        if case.searched or case.reach or not case.stage2:
            return None
        case.searched = True
        r = self.decide(case, 3)
        return r if r.get("reproduced") else None

    def decide(self, case, stage, late=False):
        """Ask the backends in turn until one answer can be trusted.

        unsat                -> the case holds
        sat + native replay  -> the case is violated
        sat, no reproduction -> the encoding disagrees with the real code (a libm
                                stub, a rounding order ...): ask the next backend
        """
        extra = ["-DVP_STAGE=%d" % min(stage, 2)] + (["-DVP_SPLIT"] if stage == 3 else [])
        tag = "s%d" % stage
        gb = self.link(case, extra, tag)
        final = None
        tries, errors = [], []
        backends = case.backends if stage == 1 else ("sat",) if stage == 3 else (case.backends2 or case.backends)
        rounds = [(be, min(case.short, case.timeout)) for be in backends]
        if case.timeout > case.short:
            rounds += [(be, case.timeout) for be in backends]
        timed_out, answered = set(), set()
        if stage == 3:
            rounds = [("sat", min(45, case.timeout))]
        if stage == 2:
            r = self.search(case)
            if r:
                return r
        for n, (be, limit) in enumerate(rounds):
            if be in answered:
                continue
            if len(backends) == 1 and limit < case.timeout and stage != 3:
                continue
            if n < len(backends) and late:
                continue                        # had its short round already
            if n >= len(backends) > 1 and stage == 1 and not late:
                r = self.search(case)
                if r:
                    return r
                final["late"] = not answered    # the long round waits for every case's short one
                if final["late"]:
                    break
            cov = os.path.join(self.work, "%s_%s.cov" % (re.sub(r"\W", "_", case.name), tag))
            more = ["--symex-coverage-report", cov]
            if stage > 1:
                more += ["--unwindset", "exp.0:70,tanh.0:70,sqrt.0:70"]
            r = self.cbmc(gb, case, be, limit, extra=more)
            self.coverage(cov)
            if final is None or r["verdict"] != "timeout":
                final = r
            if r["verdict"] != "timeout":
                answered.add(be)
            if r["verdict"] == "error":
                errors.append(r.get("err", ""))
            if r["verdict"] == "sat" and not case.reach:
                r["reproduced"], r["native"] = self.replay(case, extra, tag, r["inputs"])
                if not r["reproduced"] and not (r["desc"] or "").startswith("VP:"):
                    # a built-in check that no native run confirms: look past it
                    unw = "unwinding" in r["desc"]
                    q = self.cbmc(gb, case, be, case.timeout, unwind=case.unwind * 4 if unw else None,
                                  extra=[] if unw else ["--no-standard-checks", "--unwinding-assertions"])
                    if q["verdict"] == "sat":
                        q["reproduced"], q["native"] = self.replay(case, extra, tag, q["inputs"])
                    if q["verdict"] == "unsat" or q.get("reproduced"):
                        q["note"] = "beyond: " + r["desc"]
                        final = r = q
            tries.append(dict(backend=be, verdict=r["verdict"], seconds=round(r["wall"], 2),
                              reproduced=r.get("reproduced")))
            if r["verdict"] == "unsat" or r.get("reproduced") or (case.reach and r["verdict"] == "sat"):
                break
        try:
            os.unlink(gb)
        except OSError:
            pass
        final["stage"], final["case"], final["extra"], final["tries"] = stage, case, extra, tries
        final["errors"] = errors
        return final

    def coverage(self, path):
        try:
            x = ET.parse(path).getroot()
        except (OSError, ET.ParseError):
            return
        os.unlink(path)
        for c in x.iter("class"):
            fn = c.get("filename", "")
            if not os.path.abspath(fn).startswith(REPO + "/"):
                continue
            for m in c.iter("method"):
                if float(m.get("line-rate", "0").split()[0]) > 0:
                    self.functions.add(os.path.relpath(fn, REPO) + ":" + m.get("name").split("$")[0])

    def witness(self, case):
        extra = ["-DVP_STAGE=1", "-DVP_WITNESS"]
        gb = self.link(case, extra, "w")
        r = None
        for be, limit in [(b, case.short) for b in case.backends] + [(case.backends[0], case.timeout)]:
            r = self.cbmc(gb, case, be, limit, extra=["--no-standard-checks"])
            if r["verdict"] in ("sat", "unsat"):
                break
        os.unlink(gb)
        r["case"] = case
        if r["verdict"] == "sat":
            bad, text = self.replay(case, ["-DVP_STAGE=1"], "w", r["inputs"], want_ok=True)
            r["native_ok"] = (not bad) and "VP-OK" in text
            r["native"] = text
            with self.lock:
                self.stat["replays_ok"] += 1 if r["native_ok"] else 0
        return r
