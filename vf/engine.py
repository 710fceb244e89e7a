"""Build-and-observe engine shared by all checks.

A check hands the engine *cases* (pattern, flags, methods, iterator kinds, inputs) and *sources* (hand
written monitors).  The engine generates translation units, compiles them against /repo/include, runs
them, collects the events the monitors report, and turns them into a verdict and an evidence file.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

from .gen import cxx_literal, fill_empty, flag_mask

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(ROOT, "lib")
NPROC = max(1, min(16, os.cpu_count() or 4))

MATCH, PREFIX, SEARCH, FIND_ALL, TOKENIZE = 1, 2, 4, 8, 16
BASIC, ALL_METHODS = 7, 31
PTR, LIST, FWD, DEQUE, GRA, GBI, GFW, VEC, REV = 1, 2, 4, 8, 16, 32, 64, 128, 256
ALL_KINDS = 511
FWD_KINDS = FWD | GFW
# Deep enough that an edit which adds a constant number of template levels per node makes no difference
COMMON = ["-std=c++20", "-w", "-fno-diagnostics-color", "-ftemplate-depth=8000"]
VARIANTS = {
    "o1": ["g++", "-O1"],
    "o0": ["g++", "-O0"],
    "o2": ["g++", "-O2"],
    "o3": ["g++", "-O3"],
    "clang0": ["clang++", "-O0", "-fbracket-depth=4096"],
    "asan": ["g++", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DVF_EXACT"],
    "debug": ["g++", "-O1", "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_DEBUG_PEDANTIC"],
    "tsan": ["g++", "-O1", "-g1", "-fsanitize=thread", "-pthread"],
    "clang": ["clang++", "-O1", "-fbracket-depth=4096"],
    "clang2": ["clang++", "-O2", "-fbracket-depth=4096"],
}
RUN_ENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_segv=0:detect_stack_use_after_return=1:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1", TSAN_OPTIONS="halt_on_error=0:exitcode=0:report_thread_leaks=0", LC_ALL="C")


class HarnessError(Exception):
    pass


class Case:
    __slots__ = ("pattern", "flags", "methods", "kinds", "inputs", "budget", "steps", "type", "extra", "pre", "id", "cost", "tag", "runner")

    def __init__(self, pattern, flags=(), methods=BASIC, kinds=PTR, inputs=(), budget=0, steps=0, type=None, extra=None, pre="", tag="", runner=None):
        self.pattern = pattern          # latin-1 str
        self.flags = tuple(flags)
        self.methods = methods
        self.kinds = kinds
        self.inputs = list(inputs)      # bytes, or str = C++ expression
        self.budget = budget
        self.steps = steps
        self.type = type                # C++ type of the regex under test (default: the pattern string)
        self.extra = extra              # C++ type with the per-result monitor
        self.pre = pre                  # declarations emitted before the case
        self.tag = tag
        self.runner = runner            # C++ template of the runner, with {T} for the regex type
        self.id = -1
        n = bin(methods & 7).count("1") + 2.5 * bin(methods & 24).count("1")
        self.cost = (0.03 + 0.004 * min(len(pattern), 60)) * n * bin(kinds).count("1") + (0.3 if extra else 0.02)

    def regex_type(self):
        if self.type:
            return self.type
        return "meta::regex<%s%s>" % (cxx_literal(self.pattern), "".join(", meta::regex_flag::" + f for f in self.flags))

    def statement(self):
        out = []
        if self.budget or self.steps:
            out.append("vf::next_opts() = {%du, %du};" % (self.budget, self.steps))
        if len(self.inputs) == 1 and isinstance(self.inputs[0], str) and self.inputs[0].startswith("@"):
            out.append("vf::extra_inputs() = %s;" % self.inputs[0][1:])
        elif self.inputs:
            out.append("vf::extra_inputs() = {%s};" % ", ".join(i if isinstance(i, str) else "std::string(%s, %d)" % (cxx_literal(i.decode("latin-1")), len(i)) for i in self.inputs))
        runner = self.runner.replace("{T}", self.regex_type()) if self.runner else "vf::run_kinds<%s, %d, %d%s>" % (self.regex_type(), self.methods, self.kinds, ", " + self.extra if self.extra else "")
        out.append("vf::drive(%d, %s, %d, %d, %d, %s);" % (
            self.id, cxx_literal(self.pattern), len(self.pattern), flag_mask(self.flags), self.methods, runner))
        return "    " + " ".join(out)

    def to_json(self):
        return dict(pattern=self.pattern, flags=list(self.flags), methods=self.methods, kinds=self.kinds, budget=self.budget, steps=self.steps,
                    inputs=[i if isinstance(i, str) else {"hex": i.hex()} for i in self.inputs], type=self.type, extra=self.extra, pre=self.pre, id=self.id, runner=self.runner)

    @staticmethod
    def from_json(d):
        c = Case(d["pattern"], d["flags"], d["methods"], d["kinds"], [i if isinstance(i, str) else bytes.fromhex(i["hex"]) for i in d["inputs"]],
                 d["budget"], d["steps"], d["type"], d["extra"], d["pre"], runner=d.get("runner"))
        c.id = d["id"]
        return c


def tu_source(cases, headers=()):
    src = ['#include "harness.hpp"'] + ['#include "%s"' % h for h in headers]
    for c in cases:
        if c.pre:
            src.append(c.pre)
    # One function per case keeps the optimiser's work linear
    for k, c in enumerate(cases):
        src.append("static void case_%d() {\n%s\n}" % (k, c.statement()))
    src.append("void vf::run_all() {")
    src += ["    case_%d();" % k for k in range(len(cases))]
    src.append("}\n")
    return "\n".join(src)


def run(cmd, timeout, cwd=None, env=None, mem_gb=6, stack_kb=0):
    """Returns (rc, output); rc None on timeout."""
    def limit():
        import resource
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        if stack_kb:
            resource.setrlimit(resource.RLIMIT_STACK, (stack_kb << 10, resource.getrlimit(resource.RLIMIT_STACK)[1]))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    with tempfile.TemporaryFile() as out:
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=cwd, env=env, preexec_fn=limit, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        out.seek(0, 2)
        size = out.tell()
        out.seek(max(0, size - 200000) if size > 400000 else 0)
        return rc, out.read().decode("latin-1")


class Check:
    def __init__(self, prop, rule="", clean=True):
        self.prop = prop
        self.rule = rule
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        base = os.path.join(tempfile.gettempdir())
        self.work = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir=base)
        self.evidence_dir = os.path.join(ROOT, "evidence")
        os.makedirs(self.evidence_dir, exist_ok=True)
        for f in os.listdir(self.evidence_dir) if clean else ():
            if f.startswith("%s-replay" % prop):
                os.remove(os.path.join(self.evidence_dir, f))
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.futures = []
        self.lock = threading.Lock()
        self.variants_built = {}
        self.violations = []       # dicts
        self.stats = {}
        self.samples = []
        self.inconclusive = []
        self.counters = {}
        self.next_id = 1
        self.seen_cases = set()
        self.tus = 0
        self.budget = 400
        self.steps = 20000
        self.hang = 20
        self._serial = 0
        self.baseline_state = None
        # The reference parser as a tool, to keep generated patterns inside the dialect
        self.refcli = os.path.join(self.work, "refcli")
        self.refcli_build = subprocess.Popen(["g++", "-std=c++20", "-O1", "-I", LIB, os.path.join(LIB, "refcli.cpp"), os.path.join(LIB, "refre.cpp"), "-o", self.refcli],
                                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def verdicts(self, patterns):
        """Reference verdicts (ok, hard, error index) for latin-1 pattern strings."""
        if self.refcli_build.wait() != 0:
            raise HarnessError("cannot build the reference parser")
        r = subprocess.run([self.refcli], input="".join("V " + p.encode("latin-1").hex() + "\n" for p in patterns).encode(), stdout=subprocess.PIPE)
        out = [tuple(int(x) for x in l.split()) for l in r.stdout.decode().splitlines()]
        if r.returncode or len(out) != len(patterns):
            raise HarnessError("reference parser failed")
        return out

    def inputs_for(self, cases, count, length):
        """Short inputs (bytes) for each case, chosen with the reference model."""
        if self.refcli_build.wait() != 0:
            raise HarnessError("cannot build the reference parser")
        q = "".join("I %s %d %d %d %d\n" % (c.pattern.encode("latin-1").hex(), flag_mask(c.flags), count, self.seed * 1009 + k, length) for k, c in enumerate(cases))
        r = subprocess.run([self.refcli], input=q.encode(), stdout=subprocess.PIPE)
        out = [[bytes.fromhex(x[1:]) for x in l.split()] for l in r.stdout.decode().split("\n")[:-1]]
        if r.returncode or len(out) != len(cases):
            raise HarnessError("reference generator failed")
        return out

    # -- accounting -------------------------------------------------------------------------------
    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def note_inconclusive(self, what):
        with self.lock:
            self.inconclusive.append(what)

    def add_sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)

    def report(self, monitor, key, detail, replay):
        """A violation observed on the real code. key identifies it in the known-findings file."""
        with self.lock:
            self.violations.append(dict(monitor=monitor, key=key, detail=detail, replay=replay))

    def absorb_stats(self, d):
        with self.lock:
            for k, v in d.items():
                if isinstance(v, int) and not isinstance(v, bool):
                    self.stats[k] = self.stats.get(k, 0) + v
            for s in d.get("samples", []):
                if len(self.samples) < 12:
                    self.samples.append(s)

    # -- building ---------------------------------------------------------------------------------
    def flags_of(self, variant):
        v = VARIANTS[variant]
        return [v[0]] + COMMON + v[1:] + ["-I", os.path.join(self.work, "inc-" + variant), "-I", os.path.join(REPO, "include"), "-I", LIB]

    def variant(self, name):
        """Builds the monitor library (and a precompiled header) for one compiler variant, once."""
        with self.lock:
            ev = self.variants_built.get(name)
            mine = ev is None
            if mine:
                ev = self.variants_built[name] = dict(event=threading.Event(), error=None)
        if not mine:
            ev["event"].wait()
            if ev["error"]:
                raise HarnessError(ev["error"])
            return
        try:
            inc = os.path.join(self.work, "inc-" + name)
            os.makedirs(inc, exist_ok=True)
            jobs = []
            for f in ("harness", "refre"):
                jobs.append(subprocess.Popen(self.flags_of(name) + ["-c", os.path.join(LIB, f + ".cpp"), "-o", os.path.join(self.work, "%s-%s.o" % (f, name))],
                                             stdout=subprocess.DEVNULL, stderr=open(os.path.join(self.work, "%s-%s.err" % (f, name)), "w")))
            if VARIANTS[name][0] == "g++":
                jobs.append(subprocess.Popen(self.flags_of(name) + ["-x", "c++-header", os.path.join(LIB, "harness.hpp"), "-o", os.path.join(inc, "harness.hpp.gch")],
                                             stdout=subprocess.DEVNULL, stderr=open(os.path.join(self.work, "pch-%s.err" % name), "w")))
            rcs = [j.wait() for j in jobs]
            if any(rcs):
                err = "".join(open(os.path.join(self.work, f)).read()[:1500] for f in os.listdir(self.work) if f.endswith("-%s.err" % name))
                raise HarnessError("cannot build the monitors (%s): %s" % (name, err))
        except Exception as ex:
            ev["error"] = str(ex)
            raise
        finally:
            ev["event"].set()

    def serial(self):
        with self.lock:
            self._serial += 1
            return self._serial

    def compile(self, src, exe, variant, extra=(), timeout=420):
        self.variant(variant)
        cpp = exe + ".cpp"
        with open(cpp, "w") as f:
            f.write(src)
        cmd = self.flags_of(variant) + list(extra) + [cpp, os.path.join(self.work, "harness-%s.o" % variant), os.path.join(self.work, "refre-%s.o" % variant), "-o", exe]
        t = time.time()
        r = run(cmd, timeout, mem_gb=0 if "san" in variant else 10)
        self.count("compile_seconds", round(time.time() - t, 1))
        if os.environ.get("VF_DEBUG"):
            print("%6.1f compiled %s %s in %.1f" % (time.time() - self.t0, variant, os.path.basename(exe), time.time() - t), flush=True)
        return r

    def syntax_only(self, src, timeout=200, compiler="g++", extra=()):
        """Compiles without the monitors; returns (rc, output)."""
        cpp = os.path.join(self.work, "s%d.cpp" % self.serial())
        with open(cpp, "w") as f:
            f.write(src)
        r = run([compiler] + COMMON + ["-fsyntax-only", "-I", os.path.join(REPO, "include"), "-I", LIB] + list(extra) + [cpp], timeout, mem_gb=10)
        os.remove(cpp)
        return r

    def program(self, src, variant="o0", timeout=300):
        """Compiles and runs a self-contained program; returns (compile rc, compiler output, run rc, stdout)."""
        exe = os.path.join(self.work, "p%d" % self.serial())
        with open(exe + ".cpp", "w") as f:
            f.write(src)
        v = VARIANTS[variant]
        rc, out = run([v[0]] + COMMON + v[1:] + ["-I", os.path.join(REPO, "include"), exe + ".cpp", "-o", exe], timeout, mem_gb=10)
        self.count("translation_units")
        rrc, text = (None, "")
        if rc == 0:
            rrc, text = run([exe], timeout, env=RUN_ENV, mem_gb=0)
        self._clean(exe)
        return rc, out, rrc, text

    def baseline_ok(self):
        """Does the simplest possible program still build?  If not, nothing can be concluded."""
        with self.lock:
            if self.baseline_state is not None:
                return self.baseline_state
        rc, out = self.syntax_only('#include <mregex.hpp>\n#include <string_view>\nint main() { return !meta::regex<"a">::match(std::string_view("a")).matched(); }\n')
        with self.lock:
            self.baseline_state = rc == 0
        return rc == 0

    # -- running ----------------------------------------------------------------------------------
    def execute(self, exe, args=(), timeout=300, stack_kb=0):
        out = exe + ".out"
        for f in (out, out + ".crash"):
            if os.path.exists(f):
                os.remove(f)
        rc, text = run([exe, out, str(self.seed), str(self.budget), str(self.steps), str(self.hang)] + list(args), timeout, env=RUN_ENV, mem_gb=0, stack_kb=stack_kb)
        events = []
        for f in (out, out + ".crash"):
            if os.path.exists(f):
                for line in open(f, errors="replace"):
                    try:
                        events.append(json.loads(line))
                    except ValueError:
                        pass
        return rc, text, events

    def judge_run(self, exe, lookup, source, variant, extra=(), args=(), headers=(), stack_kb=0):
        """Runs a built monitor program and turns its events into violations. lookup: id -> Case."""
        t = time.time()
        rc, text, events = self.execute(exe, args, stack_kb=stack_kb)
        self.count("run_seconds", round(time.time() - t, 1))
        if os.environ.get("VF_DEBUG"):
            print("%6.1f ran %s %s in %.1f" % (time.time() - self.t0, variant, os.path.basename(exe), time.time() - t), flush=True)
        crash = [e for e in events if e["type"] == "crash"]
        if rc != 0:
            # Re-run once: only a reproducible crash or hang is a violation
            rc2, text2, events2 = self.execute(exe, args, stack_kb=stack_kb)
            crash2 = [e for e in events2 if e["type"] == "crash"]
            if rc2 == 0 or rc is None or rc2 is None or not crash or not crash2 or crash[-1].get("id") != crash2[-1].get("id"):
                self.note_inconclusive("run ended with %s then %s: %s" % (rc, rc2, text2[-300:]))
                if rc2 == 0:
                    rc, text, events, crash = rc2, text2, events2, []
            if rc != 0 and crash and crash2:
                c = crash[-1]
                rep = self.first_report(text)
                self.violation_event(dict(type="violation", id=c.get("id", -1), monitor="sanitizer" if "Sanitizer" in text or "runtime error" in text else c["kind"].lower(), what=c.get("what", "?"),
                                          flags=c.get("flags", 0), pattern=c.get("pattern", ""), input=c.get("input", ""), expected="a result", observed=c["kind"] + (": " + rep if rep else "")),
                                     lookup, source, variant, extra, headers, stack_kb)
        stats = False
        for e in events:
            if e["type"] == "violation":
                if e.get("monitor") == "harness":
                    raise HarnessError("harness: %s %s" % (e["what"], e))
                self.violation_event(e, lookup, source, variant, extra, headers, stack_kb)
            elif e["type"] == "stats":
                stats = True
                self.absorb_stats(e)
        if rc == 0 and not stats:
            self.note_inconclusive("no statistics from a run: " + text[-300:])
        if variant == "tsan":
            races = [r for r in text.split("==================") if "WARNING: ThreadSanitizer" in r]
            self.count("tsan_runs")
            ours = [r for r in races if "include/mregex" in r or "meta::" in r]
            if races and not ours:
                self.note_inconclusive("race outside the library: " + races[0][:1500])
            for r in ours[:1]:
                at = re.findall(r"#\d+ (?:0x[0-9a-f]+ in )?(.{0,200})", r)
                self.violation_event(dict(type="violation", id=-1, monitor="thread-sanitizer", what="data race", flags=0, pattern="", input="", expected="no data race", observed=r.strip().splitlines()[0] + " | " + " | ".join(at[:8])),
                                     lookup, source, variant, extra, headers, stack_kb)
        return rc

    @staticmethod
    def first_report(text):
        m = re.search(r"(ERROR: AddressSanitizer:[^\n]*|[^\n]*runtime error:[^\n]*|WARNING: ThreadSanitizer:[^\n]*|Error: [^\n]*)", text)
        return (m.group(1) + " " + " | ".join(re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]{0,120})", text)[:6])) if m else text[-400:]

    def violation_event(self, e, lookup, source, variant, extra, headers=(), stack_kb=0):
        case = lookup.get(e["id"]) if lookup else None
        pattern = bytes.fromhex(e.get("pattern", "")).decode("latin-1")
        inp = bytes.fromhex(e.get("input", ""))
        key = "%s pattern=%s flags=%d %s input=%s" % (e["monitor"], json.dumps(pattern), e.get("flags", 0), e["what"], inp.hex())
        detail = dict(monitor=e["monitor"], what=e["what"], pattern=pattern, flags=e.get("flags", 0), input=inp.decode("latin-1"), expected=e["expected"], observed=e["observed"], variant=variant)
        replay = dict(property=self.prop, variant=variant, headers=list(headers), extra=list(extra), stack_kb=stack_kb, seed=self.seed, budget=self.budget, steps=self.steps, hang=self.hang, tier=self.tier)
        if case is not None:
            replay["case"] = case.to_json()
            replay["input"] = e.get("input", "") if len(inp) < 1500 else None
        else:
            replay["source"] = source
        self.report(e["monitor"], key, detail, replay)

    # -- cases ------------------------------------------------------------------------------------
    def cases(self, cases, variant="o1", headers=(), target=3.0, dedupe=True, stack_kb=0, extra=()):
        todo = []
        cases = list(cases)
        for c in cases:
            if not c.type:
                c.pattern = fill_empty(c.pattern)
        for c, (ok, hard, _) in zip(cases, self.verdicts([c.pattern for c in cases])):
            if not ok or hard:
                self.count("generated_but_outside_the_dialect")
                if os.environ.get("VF_DEBUG"):
                    print("outside the dialect: %r" % c.pattern)
                continue
            k = (c.pattern, tuple(sorted(set(c.flags))), c.methods, c.kinds, c.type, c.extra, c.runner, variant)
            if dedupe and not c.inputs and k in self.seen_cases:
                continue
            self.seen_cases.add(k)
            c.id = self.next_id
            self.next_id += 1
            todo.append(c)
        scale = {"asan": 2.5, "clang": 1.6, "clang0": 1.2, "clang2": 2, "debug": 1.4, "o3": 1.5, "o2": 1.3}.get(variant, 1)
        total = sum(c.cost for c in todo) * scale
        n = max(1, min(len(todo), max(NPROC if total > 6 else 1, int(total / target + .999))))
        chunks = [[0.0, []] for _ in range(n)]
        for c in sorted(todo, key=lambda c: -c.cost):
            ch = min(chunks, key=lambda x: x[0])
            ch[0] += c.cost
            ch[1].append(c)
        for _, ch in chunks:
            if ch:
                self.futures.append(self.pool.submit(self._chunk, ch, variant, headers, stack_kb, extra))
        self.count("cases", len(todo))
        return todo

    def _chunk(self, cases, variant, headers, stack_kb=0, extra=()):
        exe = os.path.join(self.work, "t%d" % self.serial())
        src = tu_source(cases, headers)
        rc, out = self.compile(src, exe, variant, extra)
        self.count("translation_units")
        if rc == 0:
            self.judge_run(exe, {c.id: c for c in cases}, None, variant, extra, headers=headers, stack_kb=stack_kb)
        elif rc is None:
            self.note_inconclusive("compiling %d patterns timed out" % len(cases))
        elif len(cases) > 1:
            # Isolate what does not compile
            if not self.baseline_ok():
                raise HarnessError("the library does not build: " + out[:1500])
            if len(self.violations) > 40:
                self.note_inconclusive("chunk not bisected (already many violations)")
            else:
                h = len(cases) // 2
                for part in (cases[:h], cases[h:]):
                    self._chunk(part, variant, headers, stack_kb, extra)
        else:
            self._compile_failure(cases[0], out, variant, headers, extra)
        self._clean(exe)

    def _compile_failure(self, c, out, variant, headers, extra=()):
        if not self.baseline_ok():
            raise HarnessError("the library does not build: " + out[:1500])
        if "internal compiler error" in out or "Killed" in out or "out of memory" in out or "virtual memory exhausted" in out:
            self.note_inconclusive("compiler failure on %r" % c.pattern)
            return
        err = compile_errors(out)
        if not err:
            self.note_inconclusive("compiler failure on %r: %s" % (c.pattern, out[-300:]))
            return
        key = "compile pattern=%s flags=%d type=%s" % (json.dumps(c.pattern), flag_mask(c.flags), c.type or "")
        self.report("compile", key, dict(monitor="compile", what="a valid use does not compile", pattern=c.pattern, flags=flag_mask(c.flags), input="", expected="compiles", observed=" | ".join(err)[:1500], variant=variant),
                    dict(property=self.prop, variant=variant, case=c.to_json(), headers=list(headers), extra=list(extra), seed=self.seed, budget=self.budget, steps=self.steps, hang=self.hang, tier=self.tier, input=None))

    def _clean(self, exe):
        for suffix in ("", ".cpp", ".out", ".out.crash"):
            try:
                os.remove(exe + suffix)
            except OSError:
                pass

    # -- hand-written monitor programs -------------------------------------------------------------
    def source(self, text, variant="o1", extra=(), args=(), what="monitor program"):
        """text: a translation unit that defines vf::run_all()."""
        self.futures.append(self.pool.submit(self._source, text, variant, tuple(extra), tuple(args), what))

    def _source(self, text, variant, extra, args, what):
        exe = os.path.join(self.work, "t%d" % self.serial())
        rc, out = self.compile(text, exe, variant, extra)
        self.count("translation_units")
        if rc == 0:
            self.judge_run(exe, None, text, variant, extra, args)
        elif rc is None:
            self.note_inconclusive("compiling %s timed out" % what)
        else:
            if not self.baseline_ok():
                raise HarnessError("the library does not build: " + out[:1500])
            err = compile_errors(out)
            if not err or "internal compiler error" in out:
                self.note_inconclusive("compiler failure on %s: %s" % (what, out[-300:]))
            else:
                self.report("compile", "compile %s" % what, dict(monitor="compile", what="%s does not compile" % what, pattern="", flags=0, input="", expected="compiles", observed=" | ".join(err)[:1500], variant=variant),
                            dict(property=self.prop, variant=variant, source=text, extra=list(extra), seed=self.seed, budget=self.budget, steps=self.steps, hang=self.hang, tier=self.tier, input=None))
        self._clean(exe)

    def submit(self, fn, *args):
        self.futures.append(self.pool.submit(fn, *args))

    def drain(self):
        k = 0
        while k < len(self.futures):
            self.futures[k].result()
            k += 1
        self.futures = []

    # -- verdict ----------------------------------------------------------------------------------
    def finish(self, coverage=None):
        try:
            self.refcli_build.wait()
            self.drain()
            code = self._finish(coverage or {})
        except HarnessError as ex:
            print("HARNESS-ERROR property=%s %s" % (self.prop, str(ex)[:3000]))
            code = 2
        finally:
            self.pool.shutdown(wait=False, cancel_futures=True)
            shutil.rmtree(self.work, ignore_errors=True)
        return code

    def _finish(self, coverage):
        known = load_known(self.prop)
        fresh, listed = [], {}
        for v in self.violations:
            hit = next((k for k in known if k in v["key"]), None)
            if hit is None:
                fresh.append(v)
            else:
                listed.setdefault(hit, v)
        for k in sorted(listed):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        fresh.sort(key=lambda v: (len(v["detail"].get("pattern", "")) + len(v["detail"].get("input", "")), v["key"]))
        printed = set()
        for n, v in enumerate(fresh):
            mark = (v["monitor"], v["detail"].get("pattern"))
            if mark in printed:
                continue
            printed.add(mark)
            if len(printed) > 8:
                break
            path = os.path.join(self.evidence_dir, "%s-replay-%d.json" % (self.prop, len(printed)))
            with open(path, "w") as f:
                json.dump(dict(detail=v["detail"], key=v["key"], **v["replay"]), f, indent=1)
            d = v["detail"]
            print("  %s: pattern %s flags %s, %s on %s\n    expected: %s\n    observed: %s" % (d["monitor"], json.dumps(d["pattern"]), d["flags"], d["what"], json.dumps(d["input"][:200]), d["expected"][:400], d["observed"][:700]))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(path, ROOT)))
        cov = dict(evaluations=self.stats.get("evals", 0), distinct_nontrivial=self.stats.get("nontrivial", 0), rule=self.rule, samples=self.samples[:12] or ["(none)"])
        cov["monitors"] = {k: v for k, v in sorted(self.stats.items()) if k not in ("evals", "nontrivial")}
        cov["workload"] = dict(sorted(self.counters.items()))
        cov["inconclusive"] = len(self.inconclusive)
        if self.inconclusive:
            cov["inconclusive_samples"] = [str(x)[:300] for x in self.inconclusive[:5]]
        cov.update(coverage)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                  assumptions=["the reference model in lib/refre.cpp expresses the documented semantics", "verdicts cover the executions produced by this run only"],
                  wall_s=round(time.time() - self.t0, 2), violations=len(fresh))
        tmp = os.path.join(self.evidence_dir, ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(self.evidence_dir, "%s.json" % self.prop))
        if fresh:
            return 1
        if cov["evaluations"] == 0:
            print("HARNESS-ERROR property=%s nothing was observed" % self.prop)
            return 2
        tus = max(1, self.counters.get("translation_units", 1))
        if len(self.inconclusive) > max(3, tus // 4):
            print("HARNESS-ERROR property=%s inconclusive: %s" % (self.prop, self.inconclusive[:3]))
            return 2
        print("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d inconclusive=%d wall=%.1fs" % (self.prop, self.tier, self.seed, cov["evaluations"], cov["distinct_nontrivial"], len(self.inconclusive), ev["wall_s"]))
        return 0


def compile_errors(out):
    """Diagnostics about the program itself, not about the tools."""
    return [l for l in out.splitlines() if re.search(r":\d+:\d+: (fatal )?error: ", l)][:4]


def load_known(prop):
    """Lines 'finding: property=<id> key=<text>'; 'fixed:' lines suppress nothing."""
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(.*\S)", line)
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def replay(path):
    d = json.load(open(path))
    ck = Check(d["property"], clean=False)
    for k in ("seed", "budget", "steps", "hang"):
        setattr(ck, k, d.get(k, getattr(ck, k)))
    try:
        exe = os.path.join(ck.work, "replay")
        if "case" in d:
            c = Case.from_json(d["case"])
            rc, out = ck.compile(tu_source([c], d.get("headers", ())), exe, d["variant"], d.get("extra", ()))
            args = [d["input"]] if d.get("input") else []
        elif "source" in d:
            rc, out = ck.compile(d["source"], exe, d["variant"], d.get("extra", ()))
            args = []
        elif "program" in d:
            rc, out, rrc, text = ck.program(d["program"], d.get("variant", "o0"))
            print(("compiles and prints: " + text) if rc == 0 else "does not compile: " + " | ".join(l for l in out.splitlines() if "error" in l)[:1500])
            bad = rc == 0 if d["expect"] is None else (rc != 0 or text.split() != d["expect"].split())
            print("expected: " + (d["expect"] if d["expect"] is not None else "does not compile"))
            print("reproduced" if bad else "not reproduced")
            return 1 if bad else 0
        else:
            print(json.dumps(d, indent=1))
            return 1
        if rc != 0:
            print("does not compile:\n" + "\n".join(l for l in out.splitlines() if "error" in l)[:3000])
            return 1
        for attempt in range(8 if d["variant"] == "tsan" else 1):
            rc, text, events = ck.execute(exe, args, stack_kb=d.get("stack_kb", 0))
            if rc != 0 or "Sanitizer" in text or any(e["type"] != "stats" for e in events):
                break
        bad = rc != 0
        for e in events:
            if e["type"] != "stats":
                bad = True
                print(json.dumps(e))
        if "Sanitizer" in text or "runtime error" in text:
            bad = True
            print(text[:4000])
        print("reproduced" if bad else "not reproduced")
        return 1 if bad else 0
    finally:
        shutil.rmtree(ck.work, ignore_errors=True)
