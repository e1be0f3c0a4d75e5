"""
Running checks: TLC, evidence, verdicts.

A check is a function of one argument, a Check.  It drives the real code, collects *cases* (recorded
executions as JSON-able dicts with a "steps" list) and gives them to TLC together with a *Trace module,
which prints one FAIL line per step with the names of the violated clauses of the specification.
"""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVIDENCE = os.path.join(VERIF, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class MachineryError(Exception):
    """The check itself is broken; reported as an error, never as a violation."""


class Hang(BaseException):
    """Raised by the watchdog inside a driver."""


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out
        self.prints = []
        self._parse()

    def _parse(self):
        # PrintT of a string prints it as a TLA+ string literal on one line
        for line in self.out.splitlines():
            if line.startswith('"') and line.endswith('"') and len(line) > 1:
                try:
                    self.prints.append(json.loads(line))
                except ValueError:
                    self.prints.append(line[1:-1].replace('\\"', '"'))

    def records(self, tag):
        n = len(tag) + 1
        return [json.loads(p[n:]) for p in self.prints if p.startswith(tag + " ")]


def run_tlc(module, cfg_text, workdir, files=None, workers=CORES, timeout=800, heap="6g", extra=()):
    """Run TLC on spec/<module>.tla with the given configuration in a scratch directory."""
    d = tempfile.mkdtemp(prefix="tlc_", dir=workdir)
    for f in glob.glob(os.path.join(SPEC, "*.tla")):
        shutil.copy(f, d)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg_text)
    for name, text in (files or {}).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + d, "-cp", JAR,
           "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"),
           "-config", module + ".cfg", *extra, module + ".tla"]
    t = time.time()
    env = {k: v for k, v in os.environ.items() if k not in ("JAVA_TOOL_OPTIONS",)}
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=env, text=True, errors="replace")
    except subprocess.TimeoutExpired as e:
        raise MachineryError(f"TLC timed out after {timeout}s on {module}")
    r = TLCResult(p.returncode, p.stdout, time.time() - t)
    shutil.rmtree(d, ignore_errors=True)
    return r


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.workdir = tempfile.mkdtemp(prefix=f"verif_{prop}_", dir="/tmp")
        self.failures = []      # dicts: clause, where, case
        self.states = self.transitions = 0
        self.design = []
        self.traces = self.steps = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self._n = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name="db"):
        self._n += 1
        return os.path.join(self.workdir, f"{name}{os.getpid()}_{self._n}.db")

    def rm(self, path):
        for s in ("", "-wal", "-shm", "-journal"):
            try:
                os.remove(path + s)
            except FileNotFoundError:
                pass

    def elapsed(self):
        return time.time() - self.t0

    # ---- specification level -------------------------------------------------------------------
    def model(self, module, cfg, workers=CORES, timeout=800, name=None, files=None, extra=()):
        """Exhaustively check a design model; anything but success is an error of the machinery."""
        r = run_tlc(module, cfg, self.workdir, workers=workers, timeout=timeout, files=files, extra=extra)
        if not r.ok:
            raise MachineryError(f"design model {module} not accepted by TLC:\n" + r.out[-6000:])
        self.states += r.distinct
        self.transitions += r.generated
        self.design.append({"module": name or module, "distinct_states": r.distinct,
                            "transitions": r.generated, "wall_s": round(r.wall, 1)})
        return r

    # ---- conformance ---------------------------------------------------------------------------
    def validate(self, module, cases, keep=None, consts="", label=None, timeout=800):
        """
        Have TLC evaluate the steps of all cases with spec/<module>.tla.

        keep: only report clauses for which keep(clause) holds.
        """
        cases = [c for c in cases if c["steps"]]
        if not cases:
            raise MachineryError(f"no cases for {module}")
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + consts
        want = sum(len(c["steps"]) + 1 for c in cases)
        chunk, chunks, size = [], [], 0
        blobs = [json.dumps(plain(c)) for c in cases]
        # keep single TLC runs to a moderate input size
        for c, b in zip(cases, blobs):
            if size + len(b) > 12_000_000 and chunk:
                chunks.append(chunk)
                chunk, size = [], 0
            chunk.append((c, b))
            size += len(b)
        chunks.append(chunk)
        bad = 0
        for chunk in chunks:
            bad += self._validate_chunk(module, cfg, chunk, keep, label, timeout)
        self.traces += len(cases)
        self.steps += want - len(cases)
        if len(self.samples) < 4:
            b = min(blobs, key=lambda b: abs(len(b) - 1500))
            self.samples.append({"module": module, "trace": json.loads(b) if len(b) < 6000 else b[:3000]})
        return bad

    def _validate_chunk(self, module, cfg, chunk, keep, label, timeout):
        files = {"trace.json": "[" + ",\n".join(b for _, b in chunk) + "]"}
        r = run_tlc(module, cfg, self.workdir, files=files, timeout=timeout)
        want = sum(len(c["steps"]) + 1 for c, _ in chunk)
        if not r.ok or r.distinct != want:
            if len(chunk) > 1 and not os.environ.get("VERIF_NOSPLIT"):
                # find the trace the specification cannot even evaluate
                h = len(chunk) // 2
                return (self._validate_chunk(module, cfg, chunk[:h], keep, label, timeout)
                        + self._validate_chunk(module, cfg, chunk[h:], keep, label, timeout))
            if "java.lang.OutOfMemoryError" in r.out or "Parsing or semantic analysis failed" in r.out:
                raise MachineryError(r.out[-4000:])
            m = re.search(r"Error: (.*)", r.out)
            self.fail("trace-outside-the-specification", chunk[0][0], detail=r.out[-1500:], label=label)
            return 1
        self.transitions += r.generated
        self.states += r.distinct
        bad = 0
        for t, l, clauses in r.records("FAIL"):
            case = chunk[t - 1][0]
            for clause in sorted(clauses):
                if keep is None or keep(clause):
                    bad += 1
                    self.fail(clause, case, step=l, label=label)
        return bad

    def model_trace(self, cases, **kw):
        return self.validate("ModelTrace", cases, **kw)

    # ---- driving the real code -----------------------------------------------------------------
    def drive(self, fn, args, procs=CORES, limit=None):
        """
        Run fn(self, arg) for every arg in forked processes; returns the concatenated cases, in the order
        of args.  An exception escaping from fn is a failure of the code under test, as the drivers only
        let those escape that the specification doesn't allow.
        """
        args = list(args)
        out = []
        global _DRIVE
        _DRIVE = (self, fn)
        sys.stdout.flush()
        sys.stderr.flush()
        if procs == 1 or len(args) == 1:
            results = map(_drive_one, args)
            out = self._collect(results)
        else:
            import multiprocessing as mp
            with mp.get_context("fork").Pool(min(procs, len(args)), initializer=_drive_init) as pool:
                out = self._collect(pool.imap(_drive_one, args, chunksize=max(1, len(args) // (procs * 8))))
        return out

    def _collect(self, results):
        out = []
        for kind, value in results:
            if kind == "ok":
                out.extend(value)
            elif kind == "machinery":
                raise MachineryError(value)
            else:
                self.fail(f"{self.prop}:unexpected-exception", None, detail=value)
        return out

    def fail(self, clause, case=None, step=None, detail=None, label=None):
        self.failures.append({"clause": clause, "step": step, "case": case, "detail": detail, "label": label})

    # ---- result --------------------------------------------------------------------------------
    def finish(self, error=None):
        os.makedirs(EVIDENCE, exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "trace_steps_validated": self.steps,
                "design_models": self.design,
                "samples": self.samples or ["none"],
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.failures),
        }
        path = None
        if self.failures:
            d = os.path.join(EVIDENCE, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}.json")
            first = self.failures[0]
            summary = {}
            for f in self.failures:
                summary[f["clause"]] = summary.get(f["clause"], 0) + 1
            with open(path, "w") as f:
                json.dump({"property": self.prop, "clauses": summary,
                           "failures": [_clean(x) for x in self.failures[:5]]}, f, indent=1, default=str)
            ev["coverage"]["failed_clauses"] = summary
        with open(os.path.join(EVIDENCE, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.workdir, ignore_errors=True)
        if self.failures:
            for c, k in list(summary.items())[:20]:
                print(f"  clause {c}: {k} times")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if error:
            print(error, file=sys.stderr)
            return 2
        print(f"OK property={self.prop} tier={self.tier} states={self.states} transitions={self.transitions} "
              f"traces={self.traces} steps={self.steps} wall={ev['wall_s']}s")
        return 0


def plain(x):
    """What TLC gets to see: integers, strings, arrays, objects."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items() if not str(k).startswith("_")}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None:
        return -999999
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x if abs(x) < 2**31 else -999998
    if isinstance(x, float):
        return int(x) if x == int(x) and abs(x) < 2**31 else -999997
    return str(x)


def _clean(f):
    c = f["case"]
    f = dict(f)
    if isinstance(c, dict):
        f["case"] = {k: v for k, v in c.items() if k != "_t"}
        s = f.get("step")
        if s and "steps" in c and len(c["steps"]) > 40:
            f["case"]["steps"] = c["steps"][max(0, s - 10):s]
    return f


_DRIVE = None


def _drive_init():
    import gc
    gc.freeze()


def _drive_one(arg):
    c, fn = _DRIVE
    try:
        r = fn(c, arg)
        return "ok", (r if isinstance(r, list) else [r] if r is not None else [])
    except BaseException as e:
        return classify(e)


def classify(e):
    import sqlite3
    text = "".join(traceback.format_exception(e))[-3000:]
    if isinstance(e, (MachineryError, MemoryError, OSError, SystemExit)) and not isinstance(e, TimeoutError):
        return "machinery", text
    if isinstance(e, sqlite3.OperationalError) and ("disk" in str(e) or "unable to open" in str(e)):
        return "machinery", text
    return "violation", text


class deadline:
    """Watchdog around one driver case: a hang of the code under test is reported, not suffered."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(*_):
            raise Hang(f"no result within {self.seconds}s")
        self.old = signal.signal(signal.SIGALRM, handler)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False
