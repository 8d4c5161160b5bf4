"""Core of the checking machinery: running TLC, validating traces, evidence.

Nothing here judges ramannoodle: verdicts come from TLC evaluating the specifications
in /verif/spec on recorded traces.  Machinery problems raise MachineryError (exit 2).
"""

from __future__ import annotations

import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
REPO = "/repo"


class MachineryError(Exception):
    """The checking machinery itself failed."""


# --------------------------------------------------------------------------- encoding
def R(x) -> list[int]:
    """One float as the pair of signed 32-bit halves of its IEEE-754 bits."""
    x = float(x)
    if x == 0.0:
        x = 0.0
    hi, lo = struct.unpack(">ii", struct.pack(">d", x))
    return [hi, lo]


def RR(a):
    """Nested sequences / arrays of floats."""
    import numpy as np

    if isinstance(a, np.ndarray):
        if a.dtype == object or a.dtype.kind not in "fiub":
            return "not-numeric"
        if a.ndim == 0:
            return R(a)
        return [RR(x) for x in a]
    if isinstance(a, (list, tuple)):
        return [RR(x) for x in a]
    try:
        return R(a)
    except (TypeError, ValueError):
        return "not-numeric"


def unR(p):
    """Inverse of R/RR, for human-readable replays."""
    if (
        isinstance(p, list)
        and len(p) == 2
        and all(isinstance(v, int) and not isinstance(v, bool) for v in p)
    ):
        return struct.unpack(">d", struct.pack(">ii", *p))[0]
    if isinstance(p, list):
        return [unR(x) for x in p]
    if isinstance(p, dict):
        return {k: unR(v) for k, v in p.items()}
    return p


# --------------------------------------------------------------------------- context
class Ctx:
    """State of one check run."""

    def __init__(self, pid: str, tier: str, level: str = "model_checking"):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.scratch = Path(tempfile.mkdtemp(prefix=f"verif_{pid}_"))
        (self.scratch / "tmp").mkdir()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.events = 0
        self.samples: list = []
        self.detail: dict = {}
        self.violations: list[dict] = []
        self.errors: list = []  # driver crashes (see drive.generate)
        self.other: dict = {}  # failing clauses of other properties (not reported here)
        self._classes = self.scratch / "classes"
        self._javac_error: str | None = None
        self._javac = threading.Thread(target=self._compile)
        self._javac.start()
        self._n = 0

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self) -> float:
        return time.time() - self.t0

    def _compile(self) -> None:
        self._classes.mkdir()
        p = subprocess.run(
            ["javac", "-nowarn", "-cp", TLA, "-d", str(self._classes)]
            + [str(f) for f in sorted((VERIF / "java").glob("*.java"))],
            capture_output=True,
            text=True,
        )
        if p.returncode != 0:
            self._javac_error = p.stderr

    def cleanup(self) -> None:
        self._javac.join()
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ----------------------------------------------------------------------- TLC
    def tlc(
        self,
        module: str,
        cfg: str,
        env: dict[str, str] | None = None,
        args: list[str] | None = None,
        workers: int | str = 8,
        timeout: int = 800,
        heap: str = "6g",
    ) -> str:
        """Run TLC on spec/<module>.tla with the given configuration text."""
        self._javac.join()
        if self._javac_error:
            raise MachineryError("javac failed: " + self._javac_error)
        self._n += 1
        wd = self.scratch / f"tlc{self._n}"
        wd.mkdir()
        cfgfile = wd / f"{module}.cfg"
        cfgfile.write_text(cfg)
        cmd = [
            "java",
            f"-Xmx{heap}",
            "-Xss64m",
            "-XX:+UseParallelGC",
            f"-Djava.io.tmpdir={self.scratch}/tmp",
            "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:Real64Overrides",
            f"-DTLA-Library={SPEC}",
            "-cp",
            f"{self._classes}:{TLA}",
            "tlc2.TLC",
            "-noGenerateSpecTE",
            "-workers",
            str(workers),
            "-metadir",
            str(wd / "meta"),
            "-config",
            str(cfgfile),
            *(args or []),
            str(SPEC / f"{module}.tla"),
        ]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(
                cmd, capture_output=True, text=True, env=e, cwd=wd, timeout=timeout
            )
        except subprocess.TimeoutExpired as exc:
            raise MachineryError(f"TLC timed out on {module}") from exc
        out = p.stdout + p.stderr
        shutil.rmtree(wd, ignore_errors=True)
        return out

    def _count(self, out: str) -> tuple[int, int]:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        if not m:
            return (0, 0)
        gen, dist = (int(v.replace(",", "")) for v in m[-1])
        self.transitions += gen
        self.states += dist
        return gen, dist

    def model_check(
        self,
        module: str,
        cfg: str,
        name: str | None = None,
        env: dict[str, str] | None = None,
        timeout: int = 800,
        min_states: int = 2,
        coverage: bool = False,
        workers: int | str = 8,
    ) -> str:
        """Exhaustive run of the specification itself; must find no error."""
        t = time.time()
        out = self.tlc(
            module,
            cfg,
            env,
            args=["-coverage", "1"] if coverage else [],
            timeout=timeout,
            workers=workers,
        )
        if "Model checking completed. No error has been found." not in out:
            raise MachineryError(f"TLC found an error in {module}:\n{out[-6000:]}")
        gen, dist = self._count(out)
        if dist < min_states:
            raise MachineryError(f"{module}: only {dist} states - vacuous model")
        self.detail.setdefault("spec_runs", []).append(
            {
                "module": name or module,
                "distinct_states": dist,
                "states_generated": gen,
                "wall_s": round(time.time() - t, 1),
            }
        )
        return out

    def behaviours(
        self,
        module: str,
        cfg: str,
        num: int,
        depth: int,
        env: dict[str, str] | None = None,
        timeout: int = 600,
        seed: int | None = None,
    ) -> list:
        """Behaviours of a spec: it prints <<"HIST", ToJson(hist)>> when finished."""
        out = self.tlc(
            module,
            cfg,
            env,
            args=[
                "-simulate",
                f"num={num}",
                "-depth",
                str(depth),
                "-seed",
                str(self.seed if seed is None else seed),
            ],
            workers=1,
            timeout=timeout,
        )
        if "Error:" in out:
            raise MachineryError(f"TLC simulation of {module} failed:\n{out[-5000:]}")
        res = []
        for text in re.findall(r'^<<\s*"HIST",\s*"(.*?)"\s*>>$', out, re.M):
            text = text.replace('\\"', '"').replace("\\\\", "\\")
            res.append(json.loads(text))
        m = re.findall(r"([\d,]+) states checked", out) or re.findall(
            r"(?:The number of states generated: |Progress: )([\d,]+)", out
        )
        n = int(m[-1].replace(",", "")) if m else 0
        self.detail.setdefault("spec_simulations", []).append(
            {"module": module, "behaviours": len(res), "states": n}
        )
        if not res:
            raise MachineryError(f"no behaviours generated from {module}:\n{out[-3000:]}")
        return res

    # ----------------------------------------------------------------------- traces
    def validate(
        self,
        module: str,
        traces: list[dict],
        label: str,
        constants: str = "",
        timeout: int = 800,
        chunk: int = 400,
    ) -> list[tuple[int, int, str]]:
        """Check recorded traces against the trace specification <module>.

        The trace spec prints <<"FAIL", tid, step, clause>> for each failing clause and
        <<"DONE", tid>> for every finished trace.  Clause names are "Cxx.clause".
        """
        fails: list[tuple[int, int, str]] = []
        unread = 0
        todo = [list(range(i, min(i + chunk, len(traces)))) for i in range(0, len(traces), chunk)]
        while todo:
            idx = todo.pop(0)
            if not idx:
                continue
            part = [traces[i] for i in idx]
            path = self.scratch / f"traces_{self._n}.json"
            path.write_text(json.dumps(part))
            out = self.tlc(
                module,
                f"INIT TraceInit\nNEXT TraceNext\nCHECK_DEADLOCK FALSE\n{constants}\n",
                env={"TRACES": str(path)},
                timeout=timeout,
            )
            if "Model checking completed. No error has been found." not in out:
                keep = tempfile.mkdtemp(prefix="verif_broken_") if os.environ.get(
                    "VERIF_KEEP"
                ) else None
                if keep:
                    shutil.copy(path, keep)
                # A recorded value outside of the specification's types (TLC cannot
                # evaluate the clause on it) is not a behaviour of the specification.
                at = re.findall(r"^/\\ tid = (\d+)", out, re.M)
                where = re.findall(r"^/\\ pos = (\d+)", out, re.M)
                if "evaluating" in out and at and "Attempted to" in out and unread < 8:
                    unread += 1
                    bad = int(at[-1])
                    fails.append((idx[bad - 1], int(where[-1]) + 1, f"{self.pid}.not-a-value-of-the-specification"))
                    print(re.findall(r"Attempted to.*", out)[0][:300], file=sys.stderr)
                    todo.insert(0, [i for k, i in enumerate(idx) if k != bad - 1])
                    continue
                raise MachineryError(
                    f"trace validation with {module} failed ({keep}):\n{out[-5000:]}"
                )
            path.unlink()
            self._count(out)
            done = {int(v) for v in re.findall(r'<<\s*"DONE",\s*(\d+)\s*>>', out)}
            if done != set(range(1, len(part) + 1)):
                missing = sorted(set(range(1, len(part) + 1)) - done)
                raise MachineryError(f"{module}: traces not finished: {missing[:5]}")
            for a, b, c in set(
                re.findall(r'<<\s*"FAIL",\s*(\d+),\s*(\d+),\s*"([^"]*)"\s*>>', out)
            ):
                fails.append((idx[int(a) - 1], int(b), c))
            infos = re.findall(r'<<\s*"INFO",\s*"([^"]*)"\s*>>', out)
            for name in infos:
                d = self.detail.setdefault("spec_info", {})
                d[name] = d.get(name, 0) + 1
        self.validated += len(traces)
        nev = sum(len(t["ev"]) for t in traces)
        self.events += nev
        d = self.detail.setdefault("trace_runs", [])
        d.append({"spec": module, "label": label, "traces": len(traces), "events": nev})
        if traces and len(self.samples) < 4:
            t = traces[len(traces) // 2]
            self.samples.append(
                {
                    "label": label,
                    "trace": json.loads(json.dumps(unR(t)))
                    if len(json.dumps(t)) < 6000
                    else {"events": [_brief(e) for e in t["ev"][:12]]},
                }
            )
        fails.sort()
        for tid, step, clause in fails:
            prop = clause.split(".")[0]
            if prop == self.pid:
                self.violation(
                    clause,
                    {"module": module, "trace": traces[tid], "step": step},
                    label,
                )
            else:
                self.other[clause] = self.other.get(clause, 0) + 1
        return fails

    def violation(self, clause: str, replay: dict, label: str) -> None:
        if len(self.violations) >= 20:
            return
        self.violations.append({"clause": clause, "label": label, "replay": replay})

    # ----------------------------------------------------------------------- finish
    def finish(self) -> int:
        """Write evidence, print the verdict, return the exit code."""
        for err in self.errors:
            # A crash of the driver inside repository code is an observation (none
            # occurs on the unchanged tree); any other crash is a machinery failure
            # unless the recorded part of the trace already shows a violation.
            if err["in_repo"]:
                self.violation(
                    f"{self.pid}.unexpected-exception", {"exception": err}, err["scenario"]
                )
        if self.errors and not self.violations:
            raise MachineryError("driver crashed: " + self.errors[0]["text"])
        known = _known_findings(self.pid)
        evdir = VERIF / "evidence"
        evdir.mkdir(exist_ok=True)
        new = []
        for v in self.violations:
            key = finding_key(v)
            if key in known:
                print(f"KNOWN-FINDING: property={self.pid} {key}")
            else:
                new.append(v)
        rc = 0
        seen = set()
        for v in new:
            key = (v["clause"], v["label"])
            if key in seen:
                continue
            seen.add(key)
            rdir = evdir / "replay"
            rdir.mkdir(exist_ok=True)
            path = rdir / f"{self.pid}-{self.tier}-{len(seen)}.json"
            readable = unR(v["replay"])
            path.write_text(
                json.dumps(
                    {
                        "property": self.pid,
                        "clause": v["clause"],
                        "label": v["label"],
                        "replay": v["replay"],
                        "readable": _jsonable(readable),
                    }
                )
            )
            ev = v["replay"].get("trace", {}).get("ev", [])
            step = v["replay"].get("step", 0)
            if ev and 0 < step <= len(ev):
                print(
                    f"  clause {v['clause']} fails at step {step} of a trace "
                    f"({v['label']}): {json.dumps(_brief(ev[step - 1]))[:600]}"
                )
            print(f"VIOLATION property={self.pid} replay={path}")
            rc = 1
        evidence = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.validated,
                "trace_events": self.events,
                "samples": _jsonable(self.samples) or ["none"],
                **_jsonable(self.detail),
                "failing_clauses_of_other_properties": self.other,
            },
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(new),
        }
        (evdir / f"{self.pid}.json").write_text(json.dumps(evidence, indent=1))
        print(
            f"{self.pid} {self.tier}: {self.states} states, {self.transitions} transitions,"
            f" {self.validated} traces ({self.events} events) validated,"
            f" {len(new)} violations, {evidence['wall_s']} s"
        )
        return rc


def _brief(e, maxlen=400):
    s = json.dumps(_jsonable(unR(e)))
    return json.loads(s) if len(s) < maxlen else s[:maxlen] + "..."


def _jsonable(x):
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_jsonable(v) for v in x]
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return repr(x)
    return x


def finding_key(v: dict) -> str:
    return f"{v['clause']} [{v['label']}]"


def _known_findings(pid: str) -> set[str]:
    res = set()
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            m = re.match(r"known: property=(\S+) (.*)$", line)
            if m and m.group(1) == pid:
                res.add(m.group(2).strip())
    return res


# --------------------------------------------------------------------------- calls
def outcome(fn, *args, **kwargs):
    """Call repository code; return (result, "ok") or (None, exception class name)."""
    import warnings

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*args, **kwargs), "ok"
    except Exception as exc:  # pylint: disable=broad-except
        return exc, type(exc).__name__


def setup_repo_import() -> None:
    sys.dont_write_bytecode = True
    os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
    os.environ.setdefault("TQDM_DISABLE", "1")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ.setdefault(v, "2")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
