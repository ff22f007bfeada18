"""Shared machinery: TLC runner, judge driver, evidence, violations."""

from __future__ import annotations

import concurrent.futures as cf
import itertools
import json
import os
import pathlib
import random
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPECS = VERIF / "specs"
WORK = VERIF / ".work"
REPLAYS = VERIF / "replays"
JAR = (
    "/opt/veriftools/tla/tla2tools.jar:"
    "/opt/veriftools/tla/CommunityModules-deps.jar"
)


class MachineryError(Exception):
    """The check itself failed (never a verdict about koreo)."""


class TlcResult:
    def __init__(self, out: str, rc: int, wall: float):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m and not self.generated:
            self.generated = int(m[-1].replace(",", ""))
        self.violated = bool(
            re.search(r"Error: (Invariant|Action property|Temporal)", out)
            or "is violated" in out
        )

        # 75: the specification can not be evaluated on what it was given
        self.not_evaluable = rc == 75 and not re.search(
            r"StackOverflow|OutOfMemory", out
        )

    def prints(self, tag: str):
        """Values printed by PrintT("<tag> <json>")."""
        pre = f'"{tag} '
        res = []
        for line in self.out.splitlines():
            if line.startswith(pre):
                res.append(json.loads(json.loads(line)[len(tag) + 1 :]))
        return res


def tlc_error(out: str) -> str:
    lines = [x for x in out.splitlines() if not x.startswith('"')]
    for n, line in enumerate(lines):
        if "rror" in line and "No error" not in line:
            return "\n".join(x[:1500] for x in lines[n : n + 25])
    return "\n".join(lines[-40:])


class Ctx:
    """One run of one check."""

    def __init__(self, prop: str, tier: str, seed: int):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(f"{prop}-{seed}")
        self.t0 = time.monotonic()
        self.work = WORK / f"{prop}-{os.getpid()}"
        shutil.rmtree(self.work, ignore_errors=True)
        self.work.mkdir(parents=True)
        for f in REPLAYS.glob(f"{prop}-*.json"):
            f.unlink()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.coverage: dict = {}
        self.samples: list = []
        self.violations: list[dict] = []
        self.known: dict[str, str] = {}
        self.assumptions: list[str] = []
        self._counter = itertools.count(1)
        self.known_list = [
            k for k in load_known() if k["property"] == prop and k["status"] == "open"
        ]

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, msg: str):
        print(f"[{self.prop} {time.monotonic() - self.t0:6.1f}s] {msg}", flush=True)

    # --- TLC ---------------------------------------------------------------
    def tlc(
        self,
        module: str,
        cfg: str,
        env: dict | None = None,
        workers: int = 1,
        timeout: int = 600,
        args: list[str] | None = None,
        heap: str = "3g",
        allow_violation: bool = False,
        allow_eval: bool = False,
    ) -> TlcResult:
        d = self.work / f"tlc{next(self._counter)}-{module}"
        d.mkdir(parents=True, exist_ok=True)
        cfgf = d / f"{module}.cfg"
        cfgf.write_text(cfg)
        cmd = [
            "java",
            "-XX:+UseParallelGC",
            "-XX:ParallelGCThreads=2",
            f"-Xmx{heap}",
            "-Xss64m",
            "-cp",
            JAR,
            "tlc2.TLC",
            "-noTE",
            "-config",
            str(cfgf),
            "-metadir",
            str(d / "meta"),
            "-workers",
            str(workers),
            *(args or []),
            str(SPECS / f"{module}.tla"),
        ]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.monotonic()
        try:
            p = subprocess.run(
                cmd,
                env=e,
                cwd=d,
                stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT,
                text=True,
                timeout=timeout,
            )
        except subprocess.TimeoutExpired as err:
            raise MachineryError(f"TLC {module} timed out after {timeout}s") from err
        res = TlcResult(p.stdout, p.returncode, time.monotonic() - t)
        if os.environ.get("VERIF_KEEP"):
            (d / "out.txt").write_text(p.stdout)
        else:
            shutil.rmtree(d, ignore_errors=True)
        if (
            res.rc != 0
            and not (allow_violation and res.violated)
            and not (allow_eval and res.not_evaluable)
        ):
            raise MachineryError(
                f"TLC {module} rc={res.rc}:\n" + tlc_error(p.stdout)
            )
        return res

    def model_check(self, module: str, cfg: str, min_states: int = 2, **kw):
        """Exhaustive check of a design model; counts towards coverage."""
        res = self.tlc(module, cfg, **kw)
        if res.distinct < min_states:
            raise MachineryError(
                f"{module}: only {res.distinct} states (expected >= {min_states})"
            )
        self.states += res.distinct
        self.transitions += res.generated
        self.coverage.setdefault("models", []).append(
            {
                "module": module,
                "distinct_states": res.distinct,
                "states_generated": res.generated,
                "wall_s": round(res.wall, 1),
            }
        )
        self.log(
            f"model {module}: {res.distinct} distinct, {res.generated} generated, "
            f"{res.wall:.1f}s"
        )
        return res

    # --- judging -----------------------------------------------------------
    def judge(
        self,
        module: str,
        cases: list,
        shards: int = 6,
        cfg: str | None = None,
        env: dict | None = None,
        timeout: int = 700,
    ) -> dict[int, list]:
        """Run the trace-validation module over recorded cases.

        Returns {case index: [failing clauses]}; every case gets a verdict.
        """
        if not cases:
            return {}
        shards = max(1, min(shards, (len(cases) + 39) // 40))
        cfg = cfg or "INIT JInit\nNEXT JNext\nCHECK_DEADLOCK FALSE\n"
        # interleave, so that expensive cases spread over the shards
        idx = [list(range(s, len(cases), shards)) for s in range(shards)]
        base = self.work / f"judge{next(self._counter)}"
        base.mkdir(parents=True)
        files = []
        for s in range(shards):
            f = base / f"s{s}.ndjson"
            with f.open("w") as fh:
                for i in idx[s]:
                    fh.write(json.dumps(cases[i], ensure_ascii=True) + "\n")
            files.append(f)

        def one(s):
            """Every verdict of one shard.

            What the code did may have a shape for which the specification has
            no meaning (a boolean for a namespace): that is not one of its
            behaviours either, and the cases behind it are still judged.
            """
            verdicts, first = [], 0
            for attempt in range(6):
                r = self.tlc(
                    module,
                    cfg,
                    env={**(env or {}), "TRACE": str(files[s])},
                    timeout=timeout,
                    allow_eval=True,
                )
                for v in r.prints("VIOL"):
                    verdicts.append((first + v["i"] - 1, sorted(v["clauses"], key=str)))
                if r.rc == 0:
                    done = r.prints("DONE")
                    if done != [len(idx[s]) - first]:
                        raise MachineryError(
                            f"{module}: judged {done} of {len(idx[s]) - first}\n{r.out[-3000:]}"
                        )
                    break
                reached = re.findall(r"^(?:/\\ )?i = (\d+)$", r.out, re.M)
                if not reached:
                    raise MachineryError(f"TLC {module}:\n" + tlc_error(r.out))
                first += int(reached[-1]) + 1
                verdicts.append((first - 1, [f"{self.prop}:no-behaviour-of-the-model"]))
                rest = files[s].read_text().splitlines(True)[int(reached[-1]) + 1 :]
                if not rest:
                    break
                files[s].write_text("".join(rest))
            return verdicts

        t = time.monotonic()
        with cf.ThreadPoolExecutor(max_workers=min(8, shards)) as ex:
            results = list(ex.map(one, range(shards)))
        bad: dict[int, list] = {}
        for s, verdicts in enumerate(results):
            for n, clauses in verdicts:
                bad[idx[s][n]] = clauses
        self.log(
            f"judge {module}: {len(cases)} cases, {len(bad)} rejected, "
            f"{time.monotonic() - t:.1f}s"
        )
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(base, ignore_errors=True)
        return bad

    def check_cases(self, module, cases, replay_info=None, label="", **kw):
        """Judge cases and report the rejected ones as violations."""
        bad = self.judge(module, cases, **kw)
        self.validated += len(cases)
        if label:
            self.coverage.setdefault("case_groups", {})[label] = len(cases)
        for i in sorted(bad):
            self.violation(
                bad[i],
                {
                    "module": module,
                    "case": cases[i],
                    "input": replay_info(i) if replay_info else None,
                },
            )
        return bad

    def self_check(self, module, corrupted: list, label="", min_n=1, **kw):
        """Binding self check: corrupted traces must be rejected.

        A corruption may by chance be another behaviour the specification leaves
        open: a few accepted ones are recorded, more of them are an error.
        """
        if len(corrupted) < min_n:
            raise MachineryError(f"self check {label}: {len(corrupted)} corruptions")
        bad = self.judge(module, corrupted, **kw)
        missed = [i for i in range(len(corrupted)) if not self.unknown(bad.get(i, []), corrupted[i])[0]]
        if missed:
            self.log(f"self check {label}: {len(missed)} of {len(corrupted)} corrupted traces accepted")
            self.coverage.setdefault("corrupted_traces_accepted", {})[label or module] = len(missed)
        if len(missed) > max(2, len(corrupted) // 25):
            raise MachineryError(
                f"binding self check {label}: {len(missed)} of {len(corrupted)} "
                f"corrupted traces accepted, e.g. {json.dumps(corrupted[missed[0]])[:800]}"
            )
        self.coverage.setdefault("corrupted_traces_rejected", {})[
            label or module
        ] = len(corrupted) - len(missed)

    # --- verdicts ----------------------------------------------------------
    def unknown(self, clauses, detail):
        """(clauses which no known finding explains, the findings which explain others)"""
        left, found = [], []
        for c in [clauses] if isinstance(clauses, str) else clauses:
            ks = [k for k in self.known_list if known_matches(k, str(c), detail)]
            found += ks
            if not ks:
                left.append(str(c))
        return left, found

    def violation(self, clauses, detail):
        left, found = self.unknown(clauses, detail)
        for k in found:
            self.known[k["id"]] = k["what"]
        if left:
            self.violations.append({"clause": ",".join(left), "detail": detail})

    def finish(self, level="model_checking") -> int:
        wall = time.monotonic() - self.t0
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.validated,
            "samples": self.samples[:5],
            **self.coverage,
        }
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(
            json.dumps(ev, indent=1, default=str) + "\n"
        )
        shutil.rmtree(self.work, ignore_errors=True)
        for kid, what in sorted(self.known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {what} [{kid}]")
        if not self.violations:
            self.log(f"held on everything explored ({wall:.1f}s)")
            return 0
        REPLAYS.mkdir(exist_ok=True)
        by_clause: dict[str, list] = {}
        for v in self.violations:
            by_clause.setdefault(v["clause"], []).append(v)
        for n, (clause, vs) in enumerate(sorted(by_clause.items())[:12]):
            vs.sort(key=lambda v: len(json.dumps(v, default=str)))
            path = REPLAYS / f"{self.prop}-{n}.json"
            path.write_text(
                json.dumps(
                    {
                        "property": self.prop,
                        "seed": self.seed,
                        "tier": self.tier,
                        "clause": clause,
                        "occurrences": len(vs),
                        "smallest": vs[0]["detail"],
                    },
                    indent=1,
                    default=str,
                )
            )
            print(f"  clause={clause} occurrences={len(vs)}")
            print(f"VIOLATION property={self.prop} replay={path}")
        return 1


def load_known() -> list[dict]:
    f = VERIF / "known_findings.json"
    if not f.exists():
        return []
    return json.loads(f.read_text())["findings"]


def known_matches(k: dict, sig: str, detail) -> bool:
    if k.get("clause") and k["clause"] != sig:
        return False
    needle = k.get("input")
    if needle is not None:
        return needle in json.dumps(detail, sort_keys=True, default=str)
    return bool(k.get("clause"))


def project_error(err: BaseException) -> str:
    return f"{type(err).__name__}: {err}"[:300]


class Hang(BaseException):
    pass


class guard:
    """CPU hang guard around a call into the code under test."""

    def __init__(self, seconds: int = 20):
        self.seconds = seconds

    def __enter__(self):
        def onalarm(signum, frame):
            raise Hang()

        self._old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(self.seconds)

    def __exit__(self, *exc):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self._old)
        return False
