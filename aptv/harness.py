"""Generated-input search against an oracle, with shrinking, replay files and measured evidence."""

import argparse
import contextlib
import importlib
import io
import json
import os
import shutil
import sys
import tempfile
import time
import traceback
import warnings
import zlib

from aptv import deps

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("APTV_REPO", "/repo")


class Violation(AssertionError):
    """The oracle disagrees with the code under test."""


class HarnessError(RuntimeError):
    """The check itself is broken; never reported as a violation."""


def require(condition, message, *args):
    """The oracle's verdict on one case."""
    if not condition:
        raise Violation(message.format(*args) if args else message)


def to_json(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): to_json(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_json(v) for v in x]
    if isinstance(x, np.ndarray):
        return to_json(x.tolist())
    if isinstance(x, np.generic):
        return x.item()
    return x


def short(x, limit=700):
    s = json.dumps(to_json(x), default=repr)
    return s if len(s) <= limit else s[:limit] + "..."


class Rec:
    """What one evaluated case tells about itself."""

    def __init__(self):
        self.labels = []
        self.interesting = False
        self.oracle = 0

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, flag=True):
        self.interesting = self.interesting or bool(flag)

    def checked(self, n=1):
        """Count oracle comparisons made inside the case."""
        self.oracle += int(n)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.start = time.time()
        self.evaluations = 0
        self.oracle = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []
        self.violations = []
        self.known = []
        self.parts = {}
        self.assumptions = []
        self.scratch = tempfile.mkdtemp(prefix=f"aptv_{prop}_")
        self.budget_hit = False
        self.quick_budget = 600.0 if tier == "quick" else 5 * 3600.0
        self.shrink_budget = 60.0 if tier == "quick" else 300.0

    # ------------------------------------------------------------------
    def n(self, quick, thorough=None):
        """Number of cases of the tier."""
        if self.tier == "quick":
            return quick
        return thorough if thorough is not None else quick * 12

    def _record(self, part, case, rec, dt):
        self.evaluations += 1
        p = self.parts.setdefault(part, {"evaluations": 0, "nontrivial": 0, "oracle_checks": 0})
        p["evaluations"] += 1
        p["oracle_checks"] += rec.oracle
        self.oracle += rec.oracle
        for label in rec.labels:
            k = f"{part}:{label}"
            self.labels[k] = self.labels.get(k, 0) + 1
        if rec.interesting:
            h = hash((part, json.dumps(to_json(case), sort_keys=True, default=repr)))
            if h not in self.distinct:
                self.distinct.add(h)
                p["nontrivial"] += 1
                if p["nontrivial"] in (1, 2, 7) and len(self.samples) < 40:
                    self.samples.append({"part": part, "case": short(case), "labels": sorted(set(rec.labels))})

    def run_case(self, part, fn, case):
        """Evaluate one case outside Hypothesis (fixed sweeps and replays)."""
        rec = Rec()
        t = time.time()
        fn(case, rec)
        self._record(part, case, rec, time.time() - t)

    def search(self, part, strategy, fn, max_examples, salt=""):
        """Random search of ``strategy`` for a case on which ``fn(case, rec)`` raises; shrinks it."""
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis.errors import Flaky

        if self.violations:
            return
        state = {"first": None, "last": None, "known": set(), "error": None}

        def body(case):
            if state["first"] is None:
                if time.time() - self.start > self.quick_budget:
                    self.budget_hit = True
                    return
            elif time.time() - state["first"] > self.shrink_budget:
                # stop shrinking: only what is known to fail is evaluated again
                if json.dumps(to_json(case), sort_keys=True, default=repr) not in state["known"]:
                    return
            rec = Rec()
            t = time.time()
            try:
                fn(case, rec)
            except (HarnessError, MemoryError, KeyboardInterrupt):
                raise
            except BaseException as e:
                if type(e).__module__.startswith("hypothesis"):
                    raise
                if state["first"] is None:
                    state["first"] = time.time()
                text = "".join(traceback.format_exception(e)[-6:])
                state["last"] = (to_json(case), f"{type(e).__name__}: {e}", text)
                state["known"].add(json.dumps(to_json(case), sort_keys=True, default=repr))
                raise
            self._record(part, case, rec, time.time() - t)

        test = given(strategy)(body)
        test = settings(
            max_examples=max_examples,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            phases=[Phase.explicit, Phase.generate, Phase.shrink],
            suppress_health_check=list(HealthCheck),
            verbosity=hypothesis.Verbosity.quiet,
        )(test)
        test = hypothesis.seed(zlib.crc32(f"{self.seed} {part} {salt}".encode()))(test)
        try:
            test()
        except HarnessError:
            raise
        except BaseException as e:
            if state["last"] is None:
                raise
            if isinstance(e, (KeyboardInterrupt, MemoryError)):
                raise
            case, message, text = state["last"]
            self.violate(part, case, message, text, flaky=isinstance(e, Flaky))

    def sweep(self, part, cases, fn):
        """Evaluate every case of a finite list; the first failing one is reported."""
        if self.violations:
            return
        for case in cases:
            try:
                self.run_case(part, fn, case)
            except (HarnessError, MemoryError, KeyboardInterrupt):
                raise
            except Exception as e:
                self.violate(part, to_json(case), f"{type(e).__name__}: {e}", traceback.format_exc())
                return

    def violate(self, part, case, message, text="", flaky=False):
        folder = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, f"{self.prop}_{part}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": self.prop,
                    "part": part,
                    "case": case,
                    "message": message,
                    "traceback": text,
                    "flaky": flaky,
                    "seed": self.seed,
                    "tier": self.tier,
                },
                f,
                indent=1,
                default=repr,
            )
        self.violations.append((part, path, message))

    # ------------------------------------------------------------------
    def evidence(self, rule):
        path = os.path.join(ROOT, "evidence", f"{self.prop}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        coverage = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.distinct),
            "rule": rule,
            "samples": self.samples,
            "oracle_comparisons": self.oracle,
            "parts": self.parts,
            "labels": dict(sorted(self.labels.items())),
            "time_budget_hit": self.budget_hit,
        }
        data = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 2),
            "violations": len(self.violations),
        }
        tmp = path + ".tmp"
        with open(tmp, "w") as f:
            json.dump(data, f, indent=1, default=repr)
        os.replace(tmp, path)


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def main(argv):
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--replay")
    parser.add_argument("--part", help="run only this part (development)")
    args = parser.parse_args(argv)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)

    sys.path.insert(0, REPO)
    deps.ensure()
    warnings.simplefilter("ignore")
    check = Check(args.property, tier, seed)
    cwd = os.getcwd()
    code = 2
    try:
        os.chdir(check.scratch)
        with quiet():
            import appletree
        if not os.path.realpath(appletree.__file__).startswith(os.path.realpath(REPO) + os.sep):
            raise HarnessError(f"imported appletree from {appletree.__file__}, not from {REPO}")
        module = importlib.import_module(f"aptv.props.{args.property.lower()}")
        if args.replay:
            with open(os.path.join(cwd, args.replay)) as f:
                replay = json.load(f)
            fn = module.PARTS[replay["part"]]
            try:
                with quiet():
                    check.run_case(replay["part"], fn, replay["case"])
            except Exception:
                traceback.print_exc()
                print(f"VIOLATION property={args.property} replay={args.replay}")
                return 1
            print("the replayed case holds")
            return 0
        for finding in known_findings(args.property):
            fn = module.KNOWN[finding["id"]]
            with quiet():
                still = fn()
            if still:
                print(f"KNOWN-FINDING: property={args.property} {finding['what']}")
        buffer = io.StringIO()
        try:
            with contextlib.redirect_stdout(buffer), contextlib.redirect_stderr(buffer), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                module.run(check, only=args.part) if args.part else module.run(check)
        except BaseException:
            sys.stderr.write(buffer.getvalue()[-3000:])
            raise
        check.evidence(module.RULE)
        for part, path, message in check.violations:
            print(f"[{part}] {message}"[:2000])
            print(f"VIOLATION property={args.property} replay={os.path.relpath(path, ROOT)}")
        if not check.violations:
            print(
                f"{args.property} held: {check.evaluations} cases, {len(check.distinct)} distinct non-trivial, "
                f"{check.oracle} comparisons, {time.time() - check.start:.1f} s"
            )
        code = 1 if check.violations else 0
    except BaseException:
        traceback.print_exc()
        code = 2
    finally:
        os.chdir(cwd)
        shutil.rmtree(check.scratch, ignore_errors=True)
    return code
