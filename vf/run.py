"""Runs one property: worker processes with derived seeds, shrinking, replay
files, evidence and known findings."""

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env

LEVEL = "exploration"
WORKERS = 8


class Violation(Exception):
    """The property does not hold for a case."""


class Inconclusive(Exception):
    """The oracle could not decide this case (never a violation)."""


class Budget(BaseException):
    """Stops Hypothesis when shrinking or the run takes too long."""


def canon(spec):
    return json.dumps(spec, sort_keys=True)


def digest(spec):
    return hashlib.sha1(canon(spec).encode()).hexdigest()[:12]


class CaseTimeout(Exception):
    """A case took too long (a solver does not end)."""


CASE_S = 60
_late = [False]


def _alarm(signum, frame):
    _late[0] = True
    me = os.getpid()
    try:
        with open(f"/proc/{me}/task/{me}/children") as f:
            for pid in f.read().split():
                os.kill(int(pid), signal.SIGKILL)
    except OSError:
        pass
    raise CaseTimeout(f"no answer within {CASE_S} s")


def guarded(prop, spec):
    """Run one case. Returns info; raises Violation, Inconclusive or, for
    trouble of the harness itself, anything else."""
    _late[0] = False
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_S)
    try:
        return _guarded(prop, spec)
    except Exception as e:
        if _late[0]:
            raise Inconclusive("timeout") from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _guarded(prop, spec):
    from .build import BuildError
    from .extract import NonLinear
    from .lp import Disagreement, SolverTrouble

    try:
        return prop.case(spec) or {}
    except (Violation, Inconclusive):
        raise
    except SolverTrouble as e:
        raise Inconclusive(str(e)) from e
    except Disagreement as e:
        raise Violation(str(e)) from e
    except BuildError as e:
        raise Violation(
            f"a valid model could not be built: {e}\n"
            + traceback.format_exc()[-1500:]
        ) from e
    except NonLinear as e:
        raise Violation(f"the model is not linear: {e}") from e
    except Exception as e:
        frames = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(env.SRC) for f in frames):
            raise Violation(
                f"unexpected {type(e).__name__} in oemof.solph: {e}\n"
                + traceback.format_exc()[-1500:]
            ) from e
        if getattr(prop, "strict", False) and isinstance(
            e, (KeyError, IndexError, AttributeError, TypeError)
        ):
            # the check only reads documented outputs
            raise Violation(
                f"output has not the documented shape: {type(e).__name__}: "
                f"{e}\n" + traceback.format_exc()[-1500:]
            ) from e
        raise


def worker(prop, seed, n, shrink_s, total_s, conn):
    # HiGHS, cbc and friends print; only the parent reports
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        out = _worker(prop, seed, n, shrink_s, total_s)
    except BaseException:
        out = {"error": traceback.format_exc()}
    conn.send(out)
    conn.close()


def _worker(prop, seed, n, shrink_s, total_s):
    import hypothesis
    import warnings

    warnings.simplefilter("ignore")
    from hypothesis import HealthCheck, Phase, given, settings

    tmp = tempfile.mkdtemp(prefix="vfw_")
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    os.chdir(tmp)
    stats = {
        "evaluations": 0,
        "nontrivial": {},
        "labels": {},
        "inconclusive": 0,
        "failures": [],
        "error": None,
        "truncated": False,
    }
    t0 = time.monotonic()
    first_fail = [None]

    def body(spec):
        now = time.monotonic()
        if first_fail[0] is not None and now - first_fail[0] > shrink_s:
            raise Budget("shrinking")
        if first_fail[0] is None and now - t0 > total_s:
            stats["truncated"] = True
            raise Budget("total")
        spec = json.loads(json.dumps(spec))
        stats["evaluations"] += 1
        try:
            info = guarded(prop, spec)
        except Inconclusive:
            stats["inconclusive"] += 1
            return
        except Violation as e:
            if first_fail[0] is None:
                first_fail[0] = time.monotonic()
            stats["failures"].append((len(canon(spec)), spec, str(e)))
            stats["failures"].sort(key=lambda x: x[0])
            del stats["failures"][3:]
            raise
        for lab in set(info.get("labels", ())):
            stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
        if info.get("nontrivial"):
            d = digest(spec)
            if d not in stats["nontrivial"]:
                stats["nontrivial"][d] = (
                    spec if len(stats["nontrivial"]) < 2 else None
                )

    test = settings(
        max_examples=n,
        deadline=None,
        database=None,
        print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )(given(prop.strategy())(body))
    test = hypothesis.seed(seed)(test)
    devnull = open(os.devnull, "w")
    out, sys.stdout = sys.stdout, devnull
    try:
        test()
    except Budget:
        pass
    except Violation:
        pass
    except BaseException as e:
        if not stats["failures"]:
            stats["error"] = "".join(traceback.format_exception(e))[-4000:]
    finally:
        sys.stdout = out
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    return stats


def run_workers(prop, seed, total, shrink_s, total_s, workers=WORKERS):
    share = [total // workers] * workers
    for k in range(total % workers):
        share[k] += 1
    procs = []
    for k, n in enumerate(share):
        if n == 0:
            continue
        a, b = mp.Pipe(duplex=False)
        p = mp.get_context("fork").Process(
            target=worker,
            args=(prop, seed * 1009 + k, n, shrink_s, total_s, b),
        )
        p.start()
        b.close()
        procs.append((p, a))
    results = []
    end = time.monotonic() + total_s + shrink_s + 2 * CASE_S
    for p, a in procs:
        try:
            if a.poll(max(0, end - time.monotonic())):
                results.append(a.recv())
            else:
                p.kill()
                results.append({"error": "a worker does not end"})
        except EOFError:
            results.append({"error": "a worker died"})
        p.join()
    return results


def _send(fn, prop, conn):
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        out = fn(prop)
    except BaseException:
        out = {"error": traceback.format_exc(), "violations": [],
               "known": 0, "corpus": 0, "lines": []}
    conn.send(out)
    conn.close()


def in_process(fn, prop):
    """(HiGHS starts threads, which must not happen before workers fork.)"""
    a, b = mp.Pipe(duplex=False)
    p = mp.get_context("fork").Process(target=_send, args=(fn, prop, b))
    p.start()
    b.close()
    try:
        out = a.recv()
    except EOFError:
        out = {"error": "a worker died", "violations": [], "known": 0,
               "corpus": 0, "lines": []}
    p.join()
    return out


def fixed_cases(prop):
    """known findings (each has its own input, which is tried on its own)
    and the corpus of inputs that once failed"""
    import warnings

    warnings.simplefilter("ignore")
    pid = prop.id
    out = {"violations": [], "known": 0, "corpus": 0, "lines": []}
    tmp = tempfile.mkdtemp(prefix="vfw_")
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    os.chdir(tmp)
    try:
        for k in load_known():
            if k["property"] != pid or k["status"] != "known":
                continue
            try:
                prop.known_case(k["spec"])
            except Exception:
                out["lines"].append(
                    f"KNOWN-FINDING: property={pid} {k['what']}"
                )
                out["known"] += 1
            else:
                out["lines"].append(
                    f"note: known finding no longer shows: {k['what']}"
                )
        for name, spec in corpus(pid):
            out["corpus"] += 1
            try:
                guarded(prop, spec)
            except Inconclusive:
                pass
            except Violation as e:
                out["violations"].append(
                    (len(canon(spec)), spec, f"[{name}] {e}")
                )
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def load_known():
    path = os.path.join(env.VERIF, "known_findings.json")
    with open(path) as f:
        return json.load(f)["findings"]


def corpus(pid):
    d = os.path.join(env.VERIF, "corpus", pid)
    out = []
    if os.path.isdir(d):
        for name in sorted(os.listdir(d)):
            with open(os.path.join(d, name)) as f:
                out.append((name, json.load(f)["spec"]))
    return out


def save_replay(pid, spec, message):
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{digest(spec)}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "message": message, "spec": spec}, f,
                  indent=1)
    return path


def find(pid):
    from . import props

    return props.get(pid)


def report(pid, spec, message):
    path = save_replay(pid, spec, message)
    print(f"{pid}: {message.strip()[:1500]}")
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1


def main(pid, tier, seed, replay=None):
    t0 = time.monotonic()
    env.setup()
    prop = find(pid)
    pid = prop.id
    if replay:
        with open(replay) as f:
            spec = json.load(f)["spec"]
        try:
            print(guarded(prop, spec))
        except Violation as e:
            return report(pid, spec, str(e))
        print("the property holds for this case")
        return 0

    fixed = in_process(fixed_cases, prop)
    violations = fixed["violations"]
    n_known, n_corpus = fixed["known"], fixed["corpus"]
    for line in fixed["lines"]:
        print(line)

    total = 2 * prop.quick if tier == "quick" else prop.thorough
    shrink_s = 25 if tier == "quick" else 120
    total_s = 300 if tier == "quick" else 700
    results = run_workers(prop, seed, total, shrink_s, total_s,
                          getattr(prop, "workers", WORKERS))
    errors = [r["error"] for r in results + [fixed] if r.get("error")]
    ok = [r for r in results if "evaluations" in r]
    nontrivial = {}
    labels = {}
    for r in ok:
        for d, s in r["nontrivial"].items():
            if nontrivial.get(d) is None:
                nontrivial[d] = s
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        violations += r["failures"]
    samples = [s for s in nontrivial.values() if s is not None][:3]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": LEVEL,
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in ok) + n_corpus,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.rule,
            "samples": samples,
            "classes": dict(sorted(labels.items())),
            "inconclusive": sum(r["inconclusive"] for r in ok),
            "corpus_cases": n_corpus,
            "known_findings_shown": n_known,
            "stopped_by_time": any(r["truncated"] for r in ok),
        },
        "assumptions": list(getattr(prop, "assumptions", [])),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": 1 if violations else 0,
    }
    d = os.path.join(env.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    c = evidence["coverage"]
    print(
        f"{pid}: {c['evaluations']} cases, {c['distinct_nontrivial']} distinct"
        f" non-trivial, {c['inconclusive']} inconclusive,"
        f" {evidence['wall_s']} s; {json.dumps(c['classes'])}"
    )
    if violations:
        violations.sort(key=lambda x: x[0])
        _, spec, message = violations[0]
        return report(pid, spec, message)
    if errors:
        print("HARNESS ERROR\n" + errors[0], file=sys.stderr)
        return 3
    if c["evaluations"] == 0 or c["inconclusive"] * 2 > c["evaluations"]:
        print("HARNESS ERROR: nothing decided", file=sys.stderr)
        return 3
    return 0


_ = importlib
