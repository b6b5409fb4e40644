"""One shard: a seeded Hypothesis exploration of one property."""
import copy
import importlib
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import boot  # noqa: E402
from core import Hang, HarnessError, Rec, Violation, digest, dumps  # noqa: E402

CPU_LIMIT = 90.0  # CPU seconds for a case that normally takes milliseconds


class Stop(KeyboardInterrupt):
    pass


def load_property(prop):
    return importlib.import_module(f"props.{prop.lower()}")


def _on_alarm(signum, frame):
    raise Hang("CPU watchdog")


def execute(mod, case, rec):
    """Run one case.  None = held; str = violation message."""
    case = json.loads(dumps(case))
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT, 1.0)
    try:
        mod.run(case, rec)
        return None
    except Violation as err:
        return f"{mod.ID}: {err}"
    except Hang:
        return f"{mod.ID}: code under test did not terminate ({CPU_LIMIT} CPU s)"
    except (HarnessError, MemoryError, OSError, ImportError):
        raise
    except Exception as err:
        # Raised by the code under test, or by what it returned not being what
        # any caller could use.  Mistakes of the harness itself are asserted.
        frames = traceback.extract_tb(err.__traceback__)
        inside = [f for f in frames if f"{os.sep}src{os.sep}koreo{os.sep}" in f.filename]
        if isinstance(err, AssertionError) and not inside:
            raise
        where = inside[-1] if inside else frames[-1]
        return (f"{mod.ID}: {'code under test raised' if inside else 'unusable result:'} "
                f"{type(err).__name__}: {err} ({os.path.basename(where.filename)}:{where.name})")
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def main():
    import resource

    # some expressions make the CEL library allocate without bound
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
    prop, tier, seed, index, shards, out, budget = sys.argv[1:8]
    seed, index, shards, budget = int(seed), int(index), int(shards), float(budget)
    started = time.time()
    state = {
        "evaluations": 0, "hashes": set(), "tags": {}, "samples": [],
        "best": None, "first_fail_at": None, "truncated": False, "excluded": 0,
        "until": started + budget,
    }
    result = {"rule": "", "assumptions": [], "corpus": 0, "known": []}
    try:
        boot.load()
        mod = load_property(prop)
        result["rule"] = mod.RULE
        result["assumptions"] = getattr(mod, "ASSUMPTIONS", [])
        counts = mod.COUNT[tier]
        shrink_s = 45 if tier == "quick" else 120

        def note_failure(case, message):
            size = len(dumps(case))
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, case, message)

        # regression tier: saved cases, split over the shards
        import main as driver

        for i, path in enumerate(driver.corpus(prop)):
            if i % shards != index:
                continue
            with open(path) as fh:
                doc = json.load(fh)
            result["corpus"] += 1
            message = execute(mod, doc["case"], Rec())
            if message:
                note_failure(doc["case"], f"{message} [corpus {os.path.basename(path)}]")
        known = driver.known_findings(prop)
        if index == 0:
            for f in known:
                message = execute(mod, f["case"], Rec())
                if message:
                    result["known"].append(f"KNOWN-FINDING: property={prop} {f['what']}")
        matcher = getattr(mod, "known_match", None)

        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        from hypothesis import strategies as st

        def body(case):
            now = time.time()
            if state["first_fail_at"] is not None:
                if now - state["first_fail_at"] > shrink_s:
                    raise Stop()
            elif now > state["until"]:
                state["truncated"] = True
                raise Stop()
            rec = Rec()
            message = execute(mod, case, rec)
            state["evaluations"] += 1
            if rec.nontrivial:
                h = digest(case)
                if h not in state["hashes"]:
                    state["hashes"].add(h)
                    if len(state["samples"]) < 2 and len(dumps(case)) < 2500 and state["evaluations"] % 7 == 0:
                        state["samples"].append(copy.deepcopy(case))
            for t in rec.tags:
                state["tags"][t] = state["tags"].get(t, 0) + 1
            if message:
                if matcher and known:
                    hit = matcher(case, message)
                    if hit and any(f["id"] == hit for f in known):
                        state["excluded"] += 1
                        return
                if state["first_fail_at"] is None:
                    state["first_fail_at"] = time.time()
                note_failure(case, message)
                raise Violation(message)

        if state["best"] is None:
            parts = mod.strategies(tier) if hasattr(mod, "strategies") else {"main": mod.strategy(tier)}
            extra = hasattr(mod, "enumerate_cases")
            for n, (name, strat) in enumerate(parts.items()):
                # on a slow machine each part gets its share of the time
                now = time.time()
                state["until"] = now + (started + budget - now) / (len(parts) - n + extra)
                count = counts[name] if isinstance(counts, dict) else counts

                @hypothesis.seed(seed * 100003 + index * 101 + n)
                @settings(
                    max_examples=count, database=None, deadline=None,
                    phases=[Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck),
                    report_multiple_bugs=False,
                    print_blob=False,
                )
                @given(strat)
                def test(case):
                    body(case)

                try:
                    test()
                except Stop:
                    pass
                except Violation:
                    pass
                except BaseException:
                    if state["best"] is None:
                        raise
                if state["best"] is not None:
                    break
            state["until"] = started + budget

            # exhaustive / scripted part
            if state["best"] is None and hasattr(mod, "enumerate_cases"):
                for i, case in enumerate(mod.enumerate_cases(tier)):
                    if i % shards != index:
                        continue
                    try:
                        body(case)
                    except (Violation, Stop):
                        break
    except BaseException:
        result["error"] = traceback.format_exc()[-4000:]

    result.update(
        evaluations=state["evaluations"],
        hashes=sorted(state["hashes"]),
        tags=state["tags"],
        samples=state["samples"],
        truncated=state["truncated"],
        excluded=state["excluded"],
    )
    if state["best"] is not None:
        result["violation"] = {"case": state["best"][1], "message": state["best"][2]}
    tmp = out + ".tmp"
    with open(tmp, "w") as fh:
        json.dump(result, fh)
    os.replace(tmp, out)


if __name__ == "__main__":
    main()
