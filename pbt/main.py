"""bin/check driver: shards, evidence, violations, replay."""
import glob
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import boot  # noqa: E402

ROOT = boot.ROOT
SHARDS = 8
BUDGET = {"quick": 300, "thorough": 780}  # wall seconds; reaching it is "inconclusive"


def known_findings(prop):
    path = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        data = json.load(fh)
    return [f for f in data.get("findings", []) if f["property"] == prop]


def corpus(prop):
    return sorted(glob.glob(os.path.join(ROOT, "corpus", prop, "*.json")))


def write_replay(prop, case, message, tag):
    from core import digest

    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{tag}-{digest(case)}.json")
    with open(path, "w") as fh:
        json.dump({"property": prop, "message": message, "case": case}, fh, indent=1)
    return path


def run_one(prop, path, quiet=False):
    """Replay one saved case in this process; returns None or a message."""
    import shard

    mod = shard.load_property(prop)
    with open(path) as fh:
        doc = json.load(fh)
    case = doc["case"] if isinstance(doc, dict) and "case" in doc else doc
    return shard.execute(mod, case, shard.Rec())


def main(argv):
    if len(argv) < 2:
        print("usage: check ID quick|thorough|replay FILE", file=sys.stderr)
        return 2
    prop, tier = argv[0], argv[1]
    if tier == "replay":
        boot.load()
        message = run_one(prop, argv[2])
        if message:
            print(message)
            print(f"VIOLATION property={prop} replay={os.path.abspath(argv[2])}")
            return 1
        print("no violation")
        return 0

    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    started = time.time()
    out = tempfile.mkdtemp(prefix=f"pbt-{prop}-")
    procs = []
    try:
        files = []
        for i in range(SHARDS):
            f = os.path.join(out, f"{i}.json")
            files.append(f)
            procs.append(
                subprocess.Popen(
                    [
                        sys.executable, "-B", os.path.join(HERE, "shard.py"),
                        prop, tier, str(seed), str(i), str(SHARDS), f,
                        str(BUDGET[tier]),
                    ],
                    stdout=subprocess.DEVNULL,
                    stderr=open(os.path.join(out, f"{i}.err"), "w"),
                )
            )
        pending = set(range(SHARDS))
        violated = False
        hard = started + BUDGET[tier] + 60
        while pending and not violated:
            time.sleep(0.05)
            for i in list(pending):
                if procs[i].poll() is not None:
                    pending.discard(i)
                    if os.path.exists(files[i]):
                        with open(files[i]) as fh:
                            if json.load(fh).get("violation"):
                                violated = True
            if time.time() > hard:
                break
        for i in pending:
            procs[i].kill()
        for p in procs:
            p.wait()

        results, errors = [], []
        for i, f in enumerate(files):
            if os.path.exists(f):
                with open(f) as fh:
                    results.append(json.load(fh))
            elif i not in pending:
                with open(os.path.join(out, f"{i}.err")) as fh:
                    errors.append(f"shard {i} died rc={procs[i].returncode}: {fh.read()[-3000:]}")
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(out, ignore_errors=True)

    evaluations = sum(r["evaluations"] for r in results)
    distinct = set()
    tags = {}
    samples = []
    for r in results:
        distinct.update(r["hashes"])
        samples.extend(r["samples"])
        for t, n in r["tags"].items():
            tags[t] = tags.get(t, 0) + n
        if r.get("error"):
            errors.append(r["error"])
    violations = [r["violation"] for r in results if r.get("violation")]

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": results[0]["rule"] if results else "",
            "samples": samples[:6],
            "classes": dict(sorted(tags.items(), key=lambda kv: -kv[1])),
            "shards": len(results),
            "truncated_by_time_budget": sum(1 for r in results if r.get("truncated")) + len(pending),
            "corpus_replayed": sum(r.get("corpus", 0) for r in results),
            "excluded_by_known_findings": sum(r.get("excluded", 0) for r in results),
        },
        "assumptions": results[0].get("assumptions", []) if results else [],
        "wall_s": round(time.time() - started, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
        fh.write("\n")

    for r in results:
        for line in r.get("known", []):
            print(line)

    print(
        f"{prop} {tier} seed={seed}: {evaluations} cases, {len(distinct)} distinct non-trivial, "
        f"{evidence['wall_s']}s"
    )
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v["case"])))
        v = violations[0]
        path = write_replay(prop, v["case"], v["message"], tier)
        print(v["message"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS-ERROR", e, file=sys.stderr)
        return 2
    if evaluations == 0:
        print("HARNESS-ERROR no cases were run", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
