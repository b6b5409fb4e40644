"""C05: any drift in a specified field triggers exactly the configured correction."""
import copy

from hypothesis import strategies as st

import kit
import rf
from cluster import Cluster
from core import check, strict_eq

ID = "C05"
RULE = (
    "case = ResourceFunction with a generated target + the converged, decorated live object + one deviation (changed / retyped / "
    "nulled / removed leaf or container, shorter / longer / reordered / repeated list, set member added, removed or retyped, map-list "
    "member changed) at any target-specified path, or a change of the inputs + update policy; the pass must make exactly the "
    "prescribed call with the full target and Retry(delay), and the object must meet the target afterwards; non-trivial = a deviation "
    "below the top level was applied"
)
ASSUMPTIONS = ["extra members of a map-directed list are not counted as drift", "the reference match of pbt/rf.py decides what a deviation is"]
COUNT = {"quick": {"drift": 1250, "inputs": 120, "bulk": 60}, "thorough": {"drift": 22000, "inputs": 1500, "bulk": 2000}}


def strategies(tier):
    depth = 3 if tier == "quick" else 4
    common = {
        "p": rf.programs(tier, depth),
        "update": rf.UPDATES,
        "deco": st.tuples(st.sampled_from([0, 1, 2, 3]), st.integers(0, 10**6)),
        "made": st.sampled_from(["created", "foreign"]),
    }
    def drift(common, far):
        choice = st.tuples(st.integers(0, far), st.integers(0, far))
        return st.fixed_dictionaries({
            **common, "t": st.just("drift"), "choices": st.lists(choice, min_size=1, max_size=3),
            "more": st.lists(choice, min_size=2, max_size=8), "post": st.booleans(),
        })

    return {
        "drift": drift(common, 200),
        "bulk": drift({**common, "p": rf.programs(tier, target=rf.big_targets())}, 5000),
        "inputs": st.fixed_dictionaries({**common, "p": rf.programs(tier, depth).map(lambda p: {**p, "style": [1, 2] + p["style"]}), "t": st.just("inputs"), "choice": st.tuples(st.integers(0, 200), st.integers(0, 200))}),
    }


def without(doc, directive):
    if isinstance(doc, dict):
        return {k: without(v, directive) for k, v in doc.items() if k != directive}
    if isinstance(doc, list):
        return [without(v, directive) for v in doc]
    return doc


def run(case, rec):
    prog = rf.Program(case["p"], case["update"])
    prog.spec["return"] = {"done": "=resource.metadata.name"}
    if case.get("post"):
        prog.spec["postconditions"] = [{"assert": "=resource.metadata.name == 'thing'", "permFail": {"message": "post"}}]

    async def settle(cluster, when):
        """reach a quiet object"""
        for _ in range(4):
            outcome, muts = await prog.reconcile(cluster)
            if not muts:
                return outcome
        check(False, f"still mutating after 4 passes ({when})", outcome=outcome, live=cluster.objects.get(prog.key), target=prog.want)

    async def corrected(cluster, label, path):
        """one pass over a drifted object"""
        live = copy.deepcopy(cluster.objects[prog.key])
        outcome, muts = await prog.reconcile(cluster)
        d = kit.describe(outcome)
        where = "/".join(map(str, path))
        ctx = dict(outcome=d, live=live, target=prog.want)
        if prog.policy == "never":
            check(not muts, f"update policy never, but {muts} ({label} at {where})", **ctx)
            check(d["class"] == "Ok" and strict_eq(d["value"], {"done": "thing"}), f"update policy never did not go on ({label} at {where})", **ctx)
            return False
        method = {"patch": "PATCH", "recreate": "DELETE"}[prog.policy]
        check(len(muts) == 1 and muts[0].method == method, f"{label} at {where}: expected one {method}, got {muts}", **ctx)
        check(d["class"] == "Retry" and d["delay"] == prog.delay, f"{label} at {where}: not Retry({prog.delay})", **ctx)
        call = muts[0]
        check(call.key()[1:] == prog.key and call.subresource is None, f"{method} addressed to {call}", **ctx)
        if prog.policy == "patch":
            sent = rf.without_last(call.payload)
            sent["metadata"].pop("ownerReferences", None)
            want = rf.without_last(rf.strip(prog.want))
            check(strict_eq(sent, want), f"the patch does not carry the full target ({label} at {where})", sent=sent, **ctx)
            check(rf.meets(prog.want, cluster.objects[prog.key]), f"object does not meet the target after the patch ({label} at {where})",
                  now=cluster.objects[prog.key], **ctx)
            outcome, muts = await prog.reconcile(cluster)
            check(not muts and kit.is_value(outcome), f"not quiet after the patch ({label} at {where}): {muts}", now=cluster.objects[prog.key], **ctx)
            check(strict_eq(kit.plain(outcome), {"done": "thing"}), "wrong return after the patch")
        else:
            outcome, muts = await prog.reconcile(cluster)
            check(len(muts) == 1 and muts[0].method == "POST", f"not created again after {label} at {where}: {muts}", outcome=kit.describe(outcome))
            outcome, muts = await prog.reconcile(cluster)
            check(not muts and kit.is_value(outcome), f"not quiet after the recreate ({label} at {where}): {muts}")
        return True

    async def drift():
        cluster = Cluster()
        await prog.prepare()
        if case["made"] == "foreign":
            cluster.objects[prog.key] = rf.merge(rf.strip(prog.want), {"metadata": {"uid": "u0", "ownerReferences": [copy.deepcopy(kit.OWNER_REF)]}})
        await settle(cluster, "first")
        amount, seed = case["deco"]
        cluster.objects[prog.key] = rf.decorate(cluster.objects[prog.key], prog.want, amount, seed)
        for choice in case["choices"]:
            got = rf.perturb(cluster.objects[prog.key], prog.want, choice)
            if got is None:
                rec.tag("nothing to perturb")
                return
            label, path, changed = got
            before = cluster.objects[prog.key]
            cluster.objects[prog.key] = changed
            rec.nt(len(path) > 1)
            rec.tag(f"dev:{label.split('-')[0]}", f"policy:{prog.policy}", f"depth:{min(len(path), 4)}", "deco" if amount else "bare")
            if not await corrected(cluster, label, path):
                cluster.objects[prog.key] = before
        quiet = cluster.objects[prog.key]
        for choice in case.get("more", ()):
            got = rf.perturb_by_label(quiet, prog.want, choice)
            if got is None:
                break
            label, path, cluster.objects[prog.key] = got
            outcome, muts = await prog.reconcile(cluster)
            want = {"patch": ["PATCH"], "recreate": ["DELETE"], "never": []}[prog.policy]
            check([c.method for c in muts] == want, f"{label} at {'/'.join(map(str, path))}: expected {want}, got {muts}",
                  outcome=kit.describe(outcome), live=got[2], target=prog.want)
            if want:
                check(kit.outcome_class(outcome) == "Retry" and outcome.delay == prog.delay, f"{label}: not Retry({prog.delay})", outcome=kit.describe(outcome))
            cluster.objects[prog.key] = quiet

    async def inputs():
        cluster = Cluster()
        if not prog.values:
            rec.tag("no inputs used")
            return
        await prog.prepare()
        await settle(cluster, "first")
        n = case["choice"][0] % len(prog.values)
        old = prog.values[n]
        options = [("flip", not old)] if isinstance(old, bool) else (
            rf.scalar_deviations(old) if not isinstance(old, (dict, list)) else [("to-str", "text"), ("longer", old + ["x"] if isinstance(old, list) else "t")])
        options = [o for o in options if o[1] is not None and not isinstance(o[1], dict)]
        label, new = options[case["choice"][1] % len(options)]
        path = prog.value_paths[n]
        target = copy.deepcopy(prog.want)
        parent = rf.at(target, path[:-1])
        if set(path) & set(rf.DIRECTIVES) or path[-1] in parent.get(rf.MAP, {}):
            rec.tag("directive input")
            return
        parent[path[-1]] = new
        plain = target
        if any(k in rf.at(target, path[:i]).get(rf.LASTD, ()) for i, k in enumerate(path)):
            # neither what is there nor what was applied last is the target any more
            plain = without(target, rf.LASTD)
            rec.tag("last-applied input")
            if rf.meets(plain, cluster.objects[prog.key]):
                return
        met = rf.meets(plain, cluster.objects[prog.key])
        prog.values[n] = new
        prog.inputs["v"] = prog.values
        prog.want = target
        rec.tag("inputs:" + ("same" if met else "changed"), f"policy:{prog.policy}")
        if met:
            outcome, muts = await prog.reconcile(cluster)
            check(not muts, f"mutation without a difference: {muts}")
            return
        rec.nt(len(path) > 1)
        await corrected(cluster, f"input {label}", path)

    kit.run(drift if case["t"] == "drift" else inputs)
