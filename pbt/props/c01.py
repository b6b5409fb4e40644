"""C01: steps run only on Ok dependencies and see exactly their values."""
import asyncio

from hypothesis import strategies as st

import kit
import wf
from cluster import Cluster
from core import check, fail

ID = "C01"
RULE = (
    "case = workflow DAG (ref / refSwitch / forEach / skipIf / sub-workflow, dependencies in eight syntactic styles, "
    "outcome class per leaf selected through inputs) x live cluster x call latencies, "
    "some of them run again, in turn or at once, for a parent with other contents; non-trivial = some step depends on "
    "another and the outcomes are not all Ok, or a refSwitch or forEach step runs"
)
ASSUMPTIONS = [
    "a step whose inputs fail to evaluate while its skipIf is true may be reported Skip or PermFail",
    "the text a skipped forEach item is encoded as is not checked",
]
COUNT = {"quick": {"small": 500, "large": 115, "gather": 50, "fan": 12}, "thorough": {"small": 9000, "large": 2500, "gather": 1200, "fan": 300}}

LAT = [0, 0, 0.01, 0.05, 0.2]


def strategies(tier):
    lat = st.lists(st.sampled_from(LAT), min_size=1, max_size=7)
    return {
        "small": st.fixed_dictionaries({"wf": wf.workflows(max_steps=5), "lat": lat, "again": st.sampled_from([None, None, "seq", "par"])}),
        "large": st.fixed_dictionaries({"wf": wf.workflows(max_steps=16), "lat": lat}),
        "fan": st.fixed_dictionaries({"wf": wf.fans(), "lat": lat}),
        "gather": st.fixed_dictionaries({"wf": wf.gathers(), "lat": lat, "again": st.sampled_from([None, None, "par"])}),
    }


def latency_of(lat):
    return lambda call: lat[call.n % len(lat)]


def count_steps(steps):
    n = 0
    for s in steps:
        n += 1
        logic = s["logic"]
        for sub in [logic] + [c[2] for c in logic.get("cases", [])]:
            if sub["t"] == "wf":
                n += count_steps(sub["steps"])
    return n


async def prepare(case):
    w = case["wf"]
    spec = await wf.workflow_spec(w["steps"])
    prepared = await kit.offer_ok("Workflow", "top", spec)
    from koreo import result as r

    check(r.is_ok(prepared.steps_ready), f"valid workflow is not ready: {prepared.steps_ready}", spec=spec)
    return spec, prepared


async def one_pass(case, cluster, prepared):
    w = case["wf"]
    wf.seed_cluster(cluster, w["live"], w.get("np", ()))
    return await kit.sut(
        kit.reconcile_workflow(api=cluster, workflow_key="top", owner=kit.owner(), trigger=kit.cel(w["trigger"]), workflow=prepared),
        "reconcile_workflow",
    )


async def go(case, cluster):
    spec, prepared = await prepare(case)
    return spec, await one_pass(case, cluster, prepared)


async def go_again(case, rec):
    """one prepared Workflow reconciles several parents, in turn or at once"""
    spec, prepared = await prepare(case)
    other = {**case, "wf": {**case["wf"], "trigger": wf.TRIGGER2}}
    order = [case, other, case] if case["again"] == "seq" else [case, other]
    lat = latency_of(case["lat"])
    clusters = [Cluster(latency=lat) for _ in order]
    if case["again"] == "seq":
        results = [await one_pass(c, cluster, prepared) for c, cluster in zip(order, clusters)]
    else:
        results = await asyncio.gather(*(one_pass(c, cluster, prepared) for c, cluster in zip(order, clusters)))
    for n, (c, cluster, res) in enumerate(zip(order, clusters, results)):
        verify(c, cluster, spec, res, rec if n == 0 else None)


def verify(case, cluster, spec, res, rec=None, check_timing=True):
    w = case["wf"]
    model = wf.Model(w["live"])
    outs, state = model.workflow(w["steps"], w["trigger"])
    by_label = dict(outs)

    if rec is not None:
        for label, o in outs:
            rec.tag(f"out:{o.cls}")
        deps = any(wf.step_refs(s) for s in w["steps"])
        special = any(
            (s["each"] or s["logic"]["t"] != "vf") and by_label[s["label"]].cls == "Ok" for s in w["steps"]
        )
        rec.nt(deps and (len({o.cls for _, o in outs}) > 1) or special and deps)
        for s in w["steps"]:
            rec.tag(f"logic:{s['logic']['t']}" + ("+each" if s["each"] else ""))

    # per-step outcome class, through the conditions
    got = {c["type"]: c for c in res.conditions if c["type"] != "Ready"}
    for s in w["steps"]:
        ctype = "C" + s["label"].replace("_", "")
        o = by_label[s["label"]]
        if not s["cond"]:
            check(ctype not in got, f"condition for {s['label']} was not asked for")
            continue
        check(ctype in got, f"no condition for step {s['label']}", conditions=res.conditions, step=o)
        reasons = {wf.REASON[o.cls]} | {wf.REASON[a] for a in o.alt}
        check(
            got[ctype]["reason"] in reasons,
            f"step {s['label']}: expected {o.cls}, reported {got[ctype]['reason']}",
            condition=got[ctype], spec=spec,
        )

    # values seen: every step echoes its inputs through `state`
    plain_state = kit.plain(res.state)
    for s in w["steps"]:
        o = by_label[s["label"]]
        label = s["label"]
        if s["state"] and o.cls == "Ok":
            check(label in plain_state, f"step {label} is Ok but published no state", state=plain_state, errors=res.state_errors)
            check(
                wf.same(o.value, plain_state[label]),
                f"step {label} did not receive exactly its dependencies' values / ran the wrong logic",
                expected=repr(o.value), got=plain_state[label],
            )
        else:
            check(label not in plain_state, f"step {label} ({o.cls}) published state", state=plain_state)
    check(not res.state_errors, f"unexpected state errors {res.state_errors}")

    # overall
    total = wf.combine([o for _, o in outs])
    ambiguous = any(o.alt for _, o in outs)
    if not ambiguous:
        check(kit.outcome_class(res.result) == total.cls, f"workflow outcome {res.result}, expected {total.cls}")

    # calls: exactly the expected objects, exactly the expected mutations
    seen = {}
    for call in cluster.log:
        if call.method == "LOOKUP":
            continue
        seen.setdefault(call.name, []).append(call)
    for name in seen:
        check(name in model.touched, f"API call for {name}, whose step must not run", calls=cluster.log, spec=spec)
    for name, muts in model.touched.items():
        check(name in seen, f"no API call for {name}, whose step must run")
        actual = [c.method for c in seen[name] if c.mutating]
        check(actual == muts, f"object {name}: expected calls {muts}, saw {actual}")

    # timing: a step's first call starts after every dependency's last call ended
    if check_timing:
        for s in w["steps"]:
            own = objects_under(model, (s["label"],))
            starts = [c.t0 for n in own for c in seen.get(n, [])]
            if not starts:
                continue
            for dep in wf.step_refs(s):
                ends = [(c.t1, c) for n in objects_under(model, (dep,)) for c in seen.get(n, [])]
                for end, c in ends:
                    check(end is not None and end <= min(starts),
                          f"step {s['label']} called the API before its dependency {dep} finished", call=repr(c))
    return outs


def objects_under(model, prefix):
    return [n for path, names in model.step_objects.items() if path[: len(prefix)] == prefix for n in names]


def run(case, rec):
    async def main():
        if case.get("again"):
            rec.tag(f"again:{case['again']}")
            await go_again(case, rec)
            return
        cluster = Cluster(latency=latency_of(case["lat"]))
        spec, res = await go(case, cluster)
        verify(case, cluster, spec, res, rec)

    kit.run(main)
