"""C09: faults are contained, reported truthfully, and recovered from."""
import copy

from hypothesis import strategies as st

import kit
import wf
from cluster import Cluster
from core import check
from props.c02 import strip

ID = "C09"
RULE = (
    "case = generated Workflow x initial cluster x fault plan (up to 4 faults over up to 3 passes, each: which call of the "
    "pass, which kind: exceptions before/after the effect, server errors with and without response, 404/409, timeouts, "
    "cancellation, never answering) x latencies; each pass is compared with the reference evaluator on the cluster as it "
    "was before the pass, and the final fixpoint with a fault-free twin; non-trivial = at least one fault fired"
)
ASSUMPTIONS = [
    "steps that merely run next to a crashing or hanging one may be reported Retry for that pass",
    "a timeout while looking up a plural may be retried within the pass and so leave the step unaffected",
    "exceptions can be shown as text (their __str__ does not raise in turn)",
    "a 404 answered to a read is not a fault: it says the object does not exist",
]
COUNT = {"quick": {"small": 330, "large": 60, "each": 150}, "thorough": {"small": 5000, "large": 900, "each": 3000}}

FAULTS = [
    "exc_before", "exc_after", "timeout", "conn", "asyncio_timeout", "404", "409", "422", "403", "500", "503", "500_after",
    "400", "401", "410", "429", "502", "504", "notfound", "noresponse", "hang", "hang", "hang_after", "cancelled", "valueerror", "keyerror", "group",
    "empty", "stopiter", "stopasync", "oserror", "httpx", "decode", "long", "odd", "base",
]
STEP_TIMEOUT = 10


def strategies(tier):
    fault = st.fixed_dictionaries({
        "pass": st.integers(0, 2), "call": st.integers(0, 30), "kind": st.sampled_from(FAULTS),
        "method": st.sampled_from(["any", "any", "GET", "POST", "PATCH", "DELETE", "LOOKUP", "MUT", "MUT"]),
    })

    def build(n):
        return st.fixed_dictionaries({
            "wf": wf.workflows(max_steps=n, lookup=True, faulty=False,
                               live_bias=["match", "match", "match", "absent", "absent", "drift", "drift", "unready"]),
            "faults": st.lists(fault, min_size=1, max_size=4),
            "lat": st.lists(st.sampled_from([0, 0, 0.01, 0.05, 0.1]), min_size=1, max_size=5),
        })

    return {"small": build(5), "large": build(10), "each": each_cases()}


@st.composite
def each_cases(draw):
    """a forEach over cluster objects, its items failing one by one, and steps around it"""
    items = draw(st.lists(st.sampled_from(["p", "q", "r", "s", "t"]), unique=True, min_size=1, max_size=5))
    if draw(st.integers(0, 14)) == 14:
        items = [f"i{i}" for i in range(draw(st.integers(6, 40)))]
    live = {}

    def rf_leaf(name, sfx):
        for n in [f"{name}-{i}" for i in sfx] if sfx else [name]:
            state = draw(st.sampled_from(["match"] * 8 + ["absent", "drift", "unready"]))
            if state != "absent":
                live[n] = state
        return {"t": "rf", "name": name, "delay": draw(st.integers(1, 200)),
                "mgmt": draw(st.sampled_from(["patch", "patch", "never", "recreate", "ro"]))}

    def step(label, logic, inputs=None, each=None):
        return {"label": label, "logic": logic, "inputs": inputs or {}, "skip": None, "each": each,
                "state": draw(st.integers(0, 4)) > 0, "cond": True, "shared": False}

    shape = draw(st.sampled_from(["rf", "rf", "rf", "wf", "sw"]))
    if shape == "rf":
        logic = rf_leaf("f1", items)
    elif shape == "sw":
        logic = {"t": "sw", "on": ["lit", "k1"], "cases": [["k1", False, rf_leaf("f1", items)],
                                                           ["k2", True, {"t": "vf", "name": "f2", "delay": 3}]]}
    else:
        inner = [step("inner_0", rf_leaf("f1", items), {"sfx": ["parent", ["sfx"]]})]
        if draw(st.booleans()):
            inner.append(step("inner_1", rf_leaf("f2", items), {"sfx": ["parent", ["sfx"]]}))
        if draw(st.booleans()):
            inner.append(step("inner_9", {"t": "vf", "name": "f3", "delay": 3}, {"dep": ["step", "inner_0", ["id"], "dot"]}))
        logic = {"t": "wf", "steps": inner, "name": "f9"}
    steps = [step("step_0", logic, each={"items": ["lit", items], "key": "sfx"})]
    if draw(st.booleans()):
        steps.append(step("step_1", rf_leaf("f5", ()), {"dep": ["step", "step_0", draw(st.sampled_from([[], [0]])), "dot"]}))
    if draw(st.booleans()):
        steps.append(step("step_2", rf_leaf("f6", ())))
    fault = st.fixed_dictionaries({
        "pass": st.sampled_from([0, 0, 1]), "call": st.integers(0, 90), "kind": st.sampled_from(FAULTS + ["hang", "group"]),
        "method": st.sampled_from(["any", "any", "GET", "MUT"]),
    })
    return {"wf": {"trigger": wf.TRIGGER, "steps": steps, "live": live, "np": []},
            "faults": draw(st.lists(fault, min_size=1, max_size=3)),
            "lat": draw(st.lists(st.sampled_from([0, 0, 0.01, 0.05, 0.1]), min_size=1, max_size=5))}


class Plan:
    def __init__(self, case, calls):
        self.faults = []
        for f in case["faults"]:
            # aim at a call that a fault-free run makes in that pass
            f = dict(f)
            if f["pass"] >= len(calls) or not calls[f["pass"]]:
                f["pass"] = 0
            there = [c for c in calls[f["pass"]] if self.wants(f, c)]
            if not there:
                f["method"] = "any"
                there = calls[f["pass"]]
            f["index"] = f["call"] % len(there) if there else 0
            self.faults.append(f)
        self.passno = 0
        self.counts = {}
        self.fired = []  # (call, kind) of this pass

    @staticmethod
    def wants(f, call):
        m = f["method"]
        return m == "any" or m == call.method or (m == "MUT" and call.mutating)

    def start(self, n):
        self.passno = n
        self.counts = {}
        self.fired = []

    def __call__(self, call):
        for i, f in enumerate(self.faults):
            if f["pass"] != self.passno or not self.wants(f, call):
                continue
            n = self.counts.get(i, 0)
            self.counts[i] = n + 1
            if n == f["index"]:
                kind = f["kind"]
                if call.method == "GET" and kind in ("404", "notfound"):
                    return None
                self.fired.append((call, kind))
                return kind
        return None


def live_from(cluster):
    live = {}
    for (_, _, _, name), obj in cluster.objects.items():
        spec = obj.get("spec", {})
        live[name] = "drift" if spec.get("size") != 3 else ("unready" if spec.get("unready") else "match")
    return live


async def setup(case, cluster):
    w = case["wf"]
    spec = await wf.workflow_spec(w["steps"])
    prepared = await kit.offer_ok("Workflow", "top", spec)
    wf.seed_cluster(cluster, w["live"], w.get("np", ()))
    return spec, prepared


async def one_pass(case, cluster, prepared):
    import asyncio

    loop = asyncio.get_running_loop()
    start = loop.time()
    already = set(asyncio.all_tasks())
    res = await kit.sut(
        kit.reconcile_workflow(api=cluster, workflow_key="top", owner=kit.owner(),
                               trigger=kit.cel(case["wf"]["trigger"]), workflow=prepared),
        "reconcile_workflow",
    )
    took = loop.time() - start
    check(took <= STEP_TIMEOUT + 0.5, f"pass took {took:.2f}s, longer than the step timeout")
    leftover = [t for t in asyncio.all_tasks() if t not in already and not t.done()]
    check(not leftover, "tasks of the pass are still running after it returned", tasks=[t.get_name() for t in leftover])
    return res


def affected_steps(model, case, plan, w):
    """top-level step labels one of whose own API calls faulted (and was not a
    maskable lookup timeout)"""
    by_object = {}
    for path, names in model.step_objects.items():
        for n in names:
            by_object.setdefault(n, set()).add(path[0])
    hit = set()
    maskable = set()
    for call, kind in plan.fired:
        if call.method == "LOOKUP":
            continue
        hit |= by_object.get(call.name, set())
    return hit


def judge_pass(case, cluster, plan, res, before, spec):
    w = case["wf"]
    model = wf.Model(before)
    outs, _ = model.workflow(w["steps"], w["trigger"])
    by_label = dict(outs)
    hit = affected_steps(model, case, plan, w)
    hard_lookup = any(c.method == "LOOKUP" and k not in ("asyncio_timeout",) for c, k in plan.fired)
    conds = {c["type"]: c for c in res.conditions if c["type"].startswith("C")}
    reported = {}
    for s in w["steps"]:
        c = conds.get("C" + s["label"].replace("_", ""))
        reported[s["label"]] = c["reason"] if c else None
    state = kit.plain(res.state)
    for s in w["steps"]:
        label = s["label"]
        refs = wf.step_refs(s)
        if label in hit:
            # a dependency that faulted too may have kept the step from running at all,
            # but its calls were seen, so it ran
            check(reported[label] in (None, "Wait", "Failure"),
                  f"step {label}: an API call failed but the step is reported {reported[label]}",
                  faults=[(repr(c), k) for c, k in plan.fired], conditions=res.conditions)
        if label in hit or any(r in hit for r in refs) or by_label[label].cls != "Ok":
            check(reported[label] != "Ready", f"condition claims readiness for {label}, which did not succeed",
                  conditions=res.conditions, faults=[(repr(c), k) for c, k in plan.fired])
            check(label not in state, f"state published for {label}, which did not succeed", state=state)
        # a step that needs a step reported as not ready must not have run
        for r in refs:
            if r in hit or by_label[r].cls != "Ok":
                for n in [n for path, names in model.step_objects.items() if path[0] == label for n in names]:
                    check(not any(c.name == n for c in cluster.log),
                          f"step {label} ran although {r}, which it needs, did not succeed", calls=cluster.log)
    if hit or hard_lookup or wf.combine([o for _, o in outs]).cls in ("Retry", "PermFail"):
        check(kit.outcome_class(res.result) in ("Retry", "PermFail"),
              f"overall outcome {res.result} although a step failed", faults=[(repr(c), k) for c, k in plan.fired])
    ok = kit.is_value(res.result)
    for c in res.conditions:
        if c["reason"] == "Ready" and c["type"] == "Ready":
            check(ok, "a Ready condition claims readiness although the workflow did not succeed", conditions=res.conditions,
                  result=str(res.result), faults=[(repr(c), k) for c, k in plan.fired])
    check(sum(1 for c in res.conditions if c["type"] == "Ready") >= 1, "no overall condition")
    # resources mutated are only those the model (or dependency gating) allows
    for call in cluster.log:
        if call.method != "LOOKUP" and call.name is not None:
            check(call.name in model.touched, f"API call for {call.name}, whose step must not run")


async def settle_down(case, cluster, prepared, limit, calls=None):
    prev = None
    for i in range(limit):
        cluster.log.clear()
        res = await one_pass(case, cluster, prepared)
        if calls is not None:
            calls.append(list(cluster.log))
        now = (describe(res), strip(cluster.objects))
        if prev == now:
            return res, True
        prev = now
    return res, False


def describe(res):
    return {
        "result": kit.describe(res.result), "conditions": [dict(c) for c in res.conditions],
        "state": kit.plain(res.state), "state_errors": dict(res.state_errors), "resource_ids": res.resource_ids,
    }


def run(case, rec):
    import json

    w = case["wf"]
    limit = 4 + 3 * len(w["steps"])

    calls = []

    async def faulty():
        plan = Plan(case, calls)
        lat = case["lat"]
        cluster = Cluster(latency=lambda call: lat[call.n % len(lat)], fault=plan, plurals=wf.lookup_plurals())
        spec, prepared = await setup(case, cluster)
        fired = 0
        for n in range(1 + max(f["pass"] for f in plan.faults)):
            plan.start(n)
            before = live_from(cluster)
            cluster.log.clear()
            res = await one_pass(case, cluster, prepared)
            fired += len(plan.fired)
            for c, k in plan.fired:
                rec.tag(f"fault:{k}", f"call:{c.method}")
            judge_pass(case, cluster, plan, res, before, spec)
        plan.start(-1)
        res, stable = await settle_down(case, cluster, prepared, limit)
        check(stable, "no fixpoint after the faults stopped", result=str(res.result))
        rec.nt(fired)
        return describe(res), strip(cluster.objects)

    async def twin():
        cluster = Cluster(plurals=wf.lookup_plurals())
        spec, prepared = await setup(case, cluster)
        res, stable = await settle_down(case, cluster, prepared, limit, calls)
        check(stable, "no fixpoint without any fault", result=str(res.result))
        return describe(res), strip(cluster.objects)

    from props.c02 import renumber

    wf.fresh_lookup_kind()
    b = kit.run(twin)
    if not any(calls):
        return
    wf.fresh_lookup_kind()
    a = kit.run(faulty)
    check(renumber(a[0]) == renumber(b[0]), "after the faults stopped the result differs from a run that never saw one",
          with_faults=a[0], without=b[0])
    oa, ob = (renumber(sorted(([list(k), v] for k, v in x[1].items()), key=repr)) for x in (a, b))
    check(oa == ob, "after the faults stopped the cluster differs from a run that never saw one", with_faults=oa, without=ob)
