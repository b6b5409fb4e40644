"""C02: the workflow result is independent of step completion order."""
from hypothesis import strategies as st

import kit
import wf
from cluster import Cluster
from core import check, dumps, strict_eq
from props import c01

ID = "C02"
RULE = (
    "case = generated Workflow (as C01, plus functions needing a plural lookup) x 3 latency schedules (per object and call "
    "type, virtual time, up to just below the step timeout in total); every schedule's whole Result (outcome, conditions incl. messages, "
    "state incl. key order, resource ids) and final cluster contents are compared with the zero-latency run, and the "
    "zero-latency run with the reference evaluator; non-trivial = at least two API-calling steps or forEach items whose "
    "order of completion differs between schedules"
)
ASSUMPTIONS = ["total injected latency stays below the 10 s step timeout"]
COUNT = {"quick": {"small": 100, "large": 15, "each": 50, "fan": 6}, "thorough": {"small": 6000, "large": 1000, "each": 4000, "fan": 200}}

LATENCIES = [0, 0.001, 0.002, 0.005, 0.01, 0.02, 0.04, 0.08, 0.12]


ITEMS = list("abcdefghijklmnopqrstuvwx") + [f"y{i}" for i in range(46)]


def strategies(tier):
    sched = st.lists(st.lists(st.sampled_from(LATENCIES), min_size=2, max_size=13), min_size=3, max_size=3)
    slow = st.integers(0, 2)
    return {
        "small": st.fixed_dictionaries({"kind": st.just("wf"), "wf": wf.workflows(max_steps=6, lookup=True), "sched": sched, "slow": slow}),
        "fan": st.fixed_dictionaries({"kind": st.just("wf"), "wf": wf.fans(), "sched": sched, "slow": slow}),
        "large": st.fixed_dictionaries({"kind": st.just("wf"), "wf": wf.workflows(max_steps=14, lookup=True), "sched": sched, "slow": slow}),
        "each": st.fixed_dictionaries({
            "kind": st.just("each"),
            "items": st.one_of(*[st.lists(st.sampled_from(ITEMS[:24]), unique=True, min_size=2, max_size=8)] * 4,
                               *[st.integers(11, 24).flatmap(lambda n: st.permutations(ITEMS[:n]))] * 3,
                               st.integers(25, 70).flatmap(lambda n: st.permutations(ITEMS[:n]))),
            "via": st.sampled_from(["lit", "parent", "step"]),
            "logic": st.sampled_from(["rf", "sub", "switch"]),
            "states": st.lists(st.sampled_from(["match", "match", "match", "match", "absent", "drift", "unready"]), min_size=24, max_size=24),
            "states_ok": st.booleans(),
            "merged": st.lists(st.sampled_from([None, None, None, 0, "", False, [], {}, 0.0, "null"]), min_size=5, max_size=5),
            "merge": st.lists(st.sampled_from(["k", "k", "l", "m"]), min_size=2, max_size=5),
            "sched": sched, "slow": slow,
        }),
    }


def latency(sched):
    def pick(call):
        h = 17
        # the kind to look up is named after the run
        name = call.name if call.method != "LOOKUP" else str(call.name).endswith("Gone")
        for ch in f"{name}/{call.method}":
            h = (h * 31 + ord(ch)) % 1000003
        return sched[h % len(sched)]

    return pick


def canonical(res):
    return {
        "result": kit.describe(res.result),
        "conditions": [dict(c) for c in res.conditions],
        "state": kit.plain(res.state),
        "state_order": list(kit.plain(res.state)),
        "state_errors": dict(res.state_errors),
        "resource_ids": res.resource_ids,
    }


def one(case, lat, driver):
    async def main():
        cluster = Cluster(latency=lat, plurals=wf.lookup_plurals())
        extra = await driver(case, cluster)
        finish = [c.name for c in sorted((c for c in cluster.log if c.t1 is not None), key=lambda c: (c.t1, c.n))]
        return canonical(extra[1]), finish, cluster.objects, extra, cluster

    return kit.run(main)


def strip(objects):
    """cluster contents without server bookkeeping that depends on call order"""
    out = {}
    for key, obj in objects.items():
        o = dict(obj)
        m = dict(o.get("metadata", {}))
        m.pop("uid", None)
        m.pop("resourceVersion", None)
        o["metadata"] = m
        out[key[1:]] = o
    return out


def diff(a, b):
    for k in a:
        if a[k] != b[k] or (k in ("state", "result") and dumps(a[k]) != dumps(b[k])):
            return k, a[k], b[k]
    return None


def run(case, rec):
    driver = c01.go if case["kind"] == "wf" else each_go
    wf.fresh_lookup_kind()
    base, finish0, objects0, extra, cluster = one(case, lambda c: 0, driver)
    if case["kind"] == "wf":
        c01.verify(case, cluster, extra[0], extra[1], None)
    else:
        each_verify(case, extra[1])
    # looking up an unknown kind fails, so how often it is tried is open
    failing = '"gone"' in dumps(case)
    for n, sched in enumerate(case["sched"]):
        wf.fresh_lookup_kind()
        lat = latency(sched)
        total = sum(lat(c) for c in cluster.log)
        scale = 1
        if n < case.get("slow", 0) and total and not failing:
            # as slow as it may be: even one after the other all calls end within the step timeout
            scale = 9.5 / total
            rec.tag("slow")
        got, finish, objects, _, _ = one(case, lambda call: scale * lat(call), driver)
        if finish != finish0 and len(set(finish0)) > 1:
            rec.nt()
            rec.tag("reordered")
        norm = lambda x: dumps(x).replace(f"Sprocket", "Sprocket")
        a, b = renumber(base), renumber(got)
        d = diff(a, b)
        if d:
            check(False, f"{d[0]} depends on the completion order of the API calls", zero_latency=d[1], other=d[2], sched=sched)
        check(renumber(list(strip(objects0).items())) == renumber(sorted_like(strip(objects), strip(objects0))),
              "cluster contents depend on the completion order", zero=objects0, other=objects)
    rec.tag(f"kind:{case['kind']}", f"out:{base['result']['class']}")


def sorted_like(d, ref):
    keys = [k for k in ref if k in d] + [k for k in d if k not in ref]
    return [(k, d[k]) for k in keys]


def renumber(value):
    """every run uses its own lookup kind; make them comparable"""
    import json
    import re

    text = json.dumps(value, default=list)
    text = re.sub(r"[Ss]procket\d+", "Sprocket", text)
    return json.loads(text)


# forEach order, own item, state merge order ------------------------------
async def each_go(case, cluster):
    items = case["items"]
    leaf = {"t": "rf", "name": "each1", "delay": 7, "mgmt": "patch"}
    live = {}
    for i, item in enumerate(items):
        state = "match" if case["states_ok"] else case["states"][i % 24]
        if state != "absent":
            live[f"each1-{item}"] = state
    wf.seed_cluster(cluster, live)
    await wf.offer_logic(leaf)
    await kit.offer_ok("ValueFunction", "listing", {"return": {"items": items}})
    ref = {"kind": "ResourceFunction", "name": "each1"}
    step = {"label": "each_step", "inputs": {"common": {"n": [1, 2]}}, "state": {"each": "=value"}}
    if case["logic"] == "sub":
        await kit.offer_ok("Workflow", "sub", {"steps": [
            {"label": "inner", "ref": ref, "inputs": {"sfx": "=parent.sfx", "common": "=parent.common"}, "state": {"inner": "=value"}}]})
        step["ref"] = {"kind": "Workflow", "name": "sub"}
    elif case["logic"] == "switch":
        step["refSwitch"] = {"switchOn": "=inputs.sfx", "cases": [
            {"case": "zzz", "kind": "ValueFunction", "name": "listing"}, {"case": "dflt", "default": True, **ref}]}
    else:
        step["ref"] = ref
    source = {"lit": "=" + wf.expr(["lit", items]), "parent": "=parent.items", "step": "=steps.listed.items"}[case["via"]]
    step["forEach"] = {"itemIn": source, "inputKey": "sfx"}
    steps = [{"label": "listed", "ref": {"kind": "ValueFunction", "name": "listing"}}, step]
    # steps publishing overlapping state; each touches the API so that they finish in any order
    for i, key in enumerate(case["merge"]):
        name = f"merge{i}"
        value = merged(case, i)
        await wf.offer_logic({"t": "rf", "name": name, "delay": 5, "mgmt": "ro"})
        wf.seed_cluster(cluster, {name: "match"})
        steps.append({"label": name, "ref": {"kind": "ResourceFunction", "name": name},
                      "condition": {"type": f"Merge{i}", "name": name},
                      "state": {key: value, f"own{i}": "=value.id", "nest": {key: i}}})
    prepared = await kit.offer_ok("Workflow", "top", {"steps": steps})
    res = await kit.sut(
        kit.reconcile_workflow(api=cluster, workflow_key="top", owner=kit.owner(), trigger=kit.cel({"items": items}), workflow=prepared),
        "reconcile_workflow",
    )
    return steps, res


def merged(case, i):
    """what the i-th step publishes under a key it may share"""
    value = case.get("merged", [None] * 5)[i]
    return f"from-{i}" if value is None else None if value == "null" else value


def each_verify(case, res):
    items = case["items"]
    state = kit.plain(res.state)
    if case["states_ok"]:
        got = state.get("each")
        check(isinstance(got, list) and len(got) == len(items), "forEach lost or invented results", got=got, items=items)
        for item, value in zip(items, got):
            if case["logic"] == "sub":
                value = value.get("inner", {}) if isinstance(value, dict) else {}
            check(isinstance(value, dict) and value.get("got") == {"common": {"n": [1, 2]}, "sfx": item},
                  "forEach result out of source order or given another item", items=items, got=got)
        ids = res.resource_ids["resources"]["each_step"]
        check(isinstance(ids, list) and len(ids) == len(items), "forEach resource ids do not match the items", ids=ids)
    else:
        states = [case["states"][i % 24] for i in range(len(items))]
        failing = [s for s in states if s != "match"]
        got = kit.describe(res.result)
        if failing:
            check(got["class"] == "Retry", "the Workflow is not waiting though forEach items are", result=got, states=states)
            check(got["delay"] == (8 if "unready" in failing else 7), "not the longest delay of the forEach items", result=got, states=states)
            check((got["message"] or "").count("unready-each1") == failing.count("unready"),
                  "not every message of the forEach items is reported", result=got, states=states)
        else:
            check(got["class"] == "Ok", "all items are ready but the Workflow is not", result=got)
    last = {}
    for i, key in enumerate(case["merge"]):
        last[key] = i
        check(state.get(f"own{i}") == f"merge{i}", "state of a step is missing", state=state)
    for key, i in last.items():
        check(key in state and strict_eq(state[key], merged(case, i)), f"state key {key} should come from the last listed step ({i})", state=state)
    types = [c["type"] for c in res.conditions]
    check(types == [f"Merge{i}" for i in range(len(case["merge"]))] + ["Ready"], "conditions out of listed order", types=types)


ASSUMPTIONS.append("a resource id or cluster object is compared without server-assigned uid/resourceVersion")
