"""C03: outcome aggregation is severity-maximal, order-insensitive, lossless."""
import itertools

from hypothesis import strategies as st

import gens
import kit
import wf
from cluster import Cluster
from core import check, fail, strict_eq
from koreo import result as r

ID = "C03"
RULE = (
    "pure: sequence of outcomes (class, message, delay, location, Ok value) folded by combine and unwrapped_combine, all "
    "orders checked for class/multiset; workflow: generated Workflow whose steps, forEach items and sub-workflow steps "
    "mix outcome classes; non-trivial = at least two different classes or two members of the winning class"
)
ASSUMPTIONS = ["combining an empty collection (a sequence with no outcomes) is not specified and is only required not to report Ok or an error"]
COUNT = {"quick": {"pure": 4800, "many": 60, "workflow": 200, "prepare": 150}, "thorough": {"pure": 150000, "many": 2000, "workflow": 4000, "prepare": 3000}}

MSG = st.one_of(st.none(), st.sampled_from(["m1", "m2", "", "boom", "a, b", "wait", "long " * 60 + "end"]), st.text(max_size=6))
LOC = st.one_of(st.none(), st.sampled_from(["", "here", "there"]))
VALUES = st.one_of(
    gens.mild_values(max_leaves=3), st.none(), st.just([]), st.just({}), st.just([[1], [2]]), st.just(0), st.just(False), st.just("")
)
DEPSKIP = st.builds(lambda m, l: {"c": "DepSkip", "m": m, "l": l}, MSG, LOC)
SKIP = st.builds(lambda m, l: {"c": "Skip", "m": m, "l": l}, MSG, LOC)
OK = st.builds(lambda v, l: {"c": "Ok", "v": v, "l": l}, VALUES, LOC)
RETRY = st.builds(lambda d, m, l: {"c": "Retry", "d": d, "m": m, "l": l}, st.one_of(st.integers(0, 5), st.integers(0, 10**6)), MSG, LOC)
PERM = st.builds(lambda m, l: {"c": "PermFail", "m": m, "l": l}, MSG, LOC)
OUT = st.one_of(DEPSKIP, SKIP, OK, OK, RETRY, PERM)
NO_ERR = st.one_of(DEPSKIP, SKIP, OK)
OKISH = st.one_of(OK, OK, SKIP)
NO_PERM = st.one_of(DEPSKIP, SKIP, OK, RETRY, RETRY)


def strategies(tier):
    seq = st.one_of(
        st.lists(OUT, min_size=1, max_size=8), st.lists(NO_ERR, min_size=1, max_size=8),
        st.lists(OKISH, min_size=1, max_size=12), st.lists(NO_PERM, min_size=1, max_size=8),
    )
    many = st.one_of(st.lists(OUT, min_size=18, max_size=60), st.lists(OKISH, min_size=18, max_size=120), st.lists(st.one_of(SKIP, DEPSKIP), min_size=18, max_size=60), st.lists(NO_PERM, min_size=18, max_size=60))
    return {
        "pure": st.fixed_dictionaries({"kind": st.just("pure"), "seq": seq, "perm": st.integers(0, 10**6)}),
        "many": st.fixed_dictionaries({"kind": st.just("pure"), "seq": many, "perm": st.integers(0, 10**6)}),
        "workflow": st.fixed_dictionaries({"kind": st.just("workflow"), "wf": wf.workflows(max_steps=8)}),
        "prepare": st.fixed_dictionaries({"kind": st.just("prepare"), "parts": st.lists(
            st.sampled_from(["ok", "missing", "broken", "badskip", "badstate", "switch_missing", "switch_broken"]), min_size=1, max_size=6)}),
    }


def build(o):
    c = o["c"]
    if c == "Ok":
        return r.Ok(o["v"], location=o["l"])
    if c == "Retry":
        return r.Retry(delay=o["d"], message=o["m"], location=o["l"])
    return getattr(r, c)(message=o["m"], location=o["l"])


def build_unwrapped(o):
    return o["v"] if o["c"] == "Ok" else build(o)


def judge(seq, got, what):
    top = max((o["c"] for o in seq), key=wf.SEV.get)
    winners = [o for o in seq if o["c"] == top]
    if top == "Ok":
        data = got
        if what == "combine":
            check(isinstance(got, r.Ok), f"{what}: expected Ok, got {got}", seq=seq)
            data = got.data
        else:
            check(kit.is_value(got), f"{what}: expected Ok values, got {got}", seq=seq)
        check(
            isinstance(data, (list, tuple)) and strict_eq(list(data), [o["v"] for o in winners]),
            f"{what}: Ok values lost, reordered or changed", got=data, seq=seq,
        )
        return
    check(type(got) is getattr(r, top), f"{what}: expected {top}, got {got}", seq=seq)
    if top in ("Retry", "PermFail"):
        left = got.message or ""
        # every one of them, also when several say the same
        said = [o["m"] for o in winners if o["m"]]
        for m in sorted(set(said), key=len, reverse=True):
            check(left.count(m) >= said.count(m), f"{what}: message {m!r} lost", got=got.message, seq=seq)
        check(len(left) >= sum(map(len, said)), f"{what}: some message was dropped", got=got.message, seq=seq)
    if top == "Retry":
        want = max(o["d"] for o in winners)
        check(got.delay == want, f"{what}: delay {got.delay}, longest is {want}", seq=seq)


def pure(case, rec):
    seq = case["seq"]
    classes = {o["c"] for o in seq}
    top = max(classes, key=wf.SEV.get)
    rec.nt(len(classes) > 1 or sum(o["c"] == top for o in seq) > 1)
    rec.tag(f"top:{top}")
    orders = [seq, list(reversed(seq))]
    k = case["perm"] % len(seq)
    orders.append(seq[k:] + seq[:k])
    shuffled = sorted(range(len(seq)), key=lambda i: (case["perm"] * (i + 7) * 2654435761) % 1000003)
    orders.append([seq[i] for i in shuffled])
    if len(seq) <= 4:
        orders.extend(list(p) for p in itertools.permutations(seq))
    for order in orders:
        for name, builder in (("combine", build), ("unwrapped_combine", build_unwrapped)):
            for wrap in (list, tuple, lambda x: {i: o for i, o in enumerate(x)}.values(), iter):
                objs = [builder(o) for o in order]
                try:
                    got = getattr(r, name)(wrap(objs))
                except Exception as err:
                    fail(f"{name} raised {type(err).__name__}: {err}", seq=order)
                judge(order, got, name)
                # the members themselves are untouched
                for o, obj in zip(order, objs):
                    if o["c"] == "Ok":
                        raw = obj.data if name == "combine" else obj
                        check(strict_eq(raw, o["v"]), f"{name} changed a member", seq=order)
                    else:
                        check(obj.message == o["m"] and obj.location == o["l"] and getattr(obj, "delay", 0) == o.get("d", 0),
                              f"{name} changed a member", seq=order)


def workflow(case, rec):
    async def main():
        w = case["wf"]
        cluster = Cluster()
        spec = await wf.workflow_spec(w["steps"])
        prepared = await kit.offer_ok("Workflow", "top", spec)
        wf.seed_cluster(cluster, w["live"])
        res = await kit.sut(
            kit.reconcile_workflow(api=cluster, workflow_key="top", owner=kit.owner(), trigger=kit.cel(w["trigger"]), workflow=prepared),
            "reconcile_workflow",
        )
        model = wf.Model(w["live"])
        outs, state = model.workflow(w["steps"], w["trigger"])
        total = wf.combine([o for _, o in outs])
        rec.nt(len({o.cls for _, o in outs}) > 1)
        rec.tag(f"wf:{total.cls}")
        if any(o.alt for _, o in outs):
            return
        got = kit.outcome_class(res.result)
        check(got == total.cls, f"workflow with step outcomes {[o.cls for _, o in outs]} reported {res.result}", spec=spec)
        if total.cls == "Ok":
            vals = kit.plain(res.result)
            check(isinstance(vals, list) and len(vals) == len(total.value) and all(map(wf.same, total.value, vals)),
                  "workflow Ok result does not keep every Ok value in order", got=vals, expected=repr(total.value))
        if total.cls in ("Retry", "PermFail"):
            for m in total.msgs:
                check(m in (res.result.message or ""), f"message {m!r} of a failing step is lost", got=res.result.message)
        if total.cls == "Retry":
            check(total.delay is None or res.result.delay == total.delay,
                  f"workflow delay {res.result.delay}, longest step delay {total.delay}", spec=spec)

    kit.run(main)


def prepare(case, rec):
    """Workflow readiness is itself a combination of step readiness."""

    async def main():
        await kit.offer_ok("ValueFunction", "good", {"return": {"a": 1}})
        await kit.sut(kit.offer("ValueFunction", "broken", {"return": {"a": "=1 +"}}), "preparing a broken function")
        steps, want, msgs = [], [], []
        for i, part in enumerate(case["parts"]):
            s = {"label": f"step_{i}", "ref": {"kind": "ValueFunction", "name": "good"}}
            cls = "Ok"
            if part == "missing":
                s["ref"]["name"] = f"nowhere{i}"
                cls = "Retry"
                msgs.append(("Retry", f"nowhere{i}", 0))
            elif part == "broken":
                s["ref"]["name"] = "broken"
                cls = "Retry"
            elif part == "badskip":
                s["skipIf"] = "=1 +"
                cls = "PermFail"
            elif part == "badstate":
                s["state"] = {"a": "=1 +"}
                cls = "PermFail"
            elif part.startswith("switch"):
                s.pop("ref")
                bad = f"nocase{i}" if part == "switch_missing" else "broken"
                s["refSwitch"] = {"switchOn": "='a'", "cases": [
                    {"case": "a", "kind": "ValueFunction", "name": "good"},
                    {"case": "b", "kind": "ValueFunction", "name": bad}]}
                cls = "Retry"
                if part == "switch_missing":
                    msgs.append(("Retry", bad, 0))
            steps.append(s)
            want.append(cls)
        top = max(want, key=wf.SEV.get)
        rec.nt(len(set(want)) > 1)
        rec.tag(f"ready:{top}")
        wfl = await kit.prepare_ok("Workflow", "top", {"steps": steps})
        check(kit.outcome_class(wfl.steps_ready) == top, f"steps {case['parts']}: readiness {wfl.steps_ready}, expected {top}")
        if top != "Ok":
            for cls, m, _ in msgs:
                if cls == top:
                    check(m in (wfl.steps_ready.message or ""), f"readiness message about {m} lost", got=wfl.steps_ready.message)
            api = Cluster()
            res = await kit.sut(kit.reconcile_workflow(api=api, workflow_key="top", owner=kit.owner(), trigger=kit.cel({}), workflow=wfl), "reconcile_workflow")
            check(kit.outcome_class(res.result) == top, f"not-ready workflow reported {res.result}, expected {top}")

    kit.run(main)


def run(case, rec):
    {"pure": pure, "workflow": workflow, "prepare": prepare}[case["kind"]](case, rec)
