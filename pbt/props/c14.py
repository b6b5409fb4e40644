"""C14: every named dependency is found: ordering edges and watches."""
import copy

from hypothesis import strategies as st

from koreo import cache, registry, result

import celgen
import kit
import vloop
from cluster import Cluster
from core import check

ID = "C14"
RULE = (
    "edges: 1-4 dependency steps (labels incl. non-identifiers) and 1-3 steps whose inputs / skipIf / forEach / switchOn / state hold "
    "generated expressions (any syntactic context, depth <= 7) naming some of them; for each named label one pass with only that step "
    "waiting: the naming step must be DepSkip and make no call. order: the same with the name unknown, later or its own: not ready, no "
    "call. watch: Workflow / ResourceFunction / FunctionTest with healthy, broken and missing Logic and possibly broken other parts: "
    "every named Logic is subscribed to and each of its changes prepares the definition again; non-trivial = a reference below the top "
    "level of its expression, or a definition with a broken part"
)
ASSUMPTIONS = ["a reference is by construction: the generator placed it", "in a definition rejected with PermFail nothing is watched (there is no prepared resource)"]
COUNT = {"quick": {"edges": 330, "order": 200, "watch": 260}, "thorough": {"edges": 4200, "order": 2500, "watch": 3000}}

PLAIN = ["dep_one", "dep2", "abc", "abcd", "Steps", "steps", "inputs", "parent", "for_", "a_b_c"]
ODD = ["a b c", "it's it", "x.y", 'q"zz', "é1é", "in_", "000", "a-b", "back\\slash", "dep.one", "null", "true", "new\nline", "dep_one.v", "[0]", "as_"]


def strategies(tier):
    return {"edges": edges(tier), "order": edges(tier, order=True), "watch": watches()}


@st.composite
def field_values(draw, labels, depth):
    """{field: value}, {label}"""
    n = draw(st.integers(1, 3))
    fields = draw(st.lists(st.sampled_from(["inputs", "inputs", "skipIf", "itemIn", "switchOn", "state"]), min_size=n, max_size=n, unique=True))
    out, refs, deep = {}, [], False
    for f in fields:
        if f in ("inputs", "state"):
            doc = {}
            for key in draw(st.lists(st.sampled_from(["a", "b", "c d", "e"]), min_size=1, max_size=3, unique=True)):
                text, used = draw(celgen.exprs(labels, depth, want=key != "e"))
                value = "=" + text
                shape = draw(st.sampled_from(["flat", "flat", "map", "list", "deep"]))
                if shape == "map":
                    value = {"m": value, "n": 1}
                elif shape == "list":
                    value = ["text", value, {"z": 2}]
                elif shape == "deep":
                    value = {"p": [{"q": [value, None]}, []], "r": {}}
                doc[key] = value
                refs += used
            out[f] = doc
        else:
            text, used = draw(celgen.exprs(labels, depth))
            out[f] = "=" + text
            refs += used
    return out, sorted(set(refs))


@st.composite
def edges(draw, tier, order=False):
    depth = 4 if tier == "quick" else 7
    deps = draw(st.lists(st.sampled_from(PLAIN + PLAIN + ODD), min_size=1, max_size=4, unique=True))
    targets = []
    for _ in range(1 if order else draw(st.integers(1, 3))):
        fields, refs = draw(field_values(deps, depth))
        targets.append({"fields": fields, "refs": refs, "kind": draw(st.sampled_from(["rf", "rf", "sub"])), "cond": True})
    case = {"kind": "order" if order else "edges", "deps": deps, "targets": targets}
    if order:
        case["how"] = draw(st.sampled_from(["missing", "later", "own"]))
        case["which"] = draw(st.integers(0, 3))
    return case


NAMES = ["f1", "f2", "f3", "f4"]
STATES = ["ok", "ok", "bad", "missing"]
REF = st.tuples(st.sampled_from(["ValueFunction", "ResourceFunction", "Workflow"]), st.sampled_from(NAMES))


def watches():
    part = st.sampled_from([None, None, None, None, "broken", "fine"])
    step = st.fixed_dictionaries({
        "label": st.sampled_from(["aaa", "bbb", "ccc", "ddd", "eee"]),
        "logic": st.one_of(
            st.fixed_dictionaries({"ref": REF}), st.fixed_dictionaries({"ref": REF}),
            st.fixed_dictionaries({
                "cases": st.lists(st.tuples(st.sampled_from(["k1", "k2", "k3", "k4", ""]), REF, st.sampled_from([None, None, True, False])), min_size=1, max_size=5),
                "on": st.sampled_from(["='k1'", "='k1'", "=inputs.x +", "=", "=steps.zzz.v", "k1", ""])}),
            st.fixed_dictionaries({
                "cases": st.lists(st.tuples(st.sampled_from(["k1", "k2", "k3", "k4", ""]), REF, st.sampled_from([None, None, None, False])), min_size=1, max_size=5),
                "on": st.just("='k1'")}),
        ),
        "skipIf": part, "forEach": part, "inputs": part, "state": part, "unknown": st.sampled_from([False, False, False, True]),
    })
    workflow = st.fixed_dictionaries({"def": st.just("Workflow"), "steps": st.lists(step, min_size=1, max_size=6)})
    overlay = st.fixed_dictionaries({
        "ref": st.one_of(st.none(), st.sampled_from(NAMES), st.sampled_from(NAMES)), "skipIf": part, "inputs": part,
    })
    rf = st.fixed_dictionaries({"def": st.just("ResourceFunction"), "overlays": st.lists(overlay, min_size=1, max_size=5), "template": st.booleans()})
    ft = st.fixed_dictionaries({"def": st.just("FunctionTest"), "ref": st.tuples(st.sampled_from(["ValueFunction", "ResourceFunction"]), st.sampled_from(NAMES)),
                                "cases": st.integers(0, 2)})
    states = st.fixed_dictionaries({f"{k}:{n}": st.sampled_from(STATES) for k in ("ValueFunction", "ResourceFunction", "Workflow") for n in NAMES})
    return st.fixed_dictionaries({
        "kind": st.just("watch"), "definition": st.one_of(workflow, workflow, rf, rf, ft), "states": states,
        "events": st.lists(st.tuples(st.integers(0, 9), st.sampled_from(["ok", "bad", "missing"])), max_size=6),
        "late": st.booleans(),
    })


def run(case, rec):
    kit.run({"edges": run_edges, "order": run_order, "watch": run_watch}[case["kind"]], case, rec)


# --- edges -------------------------------------------------------------------
def ro(name):
    return {"apiConfig": {**kit.api_config("Widget", name=name), "readonly": True}, "resource": {}, "return": {"v": 1, "name": name}}


async def build(case):
    steps = []
    for i, label in enumerate(case["deps"]):
        await kit.offer_ok("ResourceFunction", f"dep{i}", ro(f"dep-{i}"))
        steps.append({"label": label, "ref": {"kind": "ResourceFunction", "name": f"dep{i}"}, "condition": {"type": f"Dep{i}", "name": "dep"}})
    for j, t in enumerate(case["targets"]):
        await kit.offer_ok("ResourceFunction", f"tgt{j}", ro(f"tgt-{j}"))
        ref = {"kind": "ResourceFunction", "name": f"tgt{j}"}
        if t["kind"] == "sub":
            await kit.offer_ok("Workflow", f"sub{j}", {"steps": [{"label": "inner", "ref": ref}]})
            ref = {"kind": "Workflow", "name": f"sub{j}"}
        step = {"label": f"target_{j}", "condition": {"type": f"Tgt{j}", "name": "target"}}
        fields = copy.deepcopy(t["fields"])
        if "switchOn" in fields:
            step["refSwitch"] = {"switchOn": fields.pop("switchOn"), "cases": [{"case": "x", "default": True, **ref}]}
        else:
            step["ref"] = ref
        if "itemIn" in fields:
            step["forEach"] = {"itemIn": fields.pop("itemIn"), "inputKey": "item"}
        step.update(fields)
        steps.append(step)
    return steps


def below_top(t):
    for v in t["fields"].values():
        text = v if isinstance(v, str) else "deep"
        if not text.lstrip("= ").startswith("steps"):
            return True
    return False


async def reconcile(prepared, cluster):
    return await kit.sut(kit.reconcile_workflow(
        api=cluster, workflow_key="w", owner=kit.owner(), trigger=kit.cel({"spec": {"name": "n"}, "metadata": {"labels": {"x": "y"}}}), workflow=prepared),
        "reconcile_workflow")


async def run_edges(case, rec):
    steps = await build(case)
    prepared = await kit.offer_ok("Workflow", "w", {"steps": steps})
    check(result.is_ok(prepared.steps_ready), f"the Workflow is not ready: {prepared.steps_ready}", steps=steps)
    version, plural, _ = kit.KINDS["Widget"]
    for i, label in enumerate(case["deps"]):
        naming = [j for j, t in enumerate(case["targets"]) if label in t["refs"]]
        if not naming:
            continue
        cluster = Cluster(latency=lambda call: 3 if call.name.startswith("dep") else 1)
        for k in range(len(case["deps"])):
            if k != i:
                cluster.put({"apiVersion": version, "kind": "Widget", "metadata": {"name": f"dep-{k}", "namespace": "ns-one"}}, plural)
        for j in range(len(case["targets"])):
            cluster.put({"apiVersion": version, "kind": "Widget", "metadata": {"name": f"tgt-{j}", "namespace": "ns-one"}}, plural)
        res = await reconcile(prepared, cluster)
        conditions = {c["type"]: c for c in res.conditions}
        for j in naming:
            ctx = dict(step=steps[len(case["deps"]) + j], waiting_for=label, condition=conditions.get(f"Tgt{j}"))
            calls = [c for c in cluster.log if c.name == f"tgt-{j}"]
            check(not calls, f"the step ran although {label!r}, which it names, is waiting", calls=calls, **ctx)
            got = conditions.get(f"Tgt{j}")
            check(got is not None and got["reason"] == "DepSkip", f"the step names {label!r}, which is waiting, but is not dependency-skipped", **ctx)
            rec.nt(below_top(case["targets"][j]))
            rec.tag(*(f"in {f}" for f in case["targets"][j]["fields"]))


async def run_order(case, rec):
    t = case["targets"][0]
    if not t["refs"]:
        return
    label = t["refs"][case["which"] % len(t["refs"])]
    steps = await build(case)
    deps = steps[:-1]
    target = steps[-1]
    at = case["deps"].index(label)
    if case["how"] == "missing":
        deps.pop(at)
        new = deps + [target]
    elif case["how"] == "later":
        dep = deps.pop(at)
        new = deps + [target, dep]
    else:
        deps.pop(at)
        target["label"] = label
        new = deps + [target]
    prepared = await kit.offer_ok("Workflow", "w", {"steps": new})
    ready = prepared.steps_ready
    check(not result.is_unwrapped_ok(ready) and not result.is_ok(ready), f"a Workflow whose step names {case['how']} label {label!r} is ready", steps=new)
    cluster = Cluster()
    res = await reconcile(prepared, cluster)
    check(not result.is_unwrapped_ok(res.result), f"a Workflow whose step names {case['how']} label {label!r} ran: {res.result}", steps=new)
    check(not cluster.log, "a Workflow that is not ready made API calls", calls=cluster.log)
    rec.nt(below_top(t))
    rec.tag(case["how"])


# --- watches -------------------------------------------------------------------
def content(kind, state, v):
    if kind == "ValueFunction":
        return {"return": {"v": v} if state == "ok" else {"v": "=1 +"}}
    if kind == "ResourceFunction":
        spec = {"apiConfig": kit.api_config("Widget", name="f"), "resource": {"spec": {"v": v}}}
        if state == "bad":
            spec["return"] = {"v": "=1 +"}
        return spec
    if state == "ok":
        return {"steps": [{"label": "inner", "ref": {"kind": "ValueFunction", "name": "base"}, "state": {"v": v}}]}
    return {"steps": [], "v": v}


def definition(d):
    broken = False
    named = set()
    if d["def"] == "FunctionTest":
        kind, name = d["ref"]
        cases = [{"label": f"case {i}", "expectReturn": {"v": 1}} for i in range(d["cases"])]
        return {"functionRef": {"kind": kind, "name": name}, **({"testCases": cases} if cases else {})}, {(kind, name)}, False
    if d["def"] == "ResourceFunction":
        overlays = []
        for n, o in enumerate(d["overlays"]):
            out = {}
            if o["ref"]:
                out["overlayRef"] = {"kind": "ValueFunction", "name": o["ref"]}
                named.add(("ValueFunction", o["ref"]))
                if o["inputs"]:
                    out["inputs"] = {"a": "=1 +" if o["inputs"] == "broken" else "=inputs.a"}
                    broken |= o["inputs"] == "broken"
            else:
                out["overlay"] = {"spec": {"o": n if o["inputs"] != "broken" else "=)"}}
                broken |= o["inputs"] == "broken"
            if o["skipIf"]:
                out["skipIf"] = "=1 +" if o["skipIf"] == "broken" else "=false"
                broken |= o["skipIf"] == "broken"
            overlays.append(out)
        spec = {"apiConfig": kit.api_config("Widget", name="x"), "overlays": overlays}
        if d["template"]:
            spec["resourceTemplateRef"] = {"name": "tpl"}
        else:
            spec["resource"] = {"spec": {"x": 1}}
        return spec, named, broken
    steps, seen = [], set()
    for s in d["steps"]:
        out = {"label": s["label"]}
        broken |= s["label"] in seen
        seen.add(s["label"])
        logic = s["logic"]
        if "ref" in logic:
            kind, name = logic["ref"]
            named.add((kind, name))
            out["ref"] = {"kind": kind, "name": name}
        else:
            cases, defaults = [], 0
            for case, (kind, name), default in logic["cases"]:
                named.add((kind, name))
                c = {"case": case, "kind": kind, "name": name}
                if default is not None:
                    c["default"] = default
                    defaults += default
                cases.append(c)
            out["refSwitch"] = {"switchOn": logic["on"], "cases": cases}
            broken |= logic["on"] != "='k1'" or defaults > 1
        for field, good, bad in (("skipIf", "=false", "=!"), ("forEach", {"itemIn": "=[1]", "inputKey": "k"}, {"itemIn": "=[1", "inputKey": "k"}),
                                 ("inputs", {"a": "=parent.x"}, {"a": "=parent.(x"}), ("state", {"s": "=value"}, {"s": "='open"})):
            if s[field]:
                out[field] = copy.deepcopy(bad if s[field] == "broken" else good)
                broken |= s[field] == "broken"
        if s["unknown"]:
            out["inputs"] = {"u": "=steps.nowhere.v"}
            broken = True
        steps.append(out)
    return {"steps": steps}, named, broken


def resource_key(kind, name):
    return registry.Resource(resource_type=kit.PREPARERS[kind][0], name=name)


async def run_watch(case, rec):
    d = case["definition"]
    kind = d["def"]
    spec, named, broken = definition(d)
    cls, preparer = kit.PREPARERS[kind]
    runs = [0]

    async def counting(key, spec):
        runs[0] += 1
        return await preparer(key, spec)

    serial = [0]

    async def bring(k, n, state):
        serial[0] += 1
        if state == "missing":
            await kit.sut(cache.delete_from_cache(kit.PREPARERS[k][0], n), f"deleting {k} {n}")
        else:
            await kit.sut(kit.offer(k, n, content(k, state, serial[0]), version=str(serial[0])), f"preparing {k} {n}")

    states = dict(case["states"])
    await kit.offer_ok("ValueFunction", "base", {"return": {"v": 1}})
    if not case["late"]:
        for key, state in states.items():
            if state != "missing":
                await bring(*key.split(":"), state)
        await vloop.settle(100)
    prepared = await kit.sut(
        cache.prepare_and_cache(resource_class=cls, preparer=counting, metadata={"name": "the-definition", "resourceVersion": "1"}, spec=copy.deepcopy(spec)),
        f"preparing the {kind}")
    if not result.is_unwrapped_ok(prepared):
        check(broken, f"a valid {kind} was rejected: {prepared}", spec=spec)
        rec.tag("rejected")
        return
    if case["late"]:
        for key, state in states.items():
            if state != "missing":
                await bring(*key.split(":"), state)
    await vloop.settle(150)
    me = resource_key(kind, "the-definition")
    rec.tag(kind, "broken" if broken else "sound")
    rec.nt(broken or any(states[f"{k}:{n}"] != "ok" for k, n in named))

    def watched(when):
        have = set(registry.get_subscriptions(me))
        lost = [f"{k}:{n}" for k, n in sorted(named) if resource_key(k, n) not in have]
        check(not lost, f"{when}: {kind} names {lost} but does not watch it", spec=spec, states=states)

    watched("once prepared")
    order = sorted(named)
    events = [(order[i % len(order)], state) for i, state in case["events"] if order]
    events += [(x, how) for x in order for how in ("ok", "ok", "missing", "ok")]
    for (k, n), state in events:
        was = states[f"{k}:{n}"]
        if was == state == "missing":
            continue
        at = runs[0]
        await bring(k, n, state)
        states[f"{k}:{n}"] = state
        await vloop.settle(120)
        check(runs[0] > at, f"{k} {n} went from {was} to {state} but the {kind} naming it was not prepared again", spec=spec)
        watched(f"after {k} {n} became {state}")
    now = cache.get_resource_from_cache(cls, "the-definition")
    check(now is not None and result.is_unwrapped_ok(now), f"the {kind} is {now} in the end")
    if not broken:
        ready = {"Workflow": lambda: now.steps_ready, "ResourceFunction": lambda: now.crud_config.overlays, "FunctionTest": lambda: now.function_under_test}[kind]()
        check(result.is_unwrapped_ok(ready) or result.is_ok(ready), f"everything the {kind} names is ready, but it is not: {ready}", spec=spec)
