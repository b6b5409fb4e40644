"""C10: expression failures become PermFail; nothing escapes or leaks."""
import copy

import celpy
from celpy import celtypes
from hypothesis import strategies as st

import gens
import kit
from cluster import Cluster
from core import Violation, check, fail

ID = "C10"
RULE = (
    "two generators. `planted`: an expression that must fail (31 atoms: missing members, bad operand types, failing custom "
    "functions ...) wrapped in up to 3 error-propagating contexts (list/map literals, macros, calls, conditionals), nested in "
    "maps/lists of the definition and planted at one of 27 sites (VF / RF / overlay function / workflow step); the outcome must be "
    "PermFail naming the site, without exception and without mutation. `wild`: random well-formed expressions, failing or not, "
    "in returns, resources, overlays, state; whatever comes out holds no error object. non-trivial = planted with a context "
    "or nesting; or wild that failed"
)
ASSUMPTIONS = [
    "an error absorbed by the CEL library (||, &&, has(), size() of a map, an untaken branch) is not a failed expression",
    "`naming the location` = the site's field path occurs in the outcome's message or location",
]
COUNT = {"quick": {"planted": 900, "wild": 900}, "thorough": {"planted": 25000, "wild": 25000}}

DATA = {"n": 3, "s": "word", "t": True, "f": False, "m": {"y": {"z": "deep"}, "k": 1}, "l": [1, 2, 3], "nul": None, "e": {}, "el": [], "fl": 1.5,
        "ref": {"apiVersion": "a/v1", "kind": "K", "metadata": {"name": "nm", "namespace": "nn"}}}

# `$` is the variable that holds DATA
ATOMS = [
    "$.missing", "$.m.y.q", "$.m.y.z.w", "1 / 0", "[1][5]", "$.l[7]", "'a' + 1", "int('x')", "nowhere", "$.s.nope", "$.nul.x",
    "to_ref({})", "to_ref($.m)", "self_ref($.m)", "self_ref({})", "group_ref({'kind': 'x'})", "kindless_ref($.e)",
    "split('a', '')", "split_first($.s, '')", "split_index($.s, 'o', 9)", "1 % 0", "$.l['a']", "{'a': 1}.b",
    "double('x')", "timestamp('x')", "9223372036854775807 + 1", "from_json('{')", "$.nul + 1", "-$.s", "$.n ? 1 : 2",
    "to_ref({'external': ''})", "group_ref({'kind': 'x', 'external': ''})", "lower(1)", "flatten([1])", "b64encode(1)", "to_ref({'name': ''})", "config_connect_ready({'status': {'conditions': 1}})",
    "overlay({'a': 1}, 2)", "$.s.matches('[')", "$['missing']", "$.m[$.n]", "$.l.map(x, x / 0)", "$.l.filter(x, $.nope)",
    "duration('zz')", "self_ref({'apiVersion': 'a', 'kind': 'b', 'metadata': {'name': 'c'}})",
    "type(1 / 0)", "type([to_ref({})])",
    # these make the CEL library raise something of its own
    "$.n.map(x, x)", "$.nul.filter(x, true)", "$.t.exists(x, x)", "$.fl.all(x, true)", "$.n.exists_one(x, x)", "flatten($.n)",
]
CONTEXTS = [
    "(%s)", "[%s]", "[1, %s]", "{'k': %s}", "{'k': {'j': [%s]}}", "[1].map(x, %s)", "[1, 2].map(x, {'v': %s})", "[1, 2].filter(x, %s)",
    "$.l.map(x, [%s, x])", "$.t ? %s : 1", "$.f ? 1 : %s", "%s ? 1 : 2", "'' + %s", "overlay({}, {'a': %s})",
    "overlay({'a': 1, 'b': {'c': 2}}, {'b': {'c': %s}})", "to_ref({'name': %s})", "to_ref({'external': %s})", "to_json({'a': [%s]})",
    "$.l + [%s]", "dyn(%s)", "flatten([[%s], [1]])", "(%s).x", "[%s].map(x, x)", "{'k': %s}.k", "[%s][0]",
    "[1].map(x, [2].map(y, %s))", "lower(%s)", "int(%s)", "kindless_ref({'name': 'x', 'namespace': %s})", "1 + (%s)", "!(%s)",
    "[[[%s]]]", "split(%s, ',')", "replace('abc', 'b', %s)", "from_json(%s)", "b64encode(%s)", "size(%s)", "'a' in [%s]",
    "string(%s)", "string([%s])", "'port-' + string(%s)",
    "group_ref({'apiGroup': %s, 'name': 'x'})", "[0].map(i, overlay({}, {'z': {'y': %s}}))", "$.m.overlay({'y': {'z': %s}})",
]
# these look at a container without looking at what is in it: only directly around the failing atom
INNERMOST = {i for i, c in enumerate(CONTEXTS) if c.startswith("size(") or ".filter(" in c}
# contexts whose result is what a plain scalar site wants do not matter: any failure is PermFail

VF_SITES = ["vf.return", "vf.return", "vf.locals", "vf.assert", "vf.message"]
RF_SITES = ["rf.assert", "rf.message", "rf.locals", "rf.name", "rf.namespace", "rf.resource", "rf.resource", "rf.tplname", "rf.overlay", "rf.overlay",
            "rf.skipIf", "rf.ovinputs", "rf.ovreturn", "rf.ovlocals", "rf.ovassert", "rf.create", "rf.create", "rf.postassert", "rf.return",
            "rf.patch.resource", "rf.patch.overlay"]
WF_SITES = ["wf.inputs", "wf.skipIf", "wf.itemIn", "wf.switchOn", "wf.state", "wf.fn", "wf.each"]
SCALAR = {"vf.assert", "vf.message", "rf.assert", "rf.message", "rf.name", "rf.namespace", "rf.tplname", "rf.skipIf", "rf.ovassert",
          "rf.postassert", "wf.skipIf", "wf.itemIn", "wf.switchOn"}

LAYER = st.sampled_from(["map", "list", "deepmap", "pair"])
LAYERS = st.one_of(*[st.lists(LAYER, max_size=3)] * 9, st.lists(LAYER, min_size=5, max_size=14))


def strategies(tier):
    planted = st.fixed_dictionaries({
        "t": st.just("planted"), "site": st.sampled_from(VF_SITES + RF_SITES + WF_SITES), "atom": st.integers(0, len(ATOMS) - 1),
        "ctx": st.lists(st.integers(0, len(CONTEXTS) - 1), max_size=3).map(lambda l: [c for i, c in enumerate(l) if not i or c not in INNERMOST]), "layers": LAYERS, "n": st.integers(0, 2), "deps": st.booleans(),
    })
    wild = st.fixed_dictionaries({
        "t": st.just("wild"), "site": st.sampled_from(["vf", "vf", "rf.resource", "rf.overlay", "rf.create", "rf.return", "wf", "wf.each"]),
        "exprs": st.dictionaries(gens.IDENT, expressions(), min_size=1, max_size=2), "nest": st.booleans(),
    })
    return {"planted": planted, "wild": wild}


def expressions():
    leaf = st.one_of(
        st.sampled_from(["$.n", "$.s", "$.t", "$.f", "$.m", "$.l", "$.nul", "$.e", "$.el", "$.fl", "$.m.y", "$.m.y.z", "$.ref", "$.missing", "1", "0",
                         "-3", "'txt'", "''", "true", "null", "[]", "{}", "1.5", "2u", "'a,b'", "'{\"a\": 1}'", "b'x'"]),
    )
    leaf = st.one_of(*[leaf] * 11, st.sampled_from(ATOMS))

    def grow(k):
        return st.one_of(
            st.builds(lambda f, a: f"{f}({a})", st.sampled_from(
                ["to_ref", "self_ref", "group_ref", "kindless_ref", "config_connect_ready", "lower", "flatten", "to_json", "from_json",
                 "b64encode", "b64decode", "size", "int", "double", "bool", "dyn", "uint", "string"]), k),
            st.builds(lambda f, a, b: f"{f}({a}, {b})", st.sampled_from(
                ["overlay", "split", "split_first", "split_last", "strip", "rstrip"]), k, k),
            st.builds(lambda f, a, b, c: f"{f}({a}, {b}, {c})", st.sampled_from(["split_index", "replace"]), k, k, k),
            st.builds(lambda a, o, b: f"({a}) {o} ({b})", k, st.sampled_from(["+", "-", "*", "/", "%", "==", "!=", "<", ">=", "in", "&&", "||"]), k),
            st.builds(lambda a, b, c: f"({a}) ? ({b}) : ({c})", k, k, k),
            st.builds(lambda a, b: f"[{a}, {b}]", k, k),
            st.builds(lambda a, b: "{'p': %s, 'q': %s}" % (a, b), k, k),
            st.builds(lambda a, b: "{%s: %s}" % (a, b), k, k),
            st.builds(lambda a, m, b: f"({a}).{m}(x, {b})", k, st.sampled_from(["map", "filter", "all", "exists", "exists_one"]),
                      st.one_of(k, st.just("x"), st.just("x > 1"), st.just("x.y"), st.just("[x]"))),
            st.builds(lambda a, m: f"({a}){m}", k, st.sampled_from([".x", "[0]", ".p", "['k']", ".y.z", ".lower()", ".size()", "[1]"])),
            st.builds(lambda a, b: f"({a}).overlay({b})", k, k),
            st.builds(lambda a, o: f"{o}({a})", k, st.sampled_from(["!", "-"])),
        )

    return st.recursive(leaf, grow, max_leaves=6)


def fails(expr, var):
    """the CEL library itself can not evaluate this expression: it raises, or yields an error object somewhere"""
    from koreo.cel.functions import koreo_function_annotations, koreo_cel_functions

    env = celpy.Environment(annotations=koreo_function_annotations)
    head, _, rest = var.partition(".")
    data = kit.cel(DATA)
    for part in reversed(rest.split(".") if rest else []):
        data = celtypes.MapType({celtypes.StringType(part): data})
    try:
        value = env.program(env.compile(expr.replace("$", var)), functions=koreo_cel_functions).evaluate({head: data})
    except Exception:
        return True
    try:
        scan(value, "")
    except Violation:
        return True
    return False


def wrap(expr, layers):
    v = expr
    for layer in layers:
        if layer == "map":
            v = {"k1": v}
        elif layer == "list":
            v = ["fine", v]
        elif layer == "deepmap":
            v = {"a1": {"b1": v, "b2": 2}, "a2": {}}
        else:
            v = [{"p1": 1, "p2": v}]
    return v


def block(expr, layers):
    v = wrap(expr, layers)
    out = {"ok1": "=1 + 1", "bad": v, "ok2": {"x": "text"}}
    if isinstance(v, dict):
        out.update({k: x for k, x in v.items()})
    return out


def scan(value, where):
    """no error object (nor any exception) anywhere"""
    if isinstance(value, BaseException) or (isinstance(value, type) and issubclass(value, BaseException)):
        fail(f"{where} holds an error object", value=f"{type(value)} {getattr(value, 'args', None)}"[:200])
    if isinstance(value, dict):
        for k, v in value.items():
            scan(k, where)
            scan(v, where)
    elif isinstance(value, (list, tuple, set)):
        for v in value:
            scan(v, where)


def scan_cluster(cluster):
    for c in cluster.log:
        text = repr(c.payload)
        scan(c.payload, f"payload of {c}")
        check("CELEvalError" not in text, "payload holds an error", payload=text[:500])


def permfail(outcome, tokens, what):
    check(kit.outcome_class(outcome) == "PermFail", f"{what}: not a PermFail", outcome=kit.describe(outcome))
    said = f"{outcome.message} {outcome.location}"
    check(all(t in said for t in tokens), f"{what}: the failure does not name the location {tokens}", said=said[:600])


def run(case, rec):
    kit.run(planted if case["t"] == "planted" else wild, case, rec)


def expression_of(case, var):
    e = ATOMS[case["atom"]]
    for i in case["ctx"]:
        c = CONTEXTS[i]
        e = c.replace("%s", f"({e})" if c not in ("(%s)",) else e)
    return "=" + e.replace("$", var)


async def planted(case, rec):
    site = case["site"]
    group = site.split(".")[0]
    rec.nt(bool(case["ctx"]) or bool(case["layers"]))
    rec.tag(f"site:{site}", f"depth:{len(case['ctx'])}")
    await {"vf": planted_vf, "rf": planted_rf, "wf": planted_wf}[group](case, site)


def pads(n, truth="=true"):
    return [{"assert": truth, "permFail": {"message": "never"}} for _ in range(n)]


async def planted_vf(case, site):
    e = expression_of(case, "inputs")
    spec = {"return": {"fine": 1}}
    if site == "vf.return":
        spec["return"] = block(e, case["layers"])
        tokens = ["return"]
    elif site == "vf.locals":
        spec["locals"] = block(e, case["layers"])
        tokens = ["locals"]
    else:
        bad = {"assert": e, "skip": {"message": "m"}} if site == "vf.assert" else {"assert": "=false", "skip": {"message": e}}
        spec["preconditions"] = pads(case["n"]) + [bad] + (pads(1) if case["deps"] else [])
        tokens = ["preconditions"]
    fn = await kit.prepare_ok("ValueFunction", "fn", spec)
    got = await kit.sut(kit.reconcile_value_function(location="here", function=fn, inputs=kit.cel(DATA)), "the ValueFunction")
    permfail(got, tokens, site)


def stored(extra=None):
    return {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "metadata": {"name": "thing", "namespace": "ns-one", "uid": "u",
            "ownerReferences": [copy.deepcopy(kit.OWNER_REF)]}, "spec": {"a": 1}, **(extra or {})}


async def planted_rf(case, site):
    e = expression_of(case, "inputs")
    api = kit.api_config("Widget", name="thing")
    spec = {"apiConfig": api, "resource": {"spec": {"a": 1}}}
    cluster = Cluster()
    calls_allowed = True
    n = case["n"]
    if site in ("rf.assert", "rf.message"):
        bad = {"assert": e, "retry": {"message": "m", "delay": 3}} if site == "rf.assert" else {"assert": "=false", "retry": {"message": e, "delay": 3}}
        spec["preconditions"] = pads(n) + [bad]
        tokens, calls_allowed = ["preconditions"], False
    elif site == "rf.locals":
        spec["locals"] = block(e, case["layers"])
        tokens, calls_allowed = ["locals"], False
    elif site in ("rf.name", "rf.namespace"):
        api[site[3:]] = e
        tokens, calls_allowed = ["apiConfig"], False
    elif site in ("rf.resource", "rf.patch.resource"):
        spec["resource"] = {"spec": block(e, case["layers"]), "top": 1}
        tokens = ["spec.resource"]
    elif site == "rf.tplname":
        del spec["resource"]
        spec["resourceTemplateRef"] = {"name": e}
        tokens = ["resourceTemplateRef"]
    elif site == "rf.create":
        spec["create"] = {"overlay": {"spec": block(e, case["layers"])}}
        tokens = ["create"]
    elif site in ("rf.postassert", "rf.return"):
        cluster.put(stored(), "widgets")
        if site == "rf.return":
            spec["return"] = block(e, case["layers"])
            tokens = ["return"]
        else:
            spec["postconditions"] = pads(n) + [{"assert": e, "ok": {}}]
            tokens = ["postconditions"]
    else:
        steps = [{"overlay": {"pad": i}} for i in range(n)]
        tokens = [f"overlays[{n}]"]
        if site in ("rf.overlay", "rf.patch.overlay"):
            steps.append({"overlay": {"spec": block(e, case["layers"])}})
        elif site == "rf.skipIf":
            steps.append({"overlay": {"x": 1}, "skipIf": e})
            tokens.append("skipIf")
        else:
            ov = {"return": {"x": 1}}
            step = {"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": {k: f"=inputs.{k}" for k in DATA} | {"missing": "=1", "nope": "=1"}}
            if site == "rf.ovinputs":
                step["inputs"] = {"bad": wrap(e, case["layers"])}
                tokens.append("inputs")
            else:
                # `resource` holds DATA for the overlay function
                e2 = expression_of(case, "resource.spec")
                spec["resource"] = {"spec": DATA}
                if site == "rf.ovreturn":
                    ov["return"] = block(e2, case["layers"])
                    tokens.append("return")
                elif site == "rf.ovlocals":
                    ov["locals"] = block(e2, case["layers"])
                    tokens.append("locals")
                else:
                    ov["preconditions"] = pads(n) + [{"assert": e2, "depSkip": {"message": "m"}}]
                    tokens.append("preconditions")
            await kit.offer_ok("ValueFunction", "ov", ov)
            steps.append(step)
        spec["overlays"] = steps + ([{"overlay": {"later": 1}}] if case["deps"] else [])
    if site.startswith("rf.patch"):
        cluster.put(stored({"spec": {"a": "drifted"}}), "widgets")
    fn = await kit.offer_ok("ResourceFunction", "fn", spec)
    before = copy.deepcopy(cluster.objects)
    got = await kit.sut(kit.reconcile_resource_function(api=cluster, location="here", function=fn, owner=kit.owner(), inputs=kit.cel(DATA)),
                        "the ResourceFunction")
    permfail(got.outcome, tokens, site)
    scan(got.resource_id, "resource id")
    if not calls_allowed:
        check(not cluster.log, f"{site}: the cluster was touched", log=cluster.log)
    check(not cluster.mutations() and cluster.objects == before, f"{site}: something was sent although an expression failed", log=cluster.log)


async def planted_wf(case, site):
    deps = case["deps"]
    e = expression_of(case, "steps.first" if deps else "parent")
    await kit.offer_ok("ValueFunction", "give", {"return": DATA})
    await kit.offer_ok("ValueFunction", "echo", {"return": {"got": "=1"}})
    step = {"label": "second-step", "ref": {"kind": "ValueFunction", "name": "echo"},
            "inputs": {"d": "=steps.first.n" if deps else "=parent.n"}, "condition": {"type": "Second", "name": "second"}}
    tokens = ["second-step"]
    if site == "wf.inputs":
        step["inputs"] = block(e, case["layers"])
        tokens.append("inputs")
    elif site == "wf.skipIf":
        step["skipIf"] = e
        tokens.append("skipIf")
    elif site == "wf.itemIn":
        step["forEach"] = {"itemIn": e, "inputKey": "it"}
        tokens.append("itemIn")
    elif site == "wf.switchOn":
        del step["ref"]
        step["refSwitch"] = {"switchOn": e, "cases": [{"case": "a", "kind": "ValueFunction", "name": "echo", "default": True}]}
        tokens.append("switchOn")
    elif site == "wf.state":
        e = expression_of(case, "value")
        step["ref"]["name"] = "give"
        step["state"] = block(e, case["layers"])
    else:
        await kit.offer_ok("ValueFunction", "broken", {"return": block(expression_of(case, "inputs.all"), case["layers"])})
        step["ref"]["name"] = "broken"
        step["inputs"] = {"all": "=steps.first" if deps else "=parent"}
        tokens.append("return")
        if site == "wf.each":
            step["forEach"] = {"itemIn": "=steps.first.l" if deps else "=parent.l", "inputKey": "it"}
    steps = [{"label": "first", "ref": {"kind": "ValueFunction", "name": "give"}, "state": {"one": "=value.n"}}, step]
    wf = await kit.offer_ok("Workflow", "wf", {"steps": steps})
    if not kit.result.is_ok(wf.steps_ready):
        fail("workflow is not ready", ready=str(wf.steps_ready), steps=steps)
    cluster = Cluster()
    got = await kit.sut(kit.reconcile_workflow(api=cluster, workflow_key="wk", owner=kit.owner(), trigger=kit.cel(DATA), workflow=wf),
                        "the Workflow")
    scan(got.result if kit.is_value(got.result) else None, "result")
    scan(got.state, "state")
    scan(got.resource_ids, "resource ids")
    if site == "wf.state":
        check("second-step" in got.state_errors, "a failing state expression is not reported", errors=got.state_errors)
        check("bad" not in got.state and "ok1" not in got.state, "state of a failing expression was published", state=kit.plain(got.state))
        check(kit.plain(got.state.get("one")) == 3, "state of another step was lost", state=kit.plain(got.state))
    else:
        permfail(got.result, tokens, site)
        ready = [c for c in got.conditions if c["type"] == "Second"]
        check(len(ready) == 1 and ready[0]["reason"] == "Failure", "the step's condition does not tell", conditions=got.conditions)
        check(not got.state_errors, "state errors", errors=got.state_errors)


async def wild(case, rec):
    site = case["site"]
    rec.tag(f"wild:{site}")

    def doc(var):
        d = {k: "=" + e.replace("$", var) for k, e in case["exprs"].items()}
        return {"deep": [d, {"more": d}], "map": d} if case["nest"] else d

    cluster = Cluster()

    def must_fail(var, outcome):
        broken = [e for e in case["exprs"].values() if fails(e, var)]
        if broken:
            rec.tag("wild judged to fail")
            check(kit.outcome_class(outcome) == "PermFail", "an expression failed and yet the outcome is no PermFail", expression=broken[0],
                  outcome=kit.describe(outcome))

    def judge(outcome, what):
        cls = kit.outcome_class(outcome)
        rec.tag(f"wild {cls}")
        rec.nt(cls == "PermFail")
        if kit.is_value(outcome):
            scan(outcome, what)
        else:
            check(outcome.message, f"{what}: {cls} without message")
        return cls

    if site == "vf":
        fn = await kit.sut(kit.prepare("ValueFunction", "fn", {"return": doc("inputs")}), "preparing")
        if not isinstance(fn, tuple):
            rec.tag("wild refused")
            return
        got = await kit.sut(kit.reconcile_value_function(location="here", function=fn[0], inputs=kit.cel(DATA)), "the ValueFunction")
        check(judge(got, "return") in ("Ok", "PermFail"), "neither a value nor PermFail", got=str(got))
        must_fail("inputs", got)
        return
    if site.startswith("rf"):
        spec = {"apiConfig": kit.api_config(), "resource": {"spec": {"a": 1}}}
        d = doc("inputs")
        if site == "rf.resource":
            spec["resource"] = {"spec": d}
        elif site == "rf.overlay":
            spec["overlays"] = [{"overlay": {"spec": d}}]
        elif site == "rf.create":
            spec["create"] = {"overlay": {"spec": d}}
        else:
            spec["return"] = d
            cluster.put(stored(), "widgets")
        fn = await kit.sut(kit.prepare("ResourceFunction", "fn", spec), "preparing")
        if not isinstance(fn, tuple):
            rec.tag("wild refused")
            return
        got = await kit.sut(kit.reconcile_resource_function(
            api=cluster, location="here", function=fn[0], owner=kit.owner(), inputs=kit.cel(DATA)), "the ResourceFunction")
        cls = judge(got.outcome, site)
        must_fail("inputs", got.outcome)
        scan_cluster(cluster)
        if site == "rf.return":
            check(cls in ("Ok", "PermFail"), "neither a value nor PermFail", got=str(got.outcome))
            check(not cluster.mutations(), "unexpected mutation", log=cluster.log)
        elif cls == "PermFail":
            check(not cluster.mutations() or not cluster.objects, "PermFail after something was sent", log=cluster.log)
        else:
            check(cls == "Retry" and len(cluster.mutations()) == 1, "neither PermFail nor created", got=str(got.outcome), log=cluster.log)
        return
    await kit.offer_ok("ValueFunction", "give", {"return": DATA})
    fn = await kit.sut(kit.offer("ValueFunction", "fn", {"return": doc("inputs.all")}), "preparing")
    step = {"label": "one", "ref": {"kind": "ValueFunction", "name": "fn"}, "inputs": {"all": "=parent"}}
    if site == "wf.each":
        step["forEach"] = {"itemIn": "=parent.l", "inputKey": "it"}
    wf = await kit.sut(kit.offer("Workflow", "wf", {"steps": [
        {"label": "zero", "ref": {"kind": "ValueFunction", "name": "give"}, "state": {"st": doc("value")}}, step]}), "preparing")
    if not kit.result.is_unwrapped_ok(wf):
        rec.tag("wild refused")
        return
    got = await kit.sut(kit.reconcile_workflow(api=cluster, workflow_key="wk", owner=kit.owner(), trigger=kit.cel(DATA), workflow=wf),
                        "the Workflow")
    judge(got.result, "result")
    must_fail("inputs.all", got.result)
    broken = [e for e in case["exprs"].values() if fails(e, "value")]
    if broken:
        check("zero" in got.state_errors and not got.state, "an expression of the state failed, and this is not reported",
              expression=broken[0], state=kit.plain(got.state), errors=got.state_errors)
    scan(got.state, "state")
    for k, v in got.state_errors.items():
        check(isinstance(v, str), "state error is no text", errors=got.state_errors)
