"""C20: preparing any definition never crashes; schema violations are rejected."""
import copy
import datetime
import sys
import traceback

import celpy
from hypothesis import strategies as st

import gens
import kit
import schemagen
from core import HarnessError, Violation, check, fail
from koreo import cache, result

ID = "C20"
RULE = (
    "case = (kind, spec, optional generated Functions already cached): specs generated from the bundled CRD schemas, then left valid / given random or malformed "
    "expressions in every string field / mutated at 1-3 random paths (retyped, dropped, added, oversized, huge numbers, deep nesting) / replaced by arbitrary JSON / "
    "given keys and values only YAML has (numbers, booleans, dates as keys; dates, bytes, sets as values); "
    "prepared directly and through prepare_and_cache: never raises, returns the prepared kind or PermFail/Retry with a message; what an independent JSON-schema "
    "validator rejects must be PermFail with nothing compiled and nothing looked up; non-trivial = the spec violates the schema or at least one expression was compiled"
)
ASSUMPTIONS = [
    "a spec violates the schema if jsonschema rejects it both as offered and with the schema's defaults applied; x-kubernetes-validations rules are not part of it",
    "nesting is at most 60 levels beyond the spec's own, 400 in the dedicated cases; no spec contains itself",
    "a map with keys that are not strings does not also hold the empty key (the CEL library can not represent it)",
]
COUNT = {"quick": {"valid": 110, "rough": 130, "mutated": 420, "arbitrary": 200, "expr": 160, "yaml": 90},
         "thorough": {"valid": 2500, "rough": 3500, "mutated": 12000, "arbitrary": 4000, "expr": 5000, "yaml": 3000}}

KINDS = sorted(kit.PREPARERS)

# Definitions every case can refer to.
LIBRARY = [
    ("ValueFunction", "fn-a", {"return": {"a": "=inputs.a", "b": 1}}),
    ("ValueFunction", "fn-b", {"locals": {"x": "=inputs['k'].z"}, "return": {"a": "=locals.x"}}),
    ("ValueFunction", "fn-bad", {"return": {"a": "=((("}}),
    ("ResourceFunction", "rf-a", {"apiConfig": {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "plural": "widgets", "name": "=inputs.name", "namespace": "ns"},
                                  "resource": {"spec": {"a": "=inputs.a"}}}),
    ("ResourceFunction", "rf-static", {"apiConfig": {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "plural": "widgets", "name": "n", "namespace": "ns"},
                                       "resourceTemplateRef": {"name": "tmpl-a"}}),
    ("ResourceFunction", "rf-dyn", {"apiConfig": {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "plural": "widgets", "name": "n", "namespace": "ns"},
                                    "locals": {"t": "tmpl-a"}, "resourceTemplateRef": {"name": "=has(inputs.t) ? inputs.t : locals.t"}}),
    ("ResourceFunction", "rf-bad", {}),
    ("Workflow", "wf-a", {"steps": [{"label": "one", "ref": {"kind": "ValueFunction", "name": "fn-a"}, "inputs": {"a": "=parent.a"}}]}),
    ("Workflow", "wf-bad", {"steps": "none"}),
    ("Workflow", "wf-back", {"steps": [{"label": "one", "ref": {"kind": "Workflow", "name": "wf-between"}}]}),
    ("Workflow", "wf-between", {"steps": [{"label": "one", "refSwitch": {"switchOn": "=parent.a", "cases": [
        {"case": "x", "kind": "Workflow", "name": "wf-a"}, {"case": "y", "kind": "Workflow", "name": "the-definition"}]}}]}),
    ("ResourceTemplate", "tmpl-a", {"template": {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "spec": {}}}),
]


def cases(kind_specs):
    """(kind, spec) plus generated Functions to refer to"""
    gen_vf = st.one_of(st.none(), st.none(), schemagen.valid("ValueFunction", True))
    gen_rf = st.one_of(st.none(), st.none(), schemagen.valid("ResourceFunction", True))
    return st.builds(lambda ks, vf, rf: {"kind": ks[0], "spec": ks[1], "vf": vf if ks[0] in ("ResourceFunction", "Workflow", "FunctionTest") else None,
                                         "rf": rf if ks[0] in ("Workflow", "FunctionTest") else None}, kind_specs, gen_vf, gen_rf)


def of_kinds(make, weights=None):
    return st.sampled_from(weights or KINDS).flatmap(lambda k: st.tuples(st.just(k), make(k)))


BUSY = ["ValueFunction", "ResourceFunction", "ResourceFunction", "ResourceTemplate", "Workflow", "Workflow", "FunctionTest", "FunctionTest"]


@st.composite
def expression_everywhere(draw, kind):
    """A small spec with one expression placed in every expression-bearing field."""
    e = draw(st.one_of(schemagen.good_expr(), schemagen.tricky_text().map(lambda t: t if t.startswith("=") else "=" + t), schemagen.expr_text().map(lambda t: "=" + t)))
    ok = {"assert": e, "skip": {"message": e}}
    if kind == "ValueFunction":
        full = {"preconditions": [ok], "locals": {"l": e, "n": {"m": [e]}}, "return": {"r": e, "n": {"m": e, "l": [e, {"x": e}]}}}
    elif kind == "ResourceFunction":
        full = {"preconditions": [ok], "postconditions": [ok], "locals": {"l": e},
                "apiConfig": {"apiVersion": "v1", "kind": "Thing", "name": draw(st.sampled_from([e, "n"])), "namespace": draw(st.sampled_from([e, "ns"]))},
                "overlays": [{"overlay": {"o": e}}, {"overlay": {"o": 1}, "skipIf": e}, {"overlayRef": {"kind": "ValueFunction", "name": "fn-a"}, "inputs": {"a": e}, "skipIf": e}],
                "create": {"enabled": True, "overlay": {"c": {"d": e}}}, "return": {"r": e}}
        full.update(draw(st.sampled_from([{"resource": {"spec": e}}, {"resourceTemplateRef": {"name": e}}])))
    elif kind == "Workflow":
        full = {"steps": [{"label": "alpha", "ref": {"kind": "ValueFunction", "name": "fn-a"}, "inputs": {"a": 1}},
                          {"label": "beta", "ref": {"kind": "ValueFunction", "name": "fn-a"}, "inputs": {"a": e}, "skipIf": e, "forEach": {"itemIn": e, "inputKey": "a"},
                           "state": {"s": e}},
                          {"label": "gamma", "refSwitch": {"switchOn": e, "cases": [{"case": "x", "kind": "ValueFunction", "name": "fn-a", "default": True}]}, "inputs": {"a": e}}]}
        if draw(st.booleans()):
            for key in draw(st.lists(st.sampled_from(["inputs", "skipIf", "forEach", "state"]), max_size=3)):
                full["steps"][1].pop(key, None)
    elif kind == "FunctionTest":
        full = {"functionRef": {"kind": "ResourceFunction", "name": draw(st.sampled_from(["rf-dyn", "rf-gen", "rf-a"]))}, "inputs": draw(st.sampled_from([{}, {"a": 1}, {"t": e}, {"t": "tmpl-a"}])),
                "testCases": [{"overlayResource": {"o": e, "n": {"m": [e]}}, "expectDelete": True}, {"inputOverrides": {"t": e, "a": 5}, "expectOutcome": {"retry": {"message": e, "delay": 0}}}]}
    else:
        full = {"template": {"apiVersion": "v1", "kind": "Thing", "spec": e}, "context": {"c": e}}
    return full


def _locals_case(e, name_e):
    return {"apiConfig": {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "plural": "widgets", "name": "n", "namespace": "ns"}, "locals": {"l": e},
            "resourceTemplateRef": {"name": name_e}}


def strategies(tier):
    valid = cases(of_kinds(schemagen.valid, BUSY))
    rough = cases(of_kinds(lambda k: schemagen.valid(k, True), BUSY))
    mutated = cases(of_kinds(lambda k: schemagen.valid(k).flatmap(schemagen.mutated), BUSY))
    arbitrary = cases(of_kinds(lambda k: st.one_of(
        schemagen.odd(), gens.json_values(max_leaves=12),
        st.dictionaries(st.sampled_from(sorted(schemagen.SCHEMAS[k]["properties"])), st.one_of(schemagen.odd(), gens.json_values(max_leaves=5)), max_size=5))))
    located = st.builds(lambda e, n, ins: {"kind": "FunctionTest", "spec": {"functionRef": {"kind": "ResourceFunction", "name": "rf-gen"}, "inputs": ins,
                        "testCases": [{"inputOverrides": {"a": 1}, "expectDelete": False}]}, "vf": None, "rf": _locals_case(e, n)},
                        schemagen.good_expr(), schemagen.good_expr(), gens.mild_maps())
    expr = st.one_of(cases(of_kinds(expression_everywhere, BUSY)), cases(of_kinds(expression_everywhere, BUSY)), located)
    loaded = st.builds(lambda case, ops: {**case, "yaml": ops}, cases(of_kinds(lambda k: schemagen.valid(k, True), BUSY)),
                       st.lists(st.tuples(st.integers(0, 40), st.sampled_from(["rename", "add", "value"]), st.integers(0, 30), st.integers(0, 30)), min_size=1, max_size=3))
    return {"valid": valid, "rough": rough, "mutated": mutated, "arbitrary": arbitrary, "expr": expr, "yaml": loaded}


# What a YAML file may hold and JSON may not. Cases only name them, so that they stay JSON.
YAML_KEYS = [1, 0, -3, True, False, None, 1.5, 10**30, datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5)]
YAML_VALUES = [datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc),
               b"bytes", {"a", "set"}, float("nan"), float("inf")]


def from_yaml(spec, ops):
    """the spec with some keys and values replaced by what only YAML has"""
    spec = copy.deepcopy(spec)

    def parts(value):
        yield value
        for sub in value.values() if isinstance(value, dict) else value if isinstance(value, list) else ():
            yield from parts(sub)

    for at, what, choice, extra in ops:
        containers = [c for c in parts(spec) if isinstance(c, (dict, list))]
        # The CEL library can not hold a map with both "" and 0 (they hash alike).
        maps = [c for c in containers if isinstance(c, dict) and "" not in c]
        if what == "value" and containers:
            into = containers[at % len(containers)]
            if into:
                into[list(into)[extra % len(into)] if isinstance(into, dict) else extra % len(into)] = YAML_VALUES[choice % len(YAML_VALUES)]
        elif what == "rename" and any(maps):
            into = [m for m in maps if m][at % len([m for m in maps if m])]
            into[YAML_KEYS[choice % len(YAML_KEYS)]] = into.pop(list(into)[extra % len(into)])
        elif maps:
            maps[at % len(maps)][YAML_KEYS[choice % len(YAML_KEYS)]] = [1, "x", "=inputs.a", {"a": 1}, None, []][extra % 6]
    return spec


def enumerate_cases(tier):
    """Every kind offered the plainest wrong things, at the top and in each field."""
    out = []
    for kind in KINDS:
        for spec in (None, True, 0, 1.5, "", "x", [], [1], {}, {"": None}, 2**70, "=1"):
            out.append({"kind": kind, "spec": spec, "vf": None, "rf": None})
        for field in schemagen.SCHEMAS[kind]["properties"]:
            for bad in (None, True, 3, "x", [], {}, [None], [[]], [3], {"x": None}, 2**63, -(2**64)):
                base = copy.deepcopy(BASE[kind])
                base[field] = bad
                out.append({"kind": kind, "spec": base, "vf": None, "rf": None})
            base = copy.deepcopy(BASE[kind])
            if field in base:
                del base[field]
                out.append({"kind": kind, "spec": base, "vf": None, "rf": None})
        for depth in (80, 400):
            for nest in (schemagen.nest_list, schemagen.nest_map):
                for field in schemagen.SCHEMAS[kind]["properties"]:
                    base = copy.deepcopy(BASE[kind])
                    base[field] = {"k": nest(depth)}
                    out.append({"kind": kind, "spec": base, "vf": None, "rf": None})
    for n in (1.0, 2.0**40, -3.0, 2**63 - 1, 2**63, -(2**63), -(2**63) - 1, 0, True, "5", None, 1.5):
        for assertion in ({"retry": {"message": "m", "delay": n}}, {"ok": {}, "x": n}):
            out.append({"kind": "FunctionTest", "spec": {"functionRef": {"kind": "ValueFunction", "name": "fn-a"}, "testCases": [{"expectOutcome": assertion}]}, "vf": None, "rf": None})
        for kind in ("ValueFunction", "ResourceFunction"):
            spec = copy.deepcopy(BASE[kind])
            spec["preconditions"] = [{"assert": "=false", "retry": {"message": "m", "delay": n}}]
            out.append({"kind": kind, "spec": spec, "vf": None, "rf": None})
        for field in ("create", "update"):
            spec = copy.deepcopy(BASE["ResourceFunction"])
            spec[field] = {"create": {"delay": n}, "update": {"patch": {"delay": n}}}[field]
            out.append({"kind": "ResourceFunction", "spec": spec, "vf": None, "rf": None})
    return out


BASE = {
    "ValueFunction": {"preconditions": [{"assert": "=true", "skip": {"message": "m"}}], "locals": {"a": 1}, "return": {"b": "=locals.a"}},
    "ResourceFunction": {"preconditions": [{"assert": "=true", "skip": {"message": "m"}}], "apiConfig": {"apiVersion": "v1", "kind": "Thing", "name": "n", "namespace": "ns"},
                         "resource": {"a": 1}, "overlays": [{"overlay": {"a": 1}}], "return": {"b": 1}},
    "ResourceTemplate": {"context": {"a": 1}, "template": {"apiVersion": "v1", "kind": "Thing"}},
    "Workflow": {"steps": [{"label": "alpha", "ref": {"kind": "ValueFunction", "name": "fn-a"}, "inputs": {"a": 1}}]},
    "FunctionTest": {"functionRef": {"kind": "ResourceFunction", "name": "rf-a"}, "inputs": {"a": 1}, "currentResource": {"a": 1},
                     "testCases": [{"expectReturn": {"a": 1}}]},
}


class Watch:
    """What is called while a definition is prepared: compiling, looking up."""

    CODES = {}

    def __init__(self):
        self.calls = []
        if not Watch.CODES:
            import functools
            for label, fn in (("compile", celpy.Environment.compile), ("program", celpy.Environment.program), ("get_resource_from_cache", cache.get_resource_from_cache),
                              ("get_resource_system_data_from_cache", getattr(cache, "get_resource_system_data_from_cache", None))):
                if fn is not None:
                    Watch.CODES[fn.__code__] = label

    def __enter__(self):
        codes, calls = Watch.CODES, self.calls

        def profile(frame, event, arg):
            if event == "call" and frame.f_code in codes:
                calls.append(codes[frame.f_code])

        sys.setprofile(profile)
        return self

    def __exit__(self, *exc):
        sys.setprofile(None)


def where(err):
    """innermost frame within koreo"""
    at = "?"
    for frame in traceback.extract_tb(err.__traceback__):
        if "/koreo/" in frame.filename:
            at = f"{frame.filename.split('/koreo/')[-1]}:{frame.name}"
    return at


KNOWN = "(locals of the Function under test fail) "


def locals_fail(kind, spec, err):
    """The listed finding: what the template name is made from raises for the
    inputs of some test case, and that is the very exception which escapes."""
    if kind != "FunctionTest":
        return ""
    try:
        function = cache.get_resource_from_cache(resource_class=kit.ResourceFunction, cache_key=spec["functionRef"]["name"])
        if spec["functionRef"]["kind"] != "ResourceFunction" or "name" not in function.crud_config.resource_template._fields:
            return ""
        inputs = [spec.get("inputs") or {}]
        inputs += [t.get("inputOverrides") or {} for t in spec.get("testCases", ())]
        inputs += [merged(inputs[0], over) for over in inputs[1:]]
    except Exception:
        return ""
    for some in inputs:
        try:
            function.local_values.evaluate({"inputs": celpy.json_to_cel(some)})
        except Exception as same:
            if type(same) is type(err):
                return KNOWN
    return ""


def merged(base, over):
    if not (isinstance(base, dict) and isinstance(over, dict)):
        return over
    return base | {k: merged(base.get(k), v) for k, v in over.items()}


def known_match(case, message):
    if message.startswith(f"C20: {KNOWN}preparing FunctionTest raised"):
        return "C20-functiontest-locals"
    return None


def outcome_ok(kind, got, what, spec):
    if isinstance(got, (result.PermFail, result.Retry)):
        check(isinstance(got.message, str) and got.message.strip(), f"{what}: {type(got).__name__} without a message", spec=spec)
        return type(got).__name__
    check(isinstance(got, kit.PREPARERS[kind][0]), f"{what} returned neither a prepared {kind} nor PermFail/Retry: {type(got).__name__} {got!r:.300}", spec=spec)
    return "prepared"


def refers_to_itself(spec):
    for step in spec["steps"]:
        for ref in [step.get("ref") or {}] + (step.get("refSwitch") or {}).get("cases", []):
            if ref.get("kind") == "Workflow" and ref.get("name") in ("the-definition", "wf-back", "wf-between"):
                return True
    return False


async def _run(case, rec):
    kind, spec = case["kind"], case["spec"]
    if case.get("yaml"):
        spec = from_yaml(spec, case["yaml"])
    cls, preparer = kit.PREPARERS[kind]
    library = list(LIBRARY)
    if case.get("vf") is not None:
        library.append(("ValueFunction", "vf-gen", case["vf"]))
    if case.get("rf") is not None:
        library.append(("ResourceFunction", "rf-gen", case["rf"]))
    for k, name, lib_spec in library:
        try:
            await kit.offer(k, name, lib_spec)
        except Exception as err:
            fail(f"preparing {k} raised {type(err).__name__} at {where(err)}: {err!s:.300}", spec=lib_spec)
    bad = schemagen.violates(kind, spec)
    watch = Watch()
    try:
        with watch:
            got = await preparer("the-definition", copy.deepcopy(spec))
    except (Violation, HarnessError):
        raise
    except Exception as err:
        fail(f"{locals_fail(kind, spec, err)}preparing {kind} raised {type(err).__name__} at {where(err)}: {err!s:.300}", spec=spec)
    if result.is_unwrapped_ok(got):
        check(isinstance(got, tuple) and len(got) == 2, f"prepare_{kind} returned {got!r:.300}", spec=spec)
        direct = outcome_ok(kind, got[0], f"preparing {kind}", spec)
        check(direct == "prepared", f"{kind}: a failure returned as if it was prepared: {got[0]!r:.300}", spec=spec)
    else:
        direct = outcome_ok(kind, got, f"preparing {kind}", spec)
    if bad:
        check(direct == "PermFail", f"{kind} violates its schema but was {direct}", spec=spec)
        check(not watch.calls, f"{kind} violates its schema but was processed further: {sorted(set(watch.calls))}", spec=spec)
    before = copy.deepcopy(spec)
    watch = Watch()
    try:
        with watch:
            cached = await kit.cache.prepare_and_cache(resource_class=cls, preparer=preparer, metadata={"name": "the-definition", "resourceVersion": "1"}, spec=spec)
    except (Violation, HarnessError):
        raise
    except Exception as err:
        fail(f"prepare_and_cache of {kind} raised {type(err).__name__} at {where(err)}: {err!s:.300}", spec=spec)
    check(before == spec, f"prepare_and_cache changed the {kind} spec it was given", spec=before)
    via = outcome_ok(kind, cached, f"prepare_and_cache of {kind}", spec)
    if direct == "prepared" and kind == "Workflow" and refers_to_itself(spec):
        rec.tag("cyclic")
        check(via == "PermFail", f"a Workflow which refers to itself was {via}", spec=spec)
        direct = via
    check(via == direct, f"{kind}: prepared directly: {direct}; through the cache: {via}", spec=spec)
    check(cache.get_resource_from_cache(resource_class=cls, cache_key="the-definition") is cached or direct != "prepared", f"{kind} is not in the cache after it was prepared")
    if bad and not case.get("rf") and not case.get("vf"):
        check("compile" not in watch.calls, f"{kind} violates its schema but was processed further", spec=spec)
    rec.nt(bad or "compile" in watch.calls)
    rec.tag(kind, f"{kind}:{'violating' if bad else direct}")


def run(case, rec):
    kit.run(_run, case, rec)
