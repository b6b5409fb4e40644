"""C11: literals in definitions reach results and payloads unchanged."""
import re

from hypothesis import strategies as st

import gens
import kit
from cluster import Cluster
from core import check, dumps, fail

ID = "C11"
RULE = (
    "case = a literal block placed at one of 11 sites (VF return/locals, resource, overlay, overlayRef "
    "inputs, create.overlay, template, step inputs with and without dependencies, state, precondition-free sub blocks); non-trivial = "
    "contains a string needing quoting care, a numeral string, a large int/float, or an exotic key"
)
ASSUMPTIONS = [
    "strings that are almost numerals ('.5', '5.', '+'-signed exponent, leading zeros) may be delivered either way",
    "numeral strings outside int64 / double range are not generated (no such number can be delivered)",
]
COUNT = {"quick": {"any": 2900, "bulk": 50}, "thorough": {"any": 60000, "bulk": 1500}}

SITES = [
    "vf_return", "vf_return_list", "vf_locals", "resource", "overlay", "overlay_ref_inputs",
    "create_overlay", "template", "step_inputs", "step_inputs_dep", "state",
    "vf_return_top", "vf_return_mixed", "resource_top", "overlay_ref_return", "overlay_chain",
    "patch", "sub_workflow_inputs", "for_each_inputs", "switch_case_inputs", "resource_mixed",
]

NUMERAL = re.compile(r"-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE]-?[0-9]+)?\Z")
MAYBE = re.compile(r"-?[0-9]*\.?[0-9]*(?:[eE][+-]?[0-9]+)?\Z")


def numeral_range_ok(s):
    try:
        f = float(s)
    except ValueError:
        return True
    if f in (float("inf"), float("-inf")):
        return not MAYBE.match(s)
    if re.match(r"-?[0-9]+\Z", s):
        return -(2**63) <= int(s) < 2**63
    return True


def ok_text(s):
    if s.startswith("="):
        return False
    return numeral_range_ok(s)


TEXT = st.one_of(gens.TEXT, st.sampled_from(gens.NUMERALS)).filter(ok_text)
KEYS = st.one_of(gens.IDENT, gens.TEXT).filter(lambda k: not k.startswith("x-koreo-"))
SCALARS = st.one_of(st.none(), st.booleans(), gens.INTS, gens.FLOATS, TEXT, TEXT)
VALUE = gens.json_values(SCALARS, keys=KEYS, max_leaves=7)


@st.composite
def bulks(draw):
    """long text, long lists, wide and deep maps"""
    how = draw(st.sampled_from(["text", "list", "wide", "deep", "lines"]))
    n = draw(st.integers(12, 90))
    part = draw(VALUE)
    if how == "text":
        return draw(st.sampled_from(["t", " ", "\\", '"', "\n"])) + "".join(draw(st.lists(st.sampled_from(["word ", '"', "\\", "\n", "é", "'", "=", "{x}", "7"]), min_size=4, max_size=12))) * n + "."
    if how == "lines":
        return "\n".join(f"line {i}: \\ \"{i}\"" for i in range(n)) + draw(st.sampled_from(["", "\n", '"', "\\"]))
    if how == "list":
        return [*[i if n % 2 else f"v{i}" for i in range(n)], part]
    if how == "wide":
        return {**{f"k{i}": i for i in range(n)}, "part": part}
    for i in range(6 + n % 14):
        part = [part] if i % 3 == 2 else {"n": part}
    return part


def strategies(tier):
    def case(value):
        return st.fixed_dictionaries({"site": st.sampled_from(SITES), "value": value})

    return {"any": case(VALUE), "bulk": case(bulks())}


def matches(expected, actual):
    """Literal `expected` was delivered as `actual`?"""
    if isinstance(expected, bool) or expected is None:
        return expected is actual
    if isinstance(expected, str):
        if NUMERAL.match(expected):
            want = float(expected)
            if isinstance(actual, bool) or not isinstance(actual, (int, float)):
                return False
            if re.match(r"-?[0-9]+\Z", expected):
                return isinstance(actual, int) and actual == int(expected)
            return float(actual) == want
        if isinstance(actual, str):
            return actual == expected
        if MAYBE.match(expected) and any(c.isdigit() for c in expected):
            try:
                return not isinstance(actual, bool) and float(actual) == float(expected)
            except (TypeError, ValueError):
                return False
        return False
    if isinstance(expected, int):
        return isinstance(actual, int) and not isinstance(actual, bool) and actual == expected
    if isinstance(expected, float):
        return isinstance(actual, (int, float)) and not isinstance(actual, bool) and float(actual) == expected
    if isinstance(expected, list):
        return isinstance(actual, list) and len(actual) == len(expected) and all(map(matches, expected, actual))
    if isinstance(expected, dict):
        return (
            isinstance(actual, dict)
            and set(actual) == set(expected)
            and all(matches(v, actual[k]) for k, v in expected.items())
        )
    raise AssertionError(type(expected))


def matches_template(expected, actual):
    """Templates never pass through expression text: exact, numeral strings
    are accepted both ways."""
    if isinstance(expected, str):
        return actual == expected or matches(expected, actual)
    if isinstance(expected, list):
        return isinstance(actual, list) and len(actual) == len(expected) and all(map(matches_template, expected, actual))
    if isinstance(expected, dict):
        return isinstance(actual, dict) and set(actual) == set(expected) and all(
            matches_template(v, actual[k]) for k, v in expected.items()
        )
    return matches(expected, actual)


def walk(v):
    if isinstance(v, dict):
        for k, x in v.items():
            yield ("key", k)
            yield from walk(x)
    elif isinstance(v, list):
        for x in v:
            yield from walk(x)
    else:
        yield ("leaf", v)


PLAIN = re.compile(r"[A-Za-z][A-Za-z0-9_ ]*\Z")


def classify(case, rec):
    rec.tag(f"site:{case['site']}")
    for what, v in walk(case["value"]):
        if isinstance(v, str) and not PLAIN.match(v):
            rec.nt()
            rec.tag("quoted-key" if what == "key" else ("numeral" if NUMERAL.match(v) else "hard-string"))
        if isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) > 2**31:
            rec.nt()
            rec.tag("large-number")
        if v is None:
            rec.tag("null")


async def vf(spec, inputs=None):
    fn = await kit.prepare_ok("ValueFunction", "fn", spec)
    return await kit.sut(
        kit.reconcile_value_function("loc", fn, kit.cel(inputs or {})), "reconcile_value_function"
    )


def value_of(outcome, what):
    check(kit.is_value(outcome), f"literal {what} did not evaluate: {outcome}")
    return kit.plain(outcome)


async def payload_of(spec, inputs=None, offers=()):
    for kind, name, s in offers:
        await kit.offer_ok(kind, name, s)
    fn = await kit.prepare_ok("ResourceFunction", "fn", spec)
    api = Cluster()
    got = await kit.sut(
        kit.reconcile_resource_function(
            api=api, location="loc", function=fn, owner=kit.owner("elsewhere"), inputs=kit.cel(inputs or {})
        ),
        "reconcile_resource_function",
    )
    posts = [c for c in api.log if c.method == "POST"]
    check(len(posts) == 1, f"expected one create, saw {api.log}; outcome {got.outcome}")
    return posts[0].payload


async def workflow(steps, trigger=None):
    wf = await kit.prepare_ok("Workflow", "wf", {"steps": steps})
    return await kit.sut(
        kit.reconcile_workflow(
            api=Cluster(), workflow_key="wf", owner=kit.owner(), trigger=kit.cel(trigger or {}), workflow=wf
        ),
        "reconcile_workflow",
    )


def run(case, rec):
    classify(case, rec)
    kit.run(drive, case)


async def drive(case):
    site, v = case["site"], case["value"]
    compare = matches
    if site == "vf_return":
        got = value_of(await vf({"return": {"v": v}}), "return")["v"]
    elif site == "vf_return_list":
        got = value_of(await vf({"return": {"v": [v, {"k": v}]}}), "return")["v"]
        v = [v, {"k": v}]
    elif site == "vf_locals":
        got = value_of(await vf({"locals": {"v": v}, "return": {"v": "=locals.v"}}), "locals")["v"]
    elif site == "resource":
        got = (await payload_of({"apiConfig": kit.api_config(), "resource": {"spec": {"v": v}}}))["spec"]["v"]
    elif site == "overlay":
        got = (
            await payload_of(
                {"apiConfig": kit.api_config(), "resource": {"spec": {"w": 1}}, "overlays": [{"overlay": {"spec": {"v": v}}}]}
            )
        )["spec"]["v"]
    elif site == "vf_return_top":
        v = v if isinstance(v, dict) and v else {"k": v}
        got = value_of(await vf({"return": v}), "return")
    elif site == "vf_return_mixed":
        got = value_of(await vf({"return": {"e": "=1 + 1", "v": v, "f": ["=inputs.q", v]}}, {"q": "qq"}), "return")
        check(got.get("e") == 2 and isinstance(got.get("f"), list) and len(got["f"]) == 2 and got["f"][0] == "qq",
              "neighbouring expressions were disturbed by a literal", got=got)
        check(matches(v, got["f"][1]), "literal in a list next to an expression was changed", wrote=v, got=got["f"][1])
        got = got["v"]
    elif site == "resource_top":
        v = v if isinstance(v, dict) else {"k": v}
        got = (await payload_of({"apiConfig": kit.api_config(), "resource": {"spec": v}}))["spec"]
    elif site == "resource_mixed":
        got = (await payload_of(
            {"apiConfig": kit.api_config(), "resource": {"spec": {"a": "=inputs.q", "v": v, "z": ["=inputs.q"]}}}, {"q": "qq"}
        ))["spec"]
        check(got.get("a") == "qq" and got.get("z") == ["qq"], "neighbouring expressions were disturbed", got=got)
        got = got["v"]
    elif site == "overlay_ref_return":
        v = v if isinstance(v, dict) and v else {"k": v}
        got = (
            await payload_of(
                {
                    "apiConfig": kit.api_config(),
                    "resource": {"spec": {"w": 1}},
                    "overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "ov"}}],
                },
                offers=[("ValueFunction", "ov", {"return": {"spec": {"v": v}}})],
            )
        )["spec"]["v"]
    elif site == "overlay_chain":
        got = (
            await payload_of(
                {
                    "apiConfig": kit.api_config(),
                    "resource": {"spec": {"w": 1, "m": {"a": "old", "keep": "x"}}},
                    "overlays": [
                        {"overlay": {"spec": {"m": {"a": v, "n": "=resource.spec.w"}}}},
                        {"overlay": {"spec": {"v": "=resource.spec.m.a"}}},
                    ],
                }
            )
        )["spec"]
        check(matches(v, got["m"]["a"]), "overlay literal was changed", wrote=v, got=got["m"]["a"])
        got = got["v"]
    elif site == "patch":
        spec = {
            "apiConfig": kit.api_config(),
            "resource": {"spec": {"w": "new"}},
            "overlays": [{"overlay": {"spec": {"v": v}}}],
        }
        fn = await kit.prepare_ok("ResourceFunction", "fn", spec)
        api = Cluster()
        version, plural, _ = kit.KINDS["Widget"]
        api.put({"apiVersion": version, "kind": "Widget", "metadata": {"name": "thing", "namespace": "ns-one"},
                 "spec": {"w": "old"}}, plural)
        out = await kit.sut(
            kit.reconcile_resource_function(api=api, location="loc", function=fn, owner=kit.owner("elsewhere"), inputs=kit.cel({})),
            "reconcile_resource_function",
        )
        patches = [c for c in api.log if c.method == "PATCH"]
        check(len(patches) == 1, f"expected one patch, saw {api.log}; outcome {out.outcome}")
        got = patches[0].payload["spec"]["v"]
    elif site == "overlay_ref_inputs":
        got = (
            await payload_of(
                {
                    "apiConfig": kit.api_config(),
                    "resource": {"spec": {"w": 1}},
                    "overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "inputs": {"v": v}}],
                },
                offers=[("ValueFunction", "ov", {"return": {"spec": {"v": "=inputs.v"}}})],
            )
        )["spec"]["v"]
    elif site == "create_overlay":
        got = (
            await payload_of(
                {"apiConfig": kit.api_config(), "resource": {"spec": {"w": 1}}, "create": {"overlay": {"spec": {"v": v}}}}
            )
        )["spec"]["v"]
    elif site == "template":
        version = kit.KINDS["Widget"][0]
        got = (
            await payload_of(
                {"apiConfig": kit.api_config(), "resourceTemplateRef": {"name": "tmpl"}},
                offers=[("ResourceTemplate", "tmpl", {"template": {"apiVersion": version, "kind": "Widget", "spec": {"v": v}}})],
            )
        )["spec"]["v"]
        compare = matches_template
    else:
        await kit.offer_ok("ValueFunction", "echo", {"return": {"v": "=inputs.v"}})
        await kit.offer_ok("ValueFunction", "one", {"return": {"n": 1}})
        ref = {"kind": "ValueFunction", "name": "echo"}
        if site == "step_inputs":
            res = await workflow([{"label": "echo_it", "ref": ref, "inputs": {"v": v}, "state": {"v": "=value.v"}}])
        elif site == "sub_workflow_inputs":
            await kit.offer_ok("Workflow", "sub", {"steps": [
                {"label": "inner", "ref": ref, "inputs": {"v": "=parent.v"}, "state": {"v": "=value.v"}}]})
            res = await workflow([{"label": "echo_it", "ref": {"kind": "Workflow", "name": "sub"},
                                   "inputs": {"v": v}, "state": {"v": "=value.v"}}])
        elif site == "for_each_inputs":
            res = await workflow([{"label": "echo_it", "ref": ref, "inputs": {"v": v},
                                   "forEach": {"itemIn": "=[1, 2]", "inputKey": "item"},
                                   "state": {"v": "=value[0].v", "w": "=value[1].v"}}])
            check(kit.is_value(res.result), f"workflow with literal did not succeed: {res.result}")
            both = kit.plain(res.state)
            check(compare(v, both.get("w", "<<missing>>")), "literal changed on second iteration", wrote=v, got=both)
        elif site == "switch_case_inputs":
            res = await workflow([{"label": "echo_it",
                                   "refSwitch": {"switchOn": "='a'", "cases": [{"case": "a", **ref}]},
                                   "inputs": {"v": v}, "state": {"v": "=value.v"}}])
        elif site == "step_inputs_dep":
            res = await workflow(
                [
                    {"label": "first", "ref": {"kind": "ValueFunction", "name": "one"}},
                    {"label": "echo_it", "ref": ref, "inputs": {"v": v, "d": "=steps.first.n"}, "state": {"v": "=value.v"}},
                ]
            )
        else:
            res = await workflow(
                [{"label": "first", "ref": {"kind": "ValueFunction", "name": "one"}, "state": {"v": v}}]
            )
        check(kit.is_value(res.result), f"workflow with literal did not succeed: {res.result}")
        check(not res.state_errors, f"state errors {res.state_errors}")
        got = kit.plain(res.state).get("v", "<<missing>>")
    check(compare(v, got), f"literal at {site} was changed", wrote=v, got=got)
