"""C18: FunctionTest cases chain sequentially; variants and skips leave no trace."""
import copy
import dataclasses
import random

import celpy
from hypothesis import strategies as st

import ft
import kit
from core import check, dumps, fail, strict_eq

from koreo import result

result_types = (result.Ok, result.Skip, result.DepSkip, result.Retry, result.PermFail)
ID = "C18"
RULE = (
    "case = (ValueFunction or ResourceFunction program, base inputs / resource, 1-20 test cases with inputOverrides / currentResource / overlayResource, variant and skip flags, "
    "an assertion of any kind that is true or false for what the Function does by itself in the state the previous non-variant cases leave); compared with that chain, with the runs "
    "without variants, without skips, with variants swapped and repeated, with a second run of the same FunctionTest, and the Function and the fixtures before and after; "
    "non-trivial = at least one variant or skipped case is followed by another case, or state was carried over"
)
ASSUMPTIONS = [
    "messages are compared without the position `testCases[i]`",
    "what a patch leaves is compared only where merging and replacing agree (live objects have nothing extra below the top level)",
    "a case that overlays an absent resource, and overlays that do not evaluate, are not generated (setup errors)",
]
COUNT = {"quick": {"vf": 45, "rf": 60}, "thorough": {"vf": 1100, "rf": 1500}}


def test_cases(rf):
    cur = st.one_of(st.none(), st.none(), st.none(), ft.lives())
    over = st.one_of(st.none(), st.none(), ft.overrides())
    return st.fixed_dictionaries({
        "over": over, "cur": cur, "ovl": st.one_of(st.none(), st.none(), st.none(), ft.live_overlays()), "variant": st.sampled_from([False, False, True]),
        "skip": st.sampled_from([False, False, False, False, True]), "pick": st.integers(0, 999), "wrong": st.sampled_from([False] * 7 + [True]), "stop": st.sampled_from([False] * 11 + [True])})


def strategies(tier):
    def make(programs, rf):
        case = test_cases(rf)
        return st.fixed_dictionaries({
            "program": programs, "inputs": st.one_of(ft.inputs_maps(), ft.inputs_maps(), ft.inputs_maps(), st.none()),
            "resource": st.one_of(st.none(), ft.lives()), "cases": st.one_of(st.lists(case, min_size=1, max_size=6), st.lists(case, min_size=3, max_size=10), st.lists(case, min_size=8, max_size=20)),
            "seed": st.integers(0, 2**20)})

    return {"vf": make(ft.vf_programs(), False), "rf": make(ft.rf_programs(), True)}


FULL = {"n": 1, "m": {"a": 1}, "l": [1], "name": "thing", "mode": ""}


def spec_for(program, inputs, resource, cases):
    kind = "ValueFunction" if program["kind"] == "VF" else "ResourceFunction"
    spec = {"functionRef": {"kind": kind, "name": "fut"}, "testCases": []}
    if inputs is not None:
        spec["inputs"] = copy.deepcopy(inputs)
    if resource is not None:
        spec["currentResource"] = copy.deepcopy(resource)
    for c in cases:
        tc = {"label": c["label"], "variant": c["variant"], "skip": c["skip"], **copy.deepcopy(c["assertion"])}
        if c["over"]:
            tc["inputOverrides"] = copy.deepcopy(c["over"])
        if c["cur"]:
            tc["currentResource"] = copy.deepcopy(c["cur"])
        if c["ovl"]:
            tc["overlayResource"] = copy.deepcopy(c["ovl"])
        spec["testCases"].append(tc)
    return spec


async def run_test(program, inputs, resource, cases):
    test = await kit.prepare_ok("FunctionTest", "the-ft", spec_for(program, inputs, resource, cases))
    return test, await report(test)


async def report(test):
    got = await kit.sut(kit.run_function_test(location=ft.LOC, function_test=test), "running the FunctionTest")
    return [ft.report_view(r) for r in got.test_results], got.fatal_error


def fixtures(test):
    """All the plain data a prepared FunctionTest holds, whatever it is called."""
    return view(test, 0)


def view(value, depth):
    if depth > 40:
        return "..."
    if isinstance(value, (kit.ValueFunction, kit.ResourceFunction)):
        return "function"  # judged by what it does
    if isinstance(value, result_types):
        return ft.outcome_view(value)
    if isinstance(value, tuple) and hasattr(value, "_fields"):
        return [type(value).__name__, {k: view(getattr(value, k), depth + 1) for k in value._fields}]
    if isinstance(value, dict):
        return {str(k): view(v, depth + 1) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [view(v, depth + 1) for v in value]
    if value is None or isinstance(value, (bool, int, float, str, bytes)):
        return kit.plain(value)
    if dataclasses.is_dataclass(value):
        return [type(value).__name__, {f.name: view(getattr(value, f.name), depth + 1) for f in dataclasses.fields(value)}]
    return type(value).__name__


def same(a, b, what, **ctx):
    if not strict_eq(a, b):
        fail(what, before=a, after=b, **ctx)


async def _run(case, rec):
    program = case["program"]
    rng = random.Random(case["seed"])
    rf = program["kind"] == "RF"
    function = await ft.setup(program)
    model_function = await ft.fresh(program)  # the same definition, never given to a FunctionTest
    inputs, resource = case["inputs"], case["resource"]
    cases = []
    expected = []
    state_inputs, state_resource = inputs, resource
    carried = False
    has_resource = []
    for i, c in enumerate(case["cases"]):
        c = dict(c, label=f"case {i:02d}" + (" variant" if c["variant"] else ""))
        if i == 0 and inputs is None and not c["skip"]:
            c["over"] = FULL | (c["over"] or {})
            c["variant"] = False
            c["label"] = "case 00"
        has_resource.append(bool(state_resource))
        if c["cur"] and c["ovl"]:
            c["ovl"] = None
        if c["ovl"] and not state_resource and not c["skip"]:
            c["ovl"] = None
        if c["skip"]:
            c["assertion"] = {"expectOutcome": {"permFail": {"message": "never"}}}
            c["stopper"] = False
            cases.append(c)
            expected.append(None)
            continue
        now_inputs = ft.deep_overlay(state_inputs or {}, c["over"]) if c["over"] else (state_inputs or {})
        if not now_inputs:
            now_inputs = {}
        now_resource = c["cur"] or state_resource
        if c["ovl"]:
            now_resource = ft.index_overlay(state_resource, c["ovl"])
        t = await kit.sut(ft.truth(model_function, now_inputs, now_resource, f"{ft.LOC}.testCases[{i}]"), "running the Function")
        wrong = c["wrong"] and c["variant"] or c["stop"] and c["wrong"]
        pool = ft.false_assertions(t, rng, rf) if wrong else ft.true_assertions(t, rng, rf)
        c["assertion"] = pool[c["pick"] % len(pool)]
        cases.append(c)
        expected.append((not wrong, t))
        if not c["variant"]:
            if wrong:
                break
            if not strict_eq(now_inputs, state_inputs or {}) or not strict_eq(t.after or {}, state_resource or {}):
                carried = True
            state_inputs, state_resource = now_inputs, t.after
    n = len(cases)
    test, (reports, fatal) = await run_test(program, inputs, resource, cases)
    check(len(reports) == n, f"{len(reports)} of {n} test cases were run", cases=cases, reports=reports)
    for c, want, got in zip(cases, expected, reports):
        check(got["label"].endswith(c["label"]), "label", want=c["label"], got=got)
        if want is None:
            check(got["pass"] is True and got["outcome"] is None, "a skipped case was run", got=got)
            continue
        passes, t = want
        view = ft.outcome_view(t.outcome)
        if got["outcome"] is not None:
            same(view, got["outcome"], f"'{c['label']}' did not start from the state the cases before it left", case=c)
        check(got["pass"] is passes, f"'{c['label']}' {'failed' if passes else 'passed'}, but its assertion {'holds' if passes else 'does not hold'} in the state the cases before it left",
              case=c, truth=view, report=got)

    before = None
    # the same FunctionTest again: nothing it holds may have changed
    snapshot = fixtures(test)
    again, _ = await report(test)
    same(reports, again, "running the same FunctionTest again gives other results")
    same(snapshot, fixtures(test), "a test case changed the fixtures")
    untouched = await kit.prepare_ok("FunctionTest", "the-ft", spec_for(program, inputs, resource, cases))
    same(fixtures(untouched), fixtures(test), "a test case changed the fixtures")

    by_label = {r["label"]: r for r in reports}

    async def compare(other, what):
        if not other:
            return
        _, (other_reports, _) = await run_test(program, inputs, resource, other)
        check(len(other_reports) == len(other), f"{what}: {len(other_reports)} of {len(other)} cases were run")
        for r in other_reports:
            want = by_label.get(r["label"].removesuffix(" again"))
            if want is None:
                continue
            same(dict(want, label=""), dict(r, label=""), f"{what} changes the result of '{r['label']}'")

    variants = [c for c in cases if c["variant"]]
    skips = [c for c in cases if c["skip"]]
    if variants:
        await compare([c for c in cases if not c["variant"]], "removing the variants")
        if len(variants) > 1:
            gone = rng.choice(variants)
            await compare([c for c in cases if c is not gone], "removing one variant")
    if skips:
        await compare([c for c in cases if not c["skip"]], "removing the skipped cases")
    if variants:
        shuffled = []
        gap = []
        for c in cases + [None]:
            if c is not None and c["variant"]:
                gap.append(c)
                continue
            rng.shuffle(gap)
            shuffled += gap
            gap = []
            if c is not None:
                shuffled.append(c)
        await compare(shuffled, "reordering variants")
        doubled = []
        for c in cases:
            doubled.append(c)
            if c["variant"] and len(doubled) + len(cases) - cases.index(c) <= 20:
                doubled.append(dict(c, label=c["label"] + " again"))
        if len(doubled) <= 20:
            await compare(doubled, "repeating variants")
    # foreign variants anywhere but after the end
    if n < 19:
        extra = {"over": {"n": 3, "m": {"k": {"q": 1}}, "mode": rng.choice(ft.MODES), "l": [9]}, "cur": ft.live(2, {"z": 1}, "drift", {"odd": True}) if rng.random() < 0.7 else None, "ovl": None,
                 "variant": True, "skip": False, "label": "foreign variant", "assertion": rng.choice([{"expectOutcome": {"ok": {}}}, {"expectOutcome": {"retry": {"message": "", "delay": 0}}}])}
        at = rng.randrange(n)
        if has_resource[at] and rng.random() < 0.3:  # a variant which fails before the Function is run
            extra.update(cur=None, ovl={"spec": {"n": "=inputs.nope.deeper + 1", "m": {"new": 1}}})
        await compare(cases[:at] + [extra] + cases[at:], "adding a variant")

    # the Function is what it was
    probe_inputs = {"n": 2, "m": {"a": 1, "k": {"y": False}}, "l": [1, [2]], "name": "thing", "mode": ""}
    for res in (None, ft.live(1, {"a": 1}, "match", None)):
        used = await kit.sut(ft.truth(function, probe_inputs, res, plurals="widgetten"), "running the Function")
        new = await kit.sut(ft.truth(await ft.fresh(program), probe_inputs, res, plurals="widgetten"), "running the Function")
        same(ft.outcome_view(new.outcome), ft.outcome_view(used.outcome), "the Function under test behaves differently after the FunctionTest")
        same([list(c) for c in new.calls], [list(c) for c in used.calls], "the Function under test makes other API calls after the FunctionTest")
    flags = [c["variant"] or c["skip"] for c in cases]
    rec.nt(any(flags[:-1]) or (carried and n > 1))
    rec.tag(program["kind"], f"cases:{'1' if n == 1 else '2-5' if n < 6 else '6-12' if n < 13 else '13-20'}", "variants" if variants else "no variants", *(["skips"] if skips else []),
            *(["carried"] if carried else []), *(["stopped"] if fatal else []))
    for c in cases:
        if not c["skip"]:
            rec.tag("kind:" + next(iter(c["assertion"])))
    for e in expected:
        if e:
            t = e[1]
            rec.tag("did:" + ("delete" if t.deleted else "send" if t.sent is not None else t.cls))


def run(case, rec):
    kit.run(_run, case, rec)
