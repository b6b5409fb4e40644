"""C19: a FunctionTest case passes iff its assertion holds for what the Function did."""
import copy
import random

from hypothesis import strategies as st

import ft
import gens
import kit
from core import check, fail, json_eq

ID = "C19"
RULE = (
    "case = (ValueFunction or ResourceFunction program, inputs, resource); what the Function does is found by running it against a recording API, then every true assertion about it and every sampled "
    "single deviation (leaf changed or retyped, key missing / extra / renamed, list reordered / cut / extended, other class, delay or message, delete flipped, set- or map-directed lists altered) is "
    "run in a FunctionTest of its own; non-trivial = at least one expectReturn or expectResource deviation, or a non-Ok outcome, was judged"
)
ASSUMPTIONS = [
    "1 and 1.0 are the same number",
    "lists directed to be compared as sets have no duplicates, those compared as maps have unique keys",
    "what a patch leaves is compared only where merging and replacing agree (live objects have nothing extra below the top level)",
]
COUNT = {"quick": {"vf": 90, "rf": 110}, "thorough": {"vf": 1500, "rf": 1800}}
BUDGET = {"quick": 16, "thorough": 60}
SET, MAP = "x-koreo-compare-as-set", "x-koreo-compare-as-map"


DOCS = gens.json_values(keys=gens.IDENT | gens.TEXT.filter(lambda k: not k.startswith("x-koreo")), max_leaves=6)


def documents():
    """Inputs with any JSON in them."""
    return st.builds(lambda base, m, l: base | {"m": {"doc": m}, "l": l}, ft.inputs_maps(), DOCS, st.lists(DOCS, max_size=4))


def strategies(tier):
    def make(programs):
        return st.fixed_dictionaries({
            "program": programs, "inputs": st.one_of(ft.inputs_maps(), documents()), "resource": st.one_of(st.none(), ft.lives()), "cur": st.booleans(), "seed": st.integers(0, 2**24), "many": st.just(BUDGET[tier])})

    return {"vf": make(ft.vf_programs()), "rf": make(ft.rf_programs())}


# --- deviations of documents --------------------------------------------------------
def spots(doc, at=()):
    """Every position in a document."""
    yield at
    if isinstance(doc, dict):
        for k in doc:
            yield from spots(doc[k], at + (k,))
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            yield from spots(v, at + (i,))


def get(doc, at):
    for k in at:
        doc = doc[k]
    return doc


def put(doc, at, value):
    if not at:
        return value
    out = copy.deepcopy(doc)
    get(out, at[:-1])[at[-1]] = value
    return out


def drop(doc, at):
    out = copy.deepcopy(doc)
    del get(out, at[:-1])[at[-1]]
    return out


def other_values(v):
    """Values of the same or another type which are clearly not `v`."""
    if v is None:
        return ["", 0, False, {}, [], "null", "None"]
    if isinstance(v, bool):
        return [not v, int(v), str(v), str(v).lower(), None, [v], float(v)]
    if isinstance(v, int):
        return [v + 1 if v < 2**63 - 1 else v - 1, -v - 1, v ^ 1, str(v), v + 0.5, None, [v], {"v": v}] + ([bool(v)] if v in (0, 1) else [])
    if isinstance(v, float):
        return [v + 1, str(v), int(v) if abs(v) < 1e15 else 7, v / 2, None, [v]]
    if isinstance(v, str):
        out = [v + "x", v[:-1] if v else "y", None, [v], v + " "]
        if v.swapcase() != v:
            out.append(v.swapcase())
        if v == "":
            out += [False, 0, {}, []]
        for parse in (int, float):
            try:
                out.append(parse(v))
            except ValueError:
                pass
        return out
    if isinstance(v, list):
        return [None, "x", {}, dict(enumerate_str(v))] + ([[]] if v else [[None], ""])
    return [None, "x", [], [v], sorted(v)] + ([{}] if v else [{"": None}, ""])


def enumerate_str(items):
    return [(str(i), v) for i, v in enumerate(items)]


def deviations(doc, rng):
    """(what, document) for every kind of single deviation at a random choice of positions."""
    out = []
    everywhere = list(spots(doc))
    for at in everywhere:
        v = get(doc, at)
        if at:
            for o in other_values(v):
                out.append((f"{describe(v)} -> {describe(o)}", put(doc, at, o)))
            if isinstance(at[-1], str):
                out.append(("key removed", drop(doc, at)))
                renamed = {(k + "_" if k == at[-1] else k): x for k, x in get(doc, at[:-1]).items()}
                out.append(("key renamed", put(doc, at[:-1], renamed)))
                if at[-1].swapcase() != at[-1] and at[-1].swapcase() not in get(doc, at[:-1]):
                    out.append(("key's case changed", put(doc, at[:-1], {(k.swapcase() if k == at[-1] else k): x for k, x in get(doc, at[:-1]).items()})))
        if isinstance(v, dict):
            for extra in (None, 1, "", {}, False):
                out.append(("key added", put(doc, at, v | {"extra-key": extra})))
        if isinstance(v, list):
            out.append(("item appended", put(doc, at, v + [rng.choice([None, 1, "x", {}])])))
            if v:
                out.append(("item dropped", put(doc, at, v[:-1])))
                out.append(("first item dropped", put(doc, at, v[1:])))
                out.append(("item repeated", put(doc, at, v + [copy.deepcopy(v[-1])])))
            for i in range(len(v) - 1):
                if not json_eq(v[i], v[i + 1]):
                    swapped = copy.deepcopy(v)
                    swapped[i], swapped[i + 1] = swapped[i + 1], swapped[i]
                    out.append(("items swapped", put(doc, at, swapped)))
    return [(w, d) for w, d in out if isinstance(d, dict) and d and not json_eq(d, doc)]


def describe(v):
    return "null" if v is None else f"empty {type(v).__name__}" if isinstance(v, (dict, list, str)) and not v else type(v).__name__


def directed(doc, rng):
    """(what, document, holds): the same document under compare directives, and not quite the same."""
    out = []
    for at in spots(doc):
        v = get(doc, at)
        if not isinstance(v, list) or not at or not isinstance(at[-1], str) or len(v) < 1:
            continue
        key = at[-1]
        parent = get(doc, at[:-1])
        if SET in parent or MAP in parent:
            continue

        def under(items, directive, value):
            return put(doc, at[:-1], parent | {key: items, directive: value})

        shuffled = copy.deepcopy(v)
        rng.shuffle(shuffled)
        if all(isinstance(x, str) for x in v) and len(set(v)) == len(v) or all(isinstance(x, int) and not isinstance(x, bool) for x in v) and len(set(v)) == len(v):
            odd = "not-there" if isinstance(v[0], str) else 987
            out.append(("set, shuffled", under(shuffled, SET, [key]), True))
            out.append(("set, item missing", under(shuffled[1:], SET, [key]), False))
            out.append(("set, item extra", under(shuffled + [odd], SET, [key]), False))
            out.append(("set, item changed", under([odd] + shuffled[1:], SET, [key]), False))
            out.append(("set, items retyped", under([str(x) + "0" if isinstance(x, int) else [x] for x in shuffled], SET, [key]), False))
            if not json_eq(shuffled, v):
                out.append(("set directive for another key", under(shuffled, SET, ["other"]), False))
        if all(isinstance(x, dict) and x for x in v):
            for field in v[0]:
                keys = [x.get(field, ()) for x in v]
                if all(isinstance(k, str) and "$" not in k and k.strip() == k for k in keys) and len(set(keys)) == len(keys):
                    out.append(("map, shuffled", under(shuffled, MAP, {key: [field]}), True))
                    if len(shuffled) > 1:
                        out.append(("map, item missing", under(shuffled[1:], MAP, {key: [field]}), False))
                    out.append(("map, item extra", under(shuffled + [{field: "not-there"}], MAP, {key: [field]}), False))
                    changed = copy.deepcopy(shuffled)
                    changed[0][field] = "not-there"
                    out.append(("map, key changed", under(changed, MAP, {key: [field]}), False))
                    changed = copy.deepcopy(shuffled)
                    changed[-1]["extra-key"] = None
                    out.append(("map, item's key added", under(changed, MAP, {key: [field]}), False))
                    for k in shuffled[0]:
                        if k != field:
                            changed = copy.deepcopy(shuffled)
                            changed[0][k] = rng.choice(other_values(changed[0][k]))
                            out.append(("map, item changed", under(changed, MAP, {key: [field]}), False))
                            changed = copy.deepcopy(shuffled)
                            del changed[0][k]
                            out.append(("map, item's key removed", under(changed, MAP, {key: [field]}), False))
                    if not json_eq(shuffled, v):
                        out.append(("map directive for another key", under(shuffled, MAP, {"other": [field]}), False))
    return out


def assertions(t, rng, rf):
    """(kind, what, assertion, holds)"""
    out = []
    for cls in ft.NAMES:
        if cls != t.cls:
            out.append(("outcome", "another class", ft.outcome_assertion(cls), False))
            if cls != "Ok":
                out.append(("outcome", "another class", ft.outcome_assertion(cls, t.message or "", t.delay or 0), False))
    if t.cls == "Ok":
        out.append(("outcome", "same", ft.outcome_assertion("Ok"), True))
    else:
        message = t.message or ""
        delays = [0] + ([t.delay] if t.delay else [])
        texts = {"", message, ft.ascii_swap(message), ft.piece(message, rng), ft.piece(message, rng), message[:1], message[-1:]}
        for text in sorted(texts):
            for delay in delays:
                out.append(("outcome", "same", ft.outcome_assertion(t.cls, text, delay), True))
        for text in (message + "x", "~" + message, " " + message if not message.startswith(" ") else "~", "no such text", message + message if message else "?", message[:-1] + "~" if message else "~"):
            for delay in delays:
                if text.lower() not in message.lower():
                    out.append(("outcome", "message not contained", ft.outcome_assertion(t.cls, text, delay), False))
        if t.cls == "Retry":
            for delay in {t.delay + 1, 1, 30, 60, t.delay * 2 + 1, 10 * t.delay or 10} - {t.delay, 0}:
                out.append(("outcome", "another delay", ft.outcome_assertion("Retry", "", delay), False))
                out.append(("outcome", "another delay", ft.outcome_assertion("Retry", message, delay), False))
    if t.cls == "Ok" and isinstance(t.value, dict) and t.value:
        out.append(("return", "same", {"expectReturn": t.value}, True))
        out += [("return", w, {"expectReturn": d}, False) for w, d in deviations(t.value, rng)]
        out += [("return", w, {"expectReturn": d}, h) for w, d, h in directed(t.value, rng)]
    else:
        out.append(("return", "not Ok", {"expectReturn": t.sent or t.after or {"some": "value"}}, False))
        out.append(("return", "not Ok", {"expectReturn": {"message": t.message}}, False))
        out.append(("return", "not Ok", {"expectReturn": {SET: ["nothing"]}}, t.cls == "Ok" and t.value == {}))
    if rf:
        out.append(("delete", "same", {"expectDelete": t.deleted}, True))
        out.append(("delete", "flipped", {"expectDelete": not t.deleted}, False))
        if t.sent is not None:
            out.append(("resource", "same", {"expectResource": t.sent}, True))
            out += [("resource", w, {"expectResource": d}, False) for w, d in deviations(t.sent, rng)]
            out += [("resource", w, {"expectResource": d}, h) for w, d, h in directed(t.sent, rng)]
        else:
            out.append(("resource", "nothing sent", {"expectResource": t.after or {"apiVersion": "test.koreo.dev/v1", "kind": "Widget"}}, False))
            if isinstance(t.value, dict) and t.value:
                out.append(("resource", "nothing sent", {"expectResource": t.value}, False))
    return [(k, w, copy.deepcopy(a), h) for k, w, a, h in out]


def sample(pool, many, rng):
    """All true ones (few), and false ones spread over what can be wrong."""
    true = [a for a in pool if a[3]]
    if len(true) > many:
        kinds = {}
        for a in true:
            kinds.setdefault((a[0], a[1]), []).append(a)
        true = [x for group in kinds.values() for x in rng.sample(group, min(len(group), 4))]
    groups = {}
    for a in pool:
        if not a[3]:
            groups.setdefault((a[0], a[1]), []).append(a)
    names = sorted(groups)
    rng.shuffle(names)
    false = []
    for kind, share in (("outcome", 3), ("delete", 1), ("return", many), ("resource", many)):
        mine = [n for n in names if n[0] == kind]
        for i in range(min(share, sum(len(groups[n]) for n in mine))):
            group = groups[mine[i % len(mine)]]
            if group:
                false.append(group.pop(rng.randrange(len(group))))
    return true + false


async def _run(case, rec):
    if "test" in case:
        return await explicit(case)
    program = case["program"]
    rng = random.Random(case["seed"])
    rf = program["kind"] == "RF"
    await ft.setup(program)
    inputs, resource = case["inputs"], case["resource"]
    loc = f"{ft.LOC}.testCases[0]"
    t = await kit.sut(ft.truth(await ft.fresh(program), inputs, resource, loc), "running the Function")
    rec.tag(program["kind"], "did:" + ("delete" if t.deleted else "send" if t.sent is not None else t.cls))
    documents = False
    for kind, what, assertion, holds in sample(assertions(t, rng, rf), case["many"], rng):
        rec.tag(f"{kind}: {what}")
        tc = {"label": "the case", **copy.deepcopy(assertion)}
        spec = {"functionRef": {"kind": "ResourceFunction" if rf else "ValueFunction", "name": "fut"}, "inputs": copy.deepcopy(inputs), "testCases": [tc]}
        if resource:
            (tc if case["cur"] else spec)["currentResource"] = copy.deepcopy(resource)
        got = await verdict(spec)
        if got is not holds:
            fail(f"{kind} assertion ({what}) {'holds, but fails' if holds else 'does not hold, but passes'}", assertion=assertion, truth=ft.outcome_view(t.outcome), sent=t.sent, deleted=t.deleted)
        if kind in ("return", "resource") and what not in ("same", "not Ok", "nothing sent"):
            documents = True
    rec.nt(documents or t.cls != "Ok")


async def verdict(spec):
    test = await kit.prepare_ok("FunctionTest", "the-ft", spec)
    got = await kit.sut(kit.run_function_test(location=ft.LOC, function_test=test), "running the FunctionTest")
    check(len(got.test_results) == 1, f"{len(got.test_results)} results for one test case")
    passed = got.test_results[0].test_pass
    check(passed is True or passed is False, f"verdict {passed!r}")
    return passed


async def explicit(case):
    """A known finding: {"functions": [[kind, spec]], "test": spec, "holds": bool}"""
    for kind, name, spec in case["functions"]:
        await kit.offer_ok(kind, name, copy.deepcopy(spec))
    got = await verdict(copy.deepcopy(case["test"]))
    if got is not case["holds"]:
        fail(f"assertion {'holds, but fails' if case['holds'] else 'does not hold, but passes'}", assertion=case["test"]["testCases"][0])


def run(case, rec):
    kit.run(_run, case, rec)
