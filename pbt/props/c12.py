"""C12: ordered deep merges against a reference merge; purity of evaluation."""
import copy
import itertools

from hypothesis import strategies as st

import gens
import kit
from cluster import Cluster
from core import check, strict_eq

ID = "C12"
RULE = (
    "case = base document (inline, static or dynamic ResourceTemplate, or the base handed to a ValueFunction) + up to 6 "
    "inline / ValueFunction overlays with every skipIf shape + create overlay; leaves are literals, lists, empty maps or "
    "expressions over inputs / locals / resource, every literal leaf unique; the POST payload (or return value) is compared "
    "with a reference deep merge and with a second evaluation, and inputs, base, cached template and cached spec are "
    "compared before/after; non-trivial = at least two applied layers overlap in a map at depth >= 2"
)
ASSUMPTIONS = [
    "a leaf expression that itself yields a map while a map is already there may merge or replace (not compared)",
    "overlay() with an empty map over a map may merge or replace (not compared)",
]
COUNT = {"quick": {"resource": 450, "value": 450, "function": 200}, "thorough": {"resource": 12000, "value": 12000, "function": 4000}}

LAST = "koreo.dev/last-applied-configuration"
KEYS = ["a", "b", "c", "dd", "spec", "x y", "k.x", "data", "é", "0", "items"]
INPUTS = {"n": 5, "s": "in", "flag": True, "off": False, "l": [1, "two", {"z": 3}], "m": {"p": 1, "q": {"r": "deep"}}, "nul": None, "f": 2.5,
          "e": {}, "el": [], "ll": [[1, 2], [3]], "csv": "a,b", "js": '{"j": [1]}', "up": " Up ",
          "ref": {"name": "r", "namespace": "rn", "kind": "RefKind", "apiVersion": "ref.group/v2", "extra": {"more": [1]}},
          "obj": {"apiVersion": "a.group/v1", "kind": "Obj", "metadata": {"name": "o", "namespace": "ons", "uid": "u-1"}, "status": {"conditions": [
              {"type": "Synced", "status": "False"}, {"type": "Ready", "status": "True", "reason": "UpToDate"}, {"type": "Able", "status": "True"}]}}}
# evaluated in between: nothing of it may stick
OTHER = {"n": 6, "s": "out", "flag": False, "off": True, "l": [0], "m": {"p": 3, "q": {"r": "other", "t": 1}}, "nul": 1, "f": 0.5,
         "e": {"not": "empty"}, "el": [8], "ll": [[9]], "csv": "c", "js": "[2]", "nothing": True, "up": "DOWN", "ref": {"external": "e"}, "obj": {"apiVersion": "b/v1", "kind": "O", "metadata": {"name": "x", "namespace": "y"}}}
LOCALS = {"x": "=inputs.n + 1", "ll": "=inputs.ll", "el": [[4], [5]], "m": {"w": "=inputs.s"}, "t": True}
LOCAL_VALUES = {"x": 6, "m": {"w": "in"}, "t": True}

EXPRS = {  # expression -> value (callable on the current resource when it depends on it)
    "=inputs.n": 5, "=inputs.s": "in", "=inputs.l": INPUTS["l"], "=inputs.nul": None, "=inputs.f": 2.5, "=inputs.m.q.r": "deep",
    "=inputs.flag": True, "=inputs.el": [], "=inputs.n * 2 + 1": 11, "='x' + inputs.s": "xin", "=[inputs.n, inputs.s]": [5, "in"],
    "=inputs.l.map(i, inputs.n)": [5, 5, 5], "=size(inputs.l)": 3, "=inputs.e": {}, "=inputs.m": INPUTS["m"],
    "={'k': inputs.n}": {"k": 5}, "=flatten(inputs.ll)": [1, 2, 3], "=inputs.l + [9]": [1, "two", {"z": 3}, 9],
    "=[inputs.m.overlay({'q': {'s': 1}})]": [{"p": 1, "q": {"r": "deep", "s": 1}}], "=[overlay(inputs.m, {'p': 2})]": [{"p": 2, "q": {"r": "deep"}}],
    "=inputs.csv.split(',')": ["a", "b"], "=to_json(inputs.m)": '{"p": 1, "q": {"r": "deep"}}', "=[from_json(inputs.js)]": [{"j": [1]}],
    "=flatten([inputs.l, inputs.ll])": [1, "two", {"z": 3}, [1, 2], [3]], "=[to_ref({'name': inputs.s})]": [{"name": "in"}],
    "=inputs.ll.map(x, x.map(y, y + 1))": [[2, 3], [4]], "=inputs.ll.filter(x, size(x) > 1)": [[1, 2]],
    "=[{'a': inputs.ll, 'b': inputs.m}]": [{"a": [[1, 2], [3]], "b": {"p": 1, "q": {"r": "deep"}}}], "=inputs.s.replace('i', 'o')": "on",
    "=flatten(inputs.ll.map(x, x))": [1, 2, 3],
    "=inputs.flag ? 'yes' : 'no'": "yes",
    "=config_connect_ready(inputs.obj)": True, "=[inputs.obj]": [INPUTS["obj"]], "=[self_ref(inputs.obj)]": [{'apiVersion': 'a.group/v1', 'kind': 'Obj', 'name': 'o', 'namespace': 'ons'}], "=[to_ref(inputs.ref)]": [{'apiVersion': 'ref.group/v2', 'kind': 'RefKind', 'name': 'r', 'namespace': 'rn'}],
    "=[group_ref(inputs.ref)]": [{'apiGroup': 'ref.group', 'kind': 'RefKind', 'name': 'r', 'namespace': 'rn'}], "=[kindless_ref(inputs.ref)]": [{'name': 'r', 'namespace': 'rn'}], "=inputs.up.strip(' ').lower()": "up",
    "=inputs.csv.split_last(',') + inputs.csv.split_first(',') + inputs.csv.split_index(',', 1)": "bab",
    "=b64decode(b64encode(inputs.s))": "in", "=[from_json(to_json(inputs.obj))]": [INPUTS["obj"]],
}
LOCAL_EXPRS = {"=locals.x": 6, "=locals.m.w": "in", "=locals.t": True, "=locals.m": {"w": "in"}, "=flatten(locals.ll)": [1, 2, 3], "=flatten(locals.el)": [4, 5],
               "=[overlay(locals.m, {'v': 1})]": [{"w": "in", "v": 1}], "=locals.ll": [[1, 2], [3]]}
RES_EXPRS = {
    "=has(resource.a) ? 'has-a' : 'no-a'": lambda r: "has-a" if "a" in r else "no-a",
    "=has(resource.spec) && has(resource.spec.b)": lambda r: isinstance(r.get("spec"), dict) and "b" in r["spec"],
    "=resource.probe": lambda r: r["probe"],
    "=resource.probe.deep": lambda r: r["probe"]["deep"],
    "=resource.probe.n + 1": lambda r: r["probe"]["n"] + 1,
    "=[overlay(resource.probe, {'n': 0})].map(x, x.n)": lambda r: [0],
    "=[resource.probe]": lambda r: [copy.deepcopy(r["probe"])],
    "=size(resource.probe)": lambda r: len(r["probe"]),
    "=resource.metadata.name": lambda r: r["metadata"]["name"],
}
SKIPS = {None: False, "=true": True, "=false": False, "=inputs.flag": True, "=inputs.off": False, "=inputs.n > 10": False,
         "=inputs.n == 5": True, "=locals.t": True, "=!locals.t": False, "=has(inputs.nothing)": False}


class Ambiguous(Exception):
    pass


def strategies(tier):
    size = 10 if tier == "quick" else 18
    word = st.sampled_from(KEYS)
    lits = st.one_of(
        st.just(["lit", "#"]), st.just(["lit", "#"]), st.just(["lit", "#"]), st.just(["lit", "#s"]),
        st.sampled_from([["lit", v] for v in (True, False, None, 0, "", 1.5, [], {}, [1, [2, {"a": 3}]], [{"a": 1}, {"b": {}}], {}, {})]),
        st.just(["list", ["=inputs.n", {"z": "=inputs.s", "y": []}, "plain"]]),
    )
    exprs = st.sampled_from(list(EXPRS)).map(lambda e: ["expr", e])
    locs = st.sampled_from(list(LOCAL_EXPRS)).map(lambda e: ["expr", e])
    ress = st.sampled_from(list(RES_EXPRS)).map(lambda e: ["expr", e])

    def tree(leaves):
        leaf = st.one_of(st.just(["lit", "#"]), leaves)
        # a map with many keys (some of them the ordinary ones), and a long chain of maps
        wide = st.builds(
            lambda n, extra: ["map", {**{f"w{i:02}": ["lit", "#"] for i in range(n)}, **extra}],
            st.integers(7, 40), st.dictionaries(st.one_of(word, st.sampled_from(["w01", "w05"])), leaf, max_size=3),
        )
        leaves = st.one_of(leaves, leaves, leaves, leaves, leaves, leaves, leaves, wide, st.builds(chain, st.lists(word, min_size=3, max_size=12), leaf))
        return st.dictionaries(
            word, st.recursive(leaves, lambda kids: st.dictionaries(word, kids, max_size=4).map(lambda d: ["map", d]), max_leaves=size),
            min_size=1, max_size=4,
        )

    static = tree(lits)
    dynamic = tree(st.one_of(lits, lits, exprs, locs, ress))
    with_inputs = tree(st.one_of(lits, lits, exprs, ress))
    overlay = st.fixed_dictionaries({
        "kind": st.sampled_from(["inline", "inline", "fn"]), "skip": st.sampled_from([None, None, None] + list(SKIPS)),
        "doc": dynamic, "locals": st.booleans(), "inputs": st.just(True),
    })
    # every layer has a part of itself again at the end of the same long path
    spine = st.one_of(st.none(), st.none(), st.lists(word, min_size=3, max_size=14))
    return {
        "resource": st.fixed_dictionaries({
            "t": st.just("resource"), "spine": spine, "base": st.one_of(static, dynamic_base(tree, lits, exprs, locs)), "probe": st.booleans(),
            "from": st.sampled_from(["inline", "template", "template", "dyntemplate"]),
            "overlays": st.lists(overlay, max_size=6), "create": st.one_of(st.none(), dynamic),
            "meta": st.sampled_from([None, None, {"labels": ["map", {"l": ["lit", "#s"]}]}]),
        }),
        "value": st.fixed_dictionaries({
            "t": st.just("value"), "spine": spine, "base": st.one_of(st.none(), static), "ret": dynamic, "probe": st.booleans(),
        }),
        "function": st.fixed_dictionaries({
            "t": st.just("function"), "spine": spine, "a": static, "b": static, "c": with_inputs,
        }),
    }


def chain(keys, leaf):
    for key in reversed(keys):
        leaf = ["map", {key: leaf}]
    return leaf


def deepen(doc, spine):
    if not spine:
        return doc
    return {**doc, "spine": chain(spine, ["map", dict(list(doc.items())[:3])])}


def dynamic_base(tree, lits, exprs, locs):
    return tree(st.one_of(lits, lits, exprs, locs))


# --- a case tree -> the YAML document, and -> its value ---------------------
class Numbering:
    """every `#` literal becomes a different value, the same one each time the case is built"""

    def __init__(self):
        self.counter = itertools.count(100)

    def fix(self, doc):
        return {k: self.node(v) for k, v in doc.items()}

    def node(self, n):
        if n[0] == "map":
            return ["map", {k: self.node(v) for k, v in n[1].items()}]
        if n[0] == "lit" and n[1] == "#":
            return ["lit", next(self.counter)]
        if n[0] == "lit" and n[1] == "#s":
            return ["lit", f"u{next(self.counter)}"]
        return n


def document(doc):
    return {k: yaml_of(v) for k, v in doc.items()}


def yaml_of(n):
    if n[0] == "map":
        return document(n[1])
    return copy.deepcopy(n[1])


def leaf_value(n, resource):
    if n[0] == "lit":
        return copy.deepcopy(n[1])
    if n[0] == "list":
        return [5, {"z": "in", "y": []}, "plain"]
    e = n[1]
    if e in EXPRS:
        return copy.deepcopy(EXPRS[e])
    if e in LOCAL_EXPRS:
        return copy.deepcopy(LOCAL_EXPRS[e])
    return copy.deepcopy(RES_EXPRS[e](resource))


def merge(base, doc, resource, stats=None, depth=1):
    """reference: a tree of maps over a base; leaves replace"""
    out = copy.deepcopy(base)
    for k, n in doc.items():
        if n[0] == "map" and n[1]:
            under = out.get(k)
            if isinstance(under, dict):
                if under and depth >= 1 and stats is not None:
                    stats.append(depth + 1)
                out[k] = merge(under, n[1], resource, stats, depth + 1)
            else:
                out[k] = merge({}, n[1], resource, stats, depth + 1)
        else:
            v = {} if n[0] == "map" else leaf_value(n, resource)
            if n[0] == "expr" and isinstance(v, dict) and isinstance(out.get(k), dict) and out[k]:
                raise Ambiguous()
            out[k] = v
    return out


def plain_merge(base, over):
    out = copy.deepcopy(base)
    for k, v in over.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            if not v and out[k]:
                raise Ambiguous()
            out[k] = plain_merge(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def uses_resource(doc, wanted):
    return any(
        (n[0] == "map" and uses_resource(n[1], wanted)) or (n[0] == "expr" and n[1] in wanted) for n in doc.values()
    )


def drop_resource_exprs(doc, keep_locals=True):
    out = {}
    for k, n in doc.items():
        if n[0] == "map":
            out[k] = ["map", drop_resource_exprs(n[1], keep_locals)]
        elif n[0] == "expr" and (n[1] in RES_EXPRS or (not keep_locals and n[1] in LOCAL_EXPRS)):
            out[k] = ["lit", "replaced"]
        else:
            out[k] = n
    return out


def pin(doc, probe):
    """A map nothing else touches, for expressions over `resource`"""
    doc = dict(doc)
    if probe:
        doc["probe"] = ["map", {"deep": ["lit", "probe-value"], "n": ["lit", 41]}]
    else:
        doc["probe"] = ["map", {"n": ["lit", 7], "deep": ["list", []]}]
        doc["probe"][1]["deep"] = ["lit", [1, 2]]
    return doc


def run(case, rec):
    {"resource": run_resource, "value": run_value, "function": run_function}[case["t"]](case, rec)


FORCED = {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "metadata": {"name": "thing", "namespace": "ns-one"}}


def run_resource(case, rec):
    num, spine = Numbering(), case.get("spine")
    base = num.fix(pin(deepen(case["base"], spine), case["probe"]))
    if case["meta"]:
        base["metadata"] = ["map", num.fix(case["meta"])]
    if case["from"] != "inline":
        base = drop_resource_exprs(base, keep_locals=False)
        base = {k: static_node(n) for k, n in base.items()}
    else:
        base = drop_resource_exprs(base)
    overlays = []
    for o in case["overlays"]:
        doc = num.fix(deepen(o["doc"], spine))
        if o["kind"] == "fn" and not o["locals"]:
            doc = drop_resource_exprs(doc, keep_locals=False) if uses_resource(doc, LOCAL_EXPRS) else doc
        overlays.append({**o, "doc": doc})
    create = num.fix(deepen(case["create"], spine)) if case["create"] else None

    # reference
    stats = []
    ambiguous = False
    try:
        want = plain_merge(merge({}, base, {}), FORCED)
        applied = 0
        for o in overlays:
            if SKIPS[o["skip"]]:
                continue
            applied += 1
            want = merge(want, o["doc"], want, stats)
        want = plain_merge(want, FORCED)
        if create:
            want = merge(want, create, want, stats)
        want = plain_merge(want, FORCED)
    except Ambiguous:
        ambiguous = True
    rec.nt(not ambiguous and any(d >= 2 for d in stats))
    rec.tag(f"base:{case['from']}", "ambiguous" if ambiguous else f"applied:{applied}")

    async def main():
        api = kit.api_config("Widget", name="thing", owned=False)
        spec = {"apiConfig": api, "locals": LOCALS, "create": {"delay": 9}}
        template = None
        if case["from"] == "inline":
            spec["resource"] = document(base)
        else:
            template = {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", **document(base)}
            await kit.offer_ok("ResourceTemplate", "tpl", {"template": template})
            spec["resourceTemplateRef"] = {"name": "tpl" if case["from"] == "template" else "='t' + 'pl'"}
        if overlays:
            spec["overlays"] = []
        for i, o in enumerate(overlays):
            if o["kind"] == "inline":
                step = {"overlay": document(o["doc"])}
            else:
                fn = {"return": document(o["doc"])}
                if o["locals"]:
                    fn["locals"] = LOCALS
                await kit.offer_ok("ValueFunction", f"ov{i}", fn)
                step = {"overlayRef": {"kind": "ValueFunction", "name": f"ov{i}"}, "inputs": {k: f"=inputs.{k}" for k in INPUTS}}
            if o["skip"] is not None:
                step["skipIf"] = o["skip"]
            spec["overlays"].append(step)
        if create:
            spec["create"]["overlay"] = document(create)
        fn = await kit.offer_ok("ResourceFunction", "fn", spec)
        inputs = kit.cel(INPUTS)
        payloads = []
        for turn in range(3):
            cluster = Cluster()
            res = await kit.sut(kit.reconcile_resource_function(
                api=cluster, location="x", function=fn, owner=kit.owner(), inputs=inputs), "the function")
            posts = [c for c in cluster.log if c.method == "POST"]
            if ambiguous and not posts:
                return
            check(len(posts) == 1, f"no single create: {res.outcome}")
            payload = posts[0].payload
            notes = payload["metadata"].get("annotations", {})
            notes.pop(LAST, None)
            if not notes:
                payload["metadata"].pop("annotations", None)
            payloads.append(payload)
            if turn == 0:
                await kit.sut(kit.reconcile_resource_function(
                    api=Cluster(), location="y", function=fn, owner=kit.owner(), inputs=kit.cel(OTHER)), "the function, with other inputs,")
            check(strict_eq(kit.plain(inputs), INPUTS), "evaluation modified its inputs", now=kit.plain(inputs))
            if template is not None:
                cached = kit.cache.get_resource_from_cache(kit.ResourceTemplate, "tpl")
                check(strict_eq(kit.plain(cached.template), template), "evaluation modified the cached template",
                      now=kit.plain(cached.template), was=template)
            data = kit.cache.get_resource_system_data_from_cache(kit.ResourceFunction, "fn")
            check(strict_eq(data.spec, spec), "preparing or evaluating modified the cached definition", now=data.spec, was=spec)
            if not ambiguous:
                check(strict_eq(payload, want), f"evaluation {turn}: target is not the ordered deep merge", got=payload, want=want)
        check(all(strict_eq(p, payloads[0]) for p in payloads), "evaluating again gave something else", got=payloads)
        # a template shared by a second function must still be what was offered
        if template is not None:
            other = await kit.offer_ok("ResourceFunction", "other", {
                "apiConfig": api, "resourceTemplateRef": {"name": "tpl"}})
            cluster = Cluster()
            await kit.sut(kit.reconcile_resource_function(
                api=cluster, location="x", function=other, owner=kit.owner(), inputs=kit.cel({})), "the other function")
            got = [c for c in cluster.log if c.method == "POST"][0].payload
            notes = got["metadata"].get("annotations", {})
            notes.pop(LAST, None)
            if not notes:
                got["metadata"].pop("annotations", None)
            check(strict_eq(got, plain_merge(template, FORCED)), "template changed for another function", got=got, want=template)

    kit.run(main)


def static_node(n):
    """Templates are static: an expression in them is just text."""
    if n[0] == "map":
        return ["map", {k: static_node(v) for k, v in n[1].items()}]
    if n[0] in ("expr", "list"):
        return ["lit", n[1]]
    return n


def run_value(case, rec):
    num, spine = Numbering(), case.get("spine")
    base = num.fix(pin(deepen(case["base"], spine), case["probe"])) if case["base"] is not None else None
    ret = num.fix(deepen(case["ret"], spine))
    if base is None:
        ret = drop_resource_exprs(ret)
    start = merge({}, base, {}) if base else {}
    if base:
        start["metadata"] = {"name": "m"}
    stats = []
    try:
        want = merge(start, ret, start, stats)
    except Ambiguous:
        rec.tag("ambiguous")
        return
    rec.nt(any(d >= 2 for d in stats))
    rec.tag("value:" + ("base" if base else "no base"))

    async def main():
        spec = {"locals": LOCALS, "return": document(ret)}
        fn = await kit.prepare_ok("ValueFunction", "fn", spec)
        inputs = kit.cel(INPUTS)
        cel_base = kit.cel(start) if base else None
        for turn in range(2):
            kwargs = {"value_base": cel_base} if base else {}
            got = await kit.sut(kit.reconcile_value_function(location="x", function=fn, inputs=inputs, **kwargs), "the function")
            check(kit.is_value(got), f"no value: {got}")
            check(strict_eq(kit.plain(got), want), f"evaluation {turn}: return is not the deep merge", got=kit.plain(got), want=want)
            check(strict_eq(kit.plain(inputs), INPUTS), "evaluation modified its inputs", now=kit.plain(inputs))
            if base:
                check(strict_eq(kit.plain(cel_base), start), "evaluation modified the base", now=kit.plain(cel_base), was=start)
            if turn == 0:
                kwargs = {"value_base": kit.cel({**start, "probe": {"n": -1, "deep": "other", "more": 1}, "metadata": {"name": "other"}})} if base else {}
                await kit.sut(kit.reconcile_value_function(location="y", function=fn, inputs=kit.cel(OTHER), **kwargs), "the function, with other inputs,")

    kit.run(main)


def run_function(case, rec):
    """overlay() deep-merges copies"""
    num = Numbering()
    a, b = (merge({}, num.fix(deepen(case[k], case.get("spine"))), {}) for k in "ab")
    a = {k: v for k, v in a.items()}
    try:
        want = plain_merge(a, b)
        both = plain_merge(want, {"c": {"n": 5}})
    except Ambiguous:
        return
    rec.nt(any(isinstance(v, dict) and isinstance(a.get(k), dict) and v and a[k] for k, v in b.items()))
    rec.tag("overlay()")

    async def main():
        fn = await kit.prepare_ok("ValueFunction", "fn", {
            "locals": {"m": "=overlay(inputs.a, inputs.b)"},
            "return": {"m": "=locals.m", "again": "=inputs.a.overlay(inputs.b)", "more": "=overlay(locals.m, {'c': {'n': inputs.n}})",
                       "a": "=inputs.a"}})
        given = {"a": a, "b": b, "n": 5}
        inputs = kit.cel(given)
        for turn in range(2):
            got = await kit.sut(kit.reconcile_value_function(location="x", function=fn, inputs=inputs), "the function")
            check(kit.is_value(got), f"no value: {got}")
            check(strict_eq(kit.plain(got), {"m": want, "again": want, "more": both, "a": a}), "overlay() is not a deep merge",
                  got=kit.plain(got), a=a, b=b, want=want)
            check(strict_eq(kit.plain(inputs), given), "overlay() modified its arguments", now=kit.plain(inputs))

    kit.run(main)
