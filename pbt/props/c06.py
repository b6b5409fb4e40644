"""C06: managed objects keep the identity apiConfig gives them."""
import asyncio
import copy

from hypothesis import strategies as st

import kit
import rf
from cluster import Cluster
from core import check, digest, json_eq, strict_eq

ID = "C06"
RULE = (
    "case = 1-4 ResourceFunctions in one process (same / other group, version, plural, scope, letter case of one kind, built-in kinds, with or "
    "without plural, FunctionTests of the same kind run in between, half of them reconciled for two parents at once), each with adversarial apiVersion / kind / metadata / name / namespace "
    "in template, overlays, overlay functions, create overlay and inputs, against an absent or existing object; every call and every "
    "POST/PATCH payload is compared with what apiConfig evaluates to; non-trivial = a create or patch was made by a function with a "
    "conflicting layer"
)
ASSUMPTIONS = ["apiConfig.name / namespace evaluate to names without '/'", "metadata.annotations, when given, is a map"]
COUNT = {"quick": 1200, "thorough": 16000}

EVIL = st.sampled_from(["evil", "", 5, None, False, {"a": 1}, [], ["evil"], "=inputs.evil", "=inputs.evil_null", "=inputs.evil_map", "=1 + 1", "v1", "Secret", "=inputs.name"])
EVIL_META = st.one_of(
    st.sampled_from(["text", 5, None, [], {}, False, "", "=inputs.evil", "=inputs.evil_meta", "=inputs.evil_null", "=inputs.evil_list", [{"name": "x"}]]),
    st.fixed_dictionaries({}, optional={
        "name": EVIL, "namespace": EVIL, "generateName": st.just("gen-"), "labels": st.sampled_from([{"a": "b"}, {}, "=inputs.evil_map"]),
        "uid": st.just("evil-uid"), "resourceVersion": st.just("1"),
    }),
    st.fixed_dictionaries({"name": EVIL, "namespace": EVIL}),
)
LAYER = st.fixed_dictionaries({}, optional={
    "apiVersion": EVIL, "kind": EVIL, "metadata": EVIL_META,
    "spec": st.sampled_from([{"x": 1}, {"metadata": {"name": "inner"}}, "=inputs.evil", {"y": {"kind": "inner"}}]),
})
NAMES = st.one_of(
    st.tuples(st.just("lit"), st.sampled_from(["thing", "a.b-c", "x1", "thing", "x1", "l" * 64, "long-name." * 20 + "end"])),
    st.tuples(st.just("expr"), st.sampled_from(["=inputs.name", "='n-' + inputs.name", "=locals.name", "=inputs.long + inputs.name", "=inputs.number", "=inputs.flag ? inputs.name : 'other'"])),
    st.tuples(st.just("bad"), st.sampled_from(["=inputs.evil_null", "=inputs.evil_map", "=inputs.evil_list", "=inputs.empty"])),
)
INPUTS = {"name": "thing", "number": 7, "flag": True, "ns": "team", "evil": "evil", "evil_null": None, "evil_map": {"m": 1}, "evil_list": ["q"], "empty": "", "long": "long-" * 14,
          "evil_meta": {"name": "evil", "namespace": "evil-ns", "labels": {"l": "1"}}}
EVAL = {"=inputs.name": "thing", "='n-' + inputs.name": "n-thing", "=locals.name": "loc-thing", "=inputs.number": "7", "=inputs.flag ? inputs.name : 'other'": "thing",
        "=inputs.ns": "team", "=inputs.long + inputs.name": "long-" * 14 + "thing", "='ns-' + inputs.ns": "ns-team"}
# another parent reconciled at the same time
INPUTS2 = {**INPUTS, "name": "second", "number": 8, "flag": False, "ns": "crew", "evil": "worse"}
EVAL2 = {"=inputs.name": "second", "='n-' + inputs.name": "n-second", "=locals.name": "loc-second", "=inputs.number": "8", "=inputs.flag ? inputs.name : 'other'": "other",
         "=inputs.ns": "crew", "=inputs.long + inputs.name": "long-" * 14 + "second", "='ns-' + inputs.ns": "ns-crew"}
SKIPS = [None, None, None, "=false", "=true", "=!inputs.flag", "=inputs.flag", "=inputs.number > 7", "=inputs.evil == 'no'"]
VARIANTS = ["main", "main", "group", "core", "version", "plural", "scope", "lower", "pluralkind"]
BUILTIN = [("apps/v1", "Deployment", "deployments"), ("v1", "Deployment", "deployments"), ("serving.knative.dev/v1", "Service", "services"),
           ("v1", "Service", "services"), ("networking.k8s.io/v1", "Ingress", "ingresses"), ("extensions/v1beta1", "Ingress", "ingresses"), ("v1", "ConfigMap", "configmaps"),
           ("v1", "Pod", "pods"), ("v2", "Pod", "pods"), ("v1", "pod", "pods")]


def strategy(tier):
    fn = st.fixed_dictionaries({
        "variant": st.sampled_from(VARIANTS), "name": NAMES, "lookup": st.sampled_from([False, False, True]),
        "ns": st.sampled_from(["team-ns", "=inputs.ns", "='ns-' + inputs.ns", "team-ns", "team-ns", "t" * 63]),
        "base": st.sampled_from(["inline", "inline", "template", "dyntemplate"]),
        "doc": LAYER, "overlays": st.lists(st.tuples(st.sampled_from(["inline", "fn"]), LAYER, st.sampled_from(SKIPS)), max_size=3),
        "create": st.one_of(st.none(), LAYER, LAYER), "owned": st.booleans(),
        "update": st.sampled_from([None, None, {"recreate": {"delay": 5}}]),
        "live": st.sampled_from(["absent", "absent", "present"]),
    })
    return st.fixed_dictionaries({
        "fns": st.lists(fn, min_size=1, max_size=4),
        "core": st.booleans(), "builtin": st.sampled_from([None, None] + list(range(len(BUILTIN)))),
        "mock": st.sampled_from([None, None, "plain", "namespaced"]),
        "order": st.booleans(), "both": st.booleans(),
    })


def identity(case, variant, i, lookup=False):
    """(apiVersion, kind, plural, namespaced)"""
    tag = digest(case)[:8]
    kind, plural = f"Kind{tag}", f"kind{tag}s"
    version = "v1" if case["core"] else "grp.example.dev/v1"
    if case["builtin"] is not None:
        version, kind, plural = BUILTIN[case["builtin"]]
    namespaced = True
    if variant == "group":
        version = "other.example.dev/" + version.split("/")[-1]
    elif variant == "core":
        version = version.split("/")[-1]
    elif variant == "version":
        version = version.replace("v1", "v3").replace("v2", "v4")
    elif variant == "plural":
        plural = plural + "x"
    elif variant == "scope":
        namespaced = False
    elif variant == "lower":
        kind = kind.lower()
    elif variant == "pluralkind":
        kind, plural = plural, plural + "es"
    if lookup:
        # what a kind is called in the plural is up to its API group and version
        plural += digest(version)[:2]
    return version, kind, plural, namespaced


def template_safe(doc):
    """static: an expression is text there; annotations etc. untouched"""
    return copy.deepcopy(doc)


def conflicts(f):
    docs = [f["doc"], *(o[1] for o in f["overlays"]), f["create"] or {}]
    return any(set(d) & {"apiVersion", "kind", "metadata"} for d in docs)


def run(case, rec):
    async def main():
        cluster = Cluster(latency=lambda call: 0.01 if case.get("both") else 0)
        made = []

        async def mock():
            """what a controller process does when it also runs FunctionTests"""
            version, kind, plural, _ = identity(case, "main", 0)
            meta = {"name": "mocked"}
            if case["mock"] == "namespaced":
                meta["namespace"] = "mock-ns"
            await kit.offer_ok("ResourceFunction", "mocked", {
                "apiConfig": {"apiVersion": version, "kind": kind, "name": "mocked", "namespace": "mock-ns"}, "resource": {"spec": {"a": 1}}})
            test = await kit.offer_ok("FunctionTest", "mock-test", {
                "functionRef": {"kind": "ResourceFunction", "name": "mocked"}, "inputs": {"x": 1},
                "currentResource": {"apiVersion": version, "kind": kind, "metadata": meta},
                "testCases": [{"expectOutcome": {"retry": {"message": "", "delay": 0}}}]})
            await kit.sut(kit.run_function_test("t", test), "the FunctionTest")

        if case["mock"] and case["order"]:
            await mock()
        for i, f in enumerate(case["fns"]):
            made.append(await build(case, f, i, cluster))
        if case["mock"] and not case["order"]:
            await mock()
        for f, (fn, want) in zip(case["fns"], made):
            if not case.get("both"):
                await use(case, f, fn, want, cluster)
                continue
            again = Cluster(latency=lambda call: 0.01, plurals=cluster.plurals)
            want2 = {**want, "name": want["name"] and EVAL2.get(want["told"][0], want["name"]),
                     "namespace": want["namespace"] and EVAL2.get(want["told"][1], want["namespace"])}
            await asyncio.gather(use(case, f, fn, want, cluster), use(case, f, fn, want2, again, INPUTS2))

    async def build(case, f, i, cluster):
        lookup = f.get("lookup") and f["variant"] != "plural" and case["builtin"] is None
        version, kind, plural, namespaced = identity(case, f["variant"], i, lookup)
        if lookup:
            cluster.plurals[kind if version == "v1" else f"{kind}.{version}"] = plural
        name = f["name"][1]
        if f["name"][0] == "lit":
            name = f"{name}-{i}"
        api = {"apiVersion": version, "kind": kind, "name": name, "namespaced": namespaced, "owned": f["owned"]}
        if not lookup:
            api["plural"] = plural
        if namespaced:
            api["namespace"] = f["ns"]
        spec = {"apiConfig": api, "locals": {"name": "='loc-' + inputs.name"}}
        if f["base"] == "inline":
            spec["resource"] = copy.deepcopy(f["doc"])
        else:
            doc = copy.deepcopy(f["doc"])
            if not isinstance(doc.get("apiVersion"), str) or not doc["apiVersion"]:
                doc["apiVersion"] = "evil/v1"
            if not isinstance(doc.get("kind"), str) or not doc["kind"]:
                doc["kind"] = "Evil"
            await kit.offer_ok("ResourceTemplate", f"tpl{i}", {"template": doc})
            spec["resourceTemplateRef"] = {"name": f"tpl{i}" if f["base"] == "template" else f"='tpl' + '{i}'"}
        overlays = []
        for n, (how, doc, *skip) in enumerate(f["overlays"]):
            if not doc:
                continue
            if how == "inline":
                overlays.append({"overlay": copy.deepcopy(doc)})
            else:
                await kit.offer_ok("ValueFunction", f"ov{i}-{n}", {"return": copy.deepcopy(doc)})
                overlays.append({"overlayRef": {"kind": "ValueFunction", "name": f"ov{i}-{n}"}, "inputs": {k: f"=inputs.{k}" for k in INPUTS}})
            if skip and skip[0]:
                overlays[-1]["skipIf"] = skip[0]
        if overlays:
            spec["overlays"] = overlays
        if f["create"]:
            spec["create"] = {"overlay": copy.deepcopy(f["create"])}
        if f["update"]:
            spec["update"] = copy.deepcopy(f["update"])
        fn = await kit.offer_ok("ResourceFunction", f"fn{i}", spec)
        bad = f["name"][0] == "bad"
        want = {
            "version": version, "kind": kind, "plural": plural, "bad": bad, "told": (name, f["ns"]),
            "name": None if bad else EVAL.get(name, name),
            "namespace": EVAL.get(f["ns"], f["ns"]) if namespaced else None,
        }
        return fn, want

    async def use(case, f, fn, want, cluster, given=INPUTS):
        key = (want["version"], want["plural"], want["namespace"], want["name"])
        if f["live"] == "present" and not want["bad"]:
            meta = {"name": want["name"], "uid": "live", "generateName": "live-"}
            if want["namespace"]:
                meta["namespace"] = want["namespace"]
            cluster.objects[key] = {"apiVersion": want["version"], "kind": want["kind"], "metadata": meta, "old": True}
        inputs = kit.cel(given)
        sent = False
        for turn in range(3):
            at = len(cluster.log)
            outcome = (await kit.sut(kit.reconcile_resource_function(
                api=cluster, location="x", function=fn, owner=kit.owner("team-ns"), inputs=inputs), "the ResourceFunction")).outcome
            for call in cluster.log[at:]:
                if call.method == "LOOKUP":
                    continue
                ctx = dict(call=call, payload=call.payload, want=want, variant=f["variant"])
                if want["bad"]:
                    check(call.method not in ("POST", "PATCH"), f"{call.method} for a name that is no name", **ctx)
                    continue
                check(call.name == want["name"] and call.namespace == want["namespace"], f"{call.method} addressed to another object", **ctx)
                check(call.version == want["version"] and call.plural == want["plural"], f"{call.method} addressed to another kind", **ctx)
                check(call.subresource is None, f"{call.method} to a subresource", **ctx)
                if call.method in ("POST", "PATCH"):
                    sent = True
                    got = call.payload
                    check(strict_eq(got.get("apiVersion"), want["version"]), "payload with another apiVersion", **ctx)
                    check(strict_eq(got.get("kind"), want["kind"]), "payload with another kind", **ctx)
                    check(isinstance(got.get("metadata"), dict), "payload without metadata", **ctx)
                    check(strict_eq(got["metadata"].get("name"), want["name"]), "payload with another name", **ctx)
                    if want["namespace"] is not None:
                        check(strict_eq(got["metadata"].get("namespace"), want["namespace"]), "payload with another namespace", **ctx)
            rec.tag(f"{f['variant']}", kit.outcome_class(outcome))
        rec.nt(sent and conflicts(f))
        rec.tag("sent" if sent else "not sent")

    kit.run(main)
