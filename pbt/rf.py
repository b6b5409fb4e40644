"""ResourceFunctions with a known Target Resource Specification: generation,
delivery through layers, server decoration, perturbation, reference match."""
import copy
import json
import math
import random
import unicodedata

from hypothesis import strategies as st

import gens
import kit
from cluster import Cluster, merge_patch
from core import check, fail, json_eq

LAST = "koreo.dev/last-applied-configuration"
SET = "x-koreo-compare-as-set"
MAP = "x-koreo-compare-as-map"
LASTD = "x-koreo-compare-last-applied"
DIRECTIVES = (SET, MAP, LASTD)

KEYS = ["a", "b", "c", "dd", "spec", "x y", "k.x", "data", "é", "items", "keys", "0", "name", "kind", "namespace", "to_dict", "type", "a-b", "status", "ownerReferences", "metadata"]
TOP = ["spec", "data", "a", "b", "dd", "rules", "x y", "status", "items", "immutable", "kind2", "keys", "ownerReferences"]
WORDS = ["alpha", "beta", "", "x-y", "True", "none", "a$b", "  pad ", "1", "0", "3.5", "null", "zz top", "é", "$", "A", "=text", "line\nbreak", 'quo"te', "back\\slash"]
SCALARS = st.one_of(
    st.booleans(), st.integers(-2, 3), st.sampled_from([1.5, -0.5, 0.0, 2.0, 1.0, 2**53 + 1, -(2**63), 2**63 - 1, 1e21]),
    st.sampled_from(WORDS),
)
KEYFIELDS = ["name", "port", "id", "a"]
KEYVALS = st.one_of(st.sampled_from(["x", "y", "z", "x$y", "y$z", "", "1", " x", "True", "ownerReferences", SET, MAP, LASTD, "z$"]), st.integers(0, 2), st.booleans())


@st.composite
def map_nodes(draw, depth, directives=True, keys=KEYS, max_size=4, min_size=0, la=True):
    names = draw(st.lists(st.sampled_from(keys), min_size=min_size, max_size=max_size, unique=True))
    doc, as_set, as_map, last = {}, [], {}, []
    for name in names:
        kinds = ["leaf", "leaf", "list", "leaf"]
        if depth > 0:
            kinds += ["map", "map", "maps", "mixed", "map", "grid"]
        if directives:
            kinds += ["set"]
            if depth > 0:
                kinds += ["kmap", "kmap"]
        kind = draw(st.sampled_from(kinds))
        if kind == "leaf":
            doc[name] = draw(SCALARS)
        elif kind == "map":
            doc[name] = draw(map_nodes(depth - 1, directives, la=la))
        elif kind == "list":
            doc[name] = draw(st.lists(SCALARS, max_size=3))
        elif kind == "grid":
            doc[name] = draw(st.lists(st.lists(st.one_of(SCALARS, SCALARS, st.lists(SCALARS, max_size=2)), max_size=3), max_size=4))
        elif kind == "maps":
            doc[name] = draw(st.lists(map_nodes(depth - 1, directives, la=la), max_size=3))
        elif kind == "mixed":
            doc[name] = draw(st.lists(st.one_of(SCALARS, st.lists(SCALARS, max_size=2), st.lists(map_nodes(depth - 1, directives, max_size=2, la=la), max_size=2),
                                                map_nodes(depth - 1, directives, max_size=2, la=la)), max_size=3))
        elif kind == "set":
            doc[name] = draw(st.lists(SCALARS, max_size=4))
            as_set.append(name)
        elif kind == "kmap":
            fields = draw(st.lists(st.sampled_from(KEYFIELDS), min_size=1, max_size=3, unique=True))
            items, seen = [], set()
            for item in draw(st.lists(map_nodes(depth - 1, directives, max_size=2, la=la), max_size=3)):
                for f in fields:
                    if f != fields[0] and draw(st.sampled_from([False, False, True])):
                        item.pop(f, None)  # a key field may be missing
                    else:
                        item[f] = draw(KEYVALS)
                    for d in DIRECTIVES:
                        forget(item, d, f)
                key = item_key(item, fields)
                if key not in seen:
                    seen.add(key)
                    items.append(item)
            doc[name] = items
            as_map[name] = fields
        if directives and la and draw(st.sampled_from([False] * 9 + [True])):
            last.append(name)
    extra = draw(st.sampled_from([[], [], [], ["nothing"]]))
    spare = draw(st.sampled_from([None] * 7 + ["empty", "stray"])) if directives else None
    if as_set or spare == "empty":
        doc[SET] = as_set + extra
    if as_map or spare:
        doc[MAP] = as_map if spare != "stray" else {**as_map, "nothing": ["name"]}
    if last or spare == "empty":
        doc[LASTD] = last
    return doc


def forget(item, directive, name):
    got = item.get(directive)
    if got and name in got:
        if isinstance(got, dict):
            got.pop(name)
        else:
            got.remove(name)
        if not got:
            item.pop(directive)


def metas(directives=True):
    """target metadata beyond the identity"""
    words = st.sampled_from(["l1", "l2", "app", "note"])
    return st.one_of(
        st.none(), st.none(),
        st.fixed_dictionaries({}, optional={
            "labels": st.dictionaries(words, st.sampled_from(["v", "w", ""]), max_size=2),
            "annotations": st.dictionaries(words, st.sampled_from(["v", "w", ""]), max_size=2),
            "finalizers": st.lists(st.sampled_from(["f/a", "f/b"]), max_size=2, unique=True),
        }).map(lambda m: with_final_set(m) if directives and m.get("finalizers") else m),
    )


def with_final_set(m):
    return {**m, SET: ["finalizers"]}


def targets(depth=3, directives=True, la=True):
    def join(doc, meta):
        if meta is not None:
            doc = {**doc, "metadata": meta}
        return doc

    return st.builds(join, map_nodes(depth, directives, TOP, max_size=4, min_size=1, la=la), metas(directives))


@st.composite
def bulks(draw, la=True):
    """something long, deep or wide, with the member which matters anywhere in it"""
    how = draw(st.sampled_from(["chain", "chain", "list", "maps", "set", "kmap", "wide", "text", "refs"]))
    n = draw(st.integers(9, 70))
    if how == "chain":
        value = draw(map_nodes(1, True, min_size=1, la=la))
        for i in range(6 + n % 17):
            value = [value] if i % 3 == 2 and draw(st.booleans()) else {"n": value}
        return {"c": value}
    if how == "list":
        return {"l": [draw(st.sampled_from(["s{}", "{}-s"])).format(i) if n % 2 else i for i in range(n)]}
    if how == "maps":
        return {"l": [{"name": f"m{i}", "v": {"i": i}} for i in range(n)]}
    if how == "set":
        return {"l": [f"s{i}" if n % 2 else i for i in range(n)], SET: ["l"]}
    if how == "kmap":
        return {"l": [{"name": f"m{i}", "v": {"i": i}} for i in range(n)], MAP: {"l": ["name"]}}
    if how == "wide":
        return {f"w{i}": i for i in range(n)}
    if how == "refs":
        return {"l": [[i, i + 1] for i in range(n)], "x": {"y": [draw(map_nodes(0, True, min_size=1, la=la)) for _ in range(n % 9)]}}
    return {"t": "0123456789" * (n * (1 if n % 3 else 40)) + "the end", "u": "x"}


def big_targets(la=True):
    return st.builds(lambda doc, bulk: {**doc, "bulk": bulk}, targets(1, la=la), bulks(la))


def programs(tier, depth=3, la=True, kinds=("Widget", "Widget", "Gadget", "Bolt", "Realm"), target=None):
    """Everything but the cluster situation."""
    return st.fixed_dictionaries({
        "target": targets(depth, la=la) if target is None else target,
        "kind": st.sampled_from(kinds),
        "owned": st.sampled_from([True, True, None, False]),
        "owner_ns": st.sampled_from(["same", "same", "same", "same", "other", "other", "cluster"]),
        "base": st.sampled_from(["inline", "inline", "template", "dyntemplate"]),
        "layers": st.lists(st.sampled_from(["inline", "fn", "inline", "skipped"]), max_size=3),
        "pick": st.lists(st.integers(0, 7), min_size=1, max_size=12),
        "style": st.lists(st.integers(0, 3), min_size=1, max_size=12),
        "noise": st.sampled_from([0, 0, 1]),
        "create": st.sampled_from([None, {}, {"delay": 7}, {"delay": 0}, {"overlay": {"createOnly": {"x": 1}}}, {"delay": 11, "overlay": {"spec": {"createOnly": ["=inputs.tag", 2]}}},
                                   {"enabled": True, "overlay": {"metadata": {"labels": {"made-by": "create"}}}}]),
        "named": st.sampled_from(["lit", "expr"]),
        "locals": st.booleans(),
    })


UPDATES = st.sampled_from([None, {"patch": {"delay": 5}}, {"patch": {}}, {"patch": {"delay": 0}}, {"recreate": {"delay": 9}}, {"recreate": {}}, {"never": {}}])


def policy(update):
    if update is None:
        return "patch", 30
    (name, body), = update.items()
    return name, body.get("delay", 30)


# --- delivery --------------------------------------------------------------
def leaf_paths(doc, at=()):
    for k, v in doc.items():
        if isinstance(v, dict) and v:
            yield from leaf_paths(v, at + (k,))
        else:
            yield at + (k,), v


def put(doc, path, value):
    for k in path[:-1]:
        doc = doc.setdefault(k, {})
    doc[path[-1]] = value


def lit_safe(value):
    if isinstance(value, str):
        return not value.startswith("=") and not numeral(value)
    if isinstance(value, dict):
        return all(lit_safe(v) for v in value.values())
    if isinstance(value, list):
        return all(lit_safe(v) for v in value)
    return True


def numeral(text):
    try:
        float(text)
        return True
    except ValueError:
        return False


class Program:
    """A ResourceFunction whose effective target is case["target"]."""

    def __init__(self, case, update=None, identity_in_template=True):
        self.case = case
        self.kind = case["kind"]
        version, self.plural, self.namespaced = kit.KINDS[self.kind]
        self.version = version
        self.name = "thing"
        self.namespace = "ns-one" if self.namespaced else None
        self.values, self.locals, self.value_paths = [], [], {}
        self.inputs = {"tag": "the-tag", "name": "thing", "ns": "ns-one"}
        self.templates, self.functions = {}, {}
        self.target = copy.deepcopy(case["target"])
        self.identity = {"apiVersion": version, "kind": self.kind, "metadata": {"name": self.name}}
        if self.namespaced:
            self.identity["metadata"]["namespace"] = self.namespace
        self.want = merge(self.target, self.identity)
        self.owned = case["owned"] is not False
        self.owner_ns = "ns-one" if case["owner_ns"] == "same" else "ns-else"
        if case["owner_ns"] == "cluster" and self.namespace:
            self.owner_ns = ""  # a cluster-scoped parent is in no namespace
        self.should_own = self.owned and self.owner_ns == self.namespace
        self.policy, self.delay = policy(update)
        self.create_delay = (case["create"] or {}).get("delay", 30)
        self.spec = self._spec(update)

    # spec ---------------------------------------------------------------
    def _spec(self, update):
        case = self.case
        layers = [("base", {})] + [(kind, {}) for kind in case["layers"]]
        live = [i for i, (kind, _) in enumerate(layers) if kind != "skipped"]
        for n, (path, value) in enumerate(leaf_paths(self.target)):
            layer = live[case["pick"][n % len(case["pick"])] % len(live)]
            style = case["style"][n % len(case["style"])]
            kind, doc = layers[layer]
            count = len(self.values)
            put(doc, path, self._leaf(value, style, kind))
            if len(self.values) > count:
                self.value_paths[count] = path
            if case["noise"] and not isinstance(value, dict) and layer > 0 and path[0] != "metadata":
                earlier = [i for i in live if i < layer]
                where = earlier[style % len(earlier)]
                if layers[where][0] == "base" or style % 2:
                    put(layers[where][1], path, "noise")
        for kind, doc in layers:
            if kind == "skipped":
                doc.update({"spec": {"skippedNoise": 1}, "skipped": True})
        api = kit.api_config(self.kind, name="=inputs.name" if case["named"] == "expr" else self.name,
                             namespace=("=inputs.ns" if case["named"] == "expr" else self.namespace) if self.namespaced else None)
        if case["owned"] is not None:
            api["owned"] = case["owned"]
        spec = {"apiConfig": api}
        base = layers[0][1]
        if case["base"] == "inline":
            spec["resource"] = base
        else:
            self.templates["tpl"] = {"template": merge(base, {"apiVersion": self.version, "kind": self.kind})}
            spec["resourceTemplateRef"] = {"name": "tpl" if case["base"] == "template" else "='t' + 'p' + 'l'"}
        overlays = []
        for n, (kind, doc) in enumerate(layers[1:]):
            if not doc:
                continue
            if kind == "fn":
                self.functions[f"ov{n}"] = {"return": doc}
                step = {"overlayRef": {"kind": "ValueFunction", "name": f"ov{n}"}, "inputs": {"v": "=inputs.v", "tag": "=inputs.tag"}}
                if n % 2:
                    step["skipIf"] = "=false"
            else:
                step = {"overlay": doc}
                if kind == "skipped":
                    step["skipIf"] = "=inputs.tag == 'the-tag'"
            overlays.append(step)
        if overlays:
            spec["overlays"] = overlays
        if case["create"] is not None:
            spec["create"] = copy.deepcopy(case["create"])
            over = spec["create"].get("overlay", {})
            if "spec" in over and not isinstance(self.target.get("spec", {}), dict):
                over["specExtra"] = over.pop("spec")  # may not contradict the target
        if update is not None:
            spec["update"] = copy.deepcopy(update)
        if self.locals or case["locals"]:
            spec["locals"] = {"l": "=inputs.v", "unused": {"z": "=inputs.tag"}}
        self.inputs["v"] = self.values
        return spec

    def _leaf(self, value, style, kind):
        if kind == "base" and self.case["base"] != "inline":
            return copy.deepcopy(value)  # templates are static
        if kind == "skipped":
            return "skipped"
        if isinstance(value, dict):
            return {}
        if style in (0, 3) and lit_safe(value):
            return copy.deepcopy(value)
        n = len(self.values)
        self.values.append(copy.deepcopy(value))
        if style == 2 and kind != "fn":
            self.locals.append(n)
            return f"=locals.l[{n}]"
        return f"=inputs.v[{n}]"

    # running --------------------------------------------------------------
    async def prepare(self):
        for name, spec in self.templates.items():
            await kit.offer_ok("ResourceTemplate", name, spec)
        for name, spec in self.functions.items():
            await kit.offer_ok("ValueFunction", name, spec)
        self.fn = await kit.prepare_ok("ResourceFunction", "the-function", self.spec)
        return self

    async def reconcile(self, cluster, owner=None):
        at = len(cluster.log)
        got = await kit.sut(kit.reconcile_resource_function(
            api=cluster, location="the-location", function=self.fn, owner=owner or kit.owner(self.owner_ns), inputs=kit.cel(self.inputs)),
            "the ResourceFunction")
        return got.outcome, cluster.mutations(at)

    @property
    def key(self):
        return (self.version, self.plural, self.namespace, self.name)


def merge(base, over):
    out = copy.deepcopy(base)
    for k, v in over.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = merge(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def strip(doc):
    if isinstance(doc, dict):
        return {k: strip(v) for k, v in doc.items() if k not in DIRECTIVES}
    if isinstance(doc, list):
        return [strip(v) for v in doc]
    return doc


def without_last(doc):
    doc = copy.deepcopy(doc)
    notes = (doc.get("metadata") or {}).get("annotations")
    if isinstance(notes, dict):
        notes.pop(LAST, None)
        if not notes:
            doc["metadata"].pop("annotations")
    return doc


def drop_empty_annotations(doc):
    return without_last(doc)


# --- reference match ---------------------------------------------------------
def canon(v):
    """hashable identity of a scalar: bool apart from numbers, 1 == 1.0"""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return (type(v).__name__, v)
    if isinstance(v, (int, float)):
        return ("number", v)
    return ("json", json.dumps(v, sort_keys=True))


def is_maps(v):
    return isinstance(v, list) and all(isinstance(i, dict) for i in v)


def item_key(item, fields):
    return tuple(canon(item.get(f)) for f in fields)


def meets(target, live, path=()):
    """Does `live` hold every field the target specifies (last-applied-directed
    fields aside)?"""
    if isinstance(target, dict):
        if not isinstance(live, dict):
            return False
        as_set, as_map, last = target.get(SET, ()), target.get(MAP, {}), target.get(LASTD, ())
        for k, t in target.items():
            here = path + (k,)
            if k in DIRECTIVES or here == ("metadata", "ownerReferences") or k in last:
                continue
            if k not in live:
                return False
            a = live[k]
            if k in as_map and is_maps(t) and t:
                if not is_maps(a):
                    return False
                have = {item_key(i, as_map[k]): i for i in a}
                if not all(item_key(i, as_map[k]) in have and meets(i, have[item_key(i, as_map[k])], here) for i in t):
                    return False
            elif k in as_set and isinstance(t, list):
                if not isinstance(a, list) or {canon(i) for i in t} != {canon(i) for i in a}:
                    return False
            elif not meets(t, a, here):
                return False
        return True
    if isinstance(target, list):
        return isinstance(live, list) and len(target) == len(live) and all(meets(t, a, path + ("",)) for t, a in zip(target, live))
    return json_eq(target, live)


def uses(target, directive):
    if isinstance(target, dict):
        return directive in target or any(uses(v, directive) for v in target.values())
    if isinstance(target, list):
        return any(uses(v, directive) for v in target)
    return False


# --- server-side decoration ---------------------------------------------------
EXTRA = ["extraA", "extra b", "zzz", "defaulted", "observed.gen"]
EXTRA_VALUES = [None, True, 0, "s", [], {}, {"deep": {"er": [1]}}, [1, {"k": "v"}], 1.5, "", [None]]


def decorate(stored, target, amount, seed, la_drift=True):
    """What servers and other actors add without touching what the target specifies."""
    if not amount:
        return copy.deepcopy(stored)
    rng = random.Random(seed)
    p = {1: 0.15, 2: 0.4, 3: 0.8}[amount]

    def junk():
        return copy.deepcopy(rng.choice(EXTRA_VALUES))

    def walk(live, t, identity=False):
        if isinstance(t, dict) and isinstance(live, dict):
            as_set, as_map, last = t.get(SET, ()), t.get(MAP, {}), t.get(LASTD, ())
            for k in list(live):
                if k not in t or k in DIRECTIVES:
                    continue
                if k in last:
                    if la_drift and rng.random() < p and not identity:
                        if rng.random() < 0.5:
                            live.pop(k)
                        else:
                            live[k] = junk()
                    continue
                a = live[k]
                if k in as_map and is_maps(t[k]) and is_maps(a) and a:
                    by = {item_key(i, as_map[k]): i for i in t[k]}
                    for item in a:
                        mate = by.get(item_key(item, as_map[k]))
                        if mate is not None:
                            walk(item, {**mate, **{f: item.get(f) for f in as_map[k] if f in mate}})
                            for f in as_map[k]:
                                if f not in mate:
                                    item.pop(f, None)
                    if rng.random() < p:
                        rng.shuffle(a)
                elif k in as_set and isinstance(a, list):
                    if a and rng.random() < p:
                        if rng.random() < 0.3:
                            seen = []
                            for i in a:
                                if not any(json_eq(i, s) for s in seen):
                                    seen.append(i)
                            a[:] = seen
                        rng.shuffle(a)
                else:
                    live[k] = walk(a, t[k], identity and k == "metadata")
            if rng.random() < p:
                for _ in range(rng.randint(1, 2)):
                    k = rng.choice(EXTRA + (KEYS if not identity else []))
                    if k not in t and k not in live:
                        live[k] = junk()
            return live
        if isinstance(t, list) and isinstance(live, list):
            for i, (a, tt) in enumerate(zip(live, t)):
                live[i] = walk(a, tt)
            return live
        if isinstance(live, int) and not isinstance(live, bool) and abs(live) < 2**50 and rng.random() < p / 2:
            return float(live)
        if isinstance(live, float) and live.is_integer() and abs(live) < 2**50 and rng.random() < p / 2:
            return int(live)
        return live

    live = walk(copy.deepcopy(stored), target, identity=True)
    meta = live["metadata"]
    if rng.random() < p:
        meta["managedFields"] = [{"manager": "m", "fieldsV1": {"f:spec": {}}}]
    if rng.random() < p / 2:
        meta["deletionTimestamp"] = "2024-02-02T00:00:00Z"
        meta["deletionGracePeriodSeconds"] = 30
    if rng.random() < p / 2 and "finalizers" not in (target.get("metadata") or {}):
        meta["finalizers"] = ["others.example.dev/finalizer"]
    if rng.random() < p / 2:
        meta["selfLink"] = "/apis/x"
        meta["generateName"] = "gen-"
    if rng.random() < p:
        meta["generation"] = rng.randint(1, 9)
    if rng.random() < p and "annotations" in meta and isinstance(meta["annotations"], dict):
        meta["annotations"]["other/controller"] = "x"
    if rng.random() < p and isinstance(meta.setdefault("labels", {}), dict):
        meta["labels"].setdefault("injected", "y")
    if rng.random() < p and "status" not in target:
        live["status"] = {"conditions": [{"type": "Ready", "status": "True"}], "n": rng.randint(0, 3)}
    if rng.random() < p:
        refs = meta.setdefault("ownerReferences", [])
        if isinstance(refs, list):
            uid = f"other-{rng.randint(0, 3)}"
            if all(r.get("uid") != uid for r in refs):
                refs.append({"apiVersion": "v1", "kind": "Other", "name": "o", "uid": uid})
            rng.shuffle(refs)
            # others may also touch the rest of the parent's own reference
            for ref in refs:
                if isinstance(ref, dict) and ref.get("uid") == "uid-of-trigger" and rng.random() < 0.5:
                    ref.update(rng.choice([{"controller": True}, {"blockOwnerDeletion": False}, {"apiVersion": "example.dev/v2"}, {"extra": 1}]))
    return live


# --- perturbation --------------------------------------------------------------
def scalar_deviations(v):
    out = [("null", None), ("to-map", {"v": v}), ("to-list", [v]), ("to-empty-map", {}), ("to-empty-list", [])]
    if isinstance(v, bool):
        out += [("flip", not v), ("bool-as-int", int(v)), ("bool-as-str", str(v)), ("bool-as-word", str(v).lower()), ("bool-as-float", float(v))]
    elif isinstance(v, (int, float)):
        out += [("plus-one", v + 1 if abs(v) < 2**62 else 0), ("negated", -v if -(2**63) < v else 0), ("as-bool", bool(v)), ("as-str", str(v)),
                ("zero", 0), ("one", 1), ("half", 0.5), ("false", False), ("true", True), ("near", float(v) if abs(v) > 2**53 else v + 0.25),
                ("nearest", math.nextafter(v, math.inf) if abs(v) < 2**52 else max(v - 1, -(2**63))), ("slightly", v * (1 + 1e-7) if v else 1e-7), ("as-text-float", str(float(v)))]
    else:
        out += [("other-str", v + "x"), ("empty", ""), ("as-bool", True), ("false", False), ("zero", 0), ("padded", f" {v}"), ("upper", v.swapcase()),
                ("trimmed", v.strip()), ("as-number", number(v)), ("cut", v[:-1]),
                ("newline", v + "\n"), ("decomposed", unicodedata.normalize("NFD", v)), ("case-folded", v.casefold()), ("prefix-kept", v[:3] + "~" * len(v[3:])),
                ("doubled", v + v), ("reversed", v[::-1]), ("nul", v + "\0"), ("quantity", v + "000m")]
    return out


def number(text):
    try:
        f = float(text)
        return int(f) if f.is_integer() else f
    except (ValueError, OverflowError):
        return 7


def at(doc, path):
    for k in path:
        doc = doc[k]
    return doc


def deviations(live, target):
    """[(label, path, function(parent container, key))]: every single change of `live`
    at a place the target specifies."""
    out = []

    def setter(value):
        def do(parent, key):
            parent[key] = copy.deepcopy(value)
        return do

    def remover(parent, key):
        del parent[key]

    def container(path, a, directed):
        if isinstance(a, dict):
            out.append(("map-null", path, setter(None)))
            out.append(("map-list", path, setter([copy.deepcopy(a)])))
            out.append(("map-str", path, setter("gone")))
            out.append(("map-false", path, setter(False)))
            if a:
                out.append(("map-emptied", path, setter({})))
            else:
                out.append(("map-empty-list", path, setter([])))
        else:
            out.append(("list-null", path, setter(None)))
            out.append(("list-str", path, setter("gone")))
            out.append(("list-empty-str", path, setter("")))
            out.append(("list-false", path, setter(False)))
            out.append(("list-zero", path, setter(0)))
            out.append(("list-number", path, setter(7)))
            out.append(("list-as-map", path, setter({str(i): v for i, v in enumerate(a)})))
            if a:
                out.append(("list-emptied", path, setter([])))
                out.append(("list-first-only", path, setter(a[0])))
                for i in range(len(a)):
                    out.append((f"list-cut", path, setter(a[:i] + a[i + 1:])))
            if directed != "map":
                out.append(("list-longer", path, setter(a + ["extra-item"])))
                out.append(("list-longer-null", path, setter(a + [None])))
                out.append(("list-prefixed", path, setter([0] + a)))
                out.append(("list-longer-true", path, setter(a + [True])))
                if a:
                    out.append(("list-doubled", path, setter(a + a)))
                    out.append(("list-repeat-last", path, setter(a + [a[-1]])))
            else:
                out.append(("list-with-scalar", path, setter(a + ["scalar"])))
            if directed is None and len(a) > 1:
                out.append(("list-reversed", path, setter(a[::-1])))
                out.append(("list-rotated", path, setter(a[1:] + a[:1])))

    def walk(a, t, path, directed=None):
        if isinstance(t, dict):
            if not isinstance(a, dict):
                return
            if path and path != ("metadata",):
                container(path, a, None)
            as_set, as_map, last = t.get(SET, ()), t.get(MAP, {}), t.get(LASTD, ())
            for k, tt in t.items():
                here = path + (k,)
                if k in DIRECTIVES or k in last or k not in a:
                    continue
                if here in (("metadata", "ownerReferences"), ("apiVersion",), ("kind",), ("metadata", "name"), ("metadata", "namespace")):
                    continue
                if here != ("metadata",):
                    out.append(("removed", here, remover))
                walk(a[k], tt, here, ("map", as_map[k]) if k in as_map else ("set", None) if k in as_set else None)
        elif isinstance(t, list):
            if not isinstance(a, list):
                return
            container(path, a, directed[0] if directed else None)
            if directed and directed[0] == "map" and is_maps(t) and is_maps(a):
                by = {item_key(i, directed[1]): i for i in t}
                for i, item in enumerate(a):
                    mate = by.get(item_key(item, directed[1]))
                    if mate is not None:
                        walk(item, mate, path + (i,))
                return
            if directed and directed[0] == "set":
                for i, item in enumerate(a):
                    if not isinstance(item, (dict, list)):
                        for label, v in scalar_deviations(item):
                            out.append((f"set-member-{label}", path + (i,), setter(v)))
                return
            for i, (aa, tt) in enumerate(zip(a, t)):
                walk(aa, tt, path + (i,))
        else:
            for label, v in scalar_deviations(a if a is not None else t):
                out.append((label, path, setter(v)))

    walk(live, target, ())
    return out


def perturb(live, target, choice):
    """One real deviation (by the reference match), or None."""
    options = deviations(live, target)
    if not options:
        return None
    # spread the choices over the paths, not over the (many) leaf deviations
    paths = sorted({p for _, p, _ in options}, key=repr)
    for step in range(24):
        path = paths[(choice[0] + step) % len(paths)]
        here = [o for o in options if o[1] == path]
        label, _, change = here[(choice[1] + step) % len(here)]
        changed = copy.deepcopy(live)
        change(at(changed, path[:-1]), path[-1])
        if not meets(target, changed):
            return label, path, changed
    return None


def perturb_by_label(live, target, choice):
    """As perturb, but each kind of deviation is as likely as any other."""
    options = deviations(live, target)
    labels = sorted({label for label, _, _ in options})
    if not labels:
        return None
    for step in range(24):
        label = labels[(choice[0] + step) % len(labels)]
        here = [o for o in options if o[0] == label]
        _, path, change = here[(choice[1] + step) % len(here)]
        changed = copy.deepcopy(live)
        change(at(changed, path[:-1]), path[-1])
        if not meets(target, changed):
            return label, path, changed
    return None


# --- checks shared by the properties ---------------------------------------------
def check_payload(call, program, what):
    """What every POST/PATCH must look like (C08's core, also used for targets)."""
    payload = call.payload
    sent = without_last(payload)
    return sent


def outcome_text(outcome):
    return repr(outcome)[:300]
