"""FunctionTest: programs, an independent run of the Function under test, and
the assertions which are true (or just not true) for what it did."""
from contextlib import asynccontextmanager
import base64
import copy
import json
import random
import re

import celpy
from celpy import celtypes
from hypothesis import strategies as st
import kr8s

import kit
from core import fail, json_eq, strict_eq
from koreo import result

LAST = "koreo.dev/last-applied-configuration"
LOC = "the-test"

# --- programs -------------------------------------------------------------------
PRE = [
    {"assert": "=!has(inputs.mode) || inputs.mode != 'skip'", "skip": {"message": "='Skipping ' + inputs.name"}},
    {"assert": "=!has(inputs.mode) || inputs.mode != 'dep'", "depSkip": {"message": "Not Ready Yet"}},
    {"assert": "=!has(inputs.mode) || inputs.mode != 'retry'", "retry": {"message": "Wait for It", "delay": 17}},
    {"assert": "=!has(inputs.mode) || inputs.mode != 'now'", "retry": {"message": "at once", "delay": 0}},
    {"assert": "=!has(inputs.mode) || inputs.mode != 'perm'", "permFail": {"message": "Broken Thing"}},
    {"assert": "=!has(inputs.mode) || inputs.mode != 'blank'", "permFail": {"message": ""}},
]
POST = [
    {"assert": "=!has(resource.spec) || !has(resource.spec.n) || resource.spec.n != 4", "retry": {"message": "='still ' + string(resource.spec.n)", "delay": 5}},
    {"assert": "=!has(inputs.mode) || inputs.mode != 'post'", "permFail": {"message": "After all"}},
]
VF_SHAPES = {
    "echo": {"return": {"seen": "=inputs"}},
    "nested": {"locals": {"t": "=inputs.n + 1", "c": {"d": "=inputs.l"}}, "return": {"spec": {"n": "=locals.t", "m": "=inputs.m"}, "out": "=locals.c.d"}},
    "cel": {"return": {"o": "=inputs.m.overlay({'k': {'z': 1}, 'a': [inputs.n]})", "f": "=[inputs.l, [1], inputs.l].flatten()", "again": "=inputs",
                       "r": "=has(inputs.m.a) ? inputs.m.a : inputs.l"}},
    "resource": {"return": {"was": "=has(resource.spec) ? resource.spec : {}", "spec": {"n": "=inputs.n"}}},
    "grow": {"return": {"spec": {"l": "=has(resource.spec.l) ? resource.spec.l : inputs.l"}, "seen": "=inputs.m"}},
    "typed": {"return": {"b": True, "no": "=false", "i": 1, "zero": "=0", "f": 1.5, "s": "=string(inputs.n)", "nul": None, "l": [1, "a", None, {"x": [], "y": "=inputs.m"}, [True, 1, "1"]],
                         "e": {}, "el": [], "d": "=duration('3s')", "u": "=uint(5)", "by": "=b'ab'", "empty": "", "n": "=inputs.n", "big": 9007199254740993,
                         "dup": ["a", "a", "b"]}},
    "nothing": {},
    "broken": {"return": {"x": "=inputs.nope.deeper"}},
}
MODES = ["", "", "", "", "", "skip", "dep", "retry", "now", "perm", "blank", "post"]


def value_function(p):
    spec = copy.deepcopy(VF_SHAPES[p["shape"]])
    if p["pre"] or p["shape"] == "nothing":
        spec["preconditions"] = copy.deepcopy(PRE)
    return spec


TEMPLATE = {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "metadata": {"labels": {"from": "template"}}, "spec": {"t": 1}}


def resource_function(p):
    api = {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "name": p["name"], "namespace": "ns-one", "owned": p["owned"]}
    if p["plural"]:
        api["plural"] = "widgets"
    if p["mode"] == "readonly":
        api["readonly"] = True
    if p["mode"] == "delete":
        api["deleteIfExists"] = True
    spec = {"n": "=inputs.n", "m": "=inputs.m", "flag": True, "fixed": ["x", "y"]}
    if p["typed"]:
        spec.update({"nul": None, "items": [{"name": "a", "v": "=inputs.n"}, {"name": "b", "v": [1, 2]}], "l": "=inputs.l", "s": "1", "f": 1.5, "no": False, "e": {"d": {}}, "el": []})
    target = {"spec": spec, "metadata": {"labels": {"app": "=inputs.name"}}}
    if p["annotated"]:
        target["metadata"]["annotations"] = {"note": "=string(inputs.n)"}
    if p["directives"] and p["typed"]:
        spec["x-koreo-compare-as-map"] = {"items": ["name"]}
        spec["x-koreo-compare-as-set"] = ["fixed"]
    out = {"apiConfig": api, "create": {"enabled": p["create"] != "off", "delay": 11}}
    if p["template"]:
        out["resourceTemplateRef"] = {"name": "the-template"}
        out["overlays"] = [{"overlay": target}]
    else:
        out["resource"] = target
    if p["overlay"]:
        out.setdefault("overlays", []).append({"overlay": {"spec": {"over": "=inputs.n"}}})
    if p["overlay"] == "ref":
        out["overlays"].append({"overlayRef": {"kind": "ValueFunction", "name": "the-overlay"}, "inputs": {"m": "=inputs.m"}})
    if p["create"] == "overlay":
        out["create"]["overlay"] = {"spec": {"born": "=inputs.n"}}
    out["update"] = {"patch": {"patch": {"delay": 7}}, "recreate": {"recreate": {"delay": 9}}, "never": {"never": {}}}[p["update"]]
    if p["pre"]:
        out["preconditions"] = copy.deepcopy(PRE)
    if p["post"]:
        out["postconditions"] = copy.deepcopy(POST)
    out["return"] = {"full": {"all": "=resource", "i": "=inputs"}, "some": {"n": "=resource.spec.n", "l": "=inputs.l", "b": True, "k": [1, {"z": "=inputs.name"}]}}.get(p["ret"])
    if not out["return"]:
        del out["return"]
    return out


OVERLAY_FUNCTION = {"return": {"spec": {"from": "=inputs.m", "o": "=[inputs.m].flatten()" if False else "=inputs.m.overlay({'z': 1})"}}}

MAPS = st.sampled_from([{}, {"a": 1}, {"a": [1, 2], "k": {"y": True}}, {"k": {"z": 5}}, {"a": "x", "b": None}, {"k": "text"}, {"a": 1.5, "e": {}}, {"b": [{"a": 1}, {"a": True}]}])
LISTS = st.sampled_from([[], [1], [1, 2, 3], ["a", "b"], [3, 1], [{"a": 1}], [True, 1, "1"], [[1], [2]], ["a", "a", None]])


def inputs_maps():
    full = st.fixed_dictionaries({"n": st.integers(0, 4), "m": MAPS, "l": LISTS, "name": st.sampled_from(["thing", "other", "UPPER Name"]), "mode": st.sampled_from(MODES)})
    return full


def overrides():
    return st.one_of(
        st.fixed_dictionaries({}, optional={"n": st.integers(0, 4), "m": MAPS, "l": LISTS, "mode": st.sampled_from(MODES)}).filter(bool),
        st.fixed_dictionaries({"n": st.integers(0, 4)}),
        st.fixed_dictionaries({"extra": st.one_of(MAPS, LISTS, st.none())}),
    )


def live(n, m, flavour, extra):
    """A live Widget; `flavour` decides how close to some target it is."""
    spec = {"n": n, "m": m, "flag": True, "fixed": ["x", "y"]}
    if flavour == "drift":
        spec["flag"] = False
    if flavour == "bare":
        spec = {"n": n}
    doc = {"apiVersion": "test.koreo.dev/v1", "kind": "Widget", "metadata": {"name": "thing", "namespace": "ns-one", "labels": {"app": "thing"}}, "spec": spec}
    if extra:
        doc["status"] = extra
    return doc


def lives():
    return st.builds(live, st.integers(0, 4), MAPS, st.sampled_from(["match", "match", "drift", "bare"]), st.sampled_from([None, None, {"ready": True}, {"conditions": [{"type": "A", "status": "True"}]}]))


def live_overlays():
    return st.sampled_from([{"spec": {"n": 4}}, {"spec": {"n": 1, "m": {"a": 1}}}, {"status": {"ready": "=1 == 1"}}, {"status": {"phase": "Up"}, "metadata": {"labels": {"l": "x"}}},
                            {"spec": {"flag": False}}, {"spec": {"fixed": ["y", "x"]}}, {"spec": {"l": [1, "two"]}}, {"seen": {"n": 9}}])


def vf_programs():
    return st.fixed_dictionaries({"kind": st.just("VF"), "shape": st.sampled_from(sorted(VF_SHAPES)), "pre": st.booleans()})


def rf_programs():
    return st.fixed_dictionaries({
        "kind": st.just("RF"), "name": st.sampled_from(["thing", "thing", "=inputs.name.lower().split(' ')[0]"]), "owned": st.booleans(), "plural": st.sampled_from([True, True, False]),
        "mode": st.sampled_from(["", "", "", "", "", "", "readonly", "delete"]), "typed": st.booleans(), "annotated": st.booleans(), "directives": st.booleans(),
        "template": st.sampled_from([False, False, True]), "overlay": st.sampled_from(["", "", "inline", "ref"]), "create": st.sampled_from(["on", "on", "on", "off", "overlay"]),
        "update": st.sampled_from(["patch", "patch", "patch", "recreate", "never"]), "pre": st.booleans(), "post": st.booleans(), "ret": st.sampled_from(["full", "full", "some", ""])})


async def setup(program):
    """Cache what the Function needs, and the Function; returns it, prepared."""
    kind = "ValueFunction" if program["kind"] == "VF" else "ResourceFunction"
    if program["kind"] == "RF":
        await kit.offer_ok("ResourceTemplate", "the-template", {"template": copy.deepcopy(TEMPLATE)})
        await kit.offer_ok("ValueFunction", "the-overlay", copy.deepcopy(OVERLAY_FUNCTION))
    return await kit.offer_ok(kind, "fut", spec_of(program))


def spec_of(program):
    return value_function(program) if program["kind"] == "VF" else resource_function(program)


async def fresh(program):
    return await kit.prepare_ok("ValueFunction" if program["kind"] == "VF" else "ResourceFunction", "fut", spec_of(program))


# --- running the Function on its own ----------------------------------------------
class OneObject:
    """An API which holds (at most) one object, whatever it is asked for."""

    def __init__(self, resource, plurals=None):
        self.resource = resource
        self.calls = []
        self.plurals = plurals

    @property
    def namespace(self):
        return "nowhere"

    async def lookup_kind(self, kind):
        return (None, self.plurals or kind.lower(), None)

    async def async_get(self, *args, **kwargs):
        self.calls.append(("GET", json.dumps([str(a) for a in args if isinstance(a, str)] + [getattr(a, "plural", "") for a in args if isinstance(a, type)]), None))
        if self.resource:
            meta = self.resource.get("metadata", {})
            cls = kr8s.objects.new_class(version=self.resource["apiVersion"], kind=self.resource["kind"], namespaced=bool(meta.get("namespace")), asyncio=True)
            yield cls(api=self, resource=copy.deepcopy(self.resource), namespace=meta.get("namespace"))

    @asynccontextmanager
    async def call_api(self, method="GET", **kwargs):
        body = json.loads(kwargs["data"]) if kwargs.get("data") else None
        self.calls.append((method, kwargs.get("url"), body))
        now = copy.deepcopy(self.resource or {})
        if method == "DELETE":
            now = {}
        elif body is not None:
            now.update(body)
        self.after = now

        class Response:
            def json(self):
                return copy.deepcopy(now)

        yield Response()


class Truth:
    """What the Function really does for these inputs and this resource."""

    def __init__(self, outcome, sent, deleted, after, calls):
        self.outcome = outcome
        self.cls = kit.outcome_class(outcome)
        self.value = plain(outcome) if self.cls == "Ok" else None
        self.message = getattr(outcome, "message", None)
        self.delay = getattr(outcome, "delay", None) if self.cls == "Retry" else None
        self.sent = without_last(sent)
        self.deleted = deleted
        self.after = after
        self.calls = calls


def without_last(doc):
    if doc is None:
        return None
    doc = copy.deepcopy(doc)
    notes = doc.get("metadata", {}).get("annotations")
    if notes is not None:
        notes.pop(LAST, None)
        if not notes:
            del doc["metadata"]["annotations"]
    return doc


async def truth(function, inputs, resource, location=LOC, plurals=None):
    cel_inputs = celpy.json_to_cel(inputs or {})
    if isinstance(function, kit.ValueFunction):
        outcome = await kit.reconcile_value_function(location=location, function=function, inputs=cel_inputs,
                                                     value_base=celpy.json_to_cel(copy.deepcopy(resource)) if resource else celtypes.MapType({}))
        return Truth(outcome, None, False, copy.deepcopy(resource), [])
    api = OneObject(copy.deepcopy(resource), plurals)
    got = await kit.reconcile_resource_function(api=api, location=location, function=function, owner=("no-namespace", celtypes.MapType({"uid": "unit-test-123"})), inputs=cel_inputs)
    outcome = got[0]
    writes = [c for c in api.calls if c[0] in ("POST", "PATCH", "PUT")]
    deleted = any(c[0] == "DELETE" for c in api.calls)
    sent = None
    if writes:
        sent = copy.deepcopy(resource or {})
        sent.update(writes[-1][2])
    after = copy.deepcopy(resource)
    if writes or deleted:
        after = api.after
    return Truth(outcome, sent, deleted, after, api.calls)


def plain(value):
    """What a test author would write for this value."""
    if isinstance(value, (celtypes.DurationType, celtypes.TimestampType)):
        return str(value)
    if isinstance(value, (bytes, bytearray)):
        return base64.b64encode(bytes(value)).decode()
    if isinstance(value, dict):
        return {str(k): plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return kit.plain(value)


# --- assertions -----------------------------------------------------------------
NAMES = {"Skip": "skip", "DepSkip": "depSkip", "Retry": "retry", "PermFail": "permFail", "Ok": "ok"}


def outcome_assertion(cls, message="", delay=0):
    if cls == "Ok":
        return {"expectOutcome": {"ok": {}}}
    body = {"message": message}
    if cls == "Retry":
        body["delay"] = delay
    return {"expectOutcome": {NAMES[cls]: body}}


def ascii_swap(text):
    return "".join(c.swapcase() if c.isascii() else c for c in text)


def piece(text, rng):
    """A text the message contains, whatever its case or the test case's position."""
    text = rng.choice(CASE_AT.split(text)) if text else text
    if not text or rng.random() < 0.2:
        return text or ""
    a = rng.randrange(len(text))
    b = rng.randrange(a, len(text)) + 1
    out = text[a:b]
    return ascii_swap(out) if rng.random() < 0.5 else out


def true_assertions(t, rng, resource_function):
    out = [outcome_assertion(t.cls, piece(t.message, rng), t.delay if t.delay and rng.random() < 0.5 else 0)]
    if t.cls == "Ok" and isinstance(t.value, dict) and t.value:
        out.append({"expectReturn": copy.deepcopy(t.value)})
    if resource_function:
        out.append({"expectDelete": t.deleted})
        if t.sent is not None:
            out.append({"expectResource": copy.deepcopy(t.sent)})
    return out


def false_assertions(t, rng, resource_function):
    """Assertions which clearly do not hold."""
    others = [c for c in NAMES if c != t.cls]
    out = [outcome_assertion(rng.choice(others))]
    if t.cls == "Retry" and t.delay != 1234:
        out.append(outcome_assertion("Retry", "", 1234))
    if t.cls not in ("Ok",):
        out.append(outcome_assertion(t.cls, "no such text"))
    out.append({"expectReturn": {"no-such": "value"}})
    if resource_function:
        out.append({"expectDelete": not t.deleted})
        out.append({"expectResource": {"apiVersion": "v1", "kind": "Never", "metadata": {"name": "x"}}})
    return out


def deep_overlay(base, over):
    out = copy.deepcopy(base)
    for k, v in over.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = deep_overlay(out[k], v)
        else:
            out[k] = copy.deepcopy(v)
    return out


def index_overlay(base, over):
    """`overlayResource`: maps are merged, anything else (and `{}`) replaces."""
    out = copy.deepcopy(base)
    for k, v in over.items():
        if isinstance(v, dict) and v:
            out[k] = index_overlay(out[k] if isinstance(out.get(k), dict) else {}, v)
        else:
            out[k] = True if v == "=1 == 1" else copy.deepcopy(v)
    return out


CASE_AT = re.compile(r"testCases\[\d+\]")


def normal(text):
    return CASE_AT.sub("testCases[#]", text) if isinstance(text, str) else text


def outcome_view(outcome):
    """A reported outcome, without the position of the test case."""
    cls = kit.outcome_class(outcome)
    if cls == "Ok":
        return {"class": cls, "value": plain(outcome.data if isinstance(outcome, result.Ok) else outcome)}
    view = {"class": cls, "message": normal(outcome.message)}
    if cls == "Retry":
        view["delay"] = outcome.delay
    return view


def report_view(r):
    """Everything a test case's report says."""
    return {"pass": r.test_pass, "label": r.label, "message": normal(r.message), "outcome": outcome_view(r.outcome) if r.outcome is not None else None,
            "differences": normal(repr(sort_sets(r.differences)))}


def sort_sets(d):
    if isinstance(d, dict):
        return {k: sort_sets(v) for k, v in sorted(d.items(), key=lambda kv: str(kv[0]))}
    if isinstance(d, (list, tuple)):
        return [sort_sets(v) for v in d]
    return d
