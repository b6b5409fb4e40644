"""Definitions generated from the bundled CRD schemas, and an independent
reading of those schemas (jsonschema, not the validator koreo uses)."""
import copy
import os

import jsonschema
import yaml
from hypothesis import strategies as st

import celgen
import gens

FILES = {"ValueFunction": "value-function", "ResourceFunction": "resource-function", "ResourceTemplate": "resource-template",
         "Workflow": "workflow", "FunctionTest": "function-test"}


def load(kind):
    path = os.path.join(os.environ.get("KOREO_REPO", "/repo"), "src/koreo/schema", FILES[kind] + ".yaml")
    with open(path) as f:
        crd = yaml.safe_load(f)
    for version in crd["spec"]["versions"]:
        if version["name"] == "v1beta1":
            return version["schema"]["openAPIV3Schema"]["properties"]["spec"]
    raise RuntimeError(f"no v1beta1 schema for {kind}")


def lax(schema):
    """`nullable: true` really allows null."""
    if isinstance(schema, list):
        return [lax(s) for s in schema]
    if not isinstance(schema, dict):
        return schema
    out = {}
    for k, v in schema.items():
        if k == "properties":
            out[k] = {n: lax(s) for n, s in v.items()}
        elif k in ("default", "enum", "required"):
            out[k] = v
        else:
            out[k] = lax(v)
    if out.get("nullable") is True and isinstance(out.get("type"), str):
        out["type"] = [out["type"], "null"]
    return out


def with_defaults(schema, value):
    """The value as the API server would store it."""
    if isinstance(value, dict):
        value = dict(value)
        for name, sub in (schema.get("properties") or {}).items():
            if name not in value and "default" in sub:
                value[name] = copy.deepcopy(sub["default"])
            if name in value:
                value[name] = with_defaults(sub, value[name])
        return value
    if isinstance(value, list) and isinstance(schema.get("items"), dict):
        return [with_defaults(schema["items"], v) for v in value]
    return value


SCHEMAS = {kind: load(kind) for kind in FILES}
_VALIDATORS = {kind: jsonschema.Draft7Validator(lax(s)) for kind, s in SCHEMAS.items()}


def violates(kind, spec):
    """Certainly against the schema: as offered, and with defaults applied."""
    check = _VALIDATORS[kind]
    return not check.is_valid(spec) and not check.is_valid(with_defaults(SCHEMAS[kind], spec))


NAMES = {
    "ValueFunction": ["fn-a", "fn-b", "fn-bad", "nope", "vf-gen"],
    "ResourceFunction": ["rf-a", "rf-static", "rf-dyn", "rf-bad", "nope", "rf-gen"],
    "Workflow": ["wf-a", "wf-a", "wf-bad", "nope", "wf-back", "the-definition"],
}
LABELS = ["alpha", "beta", "step_one", "gamma", "the_step", "x" * 45]
EXPRESSIONS = {"assert", "skipIf", "switchOn", "itemIn"}
MAYBE_EXPRESSIONS = {"name", "namespace", "message"}


def tricky_text():
    return st.one_of(gens.TEXT, st.sampled_from(["\ud800", "=\udfff", "=", "==", "= ", "=1 +", "=(", "=)", "=a b", "=//", "=[", "={", "='", '="', "=a.'b'",
                                                 "=a.1", "=1.a", "=a[", "=a[]", "=f(,)", "=a..b", "=\x00", "=@", "=a?b", "=a?b:", "=?:", "=,", "=;",
                                                 "=has()", "=has(a)", "=has(1)", "=[].map()", "=[].map(1)", "=[].map(1, 2)", "=[].map(x, y, z)", "=size()", "=in",
                                                 "=in in in", "=a.in", "=a.map", "=.a", "=.a.b", "=.f()", "=a{b:1}", "=a.b{}", "={}.a", "=[].a", "=''.a", "=1.0.a",
                                                 "=(a)(b)", "=a()()", "=a[0](1)", "=f()()", "=b''.x", "=null.x", "=-a.b", "=!a.b", "=-(-1)", "=--1", "=!-1", "=-!a",
                                                 "=a\n=b", "=" * 5 + "1", "=\n1", "=1\n", "=  1", "=\u00e9", "=a.\u00e9", "='\\q'", "='\\x1'", "='\\ud800'",
                                                 "=steps['\\U00110000']", "=a['\\ud800']", "=a[b'\\xff']", "=a[r'\\']", "=a[\"\"\"x\"\"\"]", "=\"\"\"", "='''", "=r'", "=b\"",
                                                 "=99999999999999999999", "=a[99999999999999999999]", "=1e999", "=-9223372036854775809", "=18446744073709551616u",
                                                 "=a[1u]", "=a[1.5]", "=a[true]", "=a[null]", "=a[int]", "=a[-1]", "=a[!b]", "=a[[]]", "=a[{}]", "=a[f()]", "=a[b.c]", "=a[b[c]]"]))


TOKENS = ["a", "steps", "inputs", ".", "[", "]", "(", ")", "{", "}", ",", ":", "?", "+", "-", "!", "&&", "||", "==", "in", "'x'", "1", "1.5", "null", "true",
          "has", "map", "x", "//", "b'y'", "1u", "\n", " ", "size", "not", "\\", "|", "=", "\"", "@"]


def expr_text(labels=("alpha", "beta")):
    return st.one_of(
        celgen.exprs(list(labels), 5, False).map(lambda e: e[0]),
        celgen.exprs(list(labels), 2, False).map(lambda e: e[0]),
        st.lists(st.sampled_from(TOKENS), max_size=9).map(" ".join),
        st.lists(st.sampled_from(TOKENS), max_size=7).map("".join),
    )


def good_expr(labels=("alpha", "beta")):
    return celgen.exprs(list(labels), 5, False).map(lambda e: "=" + e[0])


def leaf(rough):
    values = [st.sampled_from(["x", "", "thing-1", "true", "12"]), good_expr(), gens.MILD_SCALARS]
    if rough:
        values += [tricky_text(), expr_text().map(lambda t: "=" + t), gens.SCALARS]
    return st.one_of(*values)


def free_map(rough):
    keys = st.one_of(gens.IDENT, gens.TEXT if rough else gens.IDENT, st.sampled_from(
        ["metadata", "apiVersion", "kind", "x-koreo-compare-as-set", "x-koreo-compare-as-map", "x-koreo-compare-last-applied", "spec", "labels"]))
    return st.dictionaries(keys, gens.json_values(leaf(rough), keys, 5), max_size=4)


def string(name, kind_of, rough):
    if name in EXPRESSIONS:
        return st.one_of(good_expr(), good_expr(), *([tricky_text(), expr_text().map(lambda t: "=" + t)] if rough else []))
    if name == "label":
        return st.sampled_from(LABELS)
    if name == "apiVersion":
        return st.sampled_from(["v1", "apps/v1", "test.koreo.dev/v1", "", "a/b/c", "networking.k8s.io/v1", "batch/v1beta1", "x"])
    if name == "kind":
        return st.one_of(st.sampled_from(["Widget", "Deployment", "ConfigMap", "Pod", "List", "APIObject", "Namespace", "a.b.v1", "", "_x", "new_class", "__name__",
                                         "Widget/status", "widget", "\x00", "Ü", "Table", "Any"]), *([tricky_text()] if rough else []))
    if name == "plural":
        return st.one_of(st.sampled_from(["widgets", "", "Pods", "pods"]), *([gens.TEXT] if rough else []))
    if name in MAYBE_EXPRESSIONS:
        return st.one_of(st.sampled_from(["thing", "plain words", "", "123"]), good_expr(), *([tricky_text(), expr_text().map(lambda t: "=" + t)] if rough else []))
    return st.one_of(st.sampled_from(["x", "thing", "inputs"]), gens.TEXT if rough else st.just("y"))


@st.composite
def value(draw, schema, name="", rough=False, depth=0):
    kind = schema.get("type")
    if schema.get("nullable") is True and draw(st.integers(0, 9)) == 0:
        return None
    if "enum" in schema:
        return draw(st.sampled_from(schema["enum"]))
    if kind == "string":
        text = draw(string(name, None, rough))
        return text[: schema["maxLength"]] if "maxLength" in schema else text
    if kind == "boolean":
        return draw(st.booleans())
    if kind == "integer":
        return draw(st.sampled_from([0, 1, 30, -1, 2**31, 10**12]))
    if kind == "array":
        top = min(schema.get("maxItems", 4), draw(st.sampled_from([1, 2, 3, 4, 20])))
        low = schema.get("minItems", 0)
        items = draw(st.lists(value(schema["items"], name, rough, depth + 1), min_size=low, max_size=max(low, top)))
        return items
    if kind == "object" or kind is None:
        props = schema.get("properties") or {}
        if schema.get("maxProperties") == 0:
            return {}
        if not props:
            out = draw(free_map(rough))
            if "maxProperties" in schema:
                out = dict(list(out.items())[: schema["maxProperties"]])
            return out
        required = set(schema.get("required", ()))
        choices = [tuple(o["required"]) for o in schema.get("oneOf", ())]
        some = [tuple(o["required"]) for o in schema.get("anyOf", ())]
        out = {}
        exclusive = {k for c in choices for k in c}
        picked = draw(st.sampled_from(choices)) if choices else ()
        if some:
            required |= set(draw(st.sampled_from(some)))
        wanted = required | set(picked)
        for key in list(props) + [k for k in picked if k not in props]:
            if key in exclusive and key not in picked:
                continue
            if key in wanted or draw(st.integers(0, 2)) < 2:
                out[key] = draw(value(props.get(key, {}), key, rough, depth + 1)) if key in props else {}
        if {"kind", "name"} <= out.keys() and out["kind"] in NAMES and "apiVersion" not in out:
            out["name"] = draw(st.sampled_from(NAMES[out["kind"]]))
        return out
    raise RuntimeError(f"no generator for {schema}")


def tidy(kind, spec, drawn):
    """Past the shallow rejections which would hide what comes after them."""
    if kind == "ResourceFunction":
        api = spec.get("apiConfig")
        if isinstance(api, dict) and drawn < 8:
            api.setdefault("namespace", "ns-one")
            if not api["namespace"]:
                api["namespace"] = "ns-one"
            for key, good in (("kind", "Widget"), ("apiVersion", "test.koreo.dev/v1"), ("name", "thing")):
                if not api.get(key):
                    api[key] = good
    if kind == "FunctionTest" and drawn < 8:
        asserts = ("expectResource", "expectReturn", "expectOutcome", "expectDelete")
        for i, case in enumerate(spec.get("testCases", ())):
            present = [a for a in asserts if a in case]
            keep = present[(drawn + i) % len(present)] if present else "expectDelete"
            for a in present:
                if a != keep:
                    del case[a]
            if keep not in case:
                case[keep] = True
            if keep in ("expectResource", "expectReturn") and not case[keep]:
                case[keep] = {"a": 1}
        if spec.get("functionRef", {}).get("kind") == "ValueFunction":
            for case in spec.get("testCases", ()):
                for a in ("expectResource", "expectDelete"):
                    if a in case:
                        del case[a]
                        case["expectOutcome"] = {"ok": {}}
    if kind == "Workflow" and drawn < 6:
        seen = set()
        for i, step in enumerate(spec.get("steps", ())):
            if step.get("label") in seen:
                step["label"] = f"step_{i:02d}"
            seen.add(step.get("label"))
            for c, case in enumerate((step.get("refSwitch") or {}).get("cases", ())):
                case["default"] = c == 0
    if kind == "ResourceTemplate" and drawn < 8:
        spec["template"].update({"apiVersion": "test.koreo.dev/v1", "kind": "Widget"})
    return spec


def valid(kind, rough=False):
    return st.tuples(value(SCHEMAS[kind], "", rough), st.integers(0, 9)).map(lambda t: tidy(kind, t[0], t[1]))


# --- mutations ----------------------------------------------------------------
ODD = [None, True, False, 0, 1, -1, 2**63, -(2**63) - 1, 2**64, 10**40, 1.0, 1.5, 1e300, -0.0, "", "x", "=", "=1", "=inputs.a", [], [[]], {}, [{}], {"": ""}, {"a": None},
       "x" * 200, ["a"] * 30, [None], {"message": 1}, {"delay": 1.0, "message": "m"}, {"message": "m", "delay": 2**70}, {"message": "m", "delay": "5"}, {"ok": {}},
       {"assert": True}, "metadata", {"name": None}, [1, "a", None, {}], {"patch": {}}, {"never": {"a": 1}}, {"kind": "ValueFunction", "name": "fn-a"}]


def odd():
    return st.one_of(st.sampled_from(ODD), gens.json_values(max_leaves=5), st.sampled_from([20, 60]).map(nest_list), st.sampled_from([20, 60]).map(nest_map),
                     tricky_text())


def nest_list(n):
    out = []
    for _ in range(n):
        out = [out]
    return out


def nest_map(n):
    out = {}
    for _ in range(n):
        out = {"k": out}
    return out


def paths(node, at=()):
    yield at
    if isinstance(node, dict):
        for k, v in node.items():
            yield from paths(v, at + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            yield from paths(v, at + (i,))


def put(node, path, new):
    if not path:
        return new
    out = copy.copy(node)
    out[path[0]] = put(node[path[0]], path[1:], new)
    return out


def take(node, path):
    for p in path:
        node = node[p]
    return node


@st.composite
def mutated(draw, spec, most=3):
    for _ in range(draw(st.integers(1, most))):
        where = list(paths(spec))
        # mostly the shallow structure, where the schema has something to say
        where.sort(key=len)
        at = where[draw(st.one_of(st.integers(0, len(where) - 1), st.integers(0, min(len(where) - 1, 40))))]
        node = take(spec, at)
        ops = ["replace", "replace"]
        if isinstance(node, dict):
            ops += ["insert", "drop", "drop", "known"]
        if isinstance(node, list):
            ops += ["append", "oversize", "drop", "null"]
        if isinstance(node, str):
            ops += ["text", "expr", "long"]
        op = draw(st.sampled_from(ops))
        if op == "replace":
            new = draw(odd())
        elif op == "insert":
            new = dict(node)
            new[draw(st.one_of(gens.IDENT, gens.TEXT, st.sampled_from(["ok", "skip", "permFail", "retry", "depSkip", "defaultReturn", "ref", "refSwitch", "overlay",
                                                                         "overlayRef", "default", "case", "resource", "resourceTemplateRef", "never", "patch"])))] = draw(odd())
        elif op == "known" and node:
            new = dict(node)
            new[draw(st.sampled_from(sorted(node)))] = draw(odd())
        elif op == "drop" and node:
            new = copy.copy(node)
            if isinstance(new, dict):
                del new[draw(st.sampled_from(sorted(new)))]
            else:
                del new[draw(st.integers(0, len(new) - 1))]
        elif op == "append":
            new = node + [draw(odd())]
        elif op == "null":
            new = node + [None]
        elif op == "oversize" and node:
            new = (node * 25)[: draw(st.sampled_from([11, 20, 21, 25]))]
        elif op == "text":
            new = draw(tricky_text())
        elif op == "expr":
            new = "=" + draw(expr_text())
        elif op == "long":
            new = node + "y" * draw(st.sampled_from([5, 46, 61, 300]))
        else:
            new = draw(odd())
        spec = put(spec, at, new)
    return spec
