"""CEL source text with known static references.

`exprs(labels)` draws [text, [label, ...]]: a syntactically valid expression
and the labels of `steps` it names statically."""
import re

from hypothesis import strategies as st

IDENT = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*$")
RESERVED = {"in", "true", "false", "null", "as", "break", "const", "continue", "else", "for", "function", "if", "import", "let", "loop",
            "package", "namespace", "return", "var", "void", "while", "has", "dyn"}

LEAVES = ["1", "-1", "0.5", "1u", "0x1F", "'x'", '"a b"', "b'x'", "r'\\d'", "'''m\nl'''", "true", "false", "null", "[]", "{}", "inputs", "inputs.a", "inputs['a b']",
          "parent", "parent.spec.name", "parent['metadata'].labels[\"x\"]", "int", "type(1)", "inputs.a.b[0].c", "'steps.none'", "1e3", "inputs[inputs.k]"]
CALLS1 = ["size", "string", "int", "type", "to_ref", "has_nothing", "bool", "double", "dyn", "duration", "timestamp", "uint", "bytes"]
METHODS0 = ["lower", "size", "trim", "b64encode", "strip", "flatten", "getHours", "from_json", "to_json", "b64decode", "upper"]
METHODS1 = ["contains", "startsWith", "matches", "overlay", "split", "join", "template_name", "nope", "split_first", "lstrip", "config_connect_ready", "self_ref"]
METHODS2 = ["replace", "split_index", "nope"]
MACROS = ["map", "filter", "all", "exists", "exists_one"]
BINARY = ["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "in"]


def reference(label):
    """expressions naming steps.<label> statically"""
    quoted = label.replace("\\", "\\\\").replace("'", "\\'").replace('"', '\\"').replace("\n", "\\n")
    forms = [f"steps['{quoted}']", f'steps["{quoted}"]', f"steps['{quoted}'].v", f'steps["{quoted}"]["v"]', f"steps[ '{quoted}' ]", f"(steps)['{quoted}']",
             f"steps[('{quoted}')]", f"((steps['{quoted}'])).v[0]"]
    if "\\" not in label and "'" not in label and '"' not in label and "\n" not in label:
        forms += [f"steps[r'{label}']", f"steps['''{label}''']", f'steps["""{label}"""]["v"]', f'steps[R"{label}"]']
    if label:
        forms.append(f"steps['\\u{ord(label[0]):04x}" + quoted_rest(label) + "']" if ord(label[0]) < 0x10000 else forms[0])
    if IDENT.match(label) and label not in RESERVED:
        forms += [f"steps.{label}", f"steps.{label}.v", f"steps.{label}.a.b.c", f"steps.{label}['x y']", f"steps.{label}[0]", f"steps.{label}.v[inputs.k]",
                  f"(steps).{label}", f"((steps).{label}).v", f"steps . {label}", f"steps\n.{label}", f"has(steps.{label})", f"has(steps.{label}.v)",
                  f"has(steps.{label}.a.b)", f"steps.{label}.v.lower()", f"steps.{label}.lower().size()", f".steps.{label}", f"steps.{label} // note\n",
                  f"steps.{label}.map(s, s)", f"size(steps.{label})", f"has(steps['{label}'].v)", f"steps.{label}.overlay({{'x': 1}})",
                  f"steps.{label}" + ".deep" * 30, f"steps.{label}.v" + "[0].x['y']" * 9]
    return st.sampled_from(forms)


def quoted_rest(label):
    return "".join(f"\\u{ord(c):04x}" if ord(c) < 0x10000 else c for c in label[1:])


def merge(*parts):
    seen = []
    for _, refs in parts:
        for r in refs:
            if r not in seen:
                seen.append(r)
    return seen


@st.composite
def wrap(draw, part, other):
    """`part` placed in one random syntactic context"""
    a = part[0]
    b, c = other
    A = f"({a})"
    var = draw(st.sampled_from(["i", "x", "item", "steps_", "v1"]))
    forms = [
        lambda: (f"({a})", []), lambda: (f"!{A}", []), lambda: (f"-{A}", []), lambda: (f"!!{A}", []),
        lambda: (f"{A} {draw(st.sampled_from(BINARY))} ({b[0]})", [b]), lambda: (f"({b[0]}) {draw(st.sampled_from(BINARY))} {A}", [b]),
        lambda: (f"{A}{draw(st.sampled_from(['&&', '||', '==', '+']))}({b[0]})", [b]),
        lambda: (f"{A} ? ({b[0]}) : ({c[0]})", [b, c]), lambda: (f"({b[0]}) ? {A} : ({c[0]})", [b, c]), lambda: (f"({b[0]}) ? ({c[0]}) : {A}", [b, c]),
        lambda: (f"[{a}]", []), lambda: (f"[{b[0]}, {a}, {c[0]}]", [b, c]), lambda: (f"[[{a}], [{b[0]}]]", [b]),
        lambda: (f"{{'k': {a}}}", []), lambda: (f"{{{A}: {b[0]}}}", [b]), lambda: (f"{{'k': {b[0]}, 'l': {{'m': {a}}}}}", [b]),
        lambda: (f"{A}.x", []), lambda: (f"{A}.x.y", []), lambda: (f"{A}['x']", []), lambda: (f"{A}[0]", []), lambda: (f"({b[0]})[{a}]", [b]),
        lambda: (f"inputs[{a}]", []), lambda: (f"inputs.a[{a}].b", []), lambda: (f"{A}[{b[0]}][{c[0]}]", [b, c]), lambda: (f"inputs[[{a}][0]]", []),
        lambda: (f"{draw(st.sampled_from(CALLS1))}({a})", []), lambda: (f"{draw(st.sampled_from(CALLS1))}({a}, {b[0]})", [b]),
        lambda: (f"{draw(st.sampled_from(CALLS1))}({b[0]}, {a})", [b]),
        lambda: (f"{A}.{draw(st.sampled_from(METHODS0))}()", []),
        lambda: (f"{A}.{draw(st.sampled_from(METHODS1))}({b[0]})", [b]), lambda: (f"({b[0]}).{draw(st.sampled_from(METHODS1))}({a})", [b]),
        lambda: (f"({b[0]}).{draw(st.sampled_from(METHODS2))}({c[0]}, {a})", [b, c]), lambda: (f"({b[0]}).{draw(st.sampled_from(METHODS2))}({a}, {c[0]})", [b, c]),
        lambda: (f"{A}.{draw(st.sampled_from(MACROS))}({var}, {b[0]})", [b]), lambda: (f"({b[0]}).{draw(st.sampled_from(MACROS))}({var}, {a})", [b]),
        lambda: (f"[1, 2].{draw(st.sampled_from(MACROS))}({var}, [3].{draw(st.sampled_from(MACROS))}(j, {a}))", []),
        lambda: (f"({b[0]}).{draw(st.sampled_from(MACROS))}({var}, {var} == {A})", [b]),
        lambda: (f"[{var} , 1].map(q, q)[0] == {A}" if False else f"[1].map({var}, [{var}, {a}])", []),
        lambda: (f"'p'.{draw(st.sampled_from(METHODS1))}({a}).x", []), lambda: (f"{{'k': {a}}}.k", []), lambda: (f"[{a}][0]", []), lambda: (f"{{'k': {a}}}['k'].z", []),
        lambda: (f"has({{'k': {a}}}.k)", []), lambda: (f"has({A}.x)", []), lambda: (f"has(inputs.a) && {A} == 1", []),
        lambda: (f"Msg{{field: {a}}}", []), lambda: (f"a.b.Msg{{field: {b[0]}, other: {a}}}", [b]),
        lambda: (f"  {a}  ", []), lambda: (f"\n{a}\n", []), lambda: (f"{A} in [{b[0]}]", [b]), lambda: (f"({b[0]}) in {A}", [b]), lambda: (f"-{A} < {b[0] if b[0].isalnum() else 1}", [b] if b[0].isalnum() else []),
        lambda: (f"type({A}) == type({b[0]})", [b]), lambda: (f"dyn({a})", []), lambda: (f"inputs.f.g({a})", []), lambda: (f"f({a}).g({b[0]})[{c[0]}]", [b, c]),
        lambda: (f"f()[{a}]", []), lambda: (f"(1 + 2).x[{a}]", []), lambda: (f"'lit'[{a}]", []), lambda: (f"[1, 2][{a}]", []), lambda: (f"(true ? ({a}) : 1).x", []),
        lambda: (f"{A}.f({b[0]}).g({c[0]})", [b, c]), lambda: (f".f({a})", []), lambda: (f".inputs.x == {A}", []),
    ]
    text, used = draw(st.sampled_from(forms))()
    return [text, merge(part, *used)]


@st.composite
def exprs(draw, labels=(), depth=4, want=True):
    def atom():
        if labels and draw(st.sampled_from([True, False, False])):
            label = draw(st.sampled_from(list(labels)))
            return [draw(reference(label)), [label]]
        return [draw(st.sampled_from(LEAVES)), []]

    if want and labels:
        label = draw(st.sampled_from(list(labels)))
        part = [draw(reference(label)), [label]]
    else:
        part = atom()
    for _ in range(draw(st.integers(0, depth))):
        part = draw(wrap(part, (atom(), atom())))
    return part
