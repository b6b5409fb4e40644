"""Workflow generator, builder and reference evaluator (C01, C02, C03, C09).

A case's workflow is plain JSON:

  {"trigger": {...}, "steps": [step, ...], "live": {...}}
  step  = {"label", "logic", "inputs": {k: node}|None, "skip": skip|None,
           "each": {"items": node, "key": k}|None, "state": bool, "cond": bool, "shared": bool}
  logic = {"t": "vf", ...} | {"t": "rf", ...} | {"t": "wf", "steps": [...]} |
          {"t": "sw", "on": node, "cases": [[case, default, logic], ...]}
  node  = ["lit", v] | ["parent", [path]] | ["step", label, [path], style] |
          ["inputs", [path]] | ["map", {k: node}] | ["list", [node]]

Function behaviour is selected by `inputs.mode`, so outcome classes can be
computed by the reference evaluator without looking at koreo.
"""
from hypothesis import strategies as st

MODES = ["ok", "skip", "depskip", "retry", "permfail", "evalfail"]
ORDER = ["DepSkip", "Skip", "Ok", "Retry", "PermFail"]
SEV = {c: i for i, c in enumerate(ORDER)}

TRIGGER = {
    "a": 7,
    "name": "zed",
    "flag": True,
    "off": False,
    "m": {"x": 1, "y": {"z": "deep"}},
    "items": ["p", "q", "r"],
    "modes": ["ok", "skip", "ok"],
    "badmodes": ["ok", "retry", "permfail"],
    "none": [],
    "k": "k1",
    "kx": "other",
    "mode_retry": "retry",
    "mode_ok": "ok",
}
# another parent of the same shape, every value different
TRIGGER2 = {
    "a": -3,
    "name": "someone else",
    "flag": False,
    "off": True,
    "m": {"x": "one", "y": {"z": {"deeper": [0]}}},
    "items": ["q", "s"],
    "modes": ["depskip", "ok", "ok", "ok"],
    "badmodes": ["permfail", "ok", "ok"],
    "none": [1],
    "k": "k2",
    "kx": "k1",
    "mode_retry": "ok",
    "mode_ok": "skip",
}
PARENT_PATHS = [["a"], ["name"], ["m"], ["m", "x"], ["m", "y", "z"], ["items"], ["flag"]]
STYLES = ["dot", "idx", "idx2", "macro", "cond", "call", "listlit", "maplit"]


# --- rendering -----------------------------------------------------------
def _path(base, path, style):
    out = base
    for p in path:
        if isinstance(p, int):
            out += f"[{p}]"
        elif style == "idx":
            out += f"['{p}']"
        elif style == "idx2":
            out += f'["{p}"]'
        else:
            out += f".{p}"
    return out


def expr(node):
    kind = node[0]
    if kind == "parent":
        return _path("parent", node[1], "dot")
    if kind == "inputs":
        return _path("inputs", node[1], "dot")
    if kind == "step":
        _, label, path, style = node
        if style == "idx":
            return _path(f"steps['{label}']", path, "idx")
        if style == "idx2":
            return _path(f'steps["{label}"]', path, "idx2")
        base = _path(f"steps.{label}", path, "dot")
        if style == "macro":
            return f"[0].map(i, {base})[0]"
        if style == "cond":
            return f"(true ? {base} : {base})"
        if style == "call":
            return f"[{base}].filter(i, true)[0]"
        if style == "listlit":
            return f"[1, {base}][1]"
        if style == "maplit":
            return f'{{"k": {base}}}.k'
        return base
    if kind == "lit":
        v = node[1]
        if isinstance(v, str):
            return f"'{v}'"
        if isinstance(v, bool):
            return "true" if v else "false"
        if isinstance(v, list):
            return "[" + ", ".join(expr(["lit", x]) for x in v) + "]"
        return str(v)
    raise AssertionError(node)


def literal(node):
    """node -> the YAML value of an inputs entry."""
    kind = node[0]
    if kind == "lit":
        return node[1]
    if kind == "map":
        return {k: literal(v) for k, v in node[1].items()}
    if kind == "list":
        return [literal(v) for v in node[1]]
    return "=" + expr(node)


def skip_expr(skip):
    kind = skip[0]
    if kind == "bool":
        return "=true" if skip[1] else "=false"
    if kind == "parent":
        return f"=parent.{skip[1]}"
    if kind == "stepid":
        _, label, want, style = skip
        return f"={expr(['step', label, ['id'], style])} == '{want}'"
    if kind == "nonbool":
        return "='yes'"
    if kind == "err":
        return "=parent.missing"
    raise AssertionError(skip)


# --- reference evaluation --------------------------------------------------
class Err(Exception):
    pass


def lookup(value, path):
    for p in path:
        if isinstance(value, dict):
            if p not in value:
                raise Err(p)
            value = value[p]
        elif isinstance(value, list):
            if isinstance(p, int) and 0 <= p < len(value):
                value = value[p]
            else:
                raise Err(p)
        else:
            raise Err(p)
    return value


def value_of(node, env):
    kind = node[0]
    if kind == "lit":
        return node[1]
    if kind == "parent":
        return lookup(env["parent"], node[1])
    if kind == "inputs":
        return lookup(env["inputs"], node[1])
    if kind == "step":
        return lookup(env["steps"][node[1]], node[2])
    if kind == "map":
        return {k: value_of(v, env) for k, v in node[1].items()}
    if kind == "list":
        return [value_of(v, env) for v in node[1]]
    raise AssertionError(node)


def node_refs(node):
    if node is None:
        return set()
    kind = node[0]
    if kind == "step":
        return {node[1]}
    if kind == "map":
        return set().union(*[node_refs(v) for v in node[1].values()], set())
    if kind == "list":
        return set().union(*[node_refs(v) for v in node[1]], set())
    return set()


def step_refs(step):
    refs = set()
    for n in (step["inputs"] or {}).values():
        refs |= node_refs(n)
    if step["skip"] and step["skip"][0] == "stepid":
        refs.add(step["skip"][1])
    if step["each"]:
        refs |= node_refs(step["each"]["items"])
    if step["logic"]["t"] == "sw":
        refs |= node_refs(step["logic"]["on"])
    return refs


class Out:
    """Model outcome.  skip_alt: a plain Skip would be an equally valid reading."""

    __slots__ = ("cls", "value", "msgs", "delay", "alt", "known_delay")

    def __init__(self, cls, value=None, msgs=(), delay=None, alt=()):
        self.cls, self.value, self.msgs, self.delay, self.alt = cls, value, list(msgs), delay, set(alt)

    def __repr__(self):
        return f"{self.cls}({self.value!r} {self.msgs} {self.delay})"


class SkipText:
    """forEach encodes a skipped item as some string."""

    def __init__(self, cls):
        self.cls = cls


def combine(outs):
    cls = max((o.cls for o in outs), key=SEV.get)
    same = [o for o in outs if o.cls == cls]
    if cls == "Ok":
        return Out("Ok", [o.value for o in same])
    msgs = [m for o in same for m in o.msgs] if cls in ("Retry", "PermFail") else []
    delay = None
    if cls == "Retry":
        ds = [o.delay for o in same]
        delay = None if any(d is None for d in ds) else max(ds)
    return Out(cls, None, msgs, delay)


def message(kind, leaf):
    """a message may be empty"""
    return "" if leaf.get("quiet") else f"{kind}-{leaf['name']}"


def object_name(leaf, inputs):
    sfx = inputs.get("sfx")
    if sfx is None:
        return leaf["name"]
    return f"{leaf['name']}-{sfx}"


class Model:
    """Evaluates one pass; `touched` maps object name -> allowed methods."""

    def __init__(self, live):
        self.live = live  # object name -> "match" | "drift" | "unready" (absent otherwise)
        self.touched = {}  # name -> expected mutating methods (list)
        self.order = []  # (object name, step path)
        self.step_objects = {}  # step path -> set of names touched by it

    def leaf(self, leaf, inputs, path):
        mode = inputs.get("mode", "ok")
        name = leaf["name"]
        if mode == "skip":
            return Out("Skip", msgs=[message("skip", leaf)])
        if mode == "depskip":
            return Out("DepSkip", msgs=[message("depskip", leaf)])
        if mode == "retry":
            return Out("Retry", msgs=[message("retry", leaf)], delay=leaf["delay"])
        if mode == "permfail":
            return Out("PermFail", msgs=[message("permfail", leaf)])
        value = {"id": name, "got": inputs}
        if leaf["t"] == "rf":
            if leaf.get("np") == "gone":
                return Out("PermFail")
            obj = object_name(leaf, inputs)
            state = self.live.get(obj)
            calls = []
            out = None
            mgmt = leaf["mgmt"]
            if mgmt == "die":
                if state is not None:
                    calls = ["DELETE"]
                    out = Out("Retry", delay=30)
            elif state is None:
                if mgmt == "ro":
                    out = Out("Retry", delay=30)
                else:
                    calls = ["POST"]
                    out = Out("Retry", delay=leaf["delay"])
            elif state == "drift" and mgmt in ("patch", "recreate"):
                calls = ["PATCH"] if mgmt == "patch" else ["DELETE"]
                out = Out("Retry", delay=leaf["delay"])
            self.touched[obj] = calls
            self.step_objects.setdefault(path, set()).add(obj)
            if out is not None:
                return out
            if mgmt != "die":
                if state == "unready":
                    return Out("Retry", msgs=[message("unready", leaf)], delay=leaf["delay"] + 1)
                value["live"] = 99 if state == "drift" else 3
        if leaf.get("mute"):
            return Out("Ok", None)
        if mode == "evalfail":
            return Out("PermFail")
        return Out("Ok", value)

    def logic(self, logic, inputs, env, path):
        t = logic["t"]
        if t in ("vf", "rf"):
            return self.leaf(logic, inputs, path)
        if t == "wf":
            outs, state = self.workflow(logic["steps"], inputs, path)
            total = combine([o for _, o in outs])
            if total.cls == "Ok":
                return Out("Ok", state)
            return total
        if t == "sw":
            try:
                on = value_of(logic["on"], {**env, "inputs": inputs})
            except Err:
                return Out("PermFail")
            if isinstance(on, bool) or not isinstance(on, (str, int)):
                return Out("PermFail")
            chosen = None
            for case, default, sub in logic["cases"]:
                if default:
                    chosen = sub
            for case, default, sub in logic["cases"]:
                if isinstance(on, str) and case == on:
                    chosen = sub
            if chosen is None:
                return Out("PermFail")
            return self.logic(chosen, inputs, env, path)
        raise AssertionError(t)

    def step(self, step, parent, known, path):
        refs = step_refs(step)
        for r in refs:
            if known[r].cls != "Ok":
                return Out("DepSkip")
        env = {"parent": parent, "steps": {r: known[r].value for r in refs}}
        bad_inputs = False
        inputs = {}
        try:
            for k, n in (step["inputs"] or {}).items():
                inputs[k] = value_of(n, env)
        except Err:
            bad_inputs = True
        skip = step["skip"]
        decision = None
        if skip:
            try:
                if skip[0] == "bool":
                    decision = skip[1]
                elif skip[0] == "parent":
                    decision = lookup(parent, [skip[1]])
                elif skip[0] == "stepid":
                    decision = lookup(env["steps"][skip[1]], ["id"]) == skip[2]
                elif skip[0] == "nonbool":
                    decision = "yes"
                else:
                    raise Err("missing")
            except Err:
                return Out("PermFail")
        if bad_inputs:
            return Out("PermFail", alt={"Skip"} if decision is True else ())
        if decision is not None:
            if not isinstance(decision, bool):
                return Out("PermFail")
            if decision:
                return Out("Skip")
        if not step["each"]:
            return self.logic(step["logic"], inputs, env, path)
        try:
            items = value_of(step["each"]["items"], env)
        except Err:
            return Out("PermFail")
        if not isinstance(items, list):
            return Out("PermFail")
        outs = []
        for item in items:
            outs.append(self.logic(step["logic"], {**inputs, step["each"]["key"]: item}, env, path))
        errs = [o for o in outs if o.cls in ("Retry", "PermFail")]
        if errs:
            return combine(errs)
        return Out("Ok", [o.value if o.cls == "Ok" else SkipText(o.cls) for o in outs])

    def workflow(self, steps, parent, path=()):
        known = {}
        outs = []
        state = {}
        self.state_order = []
        for s in steps:
            out = self.step(s, parent, known, path + (s["label"],))
            known[s["label"]] = out
            outs.append((s["label"], out))
            if out.cls == "Ok" and s["state"]:
                state[s["label"]] = out.value
                if s["shared"]:
                    state["shared"] = s["label"]
        return outs, state


def same(model, actual):
    """Model value equals delivered plain value?"""
    if isinstance(model, SkipText):
        return isinstance(actual, str)
    if isinstance(model, bool) or model is None:
        return model is actual
    if isinstance(model, dict):
        return isinstance(actual, dict) and set(model) == set(actual) and all(same(v, actual[k]) for k, v in model.items())
    if isinstance(model, list):
        return isinstance(actual, list) and len(model) == len(actual) and all(map(same, model, actual))
    if isinstance(actual, bool):
        return False
    return model == actual and isinstance(actual, str) == isinstance(model, str)


def may_be_null(logic):
    if logic["t"] == "sw":
        return any(may_be_null(sub) for _, _, sub in logic["cases"])
    return bool(logic.get("mute"))


# --- generation --------------------------------------------------------------
@st.composite
def workflows(draw, max_steps=6, rf=True, depth=1, faulty=True, live_bias=None, lookup=False,
              mgmts=("patch", "patch", "patch", "ro", "recreate", "never", "die")):
    counter = [0]
    live = {}
    np = []
    modes = MODES if faulty else ["ok", "ok", "skip", "depskip"]

    def fresh():
        counter[0] += 1
        return f"f{counter[0]}"

    def make_leaf(sfx_items=None):
        name = fresh()
        t = draw(st.sampled_from(["vf", "rf"])) if rf else "vf"
        leaf = {"t": t, "name": name, "delay": draw(st.integers(1, 200))}
        if draw(st.integers(0, 9)) == 9:
            leaf["mute"] = True  # it has no `return`
        if draw(st.integers(0, 7)) == 7:
            leaf["quiet"] = True
        if t == "rf":
            leaf["mgmt"] = draw(st.sampled_from(mgmts))
            if lookup and draw(st.integers(0, 1)) == 0:
                # "gone": a kind the API does not know
                leaf["np"] = draw(st.sampled_from([True, "gone"]))
                np.append(name)
            pool = live_bias or ["match", "match", "match", "match", "absent", "drift", "unready"]
            for n in [name] + [f"{name}-{i}" for i in (sfx_items or [])]:
                state = draw(st.sampled_from(pool))
                if state != "absent":
                    live[n] = state
        return leaf

    def make_logic(level, sfx_items=None, prior=(), shapes=None):
        pick = draw(st.integers(0, 9))
        if pick <= 5 or (pick >= 8 and level <= 0):
            return make_leaf(sfx_items)
        if pick <= 7:
            n = draw(st.integers(1, 3))
            cases = []
            dflt = draw(st.integers(-1, n - 1))
            names = draw(st.permutations(["k1", "k2", "other"]))
            for i in range(n):
                sub = make_leaf(sfx_items) if (level <= 0 or draw(st.integers(0, 4))) else make_sub(level - 1)
                cases.append([names[i], i == dflt, sub])
            opts = [["lit", "k1"], ["lit", "k2"], ["lit", "nope"], ["lit", 3], ["parent", ["k"]], ["parent", ["kx"]],
                    ["inputs", ["sel"]], ["inputs", ["sel"]], ["parent", ["flag"]]]
            for p in prior:
                if shapes and shapes.get(p) in ("fn", "sw"):
                    opts.append(["step", p, ["id"], draw(st.sampled_from(STYLES))])
                    opts.append(["step", p, ["got", "sel"], draw(st.sampled_from(STYLES))])
            return {"t": "sw", "on": draw(st.sampled_from(opts)), "cases": cases}
        return make_sub(level - 1)

    def make_sub(level):
        return {"t": "wf", "steps": make_steps(draw(st.integers(1, 3)), level, sub=True), "name": fresh()}

    def make_node(prior, shapes, sub):
        opts = ["lit", "lit", "parent", "parent", "map", "list"] + (["step"] * 8 if prior else [])
        kind = draw(st.sampled_from(opts))
        if kind == "lit":
            return ["lit", draw(st.sampled_from([1, 2, "w", "k1", "k2", True, False, 0, "", [1, 2], {"q": 1}, []]))]
        if kind == "parent":
            if sub:
                return ["parent", draw(st.sampled_from([[], [], [], ["sel"], ["mode"], ["nope"]]))]
            return ["parent", draw(st.sampled_from(PARENT_PATHS + ([["nope"]] if draw(st.integers(0, 5)) == 0 else [])))]
        if kind == "step":
            return step_node(prior, shapes)
        if kind == "map":
            return ["map", {k: make_node(prior, shapes, sub) for k in draw(st.sampled_from([["u"], ["u", "w"]]))}]
        return ["list", [make_node(prior, shapes, sub) for _ in range(draw(st.integers(1, 2)))]]

    def step_node(prior, shapes):
        label = draw(st.sampled_from(prior))
        shape = shapes[label]
        if shape in ("fn", "sw"):
            path = draw(st.sampled_from([[], [], ["id"], ["id"], ["got"], ["got", "v0"], ["nope"]]))
        elif shape == "null":
            path = []  # how the CEL library treats members of null is its own affair
        elif shape == "nulls":
            path = draw(st.sampled_from([[], [0], [1]]))
        elif shape == "list":
            path = draw(st.sampled_from([[], [], [0], [1], [0, "id"]]))
        else:
            path = draw(st.sampled_from([[], [], [], ["shared"], ["nope"]]))
        return ["step", label, path, draw(st.sampled_from(STYLES))]

    def make_steps(n, level, sub=False):
        steps = []
        shapes = {}
        for i in range(n):
            label = f"step_{i}" if not sub else f"inner_{i}"
            prior = [s["label"] for s in steps]
            each = None
            sfx_items = None
            if draw(st.integers(0, 4)) == 0:
                key = draw(st.sampled_from(["mode", "sfx", "item", "sel"]))
                if key == "mode":
                    items = draw(st.sampled_from([["lit", ["ok", "ok"]], ["lit", ["ok", "skip", "ok"]], ["lit", ["skip"]],
                                                  ["lit", []], ["lit", ["retry", "ok"]], ["lit", ["permfail", "retry", "ok"]],
                                                  ["lit", ["depskip", "ok", "skip"]]])
                                 if faulty else st.sampled_from([["lit", ["ok", "ok"]], ["lit", ["ok", "skip", "ok"]], ["lit", []]]))
                    if not sub and faulty and draw(st.integers(0, 3)) == 0:
                        items = draw(st.sampled_from([["parent", ["modes"]], ["parent", ["badmodes"]]]))
                elif key == "sfx":
                    sfx_items = draw(st.lists(st.sampled_from(["p", "q", "r", "s", "t"]), unique=True, max_size=4))
                    items = ["lit", sfx_items]
                    if not sub and draw(st.integers(0, 3)) == 0:
                        sfx_items = TRIGGER["items"]
                        items = ["parent", ["items"]]
                elif key == "sel":
                    items = ["lit", draw(st.lists(st.sampled_from(["k1", "k2", "other", "zz"] if faulty else ["k1", "k2", "other"]), max_size=4))]
                else:
                    opts = [["lit", [3, 1, 2]], ["lit", ["x", "x", "y"]], ["lit", []], ["lit", [5]], ["lit", [1, True, "1", 0, False, ""]], ["lit", [[1], [True], [], [1]]],
                            ["lit", [True, 1, True]]]
                    if not sub:
                        opts += [["parent", ["items"]]]
                        if faulty:
                            opts += [["parent", ["a"]], ["parent", ["m"]], ["parent", ["nope"]]]
                    for p in prior:
                        path = [] if shapes[p] in ("list", "null", "nulls") else ["got", "v0"]
                        opts.append(["step", p, path, draw(st.sampled_from(STYLES))])
                    items = draw(st.sampled_from(opts))
                each = {"items": items, "key": key}
            if each is not None:
                logic = make_each_logic(level, sfx_items, prior, shapes, each["key"])
            else:
                logic = make_logic(level, None, prior, shapes=shapes)
            inputs = {}
            if draw(st.integers(0, 2)):
                mode = draw(st.sampled_from(["ok"] * 6 + modes[1:]))
                if each is None or each["key"] != "mode":
                    if mode != "ok" or draw(st.booleans()):
                        inputs["mode"] = ["lit", mode]
            elif faulty and not sub and draw(st.integers(0, 5)) == 0:
                inputs["mode"] = ["parent", [draw(st.sampled_from(["mode_retry", "mode_ok"]))]]
            if draw(st.booleans()):
                inputs["sel"] = ["lit", draw(st.sampled_from(["k1", "k2", "other", "zz", 5] if faulty else ["k1", "k2", "other"]))]
            for j in range(draw(st.integers(0, 2))):
                inputs[f"v{j}"] = make_node(prior, shapes, sub)
            if prior and draw(st.integers(0, 2)):
                inputs["dep"] = step_node(prior, shapes)
            skip = None
            if draw(st.integers(0, 3)) == 0:
                opts = [["bool", True], ["bool", False], ["bool", False]]
                if not sub:
                    opts += [["parent", "flag"], ["parent", "off"], ["parent", "off"]]
                if faulty:
                    opts += [["nonbool"], ["err"]]
                for p in prior:
                    if shapes[p] == "fn":
                        opts += [["stepid", p, "nothing", draw(st.sampled_from(STYLES))]] * 2
                        opts += [["stepid", p, "f1", draw(st.sampled_from(STYLES))]]
                skip = draw(st.sampled_from(opts))
            elsewhere = (skip and skip[0] == "stepid") or (each and each["items"][0] == "step")
            if elsewhere and draw(st.integers(0, 2)) == 0:
                inputs = {}  # what it depends on is named elsewhere only
            shape = "list" if each else {"vf": "fn", "rf": "fn", "wf": "state", "sw": "sw"}[logic["t"]]
            if may_be_null(logic):
                shape = "nulls" if each else "null"
            steps.append({
                "label": label, "logic": logic, "inputs": inputs, "skip": skip, "each": each,
                "state": draw(st.integers(0, 4)) > 0, "cond": draw(st.integers(0, 6)) > 0,
                "shared": draw(st.integers(0, 3)) == 0,
            })
            shapes[label] = shape
        return steps

    def make_each_logic(level, sfx_items, prior, shapes, key):
        # several iterations share one object unless `sfx` tells them apart
        nonlocal rf
        saved = rf
        if key != "sfx":
            rf = False
        logic = make_logic(0 if key == "sfx" else level, sfx_items, prior, shapes=shapes)
        rf = saved
        return logic

    steps = make_steps(draw(st.integers(1, max_steps)), depth)
    return {"trigger": TRIGGER, "steps": steps, "live": live, "np": np}


@st.composite
def gathers(draw):
    """many steps, then some which take the values of all or most of them"""
    n = draw(st.integers(4, 15))
    live, steps = {}, []
    odd = draw(st.sampled_from([None, None, None, "skip", "depskip", "retry", "permfail"]))
    at = draw(st.integers(0, n - 1))

    def add(label, leaf, inputs, each=None):
        steps.append({"label": label, "logic": leaf, "inputs": inputs, "skip": None, "each": each,
                      "state": draw(st.booleans()), "cond": draw(st.integers(0, 6)) > 0, "shared": False})

    for i in range(n):
        leaf = {"t": draw(st.sampled_from(["vf", "vf", "rf"])), "name": f"f{i + 1}", "delay": draw(st.integers(1, 200))}
        if draw(st.integers(0, 4)) == 4:
            leaf["mute"] = True
        if leaf["t"] == "rf":
            leaf["mgmt"] = draw(st.sampled_from(["patch", "ro", "never"]))
            live[leaf["name"]] = "match"
        inputs = {"v0": ["lit", draw(st.sampled_from([None, 0, "", False, [], "w", i, {"q": None}, {}]))]}
        if odd and i == at:
            inputs["mode"] = ["lit", odd]
        each = None
        if leaf["t"] == "vf" and draw(st.integers(0, 5)) == 5:
            each = {"items": ["lit", draw(st.sampled_from([[], [1], ["x", "y"], list(range(33)), [f"n{i}" for i in range(70)]]))], "key": "item"}
        add(f"step_{i}", leaf, inputs, each)
    for k in range(draw(st.integers(1, 2))):
        labels = [s["label"] for s in steps]
        if draw(st.booleans()):
            labels = draw(st.lists(st.sampled_from(labels), min_size=2, unique=True))
        style = draw(st.sampled_from(STYLES))
        if draw(st.booleans()):
            inputs = {f"d{i}": ["step", label, [], style] for i, label in enumerate(labels)}
        else:
            inputs = {"all": ["map", {label: ["step", label, [], style] for label in labels}]}
        add(f"sum_{k}", {"t": "vf", "name": f"g{k}", "delay": 7}, inputs)
    return {"trigger": TRIGGER, "steps": steps, "live": live, "np": []}


@st.composite
def fans(draw, faulty=True, live_bias=("match", "match", "match", "match", "match", "match", "absent", "drift", "unready")):
    """a forEach over many items, and steps which take its values"""
    n = draw(st.integers(8, 40))
    items = [f"i{i}" for i in draw(st.permutations(range(n)))]
    alike = draw(st.sampled_from([None, None, "match"]))
    live = {}

    def leaf(name):
        got = {"t": draw(st.sampled_from(["rf", "rf", "rf", "vf"])), "name": name, "delay": draw(st.integers(1, 200))}
        if got["t"] == "rf":
            got["mgmt"] = draw(st.sampled_from(["patch", "patch", "ro", "recreate"]))
            for item in [""] + items:
                state = alike or draw(st.sampled_from(live_bias))
                if state != "absent":
                    live[f"{name}-{item}" if item else name] = state
        return got

    kind = draw(st.sampled_from(["leaf", "leaf", "wf", "sw"]))
    logic = leaf("f1")
    if kind == "wf":
        logic = {"t": "wf", "name": "f2", "steps": [{"label": "inner_0", "logic": logic, "inputs": {"sfx": ["parent", ["sfx"]]}, "skip": None, "each": None, "state": True,
                                                     "cond": True, "shared": False}]}
    elif kind == "sw":
        logic = {"t": "sw", "on": ["inputs", ["sel"]], "cases": [["k1", False, leaf("f3")], ["k2", True, logic]]}
    step = {"skip": None, "each": None, "cond": True, "shared": False, "state": True}
    inputs = {"v0": ["lit", 1]}
    if kind == "sw":
        inputs["sel"] = ["lit", draw(st.sampled_from(["k1", "k2", "zz"]))]
    style = draw(st.sampled_from(STYLES))
    steps = [
        {**step, "label": "step_0", "logic": logic, "inputs": inputs, "each": {"items": ["lit", items], "key": "sfx"}},
        {**step, "label": "step_1", "logic": {"t": "vf", "name": "f8", "delay": 3}, "inputs": {"all": ["step", "step_0", [], style]}},
        {**step, "label": "step_2", "logic": {"t": "vf", "name": "f9", "delay": 4}, "inputs": {"one": ["step", "step_0", [draw(st.integers(0, n - 1))], style]}},
    ]
    return {"trigger": TRIGGER, "steps": steps[:draw(st.integers(1, 3))], "live": live, "np": []}


# --- building the real thing ---------------------------------------------
def vf_spec(leaf):
    spec = {"preconditions": _pre(leaf), "return": _ret(leaf)}
    if leaf.get("mute"):
        del spec["return"]
    return spec


def _pre(leaf):
    name = leaf["name"]
    guard = "=!has(inputs.mode) || inputs.mode != '{}'"
    return [
        {"assert": guard.format("skip"), "skip": {"message": message("skip", leaf)}},
        {"assert": guard.format("depskip"), "depSkip": {"message": message("depskip", leaf)}},
        {"assert": guard.format("retry"), "retry": {"message": message("retry", leaf), "delay": leaf["delay"]}},
        {"assert": guard.format("permfail"), "permFail": {"message": message("permfail", leaf)}},
    ]


def _ret(leaf):
    # `boom` only ever exists as an evaluation failure
    return {
        "id": leaf["name"],
        "got": "=has(inputs.mode) && inputs.mode == 'evalfail' ? inputs.no_such_key : inputs",
    }


def rf_spec(leaf):
    spec = _rf_spec(leaf)
    if leaf.get("mute"):
        del spec["return"]
    return spec


def _rf_spec(leaf):
    import kit

    ret = dict(_ret(leaf))
    ret["live"] = "=resource.spec.size"
    api = kit.api_config(
        "Widget",
        name=f"='{leaf['name']}' + (has(inputs.sfx) ? '-' + string(inputs.sfx) : '')",
        namespace="ns-one",
    )
    if leaf.get("np"):
        api["kind"] = lookup_kind() + ("Gone" if leaf["np"] == "gone" else "")
        del api["plural"]
    mgmt = leaf["mgmt"]
    spec = {"preconditions": _pre(leaf), "apiConfig": api, "resource": {}}
    if mgmt == "ro":
        api["readonly"] = True
    elif mgmt == "die":
        api["deleteIfExists"] = True
        del ret["live"]
    else:
        spec["resource"] = {"spec": {"size": 3}}
        spec["create"] = {"delay": leaf["delay"]}
        spec["update"] = {"never": {}} if mgmt == "never" else {mgmt: {"delay": leaf["delay"]}}
    if mgmt == "die":
        spec["return"] = ret
        return spec
    spec["postconditions"] = [
        {"assert": "=!has(resource.spec.unready)",
         "retry": {"message": message("unready", leaf), "delay": leaf["delay"] + 1}}
    ]
    spec["return"] = ret
    return spec


async def offer_logic(logic):
    """Offers everything below `logic`, returns its ref."""
    import kit

    t = logic["t"]
    if t == "vf":
        await kit.offer_ok("ValueFunction", logic["name"], vf_spec(logic))
        return {"kind": "ValueFunction", "name": logic["name"]}
    if t == "rf":
        await kit.offer_ok("ResourceFunction", logic["name"], rf_spec(logic))
        return {"kind": "ResourceFunction", "name": logic["name"]}
    if t == "wf":
        spec = await workflow_spec(logic["steps"])
        await kit.offer_ok("Workflow", logic["name"], spec)
        return {"kind": "Workflow", "name": logic["name"]}
    raise AssertionError(t)


async def workflow_spec(steps):
    out = []
    for s in steps:
        spec = {"label": s["label"]}
        logic = s["logic"]
        if logic["t"] == "sw":
            cases = []
            for case, default, sub in logic["cases"]:
                c = {"case": case, **(await offer_logic(sub))}
                if default:
                    c["default"] = True
                cases.append(c)
            spec["refSwitch"] = {"switchOn": "=" + expr(logic["on"]), "cases": cases}
        else:
            spec["ref"] = await offer_logic(logic)
        if s["inputs"]:
            spec["inputs"] = {k: literal(n) for k, n in s["inputs"].items()}
        if s["skip"]:
            spec["skipIf"] = skip_expr(s["skip"])
        if s["each"]:
            spec["forEach"] = {"itemIn": "=" + expr(s["each"]["items"]), "inputKey": s["each"]["key"]}
        if s["cond"]:
            spec["condition"] = {"type": "C" + s["label"].replace("_", ""), "name": f"the {s['label']}"}
        if s["state"]:
            spec["state"] = {s["label"]: "=value"}
            if s["shared"]:
                spec["state"]["shared"] = s["label"]
        out.append(spec)
    return {"steps": out}


# kr8s keeps one class per kind for the life of the process and koreo stores a
# looked-up plural on it, so every run uses a kind nobody has looked up yet.
_lookup_serial = [0]


def fresh_lookup_kind():
    _lookup_serial[0] += 1


def lookup_kind():
    return f"Sprocket{_lookup_serial[0]}"


def lookup_plurals():
    import kit

    return {f"{lookup_kind()}.{kit.KINDS['Widget'][0]}": "sprockets"}


def seed_cluster(cluster, live, np=()):
    import kit

    for name, state in live.items():
        version, plural, _ = kit.KINDS["Widget"]
        kind = "Widget"
        if name.split("-")[0] in np:
            kind, plural = lookup_kind(), "sprockets"
        spec = {"size": 99 if state == "drift" else 3, "extra": "server-side"}
        if state == "unready":
            spec["unready"] = True
        cluster.put(
            {
                "apiVersion": version, "kind": kind,
                "metadata": {"name": name, "namespace": "ns-one", "uid": f"live-{name}", "resourceVersion": "5",
                             "ownerReferences": [dict(kit.OWNER_REF)]},
                "spec": spec,
            },
            plural,
        )


REASON = {"Ok": "Ready", "Skip": "Skip", "DepSkip": "DepSkip", "Retry": "Wait", "PermFail": "Failure"}

