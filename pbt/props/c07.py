"""C07: the management mode bounds the calls a ResourceFunction may make."""
import copy
import itertools

from hypothesis import strategies as st

import kit
import rf
from cluster import Cluster
from core import check, strict_eq

ID = "C07"
RULE = (
    "case = one cell of readonly x owned x kind x owner namespace x create x update x deleteIfExists x precondition (all cells are "
    "enumerated, several targets each) followed by a history of cluster situations (absent, matching, drifted, owner reference "
    "missing, drifted and unowned); the calls of every pass are compared with the allowed table, absent+readonly/no-create must be "
    "Retry, failing preconditions mean no call at all (reads included), readonly returns the live object; non-trivial = at least one "
    "flag away from its default or a precondition that does not pass"
)
ASSUMPTIONS = ["a situation is set up by writing the stored object directly"]
COUNT = {"quick": 1500, "thorough": 16000}

CREATES = [None, {"enabled": True, "delay": 4}, {"enabled": False}, {"enabled": False, "delay": 3}, {"overlay": {"created": {"x": 1}}, "delay": 8},
           {"enabled": False, "overlay": {"created": 1}}]
UPDATES = [None, {"patch": {"delay": 5}}, {"recreate": {"delay": 6}}, {"never": {}}]
PRE = [
    (None, None),
    ([{"assert": "=inputs.yes", "permFail": {"message": "no"}}], None),
    ([{"assert": "=inputs.no", "skip": {"message": "m-skip"}}], "Skip"),
    ([{"assert": "=inputs.yes", "permFail": {"message": "no"}}, {"assert": "=inputs.no", "depSkip": {"message": "m-dep"}}], "DepSkip"),
    ([{"assert": "=inputs.no", "retry": {"message": "m-retry", "delay": 17}}, {"assert": "=inputs.no", "skip": {"message": "later"}}], "Retry"),
    ([{"assert": "=inputs.no", "permFail": {"message": "m-perm"}}], "PermFail"),
    ([{"assert": "=inputs.nothing", "skip": {"message": "m"}}], "PermFail"),
    ([{"assert": "=inputs.n", "skip": {"message": "m"}}], "PermFail"),
    ([{"assert": "=inputs.no", "ok": {}}, {"assert": "=inputs.no", "permFail": {"message": "unreached"}}], None),
]
SITUATIONS = ["absent", "match", "drift", "unowned", "drift-unowned", "stay"] * 2 + ["load-500", "load-404", "load-conn", "load-notfound", "load-timeout"]
POSTS = [None, None, "Retry", "PermFail"]

FLAGS = st.fixed_dictionaries({
    "readonly": st.sampled_from([None, True, True, False]),
    "delete": st.sampled_from([None, None, None, True, False]),
    "create": st.integers(0, len(CREATES) - 1),
    "update": st.integers(0, len(UPDATES) - 1),
    "pre": st.sampled_from([0, 0, 0, 0, 1, 1, 8] + list(range(2, 8))),
    "post": st.integers(0, 3),
})


def strategy(tier):
    return st.fixed_dictionaries({
        "p": rf.programs(tier, 2),
        "flags": FLAGS,
        "history": st.lists(st.tuples(st.sampled_from(SITUATIONS), st.integers(0, 40), st.integers(0, 40)), min_size=1, max_size=5),
        "deco": st.tuples(st.sampled_from([0, 1, 2]), st.integers(0, 1000)),
    })


BASE = {
    "base": "inline", "layers": [], "pick": [0], "style": [0], "noise": 0, "create": None, "named": "lit", "locals": False,
}
TARGETS = [{"spec": {"a": 1, "b": ["x"]}}, {}, {"spec": {"s": [1, 2]}, "data": False}]


def enumerate_cases(tier):
    cells = itertools.product(
        ["Widget", "Realm"], [True, False], ["same", "other"], [None, True], [None, True], range(len(CREATES)) if tier == "thorough" else (0, 2, 4),
        range(4), range(len(PRE)) if tier == "thorough" else (0, 2, 4, 5, 6))
    for kind, owned, ns, readonly, delete, create, update, pre in cells:
        if kind == "Realm" and ns == "same" and tier == "quick":
            continue
        for target in TARGETS if tier == "thorough" else TARGETS[:1]:
            yield {
                "p": {**BASE, "target": target, "kind": kind, "owned": owned, "owner_ns": ns},
                "flags": {"readonly": readonly, "delete": delete, "create": create, "update": update, "pre": pre, "post": 0},
                "history": [["absent", 0, 0], ["match", 0, 0], ["drift", 0, 0], ["unowned", 0, 0], ["drift-unowned", 1, 1]],
                "deco": [0, 0],
            }


def run(case, rec):
    flags = case["flags"]
    p = {**case["p"], "create": None}
    prog = rf.Program(p, UPDATES[flags["update"]])
    spec = prog.spec
    create = CREATES[flags["create"]]
    if create is not None:
        spec["create"] = copy.deepcopy(create)
    enabled = (create or {}).get("enabled", True)
    readonly, delete = bool(flags["readonly"]), bool(flags["delete"])
    for flag, field in (("readonly", "readonly"), ("delete", "deleteIfExists")):
        if flags[flag] is not None:
            spec["apiConfig"][field] = flags[flag]
    pre, blocked = PRE[flags["pre"]]
    if pre:
        spec["preconditions"] = copy.deepcopy(pre)
    prog.inputs.update({"yes": True, "no": False, "n": 5})
    post = POSTS[flags["post"]]
    if post:
        spec["postconditions"] = [{"assert": "=false", "retry": {"message": "post", "delay": 3}} if post == "Retry" else {"assert": "=false", "permFail": {"message": "post"}}]
    spec["return"] = {"live": "=resource"}
    rec.nt(readonly or delete or not enabled or flags["update"] not in (0, 1) or not prog.owned or blocked is not None)
    policy = prog.policy

    def live_object(drift, owned, choice):
        doc = rf.merge(rf.strip(prog.want), {"metadata": {"uid": "u9"}})
        if owned:
            doc["metadata"]["ownerReferences"] = [copy.deepcopy(kit.OWNER_REF)]
        doc = rf.decorate(doc, prog.want, *case["deco"], la_drift=False)
        if not owned:
            doc["metadata"].pop("ownerReferences", None)
        doc["metadata"]["annotations"] = {**(doc["metadata"].get("annotations") or {}), rf.LAST: rf.json.dumps(rf.strip(prog.want))}
        drifted = False
        if drift:
            got = rf.perturb(doc, prog.want, choice)
            if got:
                doc, drifted = got[2], True
        return doc, drifted

    async def main():
        await prog.prepare()
        trouble = {}
        cluster = Cluster(fault=lambda call: trouble.get(call.method))
        drifted = False
        for turn, (situation, c0, c1) in enumerate(case["history"]):
            if situation == "absent":
                cluster.objects.pop(prog.key, None)
            elif situation != "stay" and not situation.startswith("load-"):
                cluster.objects[prog.key], drifted = live_object("drift" in situation, "unowned" not in situation, (c0, c1))
            trouble.clear()
            if situation.startswith("load-"):
                trouble["GET"] = situation[5:]
            before = copy.deepcopy(cluster.objects.get(prog.key))
            at = len(cluster.log)
            outcome, muts = await prog.reconcile(cluster)
            d = kit.describe(outcome)
            methods = [c.method for c in muts]
            calls = cluster.log[at:]
            mode = {"readonly": readonly, "deleteIfExists": delete, "create": enabled, "update": policy, "owns": prog.should_own}
            ctx = dict(mode=mode, situation="absent" if before is None else situation, outcome=d, calls=calls)
            rec.tag(f"{'absent' if before is None else 'present'}:{methods[0] if methods else 'none'}")
            check(len(methods) <= 1, f"more than one mutation in one pass: {methods}", **ctx)
            if blocked:
                check(not calls, f"API call although preconditions did not pass: {calls}", **ctx)
                check(d["class"] == blocked, f"precondition outcome is {d}", **ctx)
                continue
            reffed = before is not None and any(r.get("uid") == kit.OWNER_REF["uid"] for r in before["metadata"].get("ownerReferences", []))
            needs = before is not None and (not rf.meets(prog.want, before) or (prog.should_own and not reffed))
            # the bounds themselves
            if delete:
                check(set(methods) <= {"DELETE"}, f"deleteIfExists made {methods}", **ctx)
                if situation.startswith("load-"):
                    continue
                check(methods == (["DELETE"] if before is not None else []), f"deleteIfExists made {methods}", **ctx)
                if before is not None:
                    check(d["class"] == "Retry", "deleting did not return Retry", **ctx)
                    check(prog.key not in cluster.objects, "deleted something else", **ctx)
                continue
            if readonly:
                check(not methods, f"readonly made {methods}", **ctx)
            if not enabled:
                check("POST" not in methods, "created although create is disabled", **ctx)
            if policy == "never":
                check(not set(methods) & {"PATCH", "DELETE"}, f"update policy never made {methods}", **ctx)
            if policy == "patch":
                check("DELETE" not in methods, "update policy patch deleted", **ctx)
            if policy == "recreate":
                check("PATCH" not in methods, "update policy recreate patched", **ctx)
            if situation.startswith("load-"):
                if situation in ("load-404", "load-notfound") and (readonly or not enabled):
                    check(d["class"] == "Retry" and not methods, "absent and not creatable, but not waiting", **ctx)
                continue
            # what must happen
            if before is None and (readonly or not enabled):
                check(d["class"] == "Retry", "absent and not creatable, but not waiting", **ctx)
                check(not methods, f"absent and not creatable, but {methods}", **ctx)
                continue
            if before is None:
                check(methods == ["POST"] and d["class"] == "Retry", f"absent object: {methods}", **ctx)
                continue
            if readonly or not needs or policy == "never":
                check(not methods, f"nothing to do, but {methods}", **ctx)
                if post:
                    check(d["class"] == post and "post" in d["message"], "postcondition not reached", **ctx)
                else:
                    check(d["class"] == "Ok", "no value", **ctx)
                    check(strict_eq(d["value"], {"live": before}), "`resource` is not the live object", was=before, **ctx)
                continue
            want = {"patch": ["PATCH"], "recreate": ["DELETE"]}[policy]
            check(methods == want and d["class"] == "Retry", f"needs correction, but made {methods}", **ctx)

    kit.run(main)
