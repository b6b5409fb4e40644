"""C08: what is sent is clean, its last-applied annotation truthful, owners are kept."""
import copy
import json

from hypothesis import strategies as st

import kit
import rf
from cluster import Cluster
from core import check, fail, strict_eq

ID = "C08"
RULE = (
    "case = ResourceFunction with directives nested anywhere in a target delivered through template / overlays / functions / create "
    "overlay (which may itself carry directives, annotations, ownerReferences or a copied last-applied annotation) x owner and object "
    "namespace x a history of creates and drifts against live objects with arbitrary ownerReferences, for several parents in turn; every POST/PATCH is checked for "
    "directives, annotation == JSON of the rest, owner reference iff owning in the same namespace, live owner references kept; "
    "non-trivial = a payload with a directive below the top level, or with live owner references to keep"
)
ASSUMPTIONS = ["the target does not itself name the parent as owner", "metadata.annotations, when given, is a map"]
COUNT = {"quick": {"any": 1450, "bulk": 60}, "thorough": {"any": 22000, "bulk": 2000}}

REFS = [
    {"apiVersion": "v1", "kind": "Other", "name": "o1", "uid": "other-1"},
    {"apiVersion": "v1", "kind": "Other", "name": "o2", "uid": "other-2", "controller": True},
    {"apiVersion": "apps/v1", "kind": "Third", "name": "the-trigger", "uid": "other-3", "blockOwnerDeletion": False},
    {"apiVersion": "example.dev/v1", "kind": "Trigger", "name": "the-trigger", "uid": "another-trigger-uid"},
]
REFS += [{"apiVersion": "v1", "kind": "Crowd", "name": f"c{i}", "uid": f"crowd-{i}"} for i in range(16)]
# parents the same function is reconciled for, one after the other
PARENTS = [
    kit.OWNER_REF,
    {**kit.OWNER_REF, "name": "second-trigger", "uid": "uid-of-second"},
    {**kit.OWNER_REF, "uid": "uid-of-recreated-trigger"},
]


def strategies(tier):
    few = st.lists(st.integers(0, 3), max_size=4, unique=True)
    many = st.one_of(few, st.lists(st.integers(0, len(REFS) - 1), min_size=4, max_size=len(REFS), unique=True))
    return {"any": cases(rf.programs(tier, 3 if tier == "quick" else 4), few), "bulk": cases(rf.programs(tier, target=rf.big_targets()), many)}


def cases(programs, refs):
    return st.fixed_dictionaries({
        "p": programs,
        "update": st.sampled_from([None, None, {"patch": {"delay": 5}}, {"recreate": {"delay": 9}}]),
        "create_overlay": st.one_of(st.none(), st.none(), rf.map_nodes(2, True, ["c1", "c2", "c3"], min_size=1)),
        "meta": st.fixed_dictionaries({}, optional={
            "annotations": st.dictionaries(st.sampled_from(["n1", "n2"]), st.sampled_from(["", "v"]), max_size=2),
            "stale": st.sampled_from(["{}", "stale", '{"spec": 1}']),
            "refs": refs,
        }),
        "history": st.lists(st.fixed_dictionaries({
            "do": st.sampled_from(["absent", "drift", "drift", "touch", "unowned"]),
            "refs": st.one_of(st.none(), refs), "ours": st.sampled_from([None, None, 0, 1, 9, 99]),
            "parent": st.sampled_from([0, 0, 0, 1, 2]), "elsewhere": st.sampled_from([False] * 5 + [True]),
            "choice": st.tuples(st.integers(0, 60), st.integers(0, 60)), "seed": st.integers(0, 999),
        }), min_size=1, max_size=4),
    })


def find_directive(doc, path=""):
    if isinstance(doc, dict):
        for k, v in doc.items():
            if k in rf.DIRECTIVES:
                return f"{path}/{k}"
            got = find_directive(v, f"{path}/{k}")
            if got:
                return got
    elif isinstance(doc, list):
        for i, v in enumerate(doc):
            got = find_directive(v, f"{path}/{i}")
            if got:
                return got
    return None


def uids(doc):
    return [r.get("uid") for r in (doc.get("metadata") or {}).get("ownerReferences") or []]


def deep_directive(doc, depth=0):
    if isinstance(doc, dict):
        return (depth > 0 and any(d in doc for d in rf.DIRECTIVES)) or any(deep_directive(v, depth + 1) for v in doc.values())
    if isinstance(doc, list):
        return any(deep_directive(v, depth + 1) for v in doc)
    return False


def run(case, rec):
    p = copy.deepcopy(case["p"])
    meta = case["meta"]
    stale = "stale" in meta
    if "annotations" in meta or stale or "refs" in meta:
        extra = {}
        if "annotations" in meta or stale:
            extra["annotations"] = dict(meta.get("annotations", {}))
            if stale:
                extra["annotations"][rf.LAST] = meta["stale"]
        if "refs" in meta:
            extra["ownerReferences"] = [copy.deepcopy(REFS[i]) for i in meta["refs"]]
        p["target"]["metadata"] = rf.merge(p["target"].get("metadata") or {}, extra)
    prog = rf.Program(p, case["update"])
    over = case["create_overlay"]
    if over is not None:
        spec = prog.spec.setdefault("create", {})
        prog.inputs["over"] = {"o": over}
        spec["overlay"] = rf.merge(spec.get("overlay", {}), over if rf.lit_safe(over) else {"c9": "=inputs.over"})
    target_refs = set(meta.get("refs", ())) if "refs" in meta else set()
    deep = deep_directive(prog.target) or (over is not None and deep_directive(over, 1))

    async def main():
        await prog.prepare()
        cluster = Cluster()
        for step in case["history"]:
            live = cluster.objects.get(prog.key)
            if step["do"] == "absent" or live is None and step["do"] == "touch":
                cluster.objects.pop(prog.key, None)
            else:
                if live is None or step["do"] == "unowned":
                    live = rf.without_last(rf.merge(rf.strip(prog.want), {"metadata": {"uid": "u3"}}))
                    live["metadata"].pop("ownerReferences", None)
                live = rf.decorate(live, prog.want, 1, step["seed"], la_drift=False)
                if step["refs"] is not None:
                    live["metadata"]["ownerReferences"] = [copy.deepcopy(REFS[i]) for i in step["refs"]]
                    if step["ours"] is not None:
                        live["metadata"]["ownerReferences"].insert(step["ours"], copy.deepcopy(kit.OWNER_REF))
                if step["do"] == "drift":
                    want = copy.deepcopy(prog.want)
                    if stale:
                        want["metadata"]["annotations"].pop(rf.LAST)
                    want["metadata"].pop("ownerReferences", None)
                    got = rf.perturb(live, want, step["choice"])
                    if got and got[1][:1] != ("metadata",):
                        live = got[2]
                cluster.objects[prog.key] = live
            parent = PARENTS[step.get("parent", 0)]
            namespace = prog.owner_ns
            if step.get("elsewhere"):
                namespace = "ns-else" if namespace == "ns-one" else "ns-one"
            for again in range(2):
                before = copy.deepcopy(cluster.objects.get(prog.key))
                outcome, muts = await prog.reconcile(cluster, (namespace, copy.deepcopy(parent)))
                for call in muts:
                    if call.method in ("POST", "PATCH"):
                        inspect(call, before, cluster, parent, prog.owned and namespace == prog.namespace, namespace)

    def inspect(call, before, cluster, parent, should_own, namespace):
        payload = call.payload
        what = call.method
        where = find_directive(payload)
        check(where is None, f"{what} payload contains a directive at {where}", payload=payload)
        notes = payload["metadata"].get("annotations")
        check(isinstance(notes, dict) and isinstance(notes.get(rf.LAST), str), f"{what} without last-applied annotation", payload=payload)
        try:
            said = json.loads(notes[rf.LAST])
        except ValueError as err:
            fail(f"{what}: last-applied annotation is not JSON ({err})", payload=payload)
        sent = copy.deepcopy(payload)
        del sent["metadata"]["annotations"][rf.LAST]
        bare = copy.deepcopy(sent)
        if not sent["metadata"]["annotations"]:
            bare["metadata"].pop("annotations")
        check(strict_eq(said, sent) or strict_eq(said, bare), f"{what}: last-applied annotation is not what was sent", said=said, sent=sent)
        mine = parent["uid"]
        ours = [r for r in (payload["metadata"].get("ownerReferences") or []) if r.get("uid") == mine]
        if what == "POST":
            check(len(ours) == (1 if should_own else 0), f"created object has {len(ours)} references to the parent",
                  owned=prog.owned, owner_namespace=namespace, namespace=prog.namespace, payload=payload)
            check(not ours or strict_eq(ours[0], parent), "the owner reference is not the parent's", got=ours)
            for i in target_refs:
                check(REFS[i]["uid"] in uids(payload), "an owner reference of the target was dropped on create", payload=payload)
            rec.nt(deep)
            rec.tag("POST", f"owned:{should_own}")
            return
        had = uids(before)
        after = cluster.objects[prog.key]
        now = uids(after)
        rec.nt(deep or bool(had))
        rec.tag("PATCH", f"had:{min(len(had), 3)}", f"owned:{should_own}", "target-refs" if target_refs else "plain")
        kept = (after.get("metadata") or {}).get("ownerReferences") or []
        for ref in (before.get("metadata") or {}).get("ownerReferences") or []:
            check(any(strict_eq(ref, k) for k in kept), "a live owner reference was dropped or changed by the patch",
                  before=had, after=now, payload=payload, ref=ref)
        check(len(now) == len(set(now)), "duplicate owner references after the patch", before=had, after=now)
        if should_own:
            check(mine in now, "owning patch left the object without the parent's owner reference", before=had, after=now)
            if mine not in had:
                added = [r for r in kept if r.get("uid") == mine]
                check(strict_eq(added, [parent]), "the added owner reference is not the parent's", got=added)
        elif mine not in had:
            check(mine not in now, "patch added an owner reference although not owning in the same namespace",
                  owned=prog.owned, owner_namespace=namespace, namespace=prog.namespace, payload=payload)

    kit.run(main)
