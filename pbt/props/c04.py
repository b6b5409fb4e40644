"""C04: a managing ResourceFunction stops mutating once the target is met."""
import copy

from hypothesis import strategies as st

import kit
import rf
from cluster import Cluster
from core import check, strict_eq

ID = "C04"
RULE = (
    "case = ResourceFunction whose target (nested maps/lists, set/map/last-applied directives anywhere) is delivered through a "
    "resource or template, inline/function/skipped overlays, literals and expressions + a starting situation (absent, made by "
    "someone else and meeting the target, or drifted) + server decorations between passes (extra keys at any depth, status, "
    "other owners, reordered set/map lists, 1 <-> 1.0); every mutating pass must be Retry(configured delay) and the pass after a "
    "create/patch must not mutate and must reach postconditions/return; non-trivial = a decorated object with at least 4 "
    "specified fields was left alone"
)
ASSUMPTIONS = ["merge-patch per RFC 7386; set lists hold simple values (as documented); members of a map list have distinct keys"]
COUNT = {"quick": {"any": 1100, "bulk": 50}, "thorough": {"any": 16000, "bulk": 1500}}

POST = [
    (None, None), (None, None),
    ([{"assert": "=has(resource.apiVersion)", "permFail": {"message": "no"}}], None),
    ([{"assert": "=resource.metadata.name == inputs.name", "permFail": {"message": "no"}}], None),
    ([{"assert": "=resource.metadata.name == 'nope'", "retry": {"message": "waiting", "delay": 77}}], ("Retry", "waiting", 77)),
    ([{"assert": "=has(resource.nothing)", "depSkip": {"message": "dep"}}], ("DepSkip", "dep", None)),
    ([{"assert": "=has(resource.nothing)", "skip": {"message": "skp"}}], ("Skip", "skp", None)),
    ([{"assert": "=has(resource.nothing)", "permFail": {"message": "perm"}}], ("PermFail", "perm", None)),
]
RETURNS = [
    (None, None),
    ({"n": "=resource.metadata.name", "k": "=resource.kind", "t": "=inputs.tag", "c": 1}, lambda p: {"n": "thing", "k": p.kind, "t": "the-tag", "c": 1}),
    ({"a": {"b": ["=resource.apiVersion"]}}, lambda p: {"a": {"b": [p.version]}}),
]


def strategies(tier):
    return {"any": cases(rf.programs(tier, 3 if tier == "quick" else 4)), "bulk": cases(rf.programs(tier, target=rf.big_targets()))}


def cases(programs):
    return st.fixed_dictionaries({
        "p": programs,
        "update": rf.UPDATES,
        "start": st.sampled_from(["absent", "absent", "foreign", "foreign", "drifted"]),
        "start_owned": st.booleans(),
        "deco": st.lists(st.tuples(st.sampled_from([0, 1, 2, 3, 3]), st.integers(0, 10**6)), min_size=4, max_size=4),
        "choice": st.tuples(st.integers(0, 900), st.integers(0, 50)),
        "post": st.integers(0, len(POST) - 1),
        "ret": st.integers(0, len(RETURNS) - 1),
        "stale": st.sampled_from([None, None, None, "stale", "{}"]),
        "garbage": st.sampled_from([None, None, None, None, "", "{", "[]", '"text"', "null", "7", '{"spec": 5, "metadata": "x", "data": [1], "a": {"b": 1}}',
                                    '{"spec": ["x", 1], "data": "abc", "a": "spec", "b": [[]]}', "true"]),
    })


def run(case, rec):
    p = copy.deepcopy(case["p"])
    stale = case.get("stale")
    if stale is not None:  # e.g. annotations copied from another managed object
        p["target"]["metadata"] = rf.merge(p["target"].get("metadata") or {}, {"annotations": {rf.LAST: stale}})
    prog = rf.Program(p, case["update"])
    if stale is not None:
        prog.want["metadata"]["annotations"].pop(rf.LAST)
    posts, expect_post = POST[case["post"]]
    ret, ret_fn = RETURNS[case["ret"]]
    if posts:
        prog.spec["postconditions"] = copy.deepcopy(posts)
    if ret:
        prog.spec["return"] = copy.deepcopy(ret)
    fields = sum(1 for _ in rf.leaf_paths(rf.strip(prog.target)))
    has_last = rf.uses(prog.target, rf.LASTD)

    async def quiet(cluster, outcome, muts, when):
        check(not muts, f"mutation although the target is met ({when}): {muts}, {rf.outcome_text(outcome)}",
              target=prog.want, live=cluster.objects.get(prog.key))
        got = kit.describe(outcome)
        if expect_post:
            cls, message, delay = expect_post
            check(got["class"] == cls and message in got["message"] and (delay is None or got["delay"] == delay),
                  f"postconditions were not honoured ({when})", got=got)
        else:
            want = ret_fn(prog) if ret_fn else None
            check(got["class"] == "Ok" and strict_eq(got["value"], want), f"return value not reached ({when})", got=got, want=want)

    async def main():
        await prog.prepare()
        cluster = Cluster()
        key = prog.key

        def deco(n, la=True):
            amount, seed = case["deco"][n]
            cluster.objects[key] = rf.decorate(cluster.objects[key], prog.want, amount, seed, la_drift=la)
            if case["garbage"] is not None and not has_last and n >= 1:
                cluster.objects[key]["metadata"].setdefault("annotations", {})
                if isinstance(cluster.objects[key]["metadata"]["annotations"], dict):
                    cluster.objects[key]["metadata"]["annotations"][rf.LAST] = case["garbage"]
            return amount

        state = "absent"
        if case["start"] != "absent":
            cluster.objects[key] = rf.merge(rf.strip(prog.want), {"metadata": {"uid": "u0"}})
            if case["start_owned"]:
                cluster.objects[key]["metadata"]["ownerReferences"] = [copy.deepcopy(kit.OWNER_REF)]
            deco(0, la=False)
            state = "met"
            if case["start"] == "drifted":
                got = rf.perturb(cluster.objects[key], prog.want, case["choice"])
                if got:
                    cluster.objects[key] = got[2]
                    state = "drifted"
            if state == "met" and has_last:
                state = "unknown"  # no annotation to compare with
        rec.tag(f"start:{state}", f"policy:{prog.policy}", f"owned:{prog.should_own}")
        mutated = 0
        for turn in range(4):
            before = copy.deepcopy(cluster.objects.get(key))
            outcome, muts = await prog.reconcile(cluster)
            missing_owner = prog.should_own and before is not None and not any(
                r.get("uid") == kit.OWNER_REF["uid"] for r in before["metadata"].get("ownerReferences", []))
            if muts:
                mutated += 1
                check(len(muts) == 1, f"more than one mutation in a pass: {muts}")
                method = muts[0].method
                d = kit.describe(outcome)
                delay = prog.create_delay if method == "POST" else prog.delay
                check(d["class"] == "Retry", f"a pass that mutates ({method}) did not return Retry", got=d)
                check(d["delay"] == delay, f"{method} retried with another delay than configured", got=d, want=delay)
                check(method != "PUT" and muts[0].subresource is None, f"unexpected call {muts[0]}")
            if state in ("met", "settled") and not missing_owner:
                await quiet(cluster, outcome, muts, f"turn {turn}, {state}")
                rec.nt(fields >= 4 and any(a for a, _ in case["deco"][:turn + 1]))
            elif state == "absent":
                check(muts and muts[0].method == "POST", f"absent object was not created: {outcome}", muts=muts)
            elif muts:
                check(muts[0].method == {"patch": "PATCH", "recreate": "DELETE"}.get(prog.policy), f"unexpected {muts}")
            elif state in ("drifted", "unknown") or missing_owner:
                # update policy `never`, or nothing to do after all
                check(prog.policy == "never" or (state == "unknown"), f"nothing done about a {state} object ({outcome})", live=before, target=prog.want)
                if prog.policy == "never":
                    await quiet(cluster, outcome, muts, "update: never")
            if muts:
                if muts[0].method == "DELETE":
                    state = "absent"
                    continue
                live = cluster.objects[key]
                check(rf.meets(prog.want, live), f"the object does not meet the target after {muts[0].method}", live=live, target=prog.want)
                if prog.should_own:
                    check(any(r.get("uid") == kit.OWNER_REF["uid"] for r in live["metadata"].get("ownerReferences", [])),
                          f"no owner reference after {muts[0].method}", live=live)
                state = "settled"
            elif state in ("drifted", "unknown") or missing_owner:
                state = "never" if prog.policy == "never" else "settled"
            if turn < 3 and key in cluster.objects:
                deco(turn + 1)

    kit.run(main)
