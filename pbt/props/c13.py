"""C13: first false assertion decides; unevaluable ones fail safe."""
from hypothesis import strategies as st

import kit
from cluster import Cluster
from core import check

ID = "C13"
RULE = (
    "case = list of up to 20 assertions (kinds ok/skip/depSkip/retry/permFail, truth by several expression shapes, some "
    "non-boolean or failing, literal / computed / failing messages) used as ValueFunction preconditions, ResourceFunction "
    "pre- or postconditions, or preconditions of an overlay ValueFunction, with a body that works or that fails if it is "
    "evaluated, some evaluated with other inputs before; compared with a first-failure model; non-trivial = at least two assertions are false or one is unevaluable"
)
ASSUMPTIONS = [
    "the message of an assertion that does not decide may or may not be evaluated",
    "messages and delays are the ones written (delay is an integer by schema)",
]
COUNT = {"quick": 2000, "thorough": 40000}

INPUTS = {"n": 3, "s": "word", "t": True, "f": False, "m": {"y": {"z": "deep", "b": False}}, "l": [1, 2, 3], "nul": None}
# evaluated first in some cases: nothing of it may stick
OTHER = {"n": 1, "s": "other", "t": False, "f": True, "m": {"y": {"z": "xenon", "b": True}}, "l": [2], "nul": {"x": "there"}, "nope": {"x": 1}}

TRUE = ["=true", "=inputs.t", "=inputs.n > 2", "=inputs.s == 'word'", "=!has(inputs.nope)", "=inputs.t || inputs.f",
        "=3 in inputs.l", "=inputs.l.exists(x, x == 2)", "=inputs.m.y.z.startsWith('de')", "=!inputs.m.y.b", "=size(inputs.l) == 3",
        "=!(inputs.f)", "=inputs.t ? inputs.t : inputs.f", "=[true, false][0]", "=inputs.n in {3: 'x'}"]
FALSE = ["=false", "=inputs.f", "=inputs.n > 5", "=inputs.s == 'other'", "=has(inputs.nope)", "=inputs.t && inputs.f",
         "=9 in inputs.l", "=inputs.l.all(x, x == 2)", "=inputs.m.y.z.startsWith('x')", "=inputs.m.y.b", "=size(inputs.l) == 0",
         "=!inputs.t", "=inputs.f ? inputs.t : inputs.f", "=[true, false][1]", "={'k': false}.k"]
NONBOOL = ["=1", "=0", "='yes'", "=''", "='false'", "=null", "=inputs.nul", "=[]", "=[false]", "={}", "={'a': 1}", "=1.5", "=0.0",
           "=inputs.n", "=inputs.s", "=inputs.m", "=inputs.l", "plain words", "true", "false", "=b'x'", "=duration('1h')", "=int",
           "=-1", "=1u"]
FAILING = ["=inputs.nope", "=inputs.m.y.q.r", "=inputs.l[9]", "=inputs.nope > 1", "='a' + 1", "=nowhere",
           "=inputs.s.nope", "=int('x') > 1", "=inputs.l.map(x, x / 0)[0] > 1", "=!inputs.nope",
           "=to_ref(inputs.m)"]
BADMSG = ["=inputs.nope", "=1 / 0", "='a' + inputs.n", "=inputs.m.q", "='text ' + inputs.nul.x", "=inputs.l[7]"]
MSG = ["plain message", "it's \"quoted\"\nand \\ odd", "='built ' + inputs.s", "=inputs.m.y.z", "", "007x", "=string(inputs.n)", "  padded ", "a long message, " * 40 + "to the end", "='x' + inputs.l.map(i, 'many words ').filter(w, true).map(w, w + w + w + w + w + w)[0]"]
MSG_VALUE = {"='built ' + inputs.s": "built word", "=inputs.m.y.z": "deep", "=string(inputs.n)": "3",
             "='x' + inputs.l.map(i, 'many words ').filter(w, true).map(w, w + w + w + w + w + w)[0]": "x" + "many words " * 6}
KINDS = ["skip", "depSkip", "retry", "permFail", "ok"]
CLASS = {"skip": "Skip", "depSkip": "DepSkip", "retry": "Retry", "permFail": "PermFail"}


def strategy(tier):
    truth = st.sampled_from(["T"] * 5 + ["F"] * 3)
    bad = st.sampled_from(["N", "E"])

    def item(truths):
        return st.fixed_dictionaries({
            "truth": truths, "i": st.integers(0, 99), "kind": st.sampled_from(KINDS), "msg": st.integers(0, len(MSG) - 1),
            "delay": st.sampled_from([0, 1, 7, 300, 86400, 45.0, 604800, 10**9]),
        })

    clean = st.one_of(st.lists(item(truth), min_size=1, max_size=20), st.lists(item(truth), min_size=4, max_size=20),
                      st.lists(item(st.just("F")), min_size=1, max_size=5))
    spiced = st.tuples(st.lists(item(truth), max_size=8), item(bad), st.lists(item(truth), max_size=8)).map(
        lambda t: t[0] + [t[1]] + t[2])
    badmsg = st.tuples(clean, st.integers(0, 19), st.integers(0, len(BADMSG) - 1)).map(
        lambda t: [dict(p, badmsg=t[2]) if j == t[1] % len(t[0]) else p for j, p in enumerate(t[0])])
    return st.fixed_dictionaries({
        "preds": st.one_of(clean, clean, spiced, badmsg),
        "where": st.sampled_from(["vf", "vf", "pre", "post", "post", "overlay"]),
        "body": st.sampled_from(["works", "works", "fails"]),
        "mgmt": st.sampled_from(["normal", "readonly", "absent"]),
        "warm": st.booleans(),
    })


def render(p):
    pool = {"T": TRUE, "F": FALSE, "N": NONBOOL, "E": FAILING}[p["truth"]]
    out = {"assert": pool[p["i"] % len(pool)]}
    message = BADMSG[p["badmsg"]] if "badmsg" in p else MSG[p["msg"]]
    if p["kind"] == "ok":
        out["ok"] = {}
    elif p["kind"] == "retry":
        out["retry"] = {"message": message, "delay": p["delay"]}
    else:
        out[p["kind"]] = {"message": message}
    return out


CONTINUE = ("continue",)


def model(preds):
    """set of acceptable decisions"""
    if any(p["truth"] in "NE" for p in preds):
        return [("PermFail", None, None)]
    decision = CONTINUE
    undecided_bad = False
    decided = False
    for p in preds:
        if p["truth"] == "F" and not decided:
            decided = True
            if p["kind"] == "ok":
                continue
            if "badmsg" in p:
                decision = ("PermFail", None, None)
                continue
            msg = MSG[p["msg"]]
            decision = (CLASS[p["kind"]], MSG_VALUE.get(msg, msg), p["delay"] if p["kind"] == "retry" else None)
        elif "badmsg" in p and p["kind"] != "ok":
            undecided_bad = True
    out = [decision]
    if undecided_bad:
        out.append(("PermFail", None, None))
    return out


def matches(want, outcome, body):
    if want == CONTINUE:
        if body == "fails":
            return kit.outcome_class(outcome) == "PermFail"
        return kit.is_value(outcome) and kit.plain(outcome) == {"v": "word", "l": 4}
    cls, msg, delay = want
    if kit.outcome_class(outcome) != cls:
        return False
    if msg is not None and outcome.message != msg:
        return False
    if delay is not None and outcome.delay != delay:
        return False
    return True


def run(case, rec):
    preds = [render(p) for p in case["preds"]]
    wants = model(case["preds"])
    where = case["where"]
    rec.nt(sum(p["truth"] == "F" for p in case["preds"]) > 1 or any(p["truth"] in "NE" or "badmsg" in p for p in case["preds"]))
    rec.tag(where, f"decision:{wants[0][0]}", *{f"has:{p['truth']}" for p in case["preds"]})
    body = case["body"]
    ret = {"v": "=inputs.s", "l": "=locals.l"} if body == "works" else {"v": "=inputs.body_was_evaluated / 0"}
    loc = {"l": "=inputs.n + 1"}
    if body == "fails" and case["preds"][0]["i"] % 2:
        loc = {"l": "=inputs.locals_were_evaluated.x"}

    async def vf():
        spec = {"preconditions": preds, "locals": loc, "return": ret}
        fn = await kit.prepare_ok("ValueFunction", "fn", spec)
        if case.get("warm"):
            await kit.sut(kit.reconcile_value_function(location="there", function=fn, inputs=kit.cel(OTHER)), "the function")
        return await kit.sut(kit.reconcile_value_function(location="here", function=fn, inputs=kit.cel(INPUTS)), "the function")

    async def reconcile(fn, cluster):
        if case.get("warm"):
            elsewhere = Cluster()
            live(elsewhere)
            await kit.sut(kit.reconcile_resource_function(
                api=elsewhere, location="there", function=fn, owner=kit.owner(), inputs=kit.cel(OTHER)), "the function")
        return await kit.sut(kit.reconcile_resource_function(
            api=cluster, location="here", function=fn, owner=kit.owner(), inputs=kit.cel(INPUTS)), "the function")

    def rf_spec():
        api = kit.api_config("Widget", name="thing")
        spec = {"apiConfig": api, "resource": {"spec": {"size": 3}}, "locals": {"l": "=inputs.n + 1"}}
        if case["mgmt"] == "readonly":
            api["readonly"] = True
        return spec

    def live(cluster):
        if case["mgmt"] != "absent":
            cluster.put({"apiVersion": "test.koreo.dev/v1", "kind": "Widget",
                         "metadata": {"name": "thing", "namespace": "ns-one", "ownerReferences": [dict(kit.OWNER_REF)]},
                         "spec": {"size": 3}}, "widgets")

    async def pre():
        cluster = Cluster()
        live(cluster)
        spec = rf_spec()
        spec["locals"] = loc
        spec["preconditions"] = preds
        spec["return"] = ret
        fn = await kit.prepare_ok("ResourceFunction", "fn", spec)
        res = await reconcile(fn, cluster)
        stops = all(w != CONTINUE for w in wants)
        if stops:
            check(not cluster.log, "cluster was touched although a precondition decided", calls=cluster.log,
                  outcome=str(res.outcome))
        elif wants == [CONTINUE] and "locals_were" not in str(loc):
            check(cluster.log, "evaluation did not continue", outcome=str(res.outcome))
            if case["mgmt"] == "absent":
                check(kit.outcome_class(res.outcome) == "Retry" and cluster.mutations(), "not created",
                      outcome=str(res.outcome))
                return None
        if not stops and case["mgmt"] == "absent":
            return None
        return res.outcome

    async def post():
        cluster = Cluster()
        live(cluster)
        spec = rf_spec()
        spec["postconditions"] = preds
        spec["return"] = ret
        fn = await kit.prepare_ok("ResourceFunction", "fn", spec)
        res = await reconcile(fn, cluster)
        if case["mgmt"] == "absent":
            check(kit.outcome_class(res.outcome) == "Retry", "postconditions decided about an absent resource",
                  outcome=str(res.outcome))
            return None
        return res.outcome

    async def overlay():
        cluster = Cluster()
        await kit.offer_ok("ValueFunction", "ov", {"preconditions": preds, "locals": loc, "return": ret})
        spec = rf_spec()
        spec["apiConfig"].pop("readonly", None)
        spec["overlays"] = [{"overlayRef": {"kind": "ValueFunction", "name": "ov"},
                             "inputs": {k: f"=inputs.{k}" for k in INPUTS} | {"nope_": 1}},
                            {"overlay": {"spec": {"after": True}}}]
        got = await kit.sut(kit.prepare("ResourceFunction", "fn", spec), "preparing")
        check(kit.is_value(got), f"not accepted: {got}")
        fn = got[0]
        res = await reconcile(fn, cluster)
        posts = cluster.mutations()
        if posts:
            check(CONTINUE in wants and body == "works", "an overlay that did not continue was applied", calls=posts)
            p = posts[0].payload
            check(p.get("v") == "word" and p.get("l") == 4 and p["spec"] == {"size": 3, "after": True},
                  "overlay not applied after its preconditions passed", payload=p)
            return None
        check(not (wants == [CONTINUE] and body == "works"), "nothing was created", outcome=str(res.outcome))
        return res.outcome

    if where == "overlay":
        # koreo insists that every input an overlay function names is provided
        names = {"nope", "body_was_evaluated", "locals_were_evaluated"}
        text = str(preds) + str(ret) + str(loc)
        if any(f"inputs.{n}" in text for n in names):
            where = "vf"
    outcome = kit.run({"vf": vf, "pre": pre, "post": post, "overlay": overlay}[where])
    if outcome is None:
        if where in ("vf",):
            check(False, "no outcome")
        return
    check(any(matches(w, outcome, body) for w in wants), f"{where}: outcome is not what the first false assertion says",
          outcome=str(outcome), want=wants, predicates=preds)
