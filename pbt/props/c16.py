"""C16: hot reload.  Histories of offers and deletes placed between event-loop turns."""
import asyncio

from hypothesis import strategies as st

import gens
import kit
import vloop
from core import check
from koreo import cache, registry, result

ID = "C16"
RULE = (
    "case = history of offers (with declared dependencies that vary per version, or depend on what is cached) and deletes "
    "over 5 or 9 resources, each operation placed 0..6 event-loop turns after the one before, or the same over real "
    "ValueFunctions / ResourceTemplates / ResourceFunctions / Workflows / FunctionTests; once idle every entry must have "
    "been built from the current entries (synthetic: generation stamps; real: behaves like a system offered from scratch); "
    "at the end everything is deleted and nothing may keep running; non-trivial = some resource with dependents or "
    "dependencies changes after they exist"
)
ASSUMPTIONS = [
    "offers and deletes of one and the same resource follow one another; a preparation that fails declares no dependencies",
]
COUNT = {"quick": {"overlap": 900, "synthetic": 900, "real": 60}, "thorough": {"overlap": 25000, "synthetic": 25000, "real": 1500}}

N = 9
SMALL = 5


class TypeA: ...


class TypeB: ...


KEYS = [registry.Resource(TypeB if i % 2 else TypeA, f"r{i}") for i in range(N)]


class Built:
    def __init__(self, gen, saw, v):
        self.gen, self.saw, self.v = gen, saw, v

    def __repr__(self):
        return f"Built(gen={self.gen}, saw={self.saw})"


def strategies(tier):
    long = tier == "thorough"

    def synthetic(n):
        @st.composite
        def offer(draw):
            i = draw(st.integers(0, n - 1))
            deps = draw(st.lists(st.integers(0, i - 1), unique=True, max_size=i)) if i else []
            return {"op": "offer", "i": i, "deps": deps,
                    "how": draw(st.sampled_from(["ok", "ok", "ok", "ok", "ok", "scribble", "fail", "chain", "same"]))}

        delete = st.fixed_dictionaries({"op": st.just("delete"), "i": st.integers(0, n - 1)})
        # delete, then offer the same thing again after some turns
        op = st.one_of(offer(), offer(), offer(), delete, st.fixed_dictionaries({
            "op": st.just("bounce"), "i": st.integers(0, n - 1), "k": st.sampled_from([0, 0, 0, 1, 2, 3, 4])}))
        placed = st.tuples(op, st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 6])).map(lambda t: {**t[0], "turns": t[1]})
        susp = st.tuples(st.sampled_from([0, 0, 0, 1, 2, 4]), st.sampled_from([0, 0, 1, 2, 4, 8]))
        overlapping = st.tuples(st.one_of(offer(), offer(), offer(), delete), st.sampled_from([0, 0, 1, 1, 2, 3, 5, 9]), susp).map(
            lambda t: {**t[0], "turns": t[1], "susp": list(t[2])})
        return placed, overlapping

    placed, overlapping = synthetic(SMALL)
    placed_more, overlapping_more = synthetic(N)
    seed = st.booleans()
    real_op = st.one_of(
        st.fixed_dictionaries({"op": st.just("offer"), "x": st.sampled_from(list(REAL)), "g": st.integers(1, 4)}),
        st.fixed_dictionaries({"op": st.just("offer"), "x": st.sampled_from(list(REAL)), "g": st.integers(1, 4)}),
        st.fixed_dictionaries({"op": st.just("delete"), "x": st.sampled_from(list(REAL))}),
        st.fixed_dictionaries({"op": st.just("bounce"), "x": st.sampled_from(list(REAL)), "k": st.sampled_from([0, 0, 1, 2, 4])}),
    )
    real_placed = st.tuples(real_op, st.sampled_from([0, 0, 1, 2, 3, 5])).map(lambda t: {**t[0], "turns": t[1]})
    return {
        "overlap": st.fixed_dictionaries({"kind": st.just("overlap"), "full": seed,
                                          "ops": st.one_of(gens.histories(overlapping, 30 if long else 18), gens.histories(overlapping, 30 if long else 18),
                                                           gens.histories(overlapping_more, 40 if long else 26))}),
        "synthetic": st.fixed_dictionaries({"kind": st.just("synthetic"), "full": seed,
                                            "ops": st.one_of(gens.histories(placed, 40 if long else 24), gens.histories(placed, 40 if long else 24),
                                                             gens.histories(placed_more, 50 if long else 34))}),
        "real": st.fixed_dictionaries({"kind": st.just("real"), "full": seed, "order": st.permutations(list(REAL)),
                                       "ops": gens.histories(real_placed, 18 if long else 12)}),
    }


def run(case, rec):
    kit.run(run_real if case["kind"] == "real" else run_synthetic, case, rec)


async def idle(what):
    await vloop.settle(150)


async def run_synthetic(case, rec):
    gen = [0]
    model = {}  # i -> spec currently offered
    version = [0]
    prepared = []  # log of i
    baseline = set(asyncio.all_tasks())
    overlap = case["kind"] == "overlap"

    async def preparer(key, spec):
        i = int(key[1:])
        if not overlap:
            check(i in model, f"deleted resource r{i} was prepared again")
            check(spec == model[i], f"r{i} prepared from something other than its current spec", got=spec, want=model[i])
        prepared.append(i)
        before, after = spec.get("susp", (0, 0))
        v = spec["v"]
        for _ in range(before):
            await asyncio.sleep(0)
        how, deps = spec["how"], list(spec["deps"])
        if how == "scribble":
            spec.pop("deps")
            spec["how"] = "scribbled"
        if how == "fail":
            return result.PermFail("fails to prepare")
        if how == "chain" and deps:
            # the second, third ... dependency is only known through the first
            if cache.get_resource_from_cache(KEYS[deps[0]].resource_type, KEYS[deps[0]].name) is None:
                deps = deps[:1]
        saw = {}
        for d in deps:
            got = cache.get_resource_from_cache(KEYS[d].resource_type, KEYS[d].name)
            saw[d] = stamp(got)
        for _ in range(after):
            await asyncio.sleep(0)
        gen[0] += 1
        return Built(gen[0], saw, v), ([KEYS[d] for d in deps] * (1 + (gen[0] % 3 == 0)) if deps or i % 2 else None)

    def stamp(got):
        if got is None:
            return None
        return got.gen if isinstance(got, Built) else "failed"

    def lookup(i):
        return cache.get_resource_from_cache(KEYS[i].resource_type, KEYS[i].name)

    async def offer(i, deps, how, susp=None):
        version[0] += 1
        model[i] = {"how": how, "deps": deps, "v": version[0]}
        if susp:
            model[i]["susp"] = susp
        if any(i in m["deps"] for m in model.values()) or deps:
            if sum(1 for p in prepared if p == i) or any(i in m["deps"] for j, m in model.items() if j in prepared):
                rec.nt()
        await kit.sut(
            cache.prepare_and_cache(resource_class=KEYS[i].resource_type, preparer=preparer,
                                    metadata={"name": f"r{i}", "resourceVersion": str(model[i]["v"])},
                                    spec=kit.copy.deepcopy(model[i])),
            f"offer r{i}",
        )
        check(lookup(i) is not None, f"r{i} is not cached after being offered")

    async def remove(i):
        model.pop(i, None)
        await kit.sut(cache.delete_from_cache(KEYS[i].resource_type, f"r{i}"), f"delete r{i}")
        check(lookup(i) is None, f"r{i} is still cached after being deleted")

    def coherent(when):
        for i in range(N):
            got = lookup(i)
            if i not in model:
                check(got is None, f"{when}: deleted r{i} is cached", got=got)
                subs = registry.get_subscriptions(KEYS[i])
                check(not subs, f"{when}: deleted r{i} still watches {subs}")
                continue
            check(got is not None, f"{when}: r{i} is missing from the cache")
            if model[i]["how"] == "fail":
                check(not isinstance(got, Built), f"{when}: r{i} should be a failed preparation", got=got)
                continue
            check(isinstance(got, Built), f"{when}: r{i} is {got}")
            check(got.v == model[i]["v"], f"{when}: r{i} was built from version {got.v}, the latest is {model[i]['v']}")
            deps = model[i]["deps"]
            if model[i]["how"] == "chain" and deps and lookup(deps[0]) is None:
                deps = deps[:1]
            check(set(got.saw) == set(deps), f"{when}: r{i} was built for dependencies {sorted(got.saw)}, not {deps}")
            for d in deps:
                check(got.saw[d] == stamp(lookup(d)),
                      f"{when}: r{i} was built from generation {got.saw[d]} of r{d}, which is now {stamp(lookup(d))}")
            check({KEYS[d] for d in deps} == set(registry.get_subscriptions(KEYS[i])), f"{when}: r{i} watches the wrong set",
                  watches=registry.get_subscriptions(KEYS[i]), deps=deps)

    if case["full"]:
        for i in range(1 + max([SMALL - 1, *(op["i"] for op in case["ops"])])):
            await offer(i, [i - 1] if i else [], "ok")
    chain = {}
    tasks = []

    async def after(previous, step, *args):
        if previous is not None:
            await asyncio.wait([previous])
        await step(*args)

    for n, op in enumerate(case["ops"]):
        when = f"op {n} {op}"
        i = op["i"]
        for _ in range(op["turns"]):
            await asyncio.sleep(0)
        if overlap:
            # operations on one resource follow one another, others overlap
            if op["op"] == "offer":
                coro = after(chain.get(i), offer, i, op["deps"], "ok" if op["how"] == "same" else op["how"], op["susp"])
            else:
                coro = after(chain.get(i), remove, i)
            chain[i] = asyncio.ensure_future(coro)
            tasks.append(chain[i])
            rec.nt(any(op["susp"]))
            continue
        if op["op"] == "offer":
            if op["how"] == "same" and i in model:
                await offer(i, model[i]["deps"], model[i]["how"])
            else:
                await offer(i, op["deps"], "ok" if op["how"] == "same" else op["how"])
        elif op["op"] == "delete":
            if i in model:
                rec.tag("delete")
                if any(i in m["deps"] for m in model.values()):
                    rec.nt()
            await remove(i)
        else:
            spec = model.get(i)
            if not spec:
                continue
            await remove(i)
            for _ in range(op["k"]):
                await asyncio.sleep(0)
            rec.tag("delete and re-offer")
            rec.nt(spec["deps"])
            await offer(i, spec["deps"], spec["how"])
        if op["turns"] == 6:
            await idle(when)
            coherent(when)
    for t in tasks:
        await t
    await idle("end")
    await idle("end")
    coherent("idle")
    # one more change everywhere must still reach every dependent
    for i in list(model):
        await offer(i, model[i]["deps"], model[i]["how"])
        await idle("again")
        coherent(f"after re-offering r{i} once idle")
    for i in list(model):
        await remove(i)
    await idle("emptied")
    coherent("after deleting everything")
    left = [t.get_name() for t in asyncio.all_tasks() if t not in baseline and not t.done()]
    check(not left, "watcher tasks left behind after everything was deleted", tasks=left)


# --- the same over real definitions -------------------------------------------
def real_specs():
    api = kit.api_config("Widget", name="thing")
    tpl = {"apiVersion": api["apiVersion"], "kind": "Widget"}
    return {
        "vf": ("ValueFunction", "vf", lambda g: {"return": {"g": g}} if g < 4 else {"return": {"g": "=1 +"}}),
        "ov": ("ValueFunction", "ov", lambda g: {"return": {"spec": {"ov": g}}}),
        "rt": ("ResourceTemplate", "rt", lambda g: {"template": {**tpl, "spec": {"t": g}}}),
        "rf": ("ResourceFunction", "rf", lambda g: {
            "apiConfig": api, "resourceTemplateRef": {"name": "='r' + 't'" if g == 3 else "rt"},
            "overlays": [{"overlayRef": {"kind": "ValueFunction", "name": "ov"}, "skipIf": f"={g} == 2"},
                         {"overlay": {"spec": {"inline": g}}, "skipIf": f"={g} == 1"}],
            "create": {"delay": g}}),
        "rf2": ("ResourceFunction", "rf2", lambda g: {
            "apiConfig": {**api, "name": "other"}, "resource": {"spec": {"x": g}},
            "create": {"delay": g, "overlay": {"spec": {"first": True}}} if g < 3 else {"enabled": False}}),
        "sub": ("Workflow", "sub", lambda g: {"steps": [
            {"label": "aaa", "ref": {"kind": "ValueFunction", "name": "vf"}, "state": {"sub": "=value", "gen": g}}]}),
        "top": ("Workflow", "top", lambda g: {"steps": [
            {"label": "one", "ref": {"kind": "Workflow", "name": "sub"}, "state": {"one": "=value"}},
            {"label": "two", "ref": {"kind": "ResourceFunction", "name": "rf"}},
            {"label": "three", "refSwitch": {"switchOn": f"='c{g}'", "cases": [
                {"case": "c1", "kind": "ValueFunction", "name": "vf"}, {"case": "c2", "kind": "Workflow", "name": "sub"},
                {"case": "c3", "kind": "ResourceFunction", "name": "rf2", "default": True}]}, "state": {"three": "=value"}},
        ]}),
        "ft": ("FunctionTest", "ft", lambda g: {
            "functionRef": {"kind": "ValueFunction", "name": "vf"}, "testCases": [{"label": "only", "expectReturn": {"g": g}}]}),
    }


REAL = real_specs()


async def observe(model):
    """Behaviour of every cached entry."""
    from cluster import Cluster

    seen = {}
    for x in REAL:
        kind, name, _ = REAL[x]
        cls, _ = kit.PREPARERS[kind]
        got = cache.get_resource_from_cache(cls, name)
        if got is None:
            seen[x] = None
            continue
        if not kit.is_value(got):
            seen[x] = {"prepared": kit.outcome_class(got)}
            continue
        cluster = Cluster()
        if kind == "ValueFunction":
            seen[x] = kit.describe(await kit.sut(kit.reconcile_value_function(
                location="x", function=got, inputs=kit.cel({})), f"running {x}"))
        elif kind == "ResourceFunction":
            out, _ = await kit.sut(kit.reconcile_resource_function(
                api=cluster, location="x", function=got, owner=kit.owner(), inputs=kit.cel({})), f"running {x}")
            seen[x] = (kit.describe(out), [c.payload for c in cluster.log])
        elif kind == "Workflow":
            res = await kit.sut(kit.reconcile_workflow(
                api=cluster, workflow_key="w", owner=kit.owner(), trigger=kit.cel({}), workflow=got), f"running {x}")
            seen[x] = (kit.describe(res.result), kit.plain(res.state), [dict(c) for c in res.conditions],
                       sorted(repr(c.payload) for c in cluster.log))
        elif kind == "ResourceTemplate":
            seen[x] = "prepared"
        elif kind == "FunctionTest":
            out = await kit.sut(kit.run_function_test("ft", got), f"running {x}")
            passed = None
            if out is not None and getattr(out, "test_results", None) is not None:
                passed = [t.test_pass for t in out.test_results]
            seen[x] = (kit.outcome_class(out) if passed is None else "ran", passed)
    return seen


def topo():
    return ["vf", "ov", "rt", "rf", "rf2", "sub", "top", "ft"]


async def run_real(case, rec):
    model = {}
    version = [0]
    baseline = set(asyncio.all_tasks())

    async def offer(x, g):
        version[0] += 1
        kind, name, make = REAL[x]
        rec.nt(x in ("vf", "ov", "rt", "rf", "sub") and any(y in model for y in ("rf", "sub", "top", "ft")))
        model[x] = g
        await kit.sut(kit.offer(kind, name, make(g), str(version[0])), f"offer {x}")

    async def remove(x):
        kind, name, _ = REAL[x]
        model.pop(x, None)
        await kit.sut(cache.delete_from_cache(kit.PREPARERS[kind][0], name), f"delete {x}")

    if case["full"]:
        for x in case["order"]:
            await offer(x, 1)
    for op in case["ops"]:
        for _ in range(op["turns"]):
            await asyncio.sleep(0)
        x = op["x"]
        if op["op"] == "offer":
            await offer(x, op["g"])
        elif op["op"] == "delete":
            await remove(x)
        elif x in model:
            g = model[x]
            await remove(x)
            for _ in range(op["k"]):
                await asyncio.sleep(0)
            await offer(x, g)
    await idle("end")
    got = await observe(model)
    final = dict(model)
    for x in list(model):
        await remove(x)
    await idle("emptied")
    left = [t.get_name() for t in asyncio.all_tasks() if t not in baseline and not t.done()]
    check(not left, "watcher tasks left behind after everything was deleted", tasks=left)
    kit.reset()
    for x in topo():
        if x in final:
            await offer(x, final[x])
    await idle("fresh")
    want = await observe(final)
    for x in REAL:
        check(got[x] == want[x], f"{x} does not behave as if offered from scratch", got=got[x], want=want[x], cached=final)
    for x in want:
        rec.tag(f"{x}:{'absent' if want[x] is None else 'present'}")
