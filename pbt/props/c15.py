"""C15: cache keyed by resourceVersion, against a plain map model."""
from hypothesis import strategies as st

import gens
import kit
from core import check
from koreo import cache, result

ID = "C15"
RULE = (
    "case = history of offers (name, version, spec, kind of result), deletes by name / by version / by metadata, and "
    "lookups over 3 names x 3 resource types, with or without event-loop turns between; compared with a map model after "
    "every operation; non-trivial = some name is offered again with a version it had before, or a stale delete occurs, or "
    "an entry is deleted and re-offered"
)
ASSUMPTIONS = [
    "operations are awaited one after the other",
    "a preparer that raises is outside the property (it is neither a result nor a failed preparation)",
]
COUNT = {"quick": 900, "thorough": 25000}

NAMES = ["alpha", "beta", "alpha2"]
PICK = ["alpha", "alpha", "alpha", "beta", "alpha2"]
VERSIONS = ["1", "2", "3", "10", "v-x", "01", "1.0", "V-X", "1 ", "-1", "12345678901234567890", "12345678901234567891"]


class TypeA: ...


class TypeB: ...


TYPES = {"A": TypeA, "B": TypeB, "ValueFunction": kit.ValueFunction}
OUTCOMES = ["ok", "ok", "ok", "permfail", "retry", "skip", "depskip", "okfalsy", "oksub"]


def strategy(tier):
    name = st.sampled_from(PICK)
    ver = st.sampled_from(VERSIONS[:2] * 3 + VERSIONS)
    kind = st.sampled_from(["A", "A", "A", "B", "ValueFunction"])
    offer = st.fixed_dictionaries({
        "op": st.just("offer"), "t": kind, "n": name, "v": ver, "o": st.sampled_from(OUTCOMES), "s": st.integers(0, 4),
        "labels": st.sampled_from([None, None, {"x": "y"}]), "sys": st.sampled_from([None, {"a": 1}]),
    })
    delete = st.fixed_dictionaries({"op": st.just("delete"), "t": kind, "n": name, "v": st.one_of(st.none(), ver)})
    metadel = st.fixed_dictionaries({"op": st.just("metadelete"), "t": kind, "n": name, "v": ver})
    look = st.fixed_dictionaries({"op": st.just("look"), "t": kind, "n": name})
    turns = st.fixed_dictionaries({"op": st.just("turns"), "k": st.integers(1, 5)})
    return st.fixed_dictionaries({
        "ops": gens.histories(st.one_of(offer, offer, offer, delete, delete, metadel, look, turns), 60 if tier == "thorough" else 36),
        "fill": st.sampled_from([0] * 16 + [60, 150, 300, 1100]),
    })


class Value:
    def __init__(self, serial, spec):
        self.serial, self.spec = serial, spec

    def __repr__(self):
        return f"Value({self.serial}, {self.spec})"


class Falsy(Value):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


def spec_of(op, offers):
    if op["t"] == "ValueFunction":
        # real definitions; an invalid one must be cached as the failure it is
        if op["o"] in ("permfail", "retry", "skip", "depskip"):
            return {"return": {"bad": f"=1 + + {op['s']}"}}
        return {"return": {"n": op["s"], "at": offers}}
    return {"n": op["s"], "nested": {"at": offers}}


def run(case, rec):
    async def main():
        import asyncio

        model = {}  # (type, name) -> (version, returned result object, spec, sys)
        had = {}
        count = [0]

        def preparer_for(op):
            async def preparer(key, spec):
                count[0] += 1
                serial = count[0]
                seen.append((key, kit.copy.deepcopy(spec)))
                if op["t"] == "ValueFunction":
                    return await kit.prepare_value_function(key, spec)
                spec["scribble"] = True
                spec["nested"]["scribble"] = True
                o = op["o"]
                if o == "ok":
                    return Value(serial, spec), None
                if o == "okfalsy":
                    return Falsy(serial, spec), []
                if o == "oksub":
                    return Value(serial, spec), [cache.registry.Resource(resource_type=TypeB, name="nobody")]
                if o == "permfail":
                    return result.PermFail(f"no {serial}")
                if o == "retry":
                    return result.Retry(message=f"later {serial}", delay=3)
                if o == "skip":
                    return result.Skip(f"skip {serial}")
                return result.DepSkip(f"dep {serial}")

            return preparer

        def lookups_agree(when):
            for t, cls in TYPES.items():
                for n in NAMES:
                    got = cache.get_resource_from_cache(cls, n)
                    data = cache.get_resource_system_data_from_cache(cls, n)
                    want = model.get((t, n))
                    if want is None:
                        check(got is None and data is None, f"{when}: {t} {n} should not be cached", got=got)
                    else:
                        check(got is want[1], f"{when}: lookup of {t} {n} is not the result of its most recent offer",
                              got=got, want=want[1])
                        check(data is not None and data.resource_version == want[0],
                              f"{when}: cached version of {t} {n}", got=data and data.resource_version, want=want[0])
                        check(data.resource is want[1], f"{when}: cached data of {t} {n} holds another result")
                        check(data.spec == want[2], f"{when}: cached spec of {t} {n} changed", got=data.spec, want=want[2])

        crowd = {}
        seen = []
        for n in range(case.get("fill", 0)):
            op = {"t": "AB"[n % 2], "o": "ok", "s": n}
            name = f"crowd-{n}"
            crowd[op["t"], name] = await kit.sut(
                cache.prepare_and_cache(resource_class=TYPES[op["t"]], preparer=preparer_for(op), spec={"n": n, "nested": {}},
                                        metadata={"name": name, "resourceVersion": "1", "uid": "u"}), name)
        offers = 0
        for op in case["ops"]:
            when = str(op)
            if op["op"] == "turns":
                for _ in range(op["k"]):
                    await asyncio.sleep(0)
                continue
            if op["op"] == "look":
                lookups_agree(when)
                continue
            key = (op["t"], op["n"])
            cls = TYPES[op["t"]]
            if op["op"] == "offer":
                offers += 1
                spec = spec_of(op, offers)
                given = kit.copy.deepcopy(spec)
                seen = []
                meta = {"name": op["n"], "resourceVersion": op["v"], "uid": "u"}
                if op["labels"]:
                    meta["labels"] = op["labels"]
                got = await kit.sut(
                    cache.prepare_and_cache(resource_class=cls, preparer=preparer_for(op), metadata=meta, spec=given,
                                            _system_data=op["sys"]),
                    when,
                )
                cached = model.get(key)
                if cached and cached[0] == op["v"]:
                    check(not seen, f"{when}: version already cached was prepared again")
                    check(got is cached[1], f"{when}: cached version returned something else", got=got, want=cached[1])
                    rec.tag("dup")
                else:
                    check(len(seen) == 1, f"{when}: new version prepared {len(seen)} times")
                    check(seen[0] == (op["n"], spec), f"{when}: preparer was given something else", got=seen[0], want=spec)
                    if op["t"] != "ValueFunction":
                        ok = op["o"].startswith("ok")
                        check(isinstance(got, Value) == ok, f"{when}: wrong result", got=got)
                        if ok:
                            check(got.serial == count[0], f"{when}: stale result", got=got)
                    else:
                        check(kit.is_value(got) == ("bad" not in spec["return"]), f"{when}: wrong result", got=got)
                    model[key] = (op["v"], got, spec, op["sys"])
                    if op["v"] in had.get(key, ()):
                        rec.nt()
                        rec.tag("old version again" if cached else "re-offered after delete")
                    if not op["o"].startswith("ok"):
                        rec.tag("failed preparation")
                    had.setdefault(key, set()).add(op["v"])
            elif op["op"] == "delete":
                await kit.sut(cache.delete_from_cache(resource_class=cls, cache_key=op["n"], version=op["v"])
                              if op["v"] is not None else
                              cache.delete_from_cache(resource_class=cls, cache_key=op["n"]), when)
                if key in model:
                    if op["v"] is None or model[key][0] == op["v"]:
                        del model[key]
                        rec.tag("deleted")
                    else:
                        rec.nt()
                        rec.tag("stale delete")
            else:
                await kit.sut(cache.delete_resource_from_cache(
                    resource_class=cls, metadata={"name": op["n"], "resourceVersion": op["v"]}), when)
                model.pop(key, None)
            lookups_agree(when)
        for _ in range(20):
            await asyncio.sleep(0)
        lookups_agree("at the end")
        for (t, n), want in crowd.items():
            got = cache.get_resource_from_cache(TYPES[t], n)
            check(got is want, "an entry nobody touched is no longer cached", t=t, n=n, got=got)

    kit.run(main)
