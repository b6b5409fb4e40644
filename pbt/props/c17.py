"""C17: registry operation histories against a graph + queue model."""
import asyncio

from hypothesis import strategies as st

import gens
import kit
import vloop
from core import check, fail
from koreo import registry

ID = "C17"
RULE = (
    "case = history of register / subscribe / subscribe-only-to / unsubscribe / notify / kill / deregister / consume / "
    "wait operations over 24 resources (same name under two types, namespaced twins; most operations on 6 of them), lines, rings and "
    "stars of subscriptions of any length, redundant operations, with queues "
    "that are default, unbounded, or bounded; views, acyclicity and exact deliveries are compared with a model after every "
    "operation; non-trivial = the history has a refused subscription, or a notification with a killed subscriber, or a "
    "deregistration with waiters"
)
ASSUMPTIONS = [
    "a subscriber whose bounded queue is full may miss the notification",
    "removing a subscription that does not exist may raise KeyError or do nothing; deregistering always succeeds",
]
COUNT = {"quick": {"any": 2450, "crowd": 40}, "thorough": {"any": 40000, "crowd": 600}}


class TypeA: ...


class TypeB: ...


R = [
    registry.Resource(TypeA, "one"),
    registry.Resource(TypeB, "one"),
    registry.Resource(TypeA, "two"),
    registry.Resource(TypeA, "two", "ns"),
    registry.Resource(TypeB, "three"),
    registry.Resource(TypeA, "four"),
] + [registry.Resource(TypeB, f"far-{i}") for i in range(18)]
N = len(R)
NEAR = 6
INDEX = {x: i for i, x in enumerate(R)}


def strategies(tier):
    return {"any": strategy(tier), "crowd": st.fixed_dictionaries({
        "t": st.just("crowd"), "width": st.sampled_from([1, 1, 2, 5, 20, 70]), "depth": st.sampled_from([1, 2, 3, 9, 40, 130]),
        "mesh": st.sampled_from(["lines", "all", "lean"]), "only": st.booleans(), "upwards": st.booleans(),
        "queues": st.lists(st.integers(0, 10**6), max_size=8), "pick": st.lists(st.integers(0, 10**6), min_size=3, max_size=6),
        "killed": st.lists(st.integers(0, 10**6), max_size=4),
    })}


def strategy(tier):
    near, anyone = st.integers(0, NEAR - 1), st.integers(0, N - 1)
    r = st.one_of(near, near, near, near, near, near, near, anyone)
    d = st.fixed_dictionaries
    ops = [
        d({"op": st.just("register"), "r": r, "q": st.sampled_from(["default", "default", "fifo", "lifo", "max1", "max2"])}),
        d({"op": st.just("register"), "r": r, "q": st.just("default")}),
        d({"op": st.just("sub"), "s": r, "r": r}),
        d({"op": st.just("sub"), "s": r, "r": r}),
        d({"op": st.just("only"), "s": r, "rs": st.lists(r, max_size=4)}),
        d({"op": st.just("only"), "s": r, "rs": st.lists(r, max_size=4)}),
        d({"op": st.just("unsub"), "s": r, "r": r}),
        d({"op": st.just("unsub"), "edge": st.integers(0, 10**6)}),  # one of those there are
        d({"op": st.just("notify"), "r": r}),
        d({"op": st.just("notify"), "r": r}),
        d({"op": st.just("kill"), "r": r}),
        d({"op": st.just("dereg"), "r": r}),
        d({"op": st.just("consume"), "r": r, "k": st.integers(1, 3)}),
        d({"op": st.just("waitget"), "r": r}),
        d({"op": st.just("waitjoin"), "r": r}),
        d({"op": st.just("turns"), "k": st.integers(1, 4)}),
    ]
    ops *= 3
    ops += [
        # subscriptions one after the other along a line, or around a ring of any length
        d({"op": st.just("line"), "rs": st.lists(anyone, min_size=2, max_size=N, unique=True), "close": st.booleans(),
           "order": st.sampled_from(["forward", "backward", "spread"])}),
        d({"op": st.just("star"), "r": r, "rs": st.lists(anyone, min_size=4, max_size=N, unique=True), "in": st.booleans()}),
    ]
    return st.fixed_dictionaries({
        "ops": gens.histories(st.one_of(*ops), 90 if tier == "thorough" else 50)
    })


def expand(ops):
    for op in ops:
        if op["op"] == "line":
            pairs = [{"op": "sub", "s": a, "r": b} for a, b in zip(op["rs"], op["rs"][1:])]
            if op["order"] == "backward":
                pairs.reverse()
            elif op["order"] == "spread":
                pairs = pairs[::2] + pairs[1::2]
            yield from pairs
            if op["close"]:
                yield {"op": "sub", "s": op["rs"][-1], "r": op["rs"][0]}
        elif op["op"] == "star":
            if op["in"]:
                for x in op["rs"]:
                    yield {"op": "register", "r": x, "q": "default"}
                    yield {"op": "sub", "s": x, "r": op["r"]}
                yield {"op": "notify", "r": op["r"]}
            else:
                yield {"op": "only", "s": op["r"], "rs": op["rs"]}
        else:
            yield op


def reaches(edges, start, goal):
    seen, todo = set(), [start]
    while todo:
        x = todo.pop()
        if x == goal:
            return True
        if x not in seen:
            seen.add(x)
            todo.extend(b for a, b in edges if a == x)
    return False


def cyclic(edges):
    left = set(edges)
    while left:
        sources = {a for a, _ in left}
        rest = {(a, b) for a, b in left if b in sources}
        if rest == left:
            return True
        left = rest
    return False


class Q:
    """model of one queue"""

    def __init__(self, real):
        self.real = real
        self.live = True
        self.gone = False
        self.busy = 0  # taken but not done


def contents(q):
    return list(q._queue)


def crowd(case, rec):
    """many layers of many resources: each watches some of the next layer"""
    width = case["width"]
    depth = max(1, min(case["depth"], 400 // width, 40 if case["mesh"] == "all" and width > 5 else 400))
    rows = [[registry.Resource((TypeA, TypeB)[d % 2], f"r{d}-{w}", "ns" if w % 3 == 2 else None) for w in range(width)] for d in range(depth + 1)]

    async def main():
        edges = {}
        for d in range(depth):
            for w, x in enumerate(rows[d]):
                below = rows[d + 1]
                if case["mesh"] == "all":
                    want = list(below)
                elif case["mesh"] == "lines":
                    want = [below[w]]
                else:
                    want = [below[0], below[w]] if w else [below[0]]
                edges[x] = set(want)
        for x in reversed(edges) if case["upwards"] else edges:
            if case["only"]:
                registry.subscribe_only_to(x, sorted(edges[x], key=str))
            else:
                for y in sorted(edges[x], key=str):
                    registry.subscribe(x, y)
        flat = [x for row in rows for x in row]
        queues = {x: registry.register(registerer=x) for x in (flat[i % len(flat)] for i in case["queues"])}
        for x in rows[0][:40] + rows[-2][:40]:
            queues[x] = registry.register(registerer=x)

        def views(when):
            for x in flat:
                got = set(registry.get_subscriptions(x))
                check(got == edges.get(x, set()), f"{when}: {x} watches {len(got)} resources, not {len(edges.get(x, ()))}", got=got)
            watched = {}
            for x, ys in edges.items():
                for y in ys:
                    watched.setdefault(y, set()).add(x)
            for x in flat:
                got = set(registry.get_subscribers(x))
                check(got == watched.get(x, set()), f"{when}: {x} is watched by {len(got)} resources, not {len(watched.get(x, ()))}", got=got)

        views("built")

        def below(x):
            seen, todo = set(), [x]
            while todo:
                y = todo.pop()
                if y not in seen:
                    seen.add(y)
                    todo.extend(edges.get(y, ()))
            return seen

        # the first layer is watched by nobody, so whatever is under it may not watch it
        for n, pick in enumerate(case["pick"]):
            top = rows[0][pick % width]
            under = sorted(below(top) - {top}, key=lambda x: int(x.name[1:].split("-")[0]))
            low = under[-1 - (pick // 7) % min(len(under), 3)] if n % 2 else under[(pick // 7) % len(under)]
            refused = False
            try:
                if n % 3 == 2:
                    registry.subscribe_only_to(low, [*sorted(edges.get(low, ()), key=str), top])
                else:
                    registry.subscribe(low, top)
            except registry.SubscriptionCycle:
                refused = True
            check(refused, f"{low} may watch {top} although that watches it", depth=depth, width=width, mesh=case["mesh"])
            views("refused")
        rec.nt(depth * width > 20)
        rec.tag("crowd")
        dead = set()
        for i in case["killed"]:
            x = list(queues)[i % len(queues)]
            registry.kill_resource(resource=x)
            dead.add(x)
        for n, pick in enumerate(case["pick"]):
            x = flat[pick % len(flat)] if n % 2 else rows[-1][pick % width]
            before = {y: contents(q) for y, q in queues.items()}
            try:
                registry.notify_subscribers(notifier=x, event_time=1000.0 + n)
            except Exception as err:
                fail(f"notifying raised {type(err).__name__}: {err}")
            for y, q in queues.items():
                new = contents(q)[len(before[y]):]
                want = x in edges.get(y, ()) and y not in dead
                check(len(new) == (1 if want else 0), f"{y} got {len(new)} events about {x}, not {int(want)}")
                check(all(e.resource == x and e.event_time == 1000.0 + n for e in new), f"{y} got another event", new=new)
        for pick in case["pick"][:3]:
            x = flat[pick % len(flat)]
            try:
                registry.deregister(x, 2000.0)
            except Exception as err:
                fail(f"deregistering raised {type(err).__name__}: {err}")
            edges.pop(x, None)
            views("deregistered")

    kit.run(main)


def run(case, rec):
    if case.get("t") == "crowd":
        return crowd(case, rec)

    async def main():
        edges = set()  # (subscriber, resource)
        queues = {}  # r -> Q
        every = []  # all Q ever
        waiters = []  # (Q, task, what)
        clock = [100.0]

        def make(kind):
            if kind == "default":
                return None
            if kind == "fifo":
                return asyncio.Queue()
            if kind == "lifo":
                return asyncio.LifoQueue()
            return asyncio.Queue(maxsize=int(kind[3:]))

        def views():
            watching = {(i, INDEX.get(x, x)) for i in range(N) for x in registry.get_subscriptions(R[i])}
            watched = {(INDEX.get(x, x), j) for j in range(N) for x in registry.get_subscribers(R[j])}
            return watching, watched

        def check_views(when):
            watching, watched = views()
            check(watching == watched, f"{when}: the two views disagree", watching=sorted(watching, key=str), watched=sorted(watched, key=str))
            check(not cyclic(watching), f"{when}: the subscriptions form a cycle", edges=sorted(watching, key=str))
            check(watching == edges, f"{when}: subscriptions differ from the model", got=sorted(watching, key=str), want=sorted(edges))

        def snapshot():
            return [contents(q.real) for q in every]

        def call(when, fn, *args, allow=(), **kw):
            try:
                return fn(*args, **kw), None
            except allow as err:
                return None, err
            except Exception as err:
                fail(f"{when} raised {type(err).__name__}: {err}")

        def deliveries(when, before, r, must):
            """exactly one event about r on every live queue of a current subscriber, nothing anywhere else"""
            for q, old in zip(every, before):
                now = contents(q.real)
                owner = next((i for i, x in queues.items() if x is q), None)
                added = list(now)
                for item in old:
                    check(item in added, f"{when}: queued event vanished", queue=owner)
                    added.remove(item)
                wanted = must and owner is not None and q.live and (owner, r) in edges
                events = [x for x in added if not isinstance(x, registry.Kill)]
                if wanted:
                    full = q.real.maxsize and len(old) >= q.real.maxsize
                    if full:
                        check(not added, f"{when}: full queue grew")
                    else:
                        check(len(events) == 1 and len(added) == 1, f"{when}: subscriber {owner} got {len(added)} events instead of 1",
                              added=added)
                        check(events[0].resource == R[r], f"{when}: event about another resource", event=events[0])
                        if must != "any":
                            check(events[0].event_time == must, f"{when}: wrong event time", event=events[0], want=must)
                else:
                    check(not events, f"{when}: event delivered to {owner} which must not get one", added=added)

        for op in expand(case["ops"]):
            kind = op["op"]
            when = str(op)
            before = snapshot()
            if kind == "register":
                r = op["r"]
                given = make(op["q"])
                if given is None:
                    got, _ = call(when, registry.register, registerer=R[r])
                else:
                    got, _ = call(when, registry.register, registerer=R[r], queue=given)
                if r in queues:
                    check(got is queues[r].real, f"{when}: registering again returned another queue")
                    deliveries(when, before, r, None)
                else:
                    check(isinstance(got, asyncio.Queue), f"{when}: no queue returned")
                    check(given is None or got is given, f"{when}: own queue not used")
                    check(all(got is not q.real for q in every), f"{when}: an old queue was handed out again")
                    check(got.empty(), f"{when}: new queue is not empty")
                    deliveries(when, before, r, "any")
                    queues[r] = Q(got)
                    every.append(queues[r])
            elif kind == "sub":
                s, r = op["s"], op["r"]
                cyc = reaches(edges, r, s)
                _, err = call(when, registry.subscribe, R[s], R[r], allow=(registry.SubscriptionCycle,))
                check((err is not None) == cyc, f"{when}: cycle={cyc} but refused={err is not None}", edges=sorted(edges))
                if not cyc:
                    edges.add((s, r))
                else:
                    rec.nt()
                    rec.tag("refused")
                deliveries(when, before, r, None)
            elif kind == "only":
                s, rs = op["s"], op["rs"]
                others = {e for e in edges if e[0] != s}
                cyc = any(reaches(others, r, s) for r in rs)
                _, err = call(when, registry.subscribe_only_to, R[s], [R[r] for r in rs], allow=(registry.SubscriptionCycle,))
                check((err is not None) == cyc, f"{when}: cycle={cyc} but refused={err is not None}", edges=sorted(edges))
                if not cyc:
                    edges -= {e for e in edges if e[0] == s}
                    edges |= {(s, r) for r in rs}
                else:
                    rec.nt()
                    rec.tag("refused")
                deliveries(when, before, s, None)
            elif kind == "unsub":
                if "edge" in op:
                    if not edges:
                        continue
                    s, r = sorted(edges)[op["edge"] % len(edges)]
                    rec.tag("unsubscribed")
                else:
                    s, r = op["s"], op["r"]
                _, err = call(when, registry.unsubscribe, R[s], R[r], allow=(KeyError,) if (s, r) not in edges else ())
                edges.discard((s, r))
                deliveries(when, before, r, None)
            elif kind == "notify":
                r = op["r"]
                clock[0] += 1
                call(when, registry.notify_subscribers, notifier=R[r], event_time=clock[0])
                deliveries(when, before, r, clock[0])
                if any(b == r and a in queues and not queues[a].live for a, b in edges):
                    rec.nt()
                    rec.tag("notify with killed subscriber")
                if any(b == r and a in queues and queues[a].live for a, b in edges):
                    rec.tag("delivered")
            elif kind == "kill":
                r = op["r"]
                call(when, registry.kill_resource, resource=R[r])
                if r in queues:
                    queues[r].live = False
                deliveries(when, before, r, None)
            elif kind == "dereg":
                r = op["r"]
                clock[0] += 1
                q = queues.get(r)
                mine = [w for w in waiters if w[0] is q and not w[1].done()] if q else []
                edges -= {e for e in edges if e[0] == r}
                call(when, registry.deregister, R[r], clock[0])
                if q:
                    q.live = False
                    q.gone = True
                    del queues[r]
                    i = every.index(q)
                    left = [x for x in contents(q.real) if not isinstance(x, registry.Kill)]
                    check(not left, f"{when}: events left behind on the removed queue", left=left)
                    every.pop(i)
                    before.pop(i)
                deliveries(when, before, r, clock[0])
                if mine:
                    rec.nt()
                    rec.tag("deregistered with waiters")
                    await vloop.settle(12)
                    for w in mine:
                        if w[2] == "join" and q.busy:
                            continue
                        check(w[1].done(), f"{when}: a task waiting ({w[2]}) on the queue of a deregistered resource was not released")
                if q and not q.busy:
                    t = asyncio.ensure_future(q.real.join())
                    await vloop.settle(3)
                    check(t.done(), f"{when}: the queue of a deregistered resource still counts unfinished work")
            elif kind == "consume":
                q = queues.get(op["r"])
                if q:
                    for _ in range(op["k"]):
                        try:
                            q.real.get_nowait()
                        except (asyncio.QueueEmpty, asyncio.QueueShutDown):
                            break
                        q.real.task_done()
            elif kind == "waitget":
                q = queues.get(op["r"])
                if q:
                    waiters.append((q, asyncio.ensure_future(consumer(q)), "get"))
                    await asyncio.sleep(0)
            elif kind == "waitjoin":
                q = queues.get(op["r"])
                if q:
                    waiters.append((q, asyncio.ensure_future(q.real.join()), "join"))
                    await asyncio.sleep(0)
            elif kind == "turns":
                await vloop.settle(op["k"])
            check_views(when)

    async def consumer(q):
        while True:
            try:
                item = await q.real.get()
            except asyncio.QueueShutDown:
                return
            q.real.task_done()
            if isinstance(item, registry.Kill):
                return

    kit.run(main)
