"""Shared vocabulary of the property modules."""
import hashlib
import json


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    pass


class Hang(BaseException):
    """CPU watchdog: the code under test does not terminate."""


def fail(msg, **ctx):
    if ctx:
        parts = "; ".join(f"{k}={v!r}" for k, v in ctx.items())
        msg = f"{msg} | {parts}"
    raise Violation(msg[:4000])


def check(cond, msg, **ctx):
    if not cond:
        fail(msg, **ctx)


def dumps(case):
    return json.dumps(case, ensure_ascii=True, separators=(",", ":"))


def digest(case):
    return hashlib.blake2b(dumps(case).encode(), digest_size=8).hexdigest()


class Rec:
    """Per-case recorder: non-triviality and classification tags."""

    def __init__(self):
        self.nontrivial = False
        self.tags = set()

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def tag(self, *tags):
        for t in tags:
            self.tags.add(str(t))


def strict_eq(a, b):
    """JSON equality that keeps bool / int / float apart and is order-sensitive
    for lists only."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return (
            isinstance(b, dict)
            and len(a) == len(b)
            and all(k in b and strict_eq(v, b[k]) for k, v in a.items())
        )
    if isinstance(a, (list, tuple)):
        return (
            isinstance(b, (list, tuple))
            and len(a) == len(b)
            and all(strict_eq(x, y) for x, y in zip(a, b))
        )
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return isinstance(a, float) == isinstance(b, float) and a == b
    if isinstance(a, str):
        return isinstance(b, str) and str(a) == str(b)
    return type(a) is type(b) and a == b


def json_eq(a, b):
    """JSON equality: bool apart from numbers, 1 == 1.0."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return (
            isinstance(b, dict)
            and len(a) == len(b)
            and all(k in b and json_eq(v, b[k]) for k, v in a.items())
        )
    if isinstance(a, (list, tuple)):
        return (
            isinstance(b, (list, tuple))
            and len(a) == len(b)
            and all(json_eq(x, y) for x, y in zip(a, b))
        )
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    if isinstance(a, str):
        return isinstance(b, str) and str(a) == str(b)
    return type(a) is type(b) and a == b
