"""Driving koreo's public entry points."""
import copy
import json

import celpy
from celpy import celtypes

import kr8s

from koreo import cache, registry, result
from koreo.function_test.prepare import prepare_function_test
from koreo.function_test.run import run_function_test
from koreo.function_test.structure import FunctionTest
from koreo.resource_function.prepare import prepare_resource_function
from koreo.resource_function.reconcile import kind_lookup, reconcile_resource_function
from koreo.resource_function.structure import ResourceFunction
from koreo.resource_template.prepare import prepare_resource_template
from koreo.resource_template.structure import ResourceTemplate
from koreo.value_function.prepare import prepare_value_function
from koreo.value_function.reconcile import reconcile_value_function
from koreo.value_function.structure import ValueFunction
from koreo.workflow.prepare import prepare_workflow
from koreo.workflow.reconcile import reconcile_workflow
from koreo.workflow.structure import Workflow

from core import HarnessError, Violation, fail
import vloop

PREPARERS = {
    "ValueFunction": (ValueFunction, prepare_value_function),
    "ResourceFunction": (ResourceFunction, prepare_resource_function),
    "ResourceTemplate": (ResourceTemplate, prepare_resource_template),
    "Workflow": (Workflow, prepare_workflow),
    "FunctionTest": (FunctionTest, prepare_function_test),
}


def reset():
    cache._reset_cache()
    registry._reset_registries()
    if hasattr(kind_lookup, "_reset"):
        kind_lookup._reset()


def cel(value):
    return celpy.json_to_cel(value)


def plain(value):
    """CEL (or JSON) value -> plain JSON, independent of koreo's converter."""
    if value is None or isinstance(value, celtypes.NullType):
        return None
    if isinstance(value, (bool, celtypes.BoolType)):
        return bool(value)
    if isinstance(value, celpy.CELEvalError):
        return {"<<CELEvalError>>": str(value)}
    if isinstance(value, str):
        return str(value)
    if isinstance(value, float):
        return float(value)
    if isinstance(value, int):
        return int(value)
    if isinstance(value, dict):
        return {plain_key(k): plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return {"<<opaque>>": f"{type(value).__name__}:{value}"}


def plain_key(key):
    if isinstance(key, str):
        return str(key)
    return f"<<{type(key).__name__}>>{key}"


def outcome_class(outcome):
    for name in ("DepSkip", "Skip", "Retry", "PermFail", "Ok"):
        if isinstance(outcome, getattr(result, name)):
            return name
    return "Ok"


def is_value(outcome):
    return result.is_unwrapped_ok(outcome) and not isinstance(outcome, result.Ok)


def describe(outcome):
    """Stable plain description of an unwrapped outcome."""
    c = outcome_class(outcome)
    if c == "Ok":
        return {"class": "Ok", "value": plain(outcome.data if isinstance(outcome, result.Ok) else outcome)}
    d = {"class": c, "message": outcome.message}
    if c == "Retry":
        d["delay"] = outcome.delay
    return d


async def sut(awaitable, what):
    """Await code under test; an escaping exception is a violation."""
    try:
        return await awaitable
    except (Violation, HarnessError):
        raise
    except (vloop.Deadlock, vloop.Livelock) as err:
        fail(f"{what} never finished: {type(err).__name__}")
    except Exception as err:
        fail(f"{what} raised {type(err).__name__}: {err}")


async def offer(kind, name, spec, version="1"):
    cls, preparer = PREPARERS[kind]
    return await cache.prepare_and_cache(
        resource_class=cls,
        preparer=preparer,
        metadata={"name": name, "resourceVersion": version},
        spec=copy.deepcopy(spec),
    )


async def offer_ok(kind, name, spec, version="1"):
    """Offer a definition the generator knows is valid."""
    prepared = await sut(offer(kind, name, spec, version), f"preparing {kind} {name}")
    if not result.is_unwrapped_ok(prepared):
        fail(f"valid {kind} {name} was not accepted: {prepared}", spec=spec)
    return prepared


async def prepare(kind, name, spec):
    _, preparer = PREPARERS[kind]
    return await preparer(name, copy.deepcopy(spec))


async def prepare_ok(kind, name, spec):
    got = await sut(prepare(kind, name, spec), f"preparing {kind} {name}")
    if not result.is_unwrapped_ok(got):
        fail(f"valid {kind} {name} was not accepted: {got}", spec=spec)
    return got[0]


OWNER_REF = {
    "apiVersion": "example.dev/v1",
    "blockOwnerDeletion": True,
    "controller": False,
    "kind": "Trigger",
    "name": "the-trigger",
    "uid": "uid-of-trigger",
}


def run(coro_fn, *args, **kw):
    """Run one async case on a fresh virtual loop with clean module state."""

    async def main():
        reset()
        try:
            return await coro_fn(*args, **kw)
        finally:
            reset()

    try:
        return vloop.run(main())
    except (vloop.Deadlock, vloop.Livelock) as err:
        fail(f"code under test never finished: {type(err).__name__}: {err}")


# Kinds are fixed: kr8s keeps one class per kind/version for the process.
KINDS = {
    "Widget": ("test.koreo.dev/v1", "widgets", True),
    "Gadget": ("test.koreo.dev/v1beta1", "gadgets", True),
    "Bolt": ("v1", "bolts", True),
    "Realm": ("test.koreo.dev/v1", "realms", False),
}


def api_config(kind="Widget", name="thing", namespace="ns-one", **extra):
    version, plural, namespaced = KINDS[kind]
    spec = {"apiVersion": version, "kind": kind, "plural": plural, "name": name, "namespaced": namespaced}
    if namespace is not None:
        spec["namespace"] = namespace
    spec.update(extra)
    return spec


def owner(namespace="ns-one"):
    return (namespace, copy.deepcopy(OWNER_REF))
