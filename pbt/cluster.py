"""In-memory kr8s-compatible API: merge patch, bookkeeping, log, faults."""
import asyncio
from contextlib import asynccontextmanager
import copy
import json

import httpx
import kr8s


class Response:
    def __init__(self, data, status_code=200):
        self._data = data
        self.status_code = status_code

    def json(self):
        return copy.deepcopy(self._data)


class _Status:
    def __init__(self, code):
        self.status_code = code


def server_error(code, text="server error"):
    return kr8s.ServerError(f"{code} {text}", status={"code": code, "message": text}, response=_Status(code))


def merge_patch(target, patch):
    """RFC 7386."""
    if not isinstance(patch, dict):
        return copy.deepcopy(patch)
    base = copy.deepcopy(target) if isinstance(target, dict) else {}
    for key, value in patch.items():
        if value is None:
            base.pop(key, None)
        else:
            base[key] = merge_patch(base.get(key), value)
    return base


class Call:
    __slots__ = ("n", "method", "version", "plural", "namespace", "name", "payload",
                 "headers", "t0", "t1", "fault", "kind", "subresource", "url")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))

    @property
    def mutating(self):
        return self.method in ("POST", "PATCH", "DELETE", "PUT")

    def key(self):
        return (self.method, self.version, self.plural, self.namespace, self.name)

    def __repr__(self):
        return f"{self.method} {self.version}/{self.plural} {self.namespace}/{self.name}"


class BaseFault(BaseException):
    pass


class Cluster:
    """objects: (version, plural, namespace, name) -> stored object"""

    def __init__(self, latency=None, fault=None, plurals=None, on_store=None, bookkeeping=True, missing="empty"):
        self.missing = missing
        self.objects = {}
        self.log = []
        self.latency = latency or (lambda call: 0)
        self.fault = fault or (lambda call: None)
        self.plurals = plurals or {}
        self.on_store = on_store
        self.bookkeeping = bookkeeping
        self.anomalies = []
        self._n = 0
        self._uid = 0

    # kr8s surface -----------------------------------------------------
    @property
    def namespace(self):
        return "api-default-namespace"

    async def lookup_kind(self, kind):
        call = self._begin("LOOKUP", None, None, None, kind, None)
        await self._pre(call)
        plural = self.plurals.get(kind)
        await self._post(call)
        if plural is None:
            raise ValueError(f"Kind {kind} not found.")
        return (f"{plural}/v1", plural, True)

    async def async_get(self, cls, *names, namespace=None, **kw):
        name = names[0] if names else None
        ns = (namespace or self.namespace) if cls.namespaced else None
        call = self._begin("GET", cls.version, cls.endpoint, ns, name, None)
        await self._pre(call)
        found = self.objects.get((cls.version, cls.endpoint, ns, name))
        found = copy.deepcopy(found)
        await self._post(call)
        if found is None:
            # kr8s lists with a name field-selector: a missing object is an empty
            # list; an unregistered kind is a 404
            if self.missing == "404":
                raise server_error(404, "not found")
            if self.missing == "notfound":
                raise kr8s.NotFoundError("not found")
            return
        yield cls(resource=found, api=self)

    @asynccontextmanager
    async def call_api(self, method="GET", version="v1", base="", namespace=None, url="", raise_for_status=True, stream=False, **kw):
        data = kw.get("data")
        payload = json.loads(data) if data else None
        parts = url.split("/")
        plural = parts[0]
        name = parts[1] if len(parts) > 1 else None
        if method == "POST" and isinstance(payload, dict):
            meta = payload.get("metadata")
            name = meta.get("name") if isinstance(meta, dict) else None
        call = self._begin(method, version, plural, namespace, name, payload)
        call.url = url
        call.headers = kw.get("headers")
        call.subresource = parts[2] if len(parts) > 2 else None
        await self._pre(call)
        try:
            data = self._apply(call)
        except kr8s.ServerError:
            await self._post(call)
            raise
        await self._post(call)
        yield Response(data)

    # internals ----------------------------------------------------------
    def _begin(self, method, version, plural, namespace, name, payload):
        loop = asyncio.get_running_loop()
        call = Call(n=self._n, method=method, version=version, plural=plural,
                    namespace=namespace, name=name, payload=copy.deepcopy(payload), t0=loop.time())
        self._n += 1
        self.log.append(call)
        return call

    async def _pre(self, call):
        fault = self.fault(call)
        call.fault = fault
        delay = self.latency(call)
        if delay:
            await asyncio.sleep(delay)
        if not fault:
            return
        kind = fault if isinstance(fault, str) else fault["kind"]
        if kind == "hang":
            await asyncio.get_running_loop().create_future()
        elif kind in ("exc_before", "runtime"):
            raise RuntimeError("injected failure before the call took effect")
        elif kind == "timeout":
            raise kr8s.APITimeoutError("injected API timeout")
        elif kind == "conn":
            raise ConnectionError("injected connection error")
        elif kind == "asyncio_timeout":
            raise asyncio.TimeoutError()
        elif kind in ("400", "401", "403", "404", "409", "410", "422", "429", "500", "502", "503", "504"):
            raise server_error(int(kind), "injected")
        elif kind == "cancelled":
            raise asyncio.CancelledError()
        elif kind == "valueerror":
            raise ValueError("injected value error")
        elif kind == "keyerror":
            raise KeyError("injected")
        elif kind == "group":
            raise ExceptionGroup("injected group", [RuntimeError("inner")])
        elif kind == "empty":
            raise Exception()
        elif kind == "stopiter":
            raise StopIteration("injected")
        elif kind == "stopasync":
            raise StopAsyncIteration()
        elif kind == "oserror":
            raise OSError(104, "Connection reset by peer")
        elif kind == "httpx":
            raise httpx.ReadError("")
        elif kind == "decode":
            raise json.JSONDecodeError("Expecting value", "<html>" * 50, 0)
        elif kind == "long":
            raise RuntimeError("injected " * 20000)
        elif kind == "odd":
            raise RuntimeError("{injected} %s %d {0}\n\ttext", {"a": [1]}, b"\xff", None)
        elif kind == "base":
            raise BaseFault("injected")
        elif kind == "notfound":
            raise kr8s.NotFoundError("injected")
        elif kind == "noresponse":
            raise kr8s.ServerError("injected without response")

    async def _post(self, call):
        loop = asyncio.get_running_loop()
        call.t1 = loop.time()
        fault = call.fault
        if not fault:
            return
        kind = fault if isinstance(fault, str) else fault["kind"]
        if kind == "exc_after":
            raise RuntimeError("injected failure after the call took effect")
        if kind == "500_after":
            raise server_error(500, "injected after effect")
        if kind == "hang_after":
            await loop.create_future()

    def _apply(self, call):
        key = (call.version, call.plural, call.namespace, call.name)
        if call.method == "POST":
            if key in self.objects:
                raise server_error(409, "already exists")
            stored = copy.deepcopy(call.payload)
            self._book(stored, created=True)
            if self.on_store:
                self.on_store(call, stored)
            self.objects[key] = stored
            return stored
        if call.method == "PATCH":
            if key not in self.objects:
                raise server_error(404, "not found")
            stored = merge_patch(self.objects[key], call.payload)
            self._book(stored, created=False)
            if self.on_store:
                self.on_store(call, stored)
            self.objects[key] = stored
            return stored
        if call.method == "DELETE":
            if key not in self.objects:
                raise server_error(404, "not found")
            return self.objects.pop(key)
        if call.method == "GET":
            if key not in self.objects:
                raise server_error(404, "not found")
            return self.objects[key]
        raise server_error(405, "method")

    def _book(self, stored, created):
        if not self.bookkeeping or not isinstance(stored, dict):
            return
        meta = stored.setdefault("metadata", {})
        if not isinstance(meta, dict):
            return
        if created:
            self._uid += 1
            meta["uid"] = f"uid-{self._uid}"
            meta["creationTimestamp"] = "2024-01-01T00:00:00Z"
            meta["generation"] = 1
        meta["resourceVersion"] = f"{int(meta.get('resourceVersion') or 0) + 1}"

    # helpers ------------------------------------------------------------
    def put(self, obj, plural, namespaced=True):
        meta = obj.get("metadata", {})
        key = (obj["apiVersion"], plural, meta.get("namespace") if namespaced else None, meta["name"])
        self.objects[key] = copy.deepcopy(obj)
        return key

    def mutations(self, since=0):
        return [c for c in self.log[since:] if c.mutating]

