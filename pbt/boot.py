"""Import paths, logging silence and the Python 3.12.3 name-mangling shim."""
import logging
import os
import re
import sys
import types

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("KOREO_REPO", "/repo")
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
if HERE not in sys.path:
    sys.path.insert(0, HERE)
if os.path.join(REPO, "src") not in sys.path:
    sys.path.insert(0, os.path.join(REPO, "src"))
if VT not in sys.path:
    sys.path.append(VT)  # last: the project's own lark must win

os.environ.setdefault("HYPOTHESIS_NO_PLUGINS", "1")
logging.disable(logging.CRITICAL)

_MANGLED = re.compile(r"^_[A-Za-z0-9][A-Za-z0-9_]*?(__[A-Za-z0-9]\w*)$")


def _codes(code):
    yield code
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            yield from _codes(const)


def _suffix(name):
    if name.startswith("__") and not name.endswith("__"):
        return name
    m = _MANGLED.match(name)
    if m and not name.endswith("__"):
        return m.group(1)
    return None


def unmangle(module):
    """CPython 3.12.3 leaks the class name of a PEP 695 generic class into the
    mangling of later module-level `__names`; give both spellings one object."""
    g = vars(module)
    wanted = set()
    for value in list(g.values()):
        fns = list(vars(value).values()) if isinstance(value, type) else [value]
        for fn in fns:
            fn = getattr(fn, "__func__", getattr(fn, "fget", fn))
            fn = getattr(fn, "__wrapped__", fn)  # a decorated one
            if isinstance(fn, types.FunctionType) and fn.__globals__ is g:
                for code in _codes(fn.__code__):
                    wanted.update(n for n in code.co_names if _suffix(n))
    have = {}
    for name in list(g):
        s = _suffix(name)
        if s:
            have.setdefault(s, g[name])
    for name in wanted:
        if name not in g and _suffix(name) in have:
            g[name] = have[_suffix(name)]


def load():
    import koreo.cache  # noqa
    import koreo.registry  # noqa
    import koreo.status  # noqa
    import koreo.workflow.prepare  # noqa
    import koreo.workflow.reconcile  # noqa
    import koreo.function_test.prepare  # noqa
    import koreo.function_test.run  # noqa
    import koreo.resource_template.prepare  # noqa
    import koreo.value_function.prepare  # noqa

    for name, module in list(sys.modules.items()):
        if name == "koreo" or name.startswith("koreo."):
            if sys.version_info < (3, 13):
                unmangle(module)
    logging.disable(logging.CRITICAL)
