"""Import koreo from /repo/src, ready to run under this sandbox's Python.

koreo requires Python >= 3.13.  The sandbox has 3.12, whose compiler keeps
mangling private names after a PEP 695 generic class with a private name, so
in koreo.cache the functions *before* `class __CachedResource[T]` look for
`__CACHE` while the module defines `_CachedResource__CACHE`.  On 3.13 both are
the same global.  Restore that, without touching the repository.  Likewise
`copy.replace` (3.13), which the FunctionTest runner uses.
"""

import copy
import importlib
import pkgutil
import re
import sys

REPO_SRC = "/repo/src"
if not hasattr(copy, "replace"):
    copy.replace = lambda obj, /, **changes: (
        obj._replace(**changes) if hasattr(obj, "_replace") else obj.__replace__(**changes)
    )

if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)

import koreo


def unmangle(mod):
    for name, value in list(vars(mod).items()):
        m = re.fullmatch(r"_([A-Za-z0-9]\w*?)(__[A-Za-z]\w*)", name)
        if m and not name.endswith("__") and m.group(2) not in vars(mod):
            setattr(mod, m.group(2), value)


import koreo.cache

if not koreo.__path__[0].startswith("/repo/src"):
    raise SystemExit(f"koreo imported from {koreo.__path__}")

unmangle(koreo.cache)
