"""Tagged encoding of JSON-like values for the specifications (KValue.tla).

null -> ["z"]   bool -> ["b", true]   number -> ["n", "<canonical>"]
string -> ["s", <code>]   list -> ["l", [..]]   map -> ["m", {k: v}]
anything else -> ["e", "<type name>"]
"""

import math

from celpy import celtypes
import celpy


def number(v) -> str:
    if isinstance(v, int):
        return str(int(v))
    v = float(v)
    if math.isnan(v):
        return "nan"
    if math.isinf(v):
        return "inf" if v > 0 else "-inf"
    if v == int(v):
        return str(int(v))
    return repr(v)


def text(s) -> str:
    """TLC cannot hold every character in a string: make them plain."""
    s = str.__str__(s)
    out = []
    for ch in s:
        if ch.isascii() and ch.isprintable() and ch not in '"\\~':
            out.append(ch)
        else:
            out.append(f"~{ord(ch):x};")
    return "".join(out)


def enc(v):
    try:
        return _enc(v)
    except RecursionError:
        return ["e", "contains itself"]


def _enc(v):
    if v is None or isinstance(v, celtypes.NullType):
        return ["z"]
    if isinstance(v, (bool, celtypes.BoolType)):
        return ["b", bool(v)]
    if isinstance(v, (celtypes.TimestampType, celtypes.DurationType)):
        return ["s", text(str(v))]
    if isinstance(v, str):
        return ["s", text(v)]
    if isinstance(v, (bytes, bytearray)):
        return ["e", "bytes"]
    if isinstance(v, (int, float)):
        return ["n", number(v)]
    if isinstance(v, dict):
        return ["m", {key(k): _enc(x) for k, x in v.items()}]
    if isinstance(v, (list, tuple)):
        return ["l", [_enc(x) for x in v]]
    if isinstance(v, celpy.CELEvalError):
        return ["e", "CELEvalError"]
    return ["e", type(v).__name__]


def key(k):
    if isinstance(k, str):
        return text(k)
    return "~key:" + type(k).__name__ + ":" + text(str(k))


def plain(v):
    """A deep, plain copy of a celtypes/Box structure."""
    if isinstance(v, celtypes.BoolType):
        return bool(v)
    if isinstance(v, dict):
        return {str(k) if isinstance(k, str) else k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, celtypes.StringType):
        return str(v)
    return v
