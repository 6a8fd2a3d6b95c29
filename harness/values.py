"""Abstract (tagged) values of the specification and their projection from /
injection into the library's cooked, JSON and XML forms."""
import base64
import decimal
import re

from yangson.instvalue import ArrayValue, ObjectValue
from yangson.instroute import InstanceRoute

LIM = 2 ** 31 - 1


def norm_dec(num, e):
    while e > 0 and num % 10 == 0:
        num //= 10
        e -= 1
    return ["d", num, e]


def dec_text(v):
    """Canonical text of a decimal <<"d", n, e>>."""
    n, e = v[1], v[2]
    s = "-" if n < 0 else ""
    t = str(abs(n))
    if e == 0:
        return s + t + ".0"
    t = t.rjust(e + 1, "0")
    return s + t[:-e] + "." + t[-e:]


def proj(v):
    """Abstract value of a cooked value, whatever it is (total)."""
    if isinstance(v, ObjectValue):
        return ["o", [[str(k), proj_meta(x) if str(k).startswith("@") else proj(x)]
                      for k, x in sorted(v.items(), key=lambda p: str(p[0]))]]
    if isinstance(v, ArrayValue):
        return ["a", [proj(x) for x in v]]
    if isinstance(v, bool):
        return ["b", "true" if v else "false"]
    if isinstance(v, int):
        return ["i", v] if -LIM <= v <= LIM else ["I", str(v)]
    if isinstance(v, decimal.Decimal):
        if not v.is_finite():
            return ["?", str(v)]
        sign, digits, exp = v.as_tuple()
        n = int("".join(map(str, digits)) or "0")
        if exp > 0:
            n *= 10 ** exp
            exp = 0
        r = norm_dec(-n if sign else n, -exp)
        return r if abs(r[1]) <= LIM else ["D", str(r[1]), r[2]]
    if isinstance(v, str):
        return ["s", v]
    if isinstance(v, bytes):
        return ["x", v.hex()]
    if isinstance(v, InstanceRoute):
        return ["r", str(v)]
    if isinstance(v, tuple):
        if v == (None,):
            return ["e"]
        return ["t", [str(x) for x in v]]
    if isinstance(v, (dict, list)):      # a structured value that is not cooked
        return ["?", type(v).__name__ + " " + repr(v)]
    if v is None:
        return ["?", "None"]
    return ["?", type(v).__name__ + " " + repr(v)]


def proj_meta(x):
    if isinstance(x, dict):
        return ["o", [[str(k), proj(v)] for k, v in sorted(x.items())]]
    if isinstance(x, list):
        return ["a", [proj_meta(v) for v in x]]
    return proj(x)


def cook(v):
    """Cooked value of an abstract value."""
    t = v[0]
    if t == "o":
        return ObjectValue({k: cook(x) for k, x in v[1]})
    if t == "a":
        return ArrayValue([cook(x) for x in v[1]])
    if t == "i":
        return v[1]
    if t == "I":
        return int(v[1])
    if t == "d":
        return decimal.Decimal(v[1]).scaleb(-v[2])
    if t == "s":
        return v[1]
    if t == "b":
        return v[1] == "true"
    if t == "e":
        return (None,)
    if t == "t":
        return tuple(v[1])
    if t == "x":
        return bytes.fromhex(v[1])
    raise ValueError(v)


def raw(v, ty=None):
    """JSON (RFC 7951) form of an abstract scalar value of type `ty`."""
    t = v[0]
    b = ty["b"] if ty else None
    if b == "union":
        for u in ty["u"]:
            if type_has(u, v):
                return raw(v, u)
        return raw(v, None)
    if b == "leafref":
        return raw(v, ty["ty"])
    if t == "i":
        return str(v[1]) if b in ("int64", "uint64") else v[1]
    if t == "I":
        return v[1] if b in ("int64", "uint64", None) else int(v[1])
    if t == "d":
        return dec_text(v)
    if t in ("s", "r"):
        return v[1]
    if t == "b":
        return v[1] == "true"
    if t == "e":
        return [None]
    if t == "t":
        if b == "identityref" or b is None and len(v[1]) == 2 and v[1][1][:1] == "m":
            return f"{v[1][1]}:{v[1][0]}"
        return " ".join(v[1])
    if t == "x":
        return base64.b64encode(bytes.fromhex(v[1])).decode()
    raise ValueError(v)


def text(v):
    """YANG text (canonical lexical form) of an abstract scalar."""
    if v[0] == "i":
        return str(v[1])
    if v[0] == "b":
        return v[1]
    if v[0] == "e":
        return ""
    r = raw(v)
    return r


INTR = {"int8": (-128, 127), "uint8": (0, 255), "int16": (-32768, 32767),
        "uint16": (0, 65535), "int32": (-2 ** 31, 2 ** 31 - 1),
        "uint32": (0, 2 ** 32 - 1), "int64": (-2 ** 63, 2 ** 63 - 1),
        "uint64": (0, 2 ** 64 - 1)}


def regex_text(r):
    import ygen
    return ygen.regex_text(r)


def type_has(ty, v):
    """Python counterpart of the specification's TypeOk; used by generators
    only, never as an oracle."""
    b, t = ty["b"], v[0]
    if b in INTR:
        if t == "i":
            n = v[1]
        elif t == "I":
            n = int(v[1])
        else:
            return False
        lo, hi = INTR[b]
        return lo <= n <= hi and (not ty.get("rg") or
                                  any(x <= n <= y for x, y in ty["rg"]))
    if b == "string":
        return t == "s" and (not ty.get("ln") or
                             any(x <= len(v[1]) <= y for x, y in ty["ln"])) and \
            all((re.fullmatch(regex_text(p[0]), v[1]) is None) == p[1] for p in ty.get("pt", []))
    if b == "boolean":
        return t == "b"
    if b == "empty":
        return t == "e"
    if b == "enumeration":
        return t == "s" and v[1] in ty["en"]
    if b == "bits":
        if t != "t" or not all(x in ty["bt"] for x in v[1]):
            return False
        k = [ty["bt"].index(x) for x in v[1]]
        return k == sorted(set(k))
    if b == "decimal64":
        return t == "d" and v[2] <= ty["fd"]
    if b == "identityref":
        return t == "t" and list(v[1]) in ty["ids"]
    if b == "binary":
        return t == "x"
    if b == "union":
        return any(type_has(u, v) for u in ty["u"])
    if b == "leafref":
        return type_has(ty["ty"], v)
    if b == "instance-identifier":
        return t == "r"
    raise ValueError(b)
