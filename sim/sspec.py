"""Stream-record schemas: a JSON spec of a record type, its random generator, the real Struct class built from it through
the public declaration macros, and an independent reference codec (written from the wire format, using nothing of the
code under test).

Values are JSON: int, float, hex string (bytes), mapping key, list, {field: value}, {"case": i, "v": ...}, None (absent).
"""
import _thread
import math
import re
import struct as pystruct

from .repo import HarnessError
from .world import Violation

NUM = {}
for _n, _c in (("8", "b"), ("16", "h"), ("32", "i"), ("64", "q")):
    for _e, _p in (("B", ">"), ("L", "<"), ("N", "=")):
        NUM["U%sInt%s" % (_e, _n)] = _p + _c.upper()
        NUM["S%sInt%s" % (_e, _n)] = _p + _c
for _n, _c in (("32", "f"), ("64", "d")):
    for _e, _p in (("B", ">"), ("L", "<"), ("N", "=")):
        NUM["%sFloat%s" % (_e, _n)] = _p + _c
INTS = sorted(k for k in NUM if "Int" in k)
UINTS = [k for k in INTS if k[0] == "U"]
FLOATS = sorted(k for k in NUM if "Float" in k)
SMALL_UINTS = [k for k in UINTS if not k.endswith("64")]


class Trunc(Exception):
    """The reference decoder ran out of bytes."""


class Endless(Exception):
    """A huge number of elements of no bytes: not judged."""


class Bad(Exception):
    """The reference decoder says these bytes are not a value of this type.  kind: const, unmapped, framing, unknown"""

    def __init__(self, kind, where=""):
        Exception.__init__(self, "%s %s" % (kind, where))
        self.kind = kind


def take(buf, pos, n):
    if pos + n > len(buf):
        raise Trunc()
    return bytes(buf[pos:pos + n]), pos + n


def f32(x):
    return pystruct.unpack("<f", pystruct.pack("<f", x))[0]


def same_num(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, float) or isinstance(b, float):
        if not (isinstance(a, float) and isinstance(b, float)):
            return False
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return pystruct.pack("<d", a) == pystruct.pack("<d", b)
    return isinstance(a, int) and isinstance(b, int) and a == b


def same(a, b):
    """Deep equality of JSON values, distinguishing types and float signs."""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) or isinstance(b, (int, float)):
        return same_num(a, b)
    return type(a) is type(b) and a == b


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s present on one side only" % (path, k)
            d = diff(a[k], b[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d elements expected, %d found" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    return None if same(a, b) else "%s: expected %r, found %r" % (path or "value", a, b)


class Env(object):
    """What a built record type needs from its surroundings."""

    def __init__(self, inst, callback=None):
        self.inst = inst                       # the infi.instruct package
        self.callback = callback or (lambda kind, name, obj=None: None)
        self.adapter = None
        self.keep = None                       # is given every byte string that application code gives away


def mk(spec):
    return KINDS[spec["e"]](spec)


def leb(n):
    out = bytearray()
    while n > 127:
        out.append(n & 127 | 128)
        n >>= 7
    out.append(n)
    return bytes(out)


# ---- lengths ----------------------------------------------------------------------------------------------------------
class Len(object):
    def __init__(self, spec):
        self.spec = spec
        self.ptr = spec.get("ptr")
        self.fixed = spec.get("fixed")
        self.code = spec.get("code")
        self.leb = spec.get("leb")       # written by application code, 7 bits to the byte, in at most this many bytes
        self.fmt = NUM[self.code] if self.code else None

    def width(self):
        """the most bytes the length takes"""
        return self.leb or (pystruct.calcsize(self.fmt) if self.fmt else 0)

    def least(self):
        return 1 if self.leb else self.width()

    def marshal(self, env):
        if self.ptr:
            return env.inst.ReadPointer(self.ptr)
        if self.leb:
            return self._leb(env)
        return getattr(env.inst, self.code)

    def _leb(self, env):
        from infi.instruct.base import Marshal, MinMax
        most, declared = self.leb, self.spec.get("bound")

        class Leb(Marshal):
            def create_from_stream(self, stream, context={}, *args, **kwargs):
                n = 0
                for i in range(most):
                    env.callback("user-read", "length")
                    raw = stream.read(1)
                    if not raw:
                        raise EOFError("short")
                    b = veil(raw, context.get("xor", 0))[0]
                    n |= (b & 127) << (7 * i)
                    if b < 128:
                        return n
                raise ValueError("a length of more than %d bytes" % most)

            def write_to_stream(self, obj, stream, context={}):
                env.callback("user-write", "length")
                raw = leb(obj)
                if len(raw) > most:
                    raise ValueError("a length of more than %d bytes" % most)
                stream.write(veil(raw, context.get("xor", 0)))

            def sizeof(self, obj):
                return len(leb(obj))

        if declared:
            Leb.min_max_sizeof = lambda self: MinMax(1, most)
        return Leb()

    def enc(self, n):
        if self.leb:
            return veil(leb(n), CONTEXT[0] or 0)
        return pystruct.pack(self.fmt, n) if self.fmt else b""

    def dec(self, buf, pos, scope):
        if self.ptr:
            return scope[self.ptr], pos
        if self.leb:
            n = 0
            for i in range(self.leb):
                raw, pos = take(buf, pos, 1)
                b = veil(raw, CONTEXT[0] or 0)[0]
                n |= (b & 127) << (7 * i)
                if b < 128:
                    return n, pos
            raise Bad("framing", "length of too many bytes")
        raw, pos = take(buf, pos, self.width())
        n = pystruct.unpack(self.fmt, raw)[0]
        if n < 0:
            raise Bad("framing", "negative length")
        return n, pos

    def max(self):
        if self.ptr:
            return 6
        if self.leb:
            return (1 << (7 * self.leb)) - 1
        bits = self.width() * 8
        return (1 << (bits if self.code[0] == "U" else bits - 1)) - 1


# ---- elements ---------------------------------------------------------------------------------------------------------
class El(object):
    has_minmax = True
    fixed = True

    def __init__(self, spec):
        self.spec = spec

    def canon(self, v):
        return v

    def to_py(self, v):
        return v

    def from_py(self, o):
        return o

    def kids(self):
        return []


class Num(El):
    def __init__(self, spec):
        El.__init__(self, spec)
        self.code = spec["code"]
        self.fmt = NUM[self.code]
        self.n = pystruct.calcsize(self.fmt)

    def gen(self, rng):
        if "Float" in self.code:
            r = rng.random()
            if r < 0.25:
                v = rng.choice([0.0, -0.0, float("inf"), float("-inf"), float("nan"), 1e-40, -1.5, 5e-324])
            else:
                v = rng.uniform(-1, 1) * 10.0 ** rng.randint(-30, 30)
            return f32(v) if self.n == 4 else v
        bits = 8 * self.n
        lo, hi = (0, (1 << bits) - 1) if self.code[0] == "U" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        r = rng.random()
        if r < 0.3:
            return rng.choice([lo, hi, 0, 1, lo + 1, hi - 1, hi // 2])
        if r < 0.5:
            return rng.randint(0, min(9, hi))
        return rng.randint(lo, hi)

    def marshal(self, env):
        return getattr(env.inst, self.code)

    def from_py(self, o):
        if isinstance(o, bool) or not isinstance(o, (int, float)):
            raise TypeError("number expected, found %r" % (o,))
        return o

    def enc(self, v):
        return pystruct.pack(self.fmt, v)

    def dec(self, buf, pos, scope):
        raw, pos = take(buf, pos, self.n)
        return pystruct.unpack(self.fmt, raw)[0], pos

    def minmax(self):
        return self.n, self.n

    def bad_value(self, rng):
        if "Float" in self.code:
            return None
        bits = 8 * self.n
        return (1 << bits) + rng.randint(0, 5) if rng.random() < 0.6 or self.code[0] != "U" else -1 - rng.randint(0, 5)


def _strip(v, direction, pad):
    if direction == 0:
        return v
    if direction == 1:
        return v.rstrip(pad)
    if direction == 2:
        return v.lstrip(pad)
    return v.strip(pad)


class FStr(El):
    """Fixed-size padded string; direction 0 none, 1 right, 2 left, 3 both (both writes its padding on the right)."""

    def __init__(self, spec):
        El.__init__(self, spec)
        self.size = spec["size"]
        self.pad = bytes.fromhex(spec.get("pad", "00"))
        self.dir = spec.get("dir", 1)

    def gen(self, rng):
        if self.dir == 0:
            n = self.size
        else:
            n = rng.choice([0, self.size, rng.randint(0, self.size), rng.randint(0, self.size)])
        v = bytes(rng.choice([0, 0x20, 0x41, 0xff, rng.randint(0, 255)]) for _ in range(n))
        return v.hex()

    def canon(self, v):
        return _strip(bytes.fromhex(v), self.dir, self.pad).hex()

    def to_py(self, v):
        return bytes.fromhex(v)

    def from_py(self, o):
        if not isinstance(o, bytes):
            raise TypeError("bytes expected, found %s" % (type(o).__name__,))
        return o.hex()

    def marshal(self, env):
        return env.inst.PaddedStringMarshal(self.size, self.pad, self.dir)

    def macro(self, env, name, kw):
        return env.inst.PaddedString(name, self.size, self.pad, self.dir, **kw)

    def enc(self, v):
        s = _strip(bytes.fromhex(v), self.dir, self.pad)
        fill = self.pad[:1] * (self.size - len(s)) if self.dir else b""
        return fill + s if self.dir == 2 else s + fill

    def dec(self, buf, pos, scope):
        raw, pos = take(buf, pos, self.size)
        return _strip(raw, self.dir, self.pad).hex(), pos

    def minmax(self):
        return self.size, self.size

    def bad_value(self, rng):
        keep = bytes([(self.pad[0] + 1) % 256])
        while keep in self.pad:
            keep = bytes([(keep[0] + 1) % 256])
        if self.dir == 0 and self.size and rng.random() < 0.4:
            return (keep * (self.size - 1)).hex()
        return (keep * (self.size + rng.randint(1, 3))).hex()


class FBuf(FStr):
    def __init__(self, spec):
        FStr.__init__(self, dict(spec, pad="", dir=0))

    def marshal(self, env):
        return env.inst.FixedSizeBufferMarshal(self.size)

    def macro(self, env, name, kw):
        return env.inst.FixedSizeBuffer(name, self.size, **kw)

    def bad_value(self, rng):
        d = rng.choice([-1, 1, 2]) if self.size else 1
        return ("41" * (self.size + d))


class VStr(El):
    fixed = False

    def __init__(self, spec):
        El.__init__(self, spec)
        self.len = Len(spec["len"])
        self.pad = bytes.fromhex(spec.get("pad", "00"))
        self.dir = spec.get("dir", 1)

    def gen(self, rng):
        top = min(self.len.max(), 300)
        r = rng.random()
        n = top if r < 0.04 else rng.choice([0, 1, 2, 3]) if r < 0.4 else rng.randint(0, min(top, 20))
        if r < 0.01 and self.len.max() > 300 and LONG[0]:
            n = rng.choice([256, 511, 700, 1200])
        return bytes(rng.choice([0, 0x20, 0x41, rng.randint(0, 255)]) for _ in range(n)).hex()

    canon = FStr.canon
    to_py = FStr.to_py
    from_py = FStr.from_py

    def count(self, v):
        return len(_strip(bytes.fromhex(v), self.dir, self.pad))

    def marshal(self, env):
        return env.inst.VarSizeStringMarshal(self.len.marshal(env), self.pad, self.dir)

    def macro(self, env, name, kw):
        if self.spec.get("dflt"):     # declaration relies on the default padding
            return env.inst.VarSizeString(name, self.len.marshal(env), **kw)
        return env.inst.VarSizeString(name, self.len.marshal(env), self.pad, self.dir, **kw)

    def enc(self, v):
        s = _strip(bytes.fromhex(v), self.dir, self.pad)
        return self.len.enc(len(s)) + s

    def dec(self, buf, pos, scope):
        n, pos = self.len.dec(buf, pos, scope)
        raw, pos = take(buf, pos, n)
        return _strip(raw, self.dir, self.pad).hex(), pos

    def minmax(self):
        return self.len.least(), None if self.len.ptr else self.len.width() + self.len.max()


class VBuf(VStr):
    def __init__(self, spec):
        VStr.__init__(self, dict(spec, pad="", dir=0))

    def marshal(self, env):
        return env.inst.VarSizeBufferMarshal(self.len.marshal(env))

    def macro(self, env, name, kw):
        return env.inst.VarSizeBuffer(name, self.len.marshal(env), **kw)


class Arr(El):
    def __init__(self, spec):
        El.__init__(self, spec)
        self.el = mk(spec["el"])
        self.has_minmax = self.el.has_minmax

    def canon(self, v):
        return [self.el.canon(x) for x in v]

    def to_py(self, v):
        return [self.el.to_py(x) for x in v]

    def from_py(self, o):
        if not isinstance(o, list):
            raise TypeError("list expected, found %r" % (o,))
        return [self.el.from_py(x) for x in o]

    def kids(self):
        return [self.el]


class FArr(Arr):
    def __init__(self, spec):
        Arr.__init__(self, spec)
        self.n = spec["count"]
        self.fixed = self.el.fixed

    def gen(self, rng):
        return [self.el.gen(rng) for _ in range(self.n)]

    def marshal(self, env):
        return env.inst.FixedSizeArrayMarshal(self.n, self.el.marshal(env))

    def macro(self, env, name, kw):
        return env.inst.FixedSizeArray(name, self.n, self.el.marshal(env), **kw)

    def enc(self, v):
        return b"".join(self.el.enc(x) for x in v)

    def dec(self, buf, pos, scope):
        out = []
        for _ in range(self.n):
            x, pos = self.el.dec(buf, pos, scope)
            out.append(x)
        return out, pos

    def minmax(self):
        lo, hi = self.el.minmax()
        return lo * self.n, None if hi is None else hi * self.n

    def bad_value(self, rng):
        n = rng.choice([self.n - 1, self.n + 1, self.n + 2]) if self.n else 1
        return [self.el.gen(rng) for _ in range(n)]


class VArr(Arr):
    fixed = False

    def __init__(self, spec):
        Arr.__init__(self, spec)
        self.len = Len(spec["len"])

    def gen(self, rng):
        top = self.len.max()
        small = isinstance(self.el, Num)
        r = rng.random()
        n = 255 if (small and r < 0.02 and top >= 255 and LONG[0]) else rng.choice([0, 1, 1, 2, 3, rng.randint(0, 6 if small else 3)])
        if small and 0.02 <= r < 0.035 and top > 255 and LONG[0]:
            n = rng.choice([256, 257, 300, 513, 700])
        return [self.el.gen(rng) for _ in range(min(n, top))]

    def count(self, v):
        return len(v)

    def marshal(self, env):
        return env.inst.VarSizeArrayMarshal(self.len.marshal(env), self.el.marshal(env))

    def macro(self, env, name, kw):
        return env.inst.VarSizeArray(name, self.len.marshal(env), self.el.marshal(env), **kw)

    def enc(self, v):
        return self.len.enc(len(v)) + b"".join(self.el.enc(x) for x in v)

    def dec(self, buf, pos, scope):
        n, pos = self.len.dec(buf, pos, scope)
        out = []
        for _ in range(n):
            before = pos
            x, pos = self.el.dec(buf, pos, scope)
            if pos == before and n > 1000:
                raise Endless()
            out.append(x)
        return out, pos

    def minmax(self):
        lo, hi = self.el.minmax()
        return self.len.least(), None if self.len.ptr or hi is None else self.len.width() + self.len.max() * hi


class SArr(Arr):
    """Array prefixed by the size in bytes of its elements."""
    fixed = False

    def __init__(self, spec):
        Arr.__init__(self, spec)
        self.len = Len(spec["len"])

    def gen(self, rng):
        out = []
        size = 0
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            x = self.el.gen(rng)
            size += len(self.el.enc(x))
            if size > self.len.max():
                break
            if len(self.el.enc(x)) == 0:
                break       # an element of no bytes cannot be counted by its size
            out.append(x)
        return out

    def count(self, v):
        return sum(len(self.el.enc(x)) for x in v)

    def marshal(self, env):
        return env.inst.SumSizeArrayMarshal(self.len.marshal(env), self.el.marshal(env))

    def macro(self, env, name, kw):
        return env.inst.SumSizeArray(name, self.len.marshal(env), self.el.marshal(env), **kw)

    def enc(self, v):
        body = b"".join(self.el.enc(x) for x in v)
        return self.len.enc(len(body)) + body

    def dec(self, buf, pos, scope):
        n, pos = self.len.dec(buf, pos, scope)
        end = pos + n
        out = []
        while pos < end:
            before = pos
            x, pos = self.el.dec(buf, pos, scope)
            if pos == before:
                raise Bad("framing", "element of no bytes")
            out.append(x)
        if pos != end:
            raise Bad("framing", "elements overrun the announced size")
        return out, pos

    def minmax(self):
        return self.len.least(), None


class Map(El):
    def __init__(self, spec):
        El.__init__(self, spec)
        self.num = Num(spec)
        self.map = spec["map"]          # [[key, wire value]]

    def gen(self, rng):
        return rng.choice(self.map)[0]

    def marshal(self, env):
        return env.inst.FixedSizeMappingMarshal(dict((k, v) for k, v in self.map), getattr(env.inst, self.spec["code"]))

    def macro(self, env, name, kw):
        return env.inst.MappingField(name, getattr(env.inst, self.spec["code"]), dict((k, v) for k, v in self.map), **kw)

    def enc(self, v):
        return self.num.enc(dict((k, w) for k, w in self.map)[v])

    def dec(self, buf, pos, scope):
        w, pos = self.num.dec(buf, pos, scope)
        for k, x in self.map:
            if x == w:
                return k, pos
        raise Bad("unmapped")

    def minmax(self):
        return self.num.n, self.num.n

    def bad_value(self, rng):
        return "no such key"


class Rec(El):
    """A nested record."""

    def __init__(self, spec):
        El.__init__(self, spec)
        self.s = S(spec["spec"])
        self.has_minmax = self.s.has_minmax
        self.fixed = self.s.fixed

    def gen(self, rng):
        return self.s.gen(rng)

    def canon(self, v):
        return self.s.canon(v)

    def to_py(self, v):
        return self.s.to_py(v)

    def from_py(self, o):
        return self.s.from_py(o)

    def marshal(self, env):
        return self.s.build(env)

    def enc(self, v):
        return self.s.enc(v)

    def dec(self, buf, pos, scope):
        return self.s.dec(buf, pos, _spy(scope))

    def minmax(self):
        return self.s.minmax()

    def kids(self):
        return [self.s]


SHORT = [False]
LONG = [True]          # do values of more than a few hundred bytes occur


class Variant(El):
    """A record whose type is chosen by looking ahead at its first bytes.  how: "func" or "sel"."""
    fixed = False

    def __init__(self, spec):
        El.__init__(self, spec)
        self.cases = [S(c) for c in spec["cases"]]
        self.key = Num({"code": spec["code"]})
        self.skip = spec.get("skip", 0)      # bytes peeked before the key ("func" only)
        self.default = spec.get("default")   # index of the default case or None
        self.keys = spec["keys"]             # key of each case
        self.on = spec.get("on")             # "obj": the earlier field of the same record that decides
        self.has_minmax = all(c.has_minmax for c in self.cases)
        self.loops = [i for i, c in enumerate(self.cases) if self._close(c)]     # cases that hold such a part again

    def _close(self, c):
        found = False
        for el in c.els.values():
            while isinstance(el, Arr):
                el = el.el
            if isinstance(el, Loop) and el.owner is None:
                el.owner = self
                found = True
        return found

    def gen(self, rng):
        if not self.loops:
            return self._gen(rng, range(len(self.cases)))
        self.level = getattr(self, "level", 0) + 1
        try:
            return self._gen(rng, range(len(self.cases)) if self.level <= self.spec["deep"] else
                             [i for i in range(len(self.cases)) if i not in self.loops])
        finally:
            self.level -= 1

    def _gen(self, rng, allowed):
        i = rng.choice(allowed)
        short = self.spec.get("short")       # a case that is shorter than what is looked ahead at: never a valid choice
        if short is not None:
            i = short if SHORT[0] else rng.choice([k for k in allowed if k != short])
        c = self.cases[i]
        v = c.gen(rng)
        if self.on:
            return {"case": i, "v": v}
        if self.default == i:
            # the default case carries its tag as ordinary data that must not collide with a mapped key
            used = [k for j, k in enumerate(self.keys) if j != i]
            tag = v[c.tag]
            if tag in used:
                v[c.tag] = self.keys[i]
        elif c.tag in c.els:
            v[c.tag] = self.keys[i]
        return {"case": i, "v": v}

    def canon(self, v):
        return {"case": v["case"], "v": self.cases[v["case"]].canon(v["v"])}

    def to_py(self, v):
        return self.cases[v["case"]].to_py(v["v"])

    def from_py(self, o):
        for i, c in enumerate(self.cases):
            if type(o) is c.cls:
                return {"case": i, "v": c.from_py(o)}
        raise TypeError("record of an undeclared type %r" % (type(o),))

    def marshal(self, env):
        lo, hi = self.minmax() if self.has_minmax else (0, None)
        if self.spec["how"] == "sel":
            mapping = {}
            for i, c in enumerate(self.cases):
                cls = c.build(env)
                if i != self.default:
                    mapping[self.keys[i]] = cls
            dflt = self.cases[self.default].cls if self.default is not None else None
            return env.inst.StructSelector(getattr(env.inst, self.spec["code"]), mapping, dflt)
        func = self._func(env)
        from_mod = env.selector_mod
        return from_mod.FuncStructSelectorMarshal(env.inst.StructFunc(func), (lo, hi if hi is not None else 1 << 60))

    def macro(self, env, name, kw):
        if self.spec["how"] == "sel":
            return env.inst.Field(name, self.marshal(env), **kw)
        func = self._func(env)
        if self.has_minmax:
            lo, hi = self.minmax()
            return env.inst.SelectStructByFunc(name, func, (lo, hi if hi is not None else 1 << 60), **kw)
        return env.inst.SelectStructByFunc(name, func, **kw)

    def _func(self, env):
        classes = [c.build(env) for c in self.cases]
        header = None if self.on else type(env.inst.Struct)("Peek", (env.inst.Struct,), {"_fields_": (
            [env.inst.BytePadding(self.skip)] if self.skip else []) + [getattr(env.inst, self.spec["code"])("tag")]})
        peek_chunks = self.spec.get("chunks")
        nested = None
        if self.spec.get("nested") and not self.on and not peek_chunks:
            # the record that is looked at is itself chosen by looking ahead
            def choose_header(obj, stream, context):
                raw = stream.read(self.spec["nested"])
                if len(raw) < self.spec["nested"]:
                    raise env.inst.NotEnoughDataError(expected=self.spec["nested"], actually_read=len(raw))
                return header
            nested = env.selector_mod.FuncStructSelectorMarshal(env.inst.StructFunc(choose_header), header.min_max_sizeof())

        if self.on:
            def by_field(obj, stream, context):
                env.callback("select", "variant", obj)
                tag = getattr(obj, self.on)
                for i, k in enumerate(self.keys):
                    if k == tag and i != self.default:
                        return classes[i]
                if self.default is None:
                    raise env.inst.InstructError("unknown tag %r" % (tag,))
                return classes[self.default]
            return by_field

        def choose(obj, stream, context):
            env.callback("select", "variant", obj)
            if peek_chunks:
                raw = b"".join(stream.read(n) for n in peek_chunks)
                if len(raw) < sum(peek_chunks):
                    raise env.inst.NotEnoughDataError(expected=sum(peek_chunks), actually_read=len(raw))
                tag = pystruct.unpack(self.key.fmt, raw[self.skip:self.skip + self.key.n])[0]
            elif nested is not None:
                tag = nested.create_from_stream(stream, context).tag
            else:
                tag = header.create_from_stream(stream, context).tag
            for i, k in enumerate(self.keys):
                if k == tag and i != self.default:
                    return classes[i]
            if self.default is None:
                raise env.inst.InstructError("unknown tag %r" % (tag,))
            return classes[self.default]
        self.choose = choose
        return choose

    def enc(self, v):
        return self.cases[v["case"]].enc(v["v"])

    def dec(self, buf, pos, scope):
        spy = _spy(scope)
        if spy is not None and self.spec["how"] != "sel":
            import json
            spy.append(json.loads(json.dumps(scope)))
        if self.on:
            peek = 0
            tag = scope[self.on]
        else:
            peek = sum(self.spec.get("chunks") or [self.skip + self.key.n])
            raw, _ = take(buf, pos, peek)
            tag = pystruct.unpack(self.key.fmt, raw[self.skip:self.skip + self.key.n])[0]
        case = self.default
        for i, k in enumerate(self.keys):
            if k == tag and i != self.default:
                case = i
        if case is None:
            raise Bad("unknown", "tag")
        start = pos
        v, pos = self.cases[case].dec(buf, pos, spy)
        if pos < start + peek:
            raise Bad("framing", "record shorter than the look-ahead")
        return {"case": case, "v": v}, pos

    def minmax(self):
        mm = [c.minmax() for c in self.cases]
        return min(a for a, _ in mm), None if any(b is None for _, b in mm) else max(b for _, b in mm)

    def kids(self):
        return self.cases


class Loop(Variant):
    """Inside a case of a Variant: the same choice once more (a record type that contains itself)."""
    has_minmax = False
    owner = None

    def __init__(self, spec):
        El.__init__(self, spec)

    cases = property(lambda self: self.owner.cases)

    def gen(self, rng):
        return self.owner.gen(rng)

    def marshal(self, env):
        return env.selector_mod.FuncStructSelectorMarshal(env.inst.StructFunc(self._func(env)))

    def macro(self, env, name, kw):
        return env.inst.SelectStructByFunc(name, self._func(env), **kw)

    def _func(self, env):
        return lambda obj, stream, context: self.owner.choose(obj, stream, context)

    def dec(self, buf, pos, scope):
        return self.owner.dec(buf, pos, scope)

    def minmax(self):
        return 0, None

    def kids(self):
        return []


class Adapt(El):
    """A fixed-size Buffer type embedded in a record through the adapter.  The spec lists unsigned whole-byte fields."""
    has_minmax = False
    fixed = False      # the adapter does not announce a size

    def __init__(self, spec):
        El.__init__(self, spec)
        self.parts = spec["parts"]       # [[name, size in 1,2,4,8, endian, gap before]]
        self.size = sum(p[1] + p[3] for p in self.parts)

    def gen(self, rng):
        return {p[0]: rng.choice([0, (1 << (8 * p[1])) - 1, rng.randint(0, (1 << (8 * p[1])) - 1)]) for p in self.parts}

    cls = None

    def build(self, env):
        if self.cls is not None:
            return self.cls
        from infi.instruct import buffer as B
        ns = {}
        pos = 0
        for name, size, endian, gap in self.parts:
            pos += gap
            make = B.be_uint_field if endian == "big" else B.le_uint_field
            ns[name] = make(where=B.bytes_ref[pos:pos + size])
            pos += size
        self.cls = type(B.Buffer)("Adapted", (B.Buffer,), ns)
        return self.cls

    def marshal(self, env):
        from infi.instruct.buffer.compat import buffer_to_struct_adapter
        return buffer_to_struct_adapter(self.build(env))

    def to_py(self, v):
        return self.cls(**v)

    def from_py(self, o):
        if type(o) is not self.cls:
            raise TypeError("packet expected, found %r" % (o,))
        return {p[0]: Num.from_py(self, getattr(o, p[0])) for p in self.parts}

    def enc(self, v):
        out = b""
        for name, size, endian, gap in self.parts:
            out += b"\0" * gap + v[name].to_bytes(size, endian)
        return out

    def dec(self, buf, pos, scope):
        raw, pos = take(buf, pos, self.size)
        v = {}
        p = 0
        for name, size, endian, gap in self.parts:
            p += gap
            v[name] = int.from_bytes(raw[p:p + size], endian)
            p += size
        return v, pos


class Own(object):
    """What the constructor of a record that is not read is given."""


READING = _thread._local()      # .extra: what the reader passes to the constructors of what it reads
CONTEXT = [None]     # of the reference codec: what the context says, None if nothing



def constructed(record, extra):
    """The constructor of a record was given `extra`."""
    if getattr(READING, "now", False) and extra is not READING.extra:
        READING.lost = "%s: constructor of a record that is read was given %r instead of %r" % (type(record).__name__, extra, READING.extra)


INIT = """
def __init__(%s):
    self.seen = {%s}
    %s
    %s
"""


def veil(raw, xor):
    return bytes(b ^ xor for b in raw) if xor else raw


class User(Num):
    """A number decoded and encoded by application code (a Marshal subclass written against the public base classes) that
    depends on the context it is given."""

    def __init__(self, spec):
        Num.__init__(self, spec)

    def marshal(self, env):
        from infi.instruct.base import FixedSizer, Marshal
        fmt, n, name = self.fmt, self.n, self.spec["u"]

        class UserMarshal(FixedSizer, Marshal):
            size = n

            def create_from_stream(self, stream, context={}, *args, **kwargs):
                env.callback("user-read", name)
                raw = stream.read(n)
                if len(raw) < n:
                    raise EOFError("short")
                return pystruct.unpack(fmt, veil(raw, context.get("xor", 0)))[0]

            def write_to_stream(self, obj, stream, context={}):
                env.callback("user-write", name)
                stream.write(veil(pystruct.pack(fmt, obj), context.get("xor", 0)))

            def to_repr(self, obj, context={}):
                env.callback("user-repr", name)
                return context.get("int_repr_format", "%d") % obj
        return UserMarshal()

    def enc(self, v):
        return veil(Num.enc(self, v), CONTEXT[0] or 0)

    def dec(self, buf, pos, scope):
        raw, pos = take(buf, pos, self.n)
        return Num.dec(self, veil(raw, CONTEXT[0] or 0), 0, scope)[0], pos

    def macro(self, env, name, kw):
        return env.inst.Field(name, self.marshal(env), **kw)


KINDS = {"user": User, "num": Num, "fstr": FStr, "fbuf": FBuf, "vstr": VStr, "vbuf": VBuf, "farr": FArr, "varr": VArr, "sarr": SArr,
         "map": Map, "rec": Rec, "var": Variant, "loop": Loop, "adapt": Adapt}


# ---- records ----------------------------------------------------------------------------------------------------------
class Scope(dict):
    """The fields of a record decoded so far."""
    spy = None


def _spy(scope):
    return getattr(scope, "spy", None)


class S(object):
    """A record type.  spec: {"name", "fields": [...], "tag": name?}.  Field kinds ("t"):
    f     {"n", "el", "d"?}           a named field, optionally with a default (JSON value)
    opt   {"n", "el", "on", "mask"}   present iff field `on` & mask
    const {"n", "el", "v"}            (el num / fstr / rec)
    bits  {"items": [["f", name, size] | ["p", size]]}
    pbits {"items": [[name, [[a, b], ...]], ...]}
    pad   {"size", "char"}
    lazy  {"fields": [...]}
    """

    def __init__(self, spec):
        self.spec = spec
        self.name = spec.get("name", "R")
        self.tag = spec.get("tag")
        self.fields = spec["fields"]
        self.els = {}
        self.cls = None
        self.has_minmax = True
        self.fixed = True
        self._prep(self.fields)

    def _prep(self, fields):
        for f in fields:
            if f["t"] in ("f", "opt", "const"):
                el = self.els[f["n"]] = mk(f["el"])
                if not el.has_minmax:
                    self.has_minmax = False
                if not el.fixed or f["t"] == "opt":
                    self.fixed = False
            elif f["t"] == "lazy":
                self._prep(f["fields"])

    # -- structure
    def leaves(self, fields=None):
        """[(field, kind)] of value-carrying names in wire order."""
        out = []
        for f in self.fields if fields is None else fields:
            if f["t"] in ("f", "opt", "const"):
                out.append((f["n"], f))
            elif f["t"] == "bits":
                out.extend((i[1], f) for i in f["items"] if i[0] == "f")
            elif f["t"] == "pbits":
                out.extend((i[0], f) for i in f["items"])
            elif f["t"] == "lazy":
                out.extend(self.leaves(f["fields"]))
        return out

    def names(self):
        return [n for n, f in self.leaves()]

    def subs(self):
        """All record types nested below this one, itself included."""
        out = [self]

        def walk(el):
            for k in el.kids():
                if isinstance(k, S):
                    out.extend(k.subs())
                else:
                    walk(k)
        for el in self.els.values():
            walk(el)
        return out

    # -- values
    def gen(self, rng):
        v = {}
        ptrs = []
        opts = []

        def pick(f):
            for n, d in sorted(f.get("ds", {}).items()):
                if rng.random() < 0.3:
                    v[n] = d

        def go(fields):
            for f in fields:
                t = f["t"]
                if t == "f":
                    el = self.els[f["n"]]
                    if "d" in f and rng.random() < 0.3:
                        v[f["n"]] = f["d"]
                    else:
                        v[f["n"]] = el.gen(rng)
                    if (getattr(el, "len", None) is not None and el.len.ptr) or getattr(el, "on", None):
                        ptrs.append((f["n"], el))
                elif t == "opt":
                    opts.append(f)
                elif t == "const":
                    v[f["n"]] = f["v"]
                elif t == "bits":
                    for i in f["items"]:
                        if i[0] == "f":
                            top = (1 << i[2]) - 1
                            v[i[1]] = rng.choice([0, top, top >> 1, rng.randint(0, top), rng.randint(0, top)])
                    pick(f)
                elif t == "pbits":
                    for n, sl in f["items"]:
                        top = (1 << sum(b - a for a, b in sl)) - 1
                        v[n] = rng.choice([0, top, rng.randint(0, top), rng.randint(0, top)])
                    pick(f)
                elif t == "lazy":
                    go(f["fields"])
        go(self.fields)
        for n, el in ptrs:
            if isinstance(el, Variant):
                c = v[n]["case"]
                if c == el.default:
                    other = [k for i, k in enumerate(el.keys) if i != c]
                    t = v[el.on]
                    while t in other:
                        t = rng.randint(0, 127)
                    v[el.on] = t
                else:
                    v[el.on] = el.keys[c]
            else:
                v[el.len.ptr] = el.count(v[n])
        for f in opts:
            v[f["n"]] = self.els[f["n"]].gen(rng) if v[f["on"]] & f["mask"] else None
        return v

    def canon(self, v):
        out = {}
        for n in self.names():
            x = v[n]
            out[n] = self.els[n].canon(x) if n in self.els and x is not None else x
        return out

    def default(self, n, f):
        """What a new record shows in this field."""
        if f["t"] == "const":
            return f["v"]
        if f["t"] in ("bits", "pbits"):
            return f.get("ds", {}).get(n)
        return f.get("d") if f["t"] == "f" else None

    def _scoped(self, xor, fn):
        """Calls fn with the context in force: an outer one comes first, then the one the class declares."""
        if xor is None:
            xor = (self.spec.get("ctx") or {}).get("xor")
        if xor is None or CONTEXT[0] is not None:
            return fn()
        CONTEXT[0] = xor
        try:
            return fn()
        finally:
            CONTEXT[0] = None

    # -- reference codec
    def enc(self, v, xor=None):
        return self._scoped(xor, lambda: self._enc(self.fields, v))

    def _enc(self, fields, v):
        out = []
        for f in fields:
            t = f["t"]
            if t in ("f", "const"):
                out.append(self.els[f["n"]].enc(v[f["n"]]))
            elif t == "opt":
                if v[f["n"]] is not None:
                    out.append(self.els[f["n"]].enc(v[f["n"]]))
            elif t == "bits":
                acc = 0
                pos = 0
                for i in f["items"]:
                    if i[0] == "f":
                        acc |= (v[i[1]] & ((1 << i[2]) - 1)) << pos
                        pos += i[2]
                    else:
                        pos += i[1]
                out.append(acc.to_bytes(pos // 8, "little"))
            elif t == "pbits":
                acc = 0
                for n, sl in f["items"]:
                    x = v[n]
                    for a, b in sl:
                        acc |= (x & ((1 << (b - a)) - 1)) << a
                        x >>= b - a
                out.append(acc.to_bytes(self._pbits_size(f), "little"))
            elif t == "pad":
                out.append(bytes.fromhex(f.get("char", "00")) * f["size"])
            elif t == "lazy":
                out.append(self._enc(f["fields"], v))
        return b"".join(out)

    @staticmethod
    def _pbits_size(f):
        return max(b for n, sl in f["items"] for a, b in sl) // 8

    def dec(self, buf, pos=0, spy=None, xor=None):
        """spy: list that receives what every selecting function would see of the record it belongs to."""
        v = Scope()
        v.spy = spy
        pos = self._scoped(xor, lambda: self._dec(self.fields, buf, pos, v))
        return dict(v), pos

    def _dec(self, fields, buf, pos, v):
        for f in fields:
            t = f["t"]
            if t == "f":
                v[f["n"]], pos = self.els[f["n"]].dec(buf, pos, v)
            elif t == "const":
                el = self.els[f["n"]]
                x, pos = el.dec(buf, pos, v)
                if not same(x, el.canon(f["v"])):
                    raise Bad("const", f["n"])
                v[f["n"]] = f["v"]
            elif t == "opt":
                if v[f["on"]] & f["mask"]:
                    v[f["n"]], pos = self.els[f["n"]].dec(buf, pos, v)
                else:
                    v[f["n"]] = None
            elif t == "bits":
                size = sum(i[2] if i[0] == "f" else i[1] for i in f["items"]) // 8
                raw, pos = take(buf, pos, size)
                acc = int.from_bytes(raw, "little")
                for i in f["items"]:
                    if i[0] == "f":
                        v[i[1]] = acc & ((1 << i[2]) - 1)
                        acc >>= i[2]
                    else:
                        acc >>= i[1]
            elif t == "pbits":
                raw, pos = take(buf, pos, self._pbits_size(f))
                acc = int.from_bytes(raw, "little")
                for n, sl in f["items"]:
                    x = 0
                    sh = 0
                    for a, b in sl:
                        x |= ((acc >> a) & ((1 << (b - a)) - 1)) << sh
                        sh += b - a
                    v[n] = x
            elif t == "pad":
                _, pos = take(buf, pos, f["size"])
            elif t == "lazy":
                pos = self._dec(f["fields"], buf, pos, v)
        return pos

    def minmax(self):
        return self._minmax(self.fields)

    def _minmax(self, fields):
        lo = hi = 0
        for f in fields:
            t = f["t"]
            if t in ("f", "const", "opt"):
                a, b = self.els[f["n"]].minmax()
                if t == "opt":
                    a = 0
            elif t == "bits":
                a = b = sum(i[2] if i[0] == "f" else i[1] for i in f["items"]) // 8
            elif t == "pbits":
                a = b = self._pbits_size(f)
            elif t == "pad":
                a = b = f["size"]
            else:
                a, b = self._minmax(f["fields"])
            lo += a
            hi = None if hi is None or b is None else hi + b
        return lo, hi

    # -- the real thing
    def build(self, env):
        """The real record class."""
        if self.cls is not None:
            return self.cls
        try:
            return self.declare(env)
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation("declaration-refused", "%s: %s: %s" % (self.name, type(e).__name__, str(e)[:300]))

    def declare(self, env):
        env.selector_mod = __import__("infi.instruct.struct.selector", fromlist=["x"])
        fields = self._build(self.fields, env)
        cut = self.spec.get("base")
        meta = type(env.inst.Struct)
        attrs, battrs = {}, {}
        init = self.spec.get("init")
        if init:
            ns = {"get": lambda: self.cls, "constructed": constructed}
            args = sorted(init["args"], key=lambda n: n != "extra")      # (so it can be given by position as well)
            exec(INIT % (", ".join(["self"] + [n + "=None" for n in args]), ", ".join("%r: %s" % (n, n) for n in args),
                         "super(get(), self).__init__()" if init.get("super") else "pass",
                         "constructed(self, extra)" if "extra" in args else "pass"), ns)
            attrs["__init__"] = ns["__init__"]
        context = self.spec.get("ctx")
        if context:
            (battrs if cut and context.get("base") else attrs)["_context_"] = self.class_context(env)
        if cut:      # the first `cut` fields come from a base class
            base = meta(self.name + "Base", (env.inst.Struct,), dict(battrs, _fields_=fields[:cut]))
            self.cls = meta(self.name, (base,), dict(attrs, _fields_=base._fields_ + fields[cut:]))
            self.base_s = b = self.base_model()
            b.cls = base
            b.els = dict((n, self.els[n]) for n in b.els)
        else:
            self.cls = meta(self.name, (env.inst.Struct,), dict(attrs, _fields_=fields))
        return self.cls

    def base_model(self):
        """The record type this one is derived from, as a type of its own."""
        spec = {"name": self.name + "Base", "fields": self.fields[:self.spec["base"]]}
        if (self.spec.get("ctx") or {}).get("base"):
            spec["ctx"] = self.spec["ctx"]
        return S(spec)

    def class_context(self, env=None):
        c = self.spec["ctx"]
        out = {"xor": c["xor"], "list": [1, 2]}
        if c.get("fmt"):
            out["int_repr_format"] = c["fmt"]
        return out

    def check_unused(self):
        """Using a type must not change what it declares."""
        for s in self.subs():
            if s.cls is not None and s.spec.get("ctx") and s.cls._context_ != s.class_context():
                raise Violation("declaration-changed", "_context_ of %s is %r" % (s.name, s.cls._context_))

    def _build(self, fields, env):
        I = env.inst
        out = []
        for f in fields:
            t = f["t"]
            if t == "f":
                el = self.els[f["n"]]
                kw = {}
                if "d" in f:
                    el.marshal(env)        # builds the nested types
                if f.get("macro") and not isinstance(el, (Rec, Adapt)):
                    if type(el) is Num:
                        fld = el.marshal(env)(f["n"], el.to_py(f["d"])) if "d" in f else el.marshal(env)(f["n"])
                    else:
                        fld = None
                        if "d" in f and not isinstance(el, Variant):
                            kw["default"] = el.to_py(f["d"])
                        fld = el.macro(env, f["n"], kw)
                else:
                    m = el.marshal(env)
                    if "d" in f:
                        kw["default"] = el.to_py(f["d"])
                    fld = I.Field(f["n"], m, **kw)
                out.append(fld)
            elif t == "const":
                el = self.els[f["n"]]
                m = el.marshal(env)
                if isinstance(el, Rec):
                    out.append(I.ConstField(f["n"], el.to_py(f["v"])))
                else:
                    out.append(I.ConstField(f["n"], el.to_py(f["v"]), m))
            elif t == "opt":
                out.append(I.OptionalField(f["n"], self.els[f["n"]].marshal(env), _pred(env, f["on"], f["mask"])))
            elif t == "bits":
                items = []
                for i in f["items"]:
                    if i[0] == "p":
                        items.append(I.BitPadding(i[1]))
                    elif i[2] == 1 and len(i) > 3:
                        items.append(I.BitFlag(i[1], *self._ds(f, i[1])))
                    else:
                        items.append(I.BitField(i[1], i[2], *self._ds(f, i[1])))
                out.append(I.BitFields(*items))
            elif t == "pbits":
                items = []
                for n, sl in f["items"]:
                    key = tuple(slice(a, b) for a, b in sl)
                    at = (key[0] if len(key) == 1 else key) if f.get("raw") else I.Bits[key if len(key) > 1 else key[0]]
                    items.append(I.BitField(n, at, *self._ds(f, n)))
                out.append(I.BitFields(*items))
            elif t == "pad":
                out.append((I.Padding if f.get("old") else I.BytePadding)(f["size"], bytes.fromhex(f.get("char", "00"))))
            elif t == "lazy":
                out.append(I.Lazy(*self._build(f["fields"], env)))
        return out

    @staticmethod
    def _ds(f, n):
        return [f["ds"][n]] if n in f.get("ds", {}) else []

    def to_py(self, v):
        """A real record holding v; fields whose value is their declared default are left to the declaration."""
        kw = {}
        for n, f in self.leaves():
            if f["t"] == "const":
                continue
            if v[n] is None or same(self.default(n, f), v[n]):
                continue
            kw[n] = self.els[n].to_py(v[n]) if n in self.els else v[n]
        init = self.spec.get("init")
        if not init:
            return self.cls(**kw)
        extra = {}
        if "extra" in init["args"]:
            extra["extra"] = getattr(READING, "extra", None) or Own()
        o = self.cls(**dict(kw, **extra))
        for n in init["args"]:
            want = kw[n] if n in kw else extra.get(n)
            if o.seen[n] is not want:
                raise Violation("constructor-arguments", "%s: argument %s is %r, was given %r" % (self.name, n, o.seen[n], want))
        return o

    def takes_extra(self):
        """Constructors of all the record types in here take the argument `extra`."""
        inits = [x.spec["init"] for x in self.subs() if x.spec.get("init")]
        return bool(inits) and all("extra" in i["args"] for i in inits)

    def check_repr(self, v, text):
        """Numbers and strings of the record are printed with their names (unless they are printed some other way on purpose)."""
        if "fmt" in (self.spec.get("ctx") or {}):
            return
        lazy = set(n for f in self.fields if f["t"] == "lazy" for n, _ in self.leaves(f["fields"]))
        for n, f in self.leaves():
            el = self.els.get(n)
            if n in lazy or v[n] is None or f["t"] == "const":
                continue
            if isinstance(el, (FStr, VStr)):
                if "%s=%r" % (n, el.to_py(v[n])) not in text:
                    raise Violation("wrong-print", "%s=%r is not in %s" % (n, el.to_py(v[n]), text[:300]))
            if isinstance(v[n], float) and type(el) is Num:
                if "%s=%f" % (n, v[n]) not in text:
                    raise Violation("wrong-print", "%s=%f is not in %s" % (n, v[n], text[:300]))
            if not (el is None or type(el) is Num and isinstance(v[n], int)):
                continue
            if not re.search(r"(?<!\w)%s=%d(?!\w)" % (n, v[n]), text):
                raise Violation("wrong-print", "%s=%r is not in %s" % (n, v[n], text[:300]))

    def controls(self):
        """Names of fields that decide the layout of others (lengths, presence, tags)."""
        out = set()
        for f in self._all(self.fields):
            if f["t"] == "opt":
                out.add(f["on"])
            if f["t"] in ("f", "opt", "const"):
                el = f["el"]
                if el.get("on"):
                    out.add(el["on"])
                if el.get("len", {}).get("ptr"):
                    out.add(el["len"]["ptr"])
        if self.tag:
            out.add(self.tag)
        return out

    def _all(self, fields):
        for f in fields:
            if f["t"] == "lazy":
                for g in self._all(f["fields"]):
                    yield g
            else:
                yield f

    def check_spec(self):
        """Is this spec (perhaps cut down by the minimiser) a well-formed declaration?"""
        seen = []
        for f in self._all(self.fields):
            t = f["t"]
            if t == "opt" and f["on"] not in seen:
                return False
            if t in ("f", "opt", "const"):
                el = f["el"]
                if el.get("on") and el["on"] not in seen:
                    return False
                if el.get("len", {}).get("ptr") and el["len"]["ptr"] not in seen:
                    return False
                seen.append(f["n"])
            elif t == "bits":
                if not f["items"] or sum(i[2] if i[0] == "f" else i[1] for i in f["items"]) % 8:
                    return False
                seen.extend(i[1] for i in f["items"] if i[0] == "f")
            elif t == "pbits":
                if not f["items"] or any(not sl or any(len(x) != 2 for x in sl) for n, sl in f["items"]):
                    return False
                if max(b for n, sl in f["items"] for a, b in sl) % 8:
                    return False
                seen.extend(n for n, sl in f["items"])
        if len(seen) != len(set(seen)):
            return False
        if self.spec.get("base") and not self.spec["base"] < len(self.fields):
            return False
        if set((self.spec.get("init") or {}).get("args", ())) - set(self.names()) - {"extra"}:
            return False
        for f in self._all(self.fields):
            if set(f.get("ds", ())) - set(seen):
                return False
        for s in self.subs()[1:]:
            if not s.check_spec():
                return False

        def els(el):
            if isinstance(el, Loop):
                return el.owner is not None and el.owner.spec["how"] == "func"
            if isinstance(el, Variant):
                if len(el.loops) == len(el.cases) or (el.loops and "deep" not in el.spec):
                    return False
                if el.spec.get("short") is not None and (el.spec["short"] >= len(el.cases) or len(el.cases) - len(el.loops) < 2):
                    return False
                if len(el.cases) != len(el.keys) or len(set(el.keys)) != len(el.keys) or not el.cases:
                    return False
                if el.default is not None and el.default >= len(el.cases):
                    return False
                for i, c in enumerate(el.cases):
                    if not el.on:
                        f = [f for f in c.fields if f.get("n") == c.tag]
                        if not f or (f[0]["t"] == "const" and (i == el.default or f[0]["v"] != el.keys[i])):
                            return False
                if not el.on and el.spec.get("nested", 0) > el.skip + el.key.n:
                    return False
                ch = el.spec.get("chunks")
                if not el.on and ch is not None and sum(ch) < el.skip + el.key.n:
                    return False
            if isinstance(el, Map) and not el.map:
                return False
            if isinstance(el, Adapt) and not el.parts:
                return False
            return all(els(k) for k in el.kids() if not isinstance(k, S))
        return all(els(el) for el in self.els.values())

    def py_field(self, n, v):
        return self.els[n].to_py(v) if n in self.els and v is not None else v

    def from_field(self, n, o, f):
        el = self.els.get(n)
        if f["t"] == "opt" and o is None:
            return None
        if el is not None:
            return el.from_py(o)
        if isinstance(o, bool) or not isinstance(o, int):
            raise TypeError("integer expected in %s, found %r" % (n, o))
        return o

    def from_py(self, o):
        if type(o) is not self.cls:
            raise TypeError("record of type %r where %r was declared" % (type(o), self.cls))
        given = getattr(READING, "extra", None)
        if given is not None and "extra" in (self.spec.get("init") or {}).get("args", ()) and o.seen["extra"] is not given and \
                not isinstance(o.seen["extra"], Own):       # (a copy of a declared default)
            raise Violation("constructor-arguments", "%s: constructor of a record that is read was given %r instead of %r" % (
                self.name, o.seen["extra"], given))
        return {n: self.from_field(n, getattr(o, n), f) for n, f in self.leaves()}


def _pred(env, on, mask):
    def predicate(obj, stream, context):
        env.callback("predicate", on, obj)
        return bool(getattr(obj, on) & mask)
    return predicate


# ---- random record types ----------------------------------------------------------------------------------------------
class Gen(object):
    """feat: set of allowed features; see ALL."""
    ALL = {"num", "float", "fstr", "fbuf", "vstr", "vbuf", "farr", "varr", "sarr", "map", "rec", "var", "bits", "pbits",
           "pad", "const", "opt", "lazy", "ptr", "adapt", "default", "inherit", "constrec", "user",
           "ctx", "init", "bitdef", "loop"}

    def __init__(self, rng, feat=None, size=6, depth=2):
        self.rng = rng
        self.feat = set(self.ALL if feat is None else feat)
        self.size = size
        self.depth = depth
        self.uid = 0

    def name(self, prefix="f"):
        self.uid += 1
        return "%s%d" % (prefix, self.uid)

    def num(self, ints=False):
        rng = self.rng
        if not ints and "float" in self.feat and rng.random() < 0.2:
            return {"e": "num", "code": rng.choice(FLOATS)}
        return {"e": "num", "code": rng.choice(INTS)}

    def length(self):
        if self.rng.random() < 0.12:
            return {"leb": self.rng.choice([2, 2, 3]), "bound": self.rng.random() < 0.5}
        return {"code": self.rng.choice(["UBInt8", "ULInt8", "UNInt8", "UBInt16", "ULInt16", "UNInt16", "UBInt32",
                                         "ULInt32", "SBInt8", "SLInt16", "UBInt64"])}

    def fixed_el(self, depth):
        rng = self.rng
        kinds = ["num"] * 4
        for k in ("fstr", "fbuf", "map", "user"):
            if k in self.feat:
                kinds.append(k)
        if depth > 0:
            for k in ("farr", "rec"):
                if k in self.feat:
                    kinds.append(k)
        return self.one(rng.choice(kinds), depth, fixed=True)

    def el(self, depth):
        rng = self.rng
        kinds = ["num"] * 3
        for k in ("fstr", "fbuf", "vstr", "vbuf", "map"):
            if k in self.feat:
                kinds.append(k)
        if depth > 0:
            for k in ("farr", "varr", "sarr", "rec", "var"):
                if k in self.feat:
                    kinds += [k]
        if "adapt" in self.feat and rng.random() < 0.15:
            kinds.append("adapt")
        if "user" in self.feat:
            kinds.append("user")
        return self.one(rng.choice(kinds), depth)

    def one(self, k, depth, fixed=False):
        rng = self.rng
        sub = (lambda: self.fixed_el(depth - 1)) if fixed else (lambda: self.el(depth - 1))
        if k == "num":
            return self.num()
        if k == "user":
            return {"e": k, "code": rng.choice(INTS), "u": self.name("u")}
        if k == "fstr":
            d = rng.choice([1, 1, 1, 2, 3, 0])
            pad = rng.choice(["00", "00", "20", "0020", "2000", "41"]) if d else "00"
            return {"e": k, "size": rng.choice([1, 2, 3, 4, 8, 13, rng.randint(1, 40)]), "pad": pad, "dir": d}
        if k == "fbuf":
            return {"e": k, "size": rng.choice([1, 2, 3, 5, 16, rng.randint(1, 40)])}
        if k == "vstr":
            s = {"e": k, "len": self.length(), "pad": rng.choice(["00", "00", "20", "0020"]), "dir": rng.choice([1, 1, 2, 3, 0])}
            if s["pad"] == "00" and s["dir"] == 1 and rng.random() < 0.6:
                s["dflt"] = 1
            return s
        if k == "vbuf":
            return {"e": k, "len": self.length()}
        if k == "map":
            code = rng.choice(INTS)
            num = Num({"code": code})
            vals = set()
            while len(vals) < rng.randint(1, 5):
                vals.add(num.gen(rng))
            vals = sorted(vals)
            rng.shuffle(vals)
            return {"e": k, "code": code, "map": [["k%d" % i, v] for i, v in enumerate(vals)]}
        if k == "farr":
            return {"e": k, "count": rng.choice([0, 1, 2, 3, 4]), "el": sub()}
        if k == "varr":
            return {"e": k, "len": self.length(), "el": sub()}
        if k == "sarr":
            while True:
                el = sub()
                if mk_safe_min(el) > 0 or rng.random() < 0.2:
                    break
            return {"e": k, "len": self.length(), "el": el}
        if k == "rec":
            return {"e": k, "spec": self.record(depth - 1, fixed=fixed, size=rng.randint(1, 4))}
        if k == "var":
            return self.variant(depth)
        if k == "adapt":
            parts = [[self.name("p"), rng.choice([1, 2, 4, 8]), rng.choice(["big", "little"]), rng.choice([0, 0, 0, 1, 3])]
                     for _ in range(rng.randint(1, 3))]
            return {"e": k, "parts": parts}
        raise ValueError(k)

    def variant(self, depth):
        rng = self.rng
        how = rng.choice(["func", "func", "sel"])
        code = rng.choice(["UBInt8", "UBInt16", "ULInt16", "ULInt32", "SBInt8", "SLInt16"])
        num = Num({"code": code})
        n = rng.randint(1, 4)
        keys = []
        while len(keys) < n:
            k = num.gen(rng) if rng.random() < 0.5 else rng.randint(0, 100)
            if k not in keys:
                keys.append(k)
        default = rng.randrange(n) if rng.random() < 0.4 else None
        skip = rng.choice([0, 0, 1, 2, 5, 9, 20]) if how == "func" else 0
        over = rng.choice([0, 0, 1, 3, 8, 17]) if how == "func" else 0
        short = rng.randrange(n) if n > 1 and rng.random() < 0.5 else None
        if short == default or not over:
            short = None
        loose = rng.randrange(n) if rng.random() < 0.35 else None      # a case whose tag is ordinary data
        cases = []
        keep = self.feat
        if how == "sel":
            self.feat = keep - {"adapt"}      # an adapter does not announce a size, which this selector asks for
        for i in range(n):
            c = self.record(depth - 1, size=rng.randint(0, 3))
            lead = []
            if skip:
                lead.append({"t": "f", "n": self.name("h"), "el": {"e": "fbuf", "size": skip}})
            tag = self.name("tag")
            if default == i or loose == i:
                lead.append({"t": "f", "n": tag, "el": {"e": "num", "code": code}})
            else:
                lead.append({"t": "const", "n": tag, "el": {"e": "num", "code": code}, "v": keys[i]})
            left = over
            while left:
                k = rng.choice([left, rng.randint(1, left)])
                left -= k
                more = rng.choice([0, 0, 2, 5]) if not left else 0
                lead.append({"t": "f", "n": self.name("o"), "el": {"e": "fbuf", "size": k + more}})
            c["fields"] = lead + c["fields"]
            c["tag"] = tag
            if short == i:
                c["fields"] = lead[:(1 if skip else 0) + rng.choice([1, 1, len(lead) - 1])]
            c.pop("base", None)
            cases.append(c)
        self.feat = keep
        s = {"e": "var", "how": how, "code": code, "keys": keys, "default": default, "skip": skip, "cases": cases}
        if "loop" in self.feat and how == "func" and n >= (2 if short is None else 3) and rng.random() < 0.4:
            i = rng.choice([i for i in range(n) if i != short])
            el = {"e": "loop"}
            many = rng.random()
            if many < 0.2:
                el = {"e": "varr", "len": self.length(), "el": el}
            elif many < 0.3:
                el = {"e": "farr", "count": rng.choice([0, 1, 2]), "el": el}
            fs = cases[i]["fields"]
            lead = (1 if skip else 0) + 1
            fs.insert(rng.randint(lead, len(fs)), {"t": "f", "n": self.name(), "el": el, "macro": 1} if many > 0.5 else
                      {"t": "f", "n": self.name(), "el": el})
            s["deep"] = 2 if many < 0.3 else 4
        if short is not None:
            s["short"] = short
        if how == "func" and (over or rng.random() < 0.5):
            total = skip + num.n + over
            chunks = []
            while total:
                k = rng.randint(1, total)
                chunks.append(k)
                total -= k
            s["chunks"] = chunks
        elif how == "func" and rng.random() < 0.4:
            s["nested"] = rng.randint(1, skip + num.n)
        return s

    def bits(self):
        rng = self.rng
        total = 8 * rng.choice([1, 1, 2, 3, 4, 5, 9, 9, 14])
        items = []
        left = total
        while left:
            w = min(left, rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 33, 64, 100]))
            left -= w
            if rng.random() < 0.15 and (items or left):
                items.append(["p", w])
            elif w == 1 and rng.random() < 0.5:
                items.append(["f", self.name("b"), 1, "flag"])
            else:
                items.append(["f", self.name("b"), w])
        if not any(i[0] == "f" for i in items):
            items[0] = ["f", self.name("b"), items[0][1]]
        f = {"t": "bits", "items": items}
        if "bitdef" in self.feat and rng.random() < 0.3:
            f["ds"] = dict((i[1], rng.randrange(1 << i[2])) for i in items if i[0] == "f" and rng.random() < 0.6)
        return f

    def pbits(self):
        rng = self.rng
        total = 8 * rng.choice([1, 2, 4, 4, 5, 10])
        cuts = sorted(set([0, total] + [rng.randint(1, total - 1) for _ in range(rng.randint(1, 5))]))
        segs = [[a, b] for a, b in zip(cuts, cuts[1:])]
        last = segs[-1]
        rng.shuffle(segs)
        items = []
        while segs:
            k = min(len(segs), rng.choice([1, 1, 2, 3]))
            part, segs = segs[:k], segs[k:]
            if rng.random() < 0.15 and last not in part:
                continue          # a gap
            items.append([self.name("b"), part])
        f = {"t": "pbits", "items": items}
        if rng.random() < 0.3:
            f["raw"] = 1
        if "bitdef" in self.feat and rng.random() < 0.3:
            f["ds"] = dict((n, rng.randrange(1 << sum(b - a for a, b in sl))) for n, sl in items if rng.random() < 0.6)
        return f

    def record(self, depth=None, fixed=False, size=None, name=None):
        rng = self.rng
        depth = self.depth if depth is None else depth
        size = rng.randint(1, self.size) if size is None else size
        fields = []
        ints = []
        used_ptr = set()

        def simple(el, **kw):
            f = {"t": "f", "n": self.name(), "el": el}
            if rng.random() < 0.6:
                f["macro"] = 1
            if "default" in self.feat and el["e"] in ("num", "adapt", "fstr", "fbuf", "varr", "vstr", "vbuf", "farr", "map", "rec") \
                    and rng.random() < 0.25 and not _holds(el, ("ptr",)):
                if not _holds(el, ("on",)):
                    f["d"] = mk(el).gen(rng)
            f.update(kw)
            return f

        while len(fields) < size:
            kinds = ["f"] * 8
            for k in ("bits", "pbits", "pad", "const"):
                if k in self.feat:
                    kinds.append(k)
            if "bits" in self.feat:
                kinds.append("bits")
            if "lazy" in self.feat:
                kinds.append("lazy")
            if not fixed:
                if "opt" in self.feat and ints:
                    kinds += ["opt"] * 2
                if "ptr" in self.feat:
                    kinds.append("ptr")
            k = rng.choice(kinds)
            if k == "f":
                f = simple(self.fixed_el(depth) if fixed else self.el(depth))
                fields.append(f)
                if f["el"]["e"] == "num" and "Int" in f["el"]["code"]:
                    ints.append(f["n"])
            elif k == "bits":
                f = self.bits()
                fields.append(f)
                ints.extend(i[1] for i in f["items"] if i[0] == "f")
            elif k == "pbits":
                f = self.pbits()
                fields.append(f)
                ints.extend(n for n, _ in f["items"])
            elif k == "pad":
                f = {"t": "pad", "size": rng.choice([1, 2, 3, 8, 15]), "char": rng.choice(["00", "00", "ff", "20"])}
                if rng.random() < 0.3:
                    f["old"] = 1
                fields.append(f)
            elif k == "const":
                if "constrec" in self.feat and rng.random() < 0.2:
                    el = {"e": "rec", "spec": Gen(rng, {"num", "fbuf"} | (self.feat & {"init"}), size=3, depth=0).record(0, fixed=True)}
                else:
                    el = self.const_el(fixed)
                fields.append(self.const(el))
            elif k == "opt":
                el = self.el(depth)
                fields.append({"t": "opt", "n": self.name("o"), "el": el, "on": rng.choice(ints),
                               "mask": rng.choice([1, 2, 3, 128, 255])})
            elif k == "ptr":
                cnt = self.name("n")
                fields.append({"t": "f", "n": cnt, "el": {"e": "num", "code": rng.choice(UINTS)}})
                for _ in range(rng.choice([0, 0, 1, 2])):
                    fields.append(simple(self.num()))
                body = rng.choice(["varr", "varr", "vbuf", "vstr", "sarr", "var"])
                if body == "var" and "var" in self.feat:
                    num = fields[-1]["el"] if fields[-1]["n"] == cnt else [f for f in fields if f.get("n") == cnt][0]["el"]
                    num["code"] = rng.choice(["UBInt8", "ULInt16", "UBInt32"])
                    n = rng.randint(1, 3)
                    cases = [self.record(depth - 1, size=rng.randint(0, 3)) for _ in range(n)]
                    for c in cases:
                        c.pop("base", None)
                    f = simple({"e": "var", "how": "obj", "on": cnt, "code": num["code"], "keys": rng.sample(range(100), n),
                                "default": rng.randrange(n) if rng.random() < 0.4 else None, "cases": cases}, macro=1)
                    f.pop("d", None)
                    fields.append(f)
                    continue
                if body not in self.feat:
                    body = "vbuf" if "vbuf" in self.feat else None
                if body:
                    el = self.one(body, max(depth, 1))
                    el["len"] = {"ptr": cnt}
                    f = simple(el)
                    f.pop("d", None)
                    fields.append(f)
            elif k == "lazy":
                fields.append({"t": "lazy", "fields": self.lazy_fields(depth)})
                ints.extend(n for n, _ in S({"fields": fields[-1]["fields"]}).leaves()
                            if n.startswith("b"))
        spec = {"name": name or self.name("R"), "fields": fields}
        if "inherit" in self.feat and len(fields) > 1 and rng.random() < 0.15:
            spec["base"] = rng.randint(1, len(fields) - 1)
        if "ctx" in self.feat and rng.random() < 0.25:
            spec["ctx"] = {"xor": rng.randint(1, 255)}
            if rng.random() < 0.3:
                spec["ctx"]["fmt"] = "<%d>"
            if rng.random() < 0.5:
                spec["ctx"]["base"] = True
            if not uses(fields, "user"):
                fields.append({"t": "f", "n": self.name(), "el": {"e": "user", "code": rng.choice(INTS), "u": self.name("u")}})
        if "init" in self.feat and rng.random() < 0.2:
            names = [n for n, f in S(spec).leaves() if f["t"] in ("f", "opt", "bits", "pbits")]
            spec["init"] = {"args": rng.sample(names, rng.randint(0, min(2, len(names)))) + (["extra"] if rng.random() < 0.5 else []),
                            "super": rng.random() < 0.5}
        return spec

    def const_el(self, fixed):
        rng = self.rng
        r = rng.random()
        if r < 0.6:
            return self.num(ints=True)
        if r < 0.7:
            return {"e": "fbuf", "size": rng.randint(1, 4)}
        kinds = [k for k in ("fstr", "map", "float", "vstr", "vbuf") if k in self.feat and not (fixed and k in ("vstr", "vbuf"))]
        k = rng.choice(kinds or ["num"])
        if k == "num":
            return self.num(ints=True)
        if k == "float":
            return {"e": "num", "code": rng.choice(FLOATS)}
        keep = self.feat
        self.feat = keep - {"ptr"}
        try:
            return self.one(k, 0)
        finally:
            self.feat = keep

    def const(self, el):
        e = mk(el)
        while True:
            v = e.canon(e.gen(self.rng))
            if not isinstance(v, float) or v == v and v != 0:      # zeros of either sign and NaNs don't compare by their bytes
                return {"t": "const", "n": self.name("c"), "el": el, "v": v}

    def lazy_fields(self, depth, inner=2):
        rng = self.rng
        out = []
        for _ in range(rng.randint(1, 5)):
            r = rng.random()
            if r < 0.25 and "bits" in self.feat:
                out.append(self.bits())
            elif r < 0.32 and "pbits" in self.feat:
                out.append(self.pbits())
            elif r < 0.4 and "pad" in self.feat:
                out.append({"t": "pad", "size": rng.randint(1, 4)})
            elif r < 0.47 and "const" in self.feat:
                out.append(self.const(self.const_el(True)))
            elif r < 0.55 and inner:
                out.append({"t": "lazy", "fields": self.lazy_fields(depth, inner - 1)})
            else:
                f = {"t": "f", "n": self.name("z"), "el": self.fixed_el(depth)}
                if "default" in self.feat and f["el"]["e"] in ("num", "fstr", "fbuf", "map") and rng.random() < 0.25:
                    f["d"] = mk(f["el"]).gen(rng)
                out.append(f)
        return out


def _holds(el, keys):
    if isinstance(el, dict):
        return any(k in el for k in keys) or any(_holds(v, keys) for v in el.values())
    if isinstance(el, list):
        return any(_holds(v, keys) for v in el)
    return False


def mk_safe_min(el):
    m = mk(el)
    if isinstance(m, Adapt):
        return m.size
    if m.has_minmax:
        return m.minmax()[0]
    return 0


def uses(spec, what):
    """Does the JSON spec contain an element/field of this kind?"""
    if isinstance(spec, dict):
        if spec.get("e") == what or spec.get("t") == what:
            return True
        if what == "ptr" and "ptr" in spec:
            return True
        return any(uses(v, what) for v in spec.values())
    if isinstance(spec, list):
        return any(uses(v, what) for v in spec)
    return False
