"""Packet layouts: a JSON spec of a Buffer class, the real class built from it through the public macros, and an independent
reference codec (positions resolved to bits, nothing of the code under test used).

Values are JSON: int, float, str, {"b": hex} (byte string), list, {"j": json value}, {"p": packet name, "v": {field: value}}, None.

Layout spec: {"name", "fields": [field...] (declaration order), "base": k (first k fields are declared by a base class) | absent,
              "byte_size": n | absent}
Field: {"n": name, "k": kind, "w": pos} or {"wp": pos, "wu": pos}, plus kind parameters and
       "pif"/"uif": cond, "sbp": expr | ["const", v], "sau": conv, "ua": [names], "d": default
Expressions (bytes): ["c", n] ["f", name] ["num", name] ["len", name, how] ["after", name] ["total"] ["inlen"] ["+", a, b] ["-", a, b]
       ["*", a, b] ["//", a, b] ["min", a, b] ["max", a, b] ["fn", op, of, mul, add] (computed by application code from the object)
       ["call", op, expr] (application method given a referenced value)
Positions: {"parts": [...], "join": "plus"|"tuple"}; parts {"t": "b", "a", "b", "one"} or {"t": "bits", "bytes": [[a, b, one]...], "sel": [x | [x, y]...]}
"""
import json as pyjson
import struct as pystruct
import sys

from .sspec import Env, diff, f32, same     # noqa: F401  (shared helpers)
from .repo import HarnessError
from .world import Violation

LITTLE = sys.byteorder == "little"
CODES = {1: "b", 2: "h", 4: "i", 8: "q"}
LONG = [True]          # do long lists occur


class Bad(Exception):
    """The reference codec refuses.  kind: short, value, cycle, layout"""

    def __init__(self, kind, where=""):
        Exception.__init__(self, "%s %s" % (kind, where))
        self.kind = kind


class AppFault(Exception):
    """Raised by application code on purpose."""


# ---- bits -------------------------------------------------------------------------------------------------------------
def b2i(data):
    return int.from_bytes(bytes(data), "little")


def i2b(val, nbits):
    return val.to_bytes((nbits + 7) // 8, "little")


def bits_at(val, a, b):
    return (val >> a) & ((1 << (b - a)) - 1)


def tobits(x):
    """Bytes (int or multiple of 1/8) -> bits."""
    n = x * 8
    if n != int(n):
        raise Bad("layout", "position %r" % (x,))
    return int(n)


# ---- element codecs ---------------------------------------------------------------------------------------------------
def int_fmt(nbytes, end, signed):
    c = CODES[nbytes]
    if not signed:
        c = c.upper()
    return {"big": ">", "little": "<", "native": "="}[end] + c


def enc_int(f, v, nbits):
    """-> nbits of payload as int (bit 0 first)."""
    if not isinstance(v, int) or isinstance(v, bool):
        raise Bad("value", "int")
    if nbits in (8, 16, 32, 64):
        try:
            return b2i(pystruct.pack(int_fmt(nbits // 8, f["end"], f["sign"]), v))
        except pystruct.error:
            raise Bad("value", "int range")
    if v < 0 or v.bit_length() > nbits or nbits == 0:
        raise Bad("value", "int range")
    if big_odd(f, nbits):
        return b2i(v.to_bytes(nbits // 8, "big"))
    return v


def big_odd(f, nbits):
    end = f["end"]
    if end == "native":
        end = sys.byteorder
    return end == "big" and nbits % 8 == 0


def dec_int(f, val, nbits):
    if nbits in (8, 16, 32, 64):
        return pystruct.unpack(int_fmt(nbits // 8, f["end"], f["sign"]), i2b(val, nbits))[0]
    if big_odd(f, nbits):
        return int.from_bytes(i2b(val, nbits), "big")
    return val


def float_fmt(f, nbytes):
    return {"big": ">", "little": "<", "native": "="}[f["end"]] + ("f" if nbytes == 4 else "d")


FILL = [0]


def enc_str(f, s, nbytes):
    if not isinstance(s, str):
        raise Bad("value", "str")
    try:
        raw = s.encode(f["enc"])
    except UnicodeError:
        raise Bad("value", "encoding")
    if nbytes is not None and len(raw) < nbytes:
        pad = bytes.fromhex(f["pad"])
        miss = nbytes - len(raw)
        if FILL[0] and f["strip"]:       # a peer that fills up with what is stripped anyway
            c = bytes.fromhex(f["strip"])[:1]
            k = miss if FILL[0] == 1 else miss // 2
            outer, inner = c * k, pad * (miss - k)
            if f["just"] == "center":
                left = (miss - k) // 2
                raw = c * (k // 2) + pad * left + raw + pad * (miss - k - left) + c * (k - k // 2)
            else:
                raw = raw + inner + outer if f["just"] == "left" else outer + inner + raw
        elif f["just"] == "center":
            raw = raw.center(nbytes, pad)
        else:
            raw = raw + pad * miss if f["just"] == "left" else pad * miss + raw
    return raw


def strip_str(f, raw):
    for chars in (bytes.fromhex(f["strip"]), bytes.fromhex(f["pad"])):
        if f["just"] != "right":
            raw = raw.rstrip(chars)
        if f["just"] != "left":
            raw = raw.lstrip(chars)
    return raw


def dec_str(f, raw):
    raw = strip_str(f, raw)
    try:
        return raw.decode(f["enc"])
    except UnicodeError:
        raise Bad("value", "decoding")


def user_enc(el, x):
    """Elements in a format of the application's own: a length byte and that many bytes, or a number in one or two bytes."""
    if el["how"] == "pstr":
        if not isinstance(x, dict):
            raise Bad("value", "element")
        return bytes([len(x["b"]) // 2]) + bytes.fromhex(x["b"])
    if not isinstance(x, int) or not 0 <= x < 1 << 15:
        raise Bad("value", "element")
    return bytes([x]) if x < 128 else bytes([128 | x >> 8, x & 255])


def user_dec(el, data):
    """-> (value, bytes taken), (None, None) if the element is cut off"""
    if not data:
        return None, None
    if el["how"] == "pstr":
        n = data[0]
        return ({"b": data[1:1 + n].hex()}, 1 + n) if len(data) > n else (None, None)
    if data[0] < 128:
        return data[0], 1
    return ((data[0] & 127) << 8 | data[1], 2) if len(data) > 1 else (None, None)


JSON_STR = {"enc": "ascii", "pad": "20", "strip": "00", "just": "left"}


def conv_apply(conv, v):
    """What the converter `conv` makes of an unpacked value (application code; total)."""
    op = conv[0]
    if op == "xor":
        return v ^ conv[1] if isinstance(v, int) else v
    if op == "neg":
        return -v
    if op == "upper":
        return v.upper()
    if op == "rev":
        if isinstance(v, dict):
            return {"b": bytes.fromhex(v["b"])[::-1].hex()}
        return v[::-1]
    raise AssertionError(op)


def enclen(f, v):
    """Encoded length in bytes (or element count for lists) of a field's value, as application code would compute it."""
    k = f["k"]
    if v is None:
        return 0
    if k == "str":
        return len(v.encode(f["enc"]))
    if k == "bytes":
        return len(v["b"]) // 2
    if k == "json":
        return len(pyjson.dumps(v["j"]))
    if k == "list":
        return len(v)
    raise AssertionError(k)


# ---- evaluation -------------------------------------------------------------------------------------------------------
class Eval(object):
    """One pack or unpack of one packet, as the layout prescribes it."""

    def __init__(self, P, attrs=None, val=None, nbits=None, lenient=False):
        self.P = P
        self.pack = val is None
        self.attrs = dict(attrs) if attrs else {}
        self.val = val
        self.nbits = nbits
        self.lenient = lenient
        self.memo = {}
        self.stack = set()
        self.calls = {}           # application callback -> times it runs

    def once(self, key, fn):
        if key in self.memo:
            return self.memo[key]
        if key in self.stack:
            raise Bad("cycle", repr(key))
        self.stack.add(key)
        try:
            r = self.memo[key] = fn()
            return r
        finally:
            self.stack.discard(key)

    def called(self, name):
        self.calls[name] = self.calls.get(name, 0) + 1

    # -- expressions --
    def ev(self, e):
        op = e[0]
        if op == "c":
            return e[1]
        if op == "f":
            return self.value(e[1])
        if op in ("num", "self"):
            return self.value(e[1])
        if op == "neg":
            return -self.ev(e[1])
        if op in ("min", "max"):
            return (min if op == "min" else max)(self.ev(x) for x in e[1:])
        if op == "len":
            v = self.value(e[1])
            f = self.P.by[e[1]]
            if f["k"] == "bytes":
                return len(v["b"]) // 2
            return len(v)
        if op == "after":
            return self.after(e[1])
        if op == "total":
            return self.total()
        if op == "inlen":
            if self.pack:
                raise Bad("layout", "input length while packing")
            return (self.nbits + 7) // 8
        if op == "fn":
            n = enclen(self.P.by[e[2]], self.attrs.get(e[2]))
            return n * e[3] + e[4]
        if op == "mfn":
            if self.attrs.get(e[1]) is None:
                raise Bad("layout", "application code needs a field that is not there yet")
            return self.attrs[e[1]]
        if op == "call":
            return call_op(e[1], self.ev(e[2]))
        if op in ("const", "attr"):
            return e[1]
        if op == "tick":
            return self.tick(e[1], ())
        if op in ("tcall", "truth"):
            return self.tick(e[1], tuple(self.ev(x) for x in e[2:]))
        a, b = self.ev(e[1]), self.ev(e[2])
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "//":
            return a // b
        if op == "/":
            return a / b
        if op == ">":
            return a > b
        if op == ">=":
            return a >= b
        if op == "<=":
            return a <= b
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        if op == "<":
            return a < b
        raise AssertionError(op)

    def tick(self, ident, args):
        """Application code with side effects: what it answered is known from the run itself."""
        self.P.tick_args[ident] = args
        if ident not in self.P.ticks:
            raise Bad("tick", "application code %s was not asked" % ident)
        return self.P.ticks[ident]

    # -- presence --
    def present(self, f):
        c = f.get("pif" if self.pack else "uif")
        if c is None:
            return True
        return self.once(("if", f["n"]), lambda: bool(self.ev(c)))

    # -- values --
    def value(self, name):
        return self.once(("value", name), lambda: self._value(self.P.by[name]))

    def _value(self, f):
        if self.pack:
            if f.get("sbp") is not None:
                v = self.ev(f["sbp"])
                self.attrs[f["n"]] = v
                return v
            if f["n"] not in self.attrs:
                raise Bad("value", "no value for " + f["n"])
            return self.attrs[f["n"]]
        if f.get("sau") and f["sau"][0] == "ref":
            v = self.ev(f["sau"][1])
        else:
            v, _ = self.raw(f["n"])
            if f.get("sau") and f["sau"][0] == "tick":
                v = self.tick(f["sau"][1], (v,))
            elif f.get("sau"):
                v = conv_apply(f["sau"], v)
        self.attrs[f["n"]] = v
        return v

    # -- positions (bits) --
    def ranges(self, f):
        """[[start, stop|None]...] as declared."""
        w = f.get("w") or f["wp" if self.pack else "wu"]
        out = []
        for p in w["parts"]:
            out.extend(self.part(p))
        for a, b in out:
            if b is not None and b < a:
                raise Bad("layout", "negative range")
        return out

    def byte_part(self, a, b, one):
        s = 0 if a is None else tobits(self.ev(a))
        if one and s >= 0:
            return [s, s + 8]
        e = None if b is None else tobits(self.ev(b))
        if s < 0 or (e is not None and e < s):
            raise Bad("layout", "negative range")
        return [s, e]

    def part(self, p):
        if p["t"] == "b":
            return [self.byte_part(p["a"], p["b"], p.get("one"))]
        parent = [self.byte_part(*x) for x in p["bytes"]]
        out = []
        for sel in p["sel"]:
            if isinstance(sel, dict):
                x = self.ev(sel["e"])
                out.extend(select(parent, x, x + 1))
                continue
            x, y = sel if isinstance(sel, list) else (sel, sel + 1)
            out.extend(select(parent, x or 0, y))
        return out

    def is_open(self, f):
        return self.once(("open", f["n"]), lambda: any(b is None for a, b in self.ranges(f)))

    def pos(self, name):
        return self.once(("pos", name), lambda: self._pos(self.P.by[name]))

    def _pos(self, f):
        rs = self.ranges(f)
        end = 0
        for a, b in sorted(r for r in rs if r[1] is None or r[1] > r[0] for r in [[r[0], float("inf") if r[1] is None else r[1]]]):
            if a < end:
                raise Bad("layout", "ranges of %s overlap" % f["n"])
            end = b
        if self.is_open(f):
            out = []
            if self.pack:
                _, n = self.encoded(f["n"])
                done = 0
                for a, b in rs:
                    if b is None:
                        if n < done:
                            raise Bad("value", "too short")
                        b = a + n - done
                    done += b - a
                    out.append([a, b])
            else:
                end = 8 * ((self.nbits + 7) // 8)
                for a, b in rs:
                    if b is None:
                        if a > end:
                            raise Bad("short", f["n"])
                        b = end
                    out.append([a, b])
            rs = out
        return rs

    def width(self, f):
        """Bits the declared position gives, None while packing into an open one."""
        if self.pack and self.is_open(f):
            return None
        return sum(b - a for a, b in self.pos(f["n"]))

    # -- packing --
    def encoded(self, name):
        """(bits as int, number of bits)"""
        return self.once(("enc", name), lambda: self._encoded(self.P.by[name]))

    def _encoded(self, f):
        v = self.value(f["n"])
        k = f["k"]
        w = self.width(f)
        if k == "int":
            n = 8 * f["bs"] if f.get("bs") else w
            if n is None:
                raise Bad("layout", "int without a size")
            return enc_int(f, v, n), n
        if k == "float":
            n = f.get("bs") or (4 if w is None else w // 8)
            try:
                return b2i(pystruct.pack(float_fmt(f, n), v)), 8 * n
            except (pystruct.error, OverflowError):
                raise Bad("value", "float")
        if k in ("str", "json"):
            g = JSON_STR if k == "json" else f
            raw = enc_str(g, pyjson.dumps(v["j"]) if k == "json" else v, None if w is None else w // 8)
        elif k == "bytes":
            if not isinstance(v, dict):
                raise Bad("value", "bytes")
            raw = bytes.fromhex(v["b"])
        elif k == "buf":
            raw = self.nested_pack(v)
        elif k == "list":
            return self.enc_list(f, v)
        else:
            raise AssertionError(k)
        return b2i(raw), 8 * len(raw)

    def nested_pack(self, v):
        if not isinstance(v, dict):
            raise Bad("value", "packet")
        q = self.P.env_types[v["p"]]
        raw, _, _ = q.pack(with_defaults(q, v["v"]))
        return raw

    def enc_list(self, f, v):
        if not isinstance(v, list):
            raise Bad("value", "list")
        el = f["el"]
        out, n = 0, 0
        for x in v:
            if el["k"] == "int":
                p, m = enc_int(el, x, el["bits"]), el["bits"]
            elif el["k"] == "user":
                raw = user_enc(el, x)
                p, m = b2i(raw), 8 * len(raw)
            elif el["k"] == "str":
                raw = enc_str(el, x, el["size"])
                p, m = b2i(raw), 8 * len(raw)
            else:
                raw = self.nested_pack(x)
                p, m = b2i(raw), 8 * len(raw)
            out |= p << n
            n += m
        return out, n

    def total(self):
        return self.once("total", self._total)

    def _total(self):
        st = self.P.static_size
        if st is not None:
            return st
        end = 0
        for f in self.P.fields:
            if not self.present(f):
                continue
            end = max(end, self.end(f))
        return (end + 7) // 8

    def end(self, f):
        """First bit after what the field occupies."""
        if self.pack or not self.is_open(f):
            return max([b for a, b in self.pos(f["n"])] or [0])
        _, used = self.raw(f["n"])
        end = 0
        for a, b in self.pos(f["n"]):
            n = min(used, b - a)
            end = max(end, a + n)
            used -= n
        return end

    def after(self, name):
        n = self.end(self.P.by[name])
        return n // 8 if n % 8 == 0 else n / 8.0

    def do_pack(self):
        buf, length = 0, 0
        for f in self.P.fields:
            if not self.present(f):
                continue
            v, n = self.encoded(f["n"])
            used = 0
            for a, b in self.pos(f["n"]):
                if b - a > n - used and (b - a > ((n - used + 7) // 8) * 8):
                    raise Bad("value", "too short for its position")
                piece = bits_at(v, used, used + (b - a))
                mask = ((1 << (b - a)) - 1) << a
                buf = (buf & ~mask) | (piece << a)
                length = max(length, b)
                used += b - a
        nbytes = (length + 7) // 8
        st = self.P.static_size
        if st is not None:
            if nbytes > st:
                raise Bad("layout", "bigger than the declared size")
            nbytes = st
        return i2b(buf, 8 * nbytes), dict(self.attrs)

    # -- unpacking --
    def raw(self, name):
        """(value, bits used)"""
        return self.once(("raw", name), lambda: self._raw(self.P.by[name]))

    def data(self, f):
        """Bits at the field's position: (int, available, wanted)."""
        v, n, want = 0, 0, 0
        gap = False
        for a, b in self.pos(f["n"]):
            want += b - a
            e = min(b, self.nbits)
            if e > a:
                if gap:
                    break
                v |= bits_at(self.val, a, e) << n
                n += e - a
            if e < b and a < b:
                gap = True
        if n < want and not self.lenient:
            raise Bad("short", f["n"])
        return v, n, want

    def _raw(self, f):
        for name in f.get("ua") or ():
            if self.present(self.P.by[name]):
                self.value(name)
        v, n, want = self.data(f)
        k = f["k"]
        if k in ("str", "json", "bytes") and n % 8 and not self.lenient:
            raise Bad("value", "ends inside a byte")     # (text of a quarter byte: nothing says what that is)
        if k == "int":
            w = 8 * f["bs"] if f.get("bs") else want
            if n < w:
                raise Bad("short", f["n"])
            return dec_int(f, bits_at(v, 0, w), w), w
        if k == "float":
            w = 8 * (f.get("bs") or want // 8)
            if n < w or w not in (32, 64):
                raise Bad("short", f["n"])
            return pystruct.unpack(float_fmt(f, w // 8), i2b(bits_at(v, 0, w), w))[0], w
        if k == "str":
            return dec_str(f, i2b(v, n)), n
        if k == "json":
            s = dec_str(JSON_STR, i2b(v, n))
            try:
                x = pyjson.loads(s.strip())
            except ValueError:
                raise Bad("value", "json")
            return (None if x is None else {"j": x}), n
        if k == "bytes":
            return {"b": i2b(v, n).hex()}, n
        if k == "buf":
            if f.get("sel") and self.value(f["sel"]["by"]) < f["sel"].get("none", 0):
                return None, 0
            P = self.choose(f, f, 0)
            attrs, size = P.unpack_bits(v, n, self.lenient)
            if 8 * size > n and not self.lenient:
                raise Bad("short", f["n"])       # (a declared size)
            return {"p": P.name, "v": attrs}, 8 * size
        return self.dec_list(f, v, n)

    def choose(self, f, el, index):
        sel = f.get("sel")
        if not sel:
            return self.P.env_types[el["p"]]
        key = index if sel["by"] is None else self.value(sel["by"])
        return self.P.env_types[sel["alts"][key % len(sel["alts"])]]

    def dec_list(self, f, v, n):
        el = f["el"]
        limit = f.get("n_")
        if limit is not None:
            limit = self.ev(limit)
        out, ofs = [], 0
        while ofs < n and (limit is None or len(out) < limit):
            left = n - ofs
            if el["k"] == "int":
                w = el["bits"]
                if left < w:
                    raise Bad("short", f["n"])
                out.append(dec_int(el, bits_at(v, ofs, ofs + w), w))
            elif el["k"] == "user":
                x, w = user_dec(el, i2b(bits_at(v, ofs, n), left))
                if w is None:
                    raise Bad("short", f["n"])
                out.append(x)
                w *= 8
            elif el["k"] == "str":
                w = 8 * el["size"]
                if left < w:
                    raise Bad("short", f["n"])
                out.append(dec_str(el, i2b(bits_at(v, ofs, ofs + w), w)))
            else:
                P = self.choose(f, el, len(out))
                attrs, size = P.unpack_bits(v >> ofs, left, self.lenient)
                if 8 * size > left and not self.lenient:
                    raise Bad("short", f["n"])
                out.append({"p": P.name, "v": attrs})
                w = 8 * size
                if w == 0 and limit is None:
                    raise Bad("layout", "elements of no bytes")
            ofs += w
        return out, ofs

    def do_unpack(self):
        for f in self.P.fields:
            if self.present(f):
                self.value(f["n"])
        out = {}
        for f in self.P.fields:
            out[f["n"]] = self.attrs[f["n"]] if self.present(f) else None
        return out, self.total()


def select(parent, x, y):
    """Bits x..y (y None: to the end) of the concatenation of the parent ranges."""
    out = []
    base = 0
    for a, b in parent:
        n = None if b is None else b - a
        s = max(x, base)
        e = y if n is None else (base + n if y is None else min(y, base + n))
        if e is None:
            out.append([a + s - base, None])
        elif e > s:
            out.append([a + s - base, a + e - base])
        if n is None:
            base = None
            break
        base += n
    if base is not None and y is not None and y > base:
        raise Bad("layout", "bits out of range")
    if not out:
        if y is not None and y > x:
            raise Bad("layout", "bits out of range")
        out = [[0, 0]]
    return out


def call_op(op, v):
    if op == "double":
        return v * 2
    if op == "half":
        return v // 2
    if op == "same":
        return v
    if op == "odd":
        return True if v % 2 == 1 else None
    if op == "positive":
        return v if v > 0 else ""
    raise AssertionError(op)


# ---- the real classes -------------------------------------------------------------------------------------------------
MACRO_INT = {("native", True): "int_field", ("native", False): "uint_field", ("big", True): "be_int_field", ("big", False): "be_uint_field",
             ("little", True): "le_int_field", ("little", False): "le_uint_field"}


class Types(object):
    """All layouts of a scenario, nested ones included: {"order": [specs]} inner ones first."""

    def __init__(self, specs, env=None):
        self.env = env
        self.by = {}
        self.all = []
        for s in specs:
            p = P(s, self.by)
            self.by[p.name] = p
            self.all.append(p)
        self.top = [p for p in self.all if not p.spec.get("inner")]

    def build(self, env=None):
        self.env = env or self.env
        for p in self.all:
            p.build(self.env)
        return self

    def __getitem__(self, i):
        return self.top[i % len(self.top)]


class Raw(object):
    """The library's macros, except that references are not cast to numbers."""

    def __init__(self, B):
        self.B = B

    def num_ref(self, ref):
        return ref

    def __getattr__(self, name):
        return getattr(self.B, name)


class P(object):
    def __init__(self, spec, types):
        self.spec = spec
        self.name = spec["name"]
        self.fields = spec["fields"]
        self.by = dict((f["n"], f) for f in self.fields)
        self.env_types = types
        self.static_size = self._static()
        self.cls = None
        self.base = None
        self.ticks = {}
        self.tick_args = {}

    def _static(self):
        if self.spec.get("byte_size") is not None:
            return self.spec["byte_size"]
        end = 0
        for f in self.fields:
            for w in ([f["w"]] if f.get("w") else [f["wp"], f["wu"]]):
                if not const_pos(w):
                    return None
            e = Eval(self, {})
            try:
                rs = e.ranges(f)
            except Bad:
                return None
            if any(b is None for a, b in rs):
                return None
            end = max([end] + [b for a, b in rs])
        return (end + 7) // 8

    # -- reference codec --
    def pack(self, values):
        e = Eval(self, values)
        raw, attrs = e.do_pack()
        return raw, attrs, e

    def enc(self, values):
        return self.pack(values)[0]

    def unpack_bits(self, val, nbits, lenient=False):
        return Eval(self, None, val, nbits, lenient).do_unpack()

    def unpack(self, data, lenient=False):
        """-> ({field: value}, size)"""
        return self.unpack_bits(b2i(data), 8 * len(data), lenient)

    # -- python objects --
    def new(self):
        return self.cls()

    def to_py(self, values):
        o = self.cls()
        for f in self.fields:
            if f["n"] in values:
                setattr(o, f["n"], self.val_to_py(f, values[f["n"]]))
        return o

    def val_to_py(self, f, v):
        return to_py(self.env_types, v)

    # -- class construction --
    def build(self, env):
        """The real packet class."""
        try:
            return self.declare(env)
        except (Violation, HarnessError):
            raise
        except Exception as e:
            raise Violation("declaration-refused", "%s: %s: %s" % (self.name, type(e).__name__, str(e)[:300]))

    def declare(self, env):
        self.env = env
        inst = env.inst
        from infi.instruct import buffer as B           # the code under test
        self.B = B
        ns = {}
        refs = {}
        methods(self, ns)
        k = self.spec.get("base") or 0
        if k:
            for f in self.fields[:k]:
                refs[f["n"]] = ns[f["n"]] = self.make(f, refs)
            if self.spec.get("inherited_size") and k == len(self.fields):
                ns["byte_size"] = self.spec["byte_size"]
            elif self.spec.get("base_size") and k < len(self.fields):
                ns["byte_size"] = self.spec["base_size"]
            self.base = type(B.Buffer)("Common", (B.Buffer,), ns)
            ns = {}
        for f in self.fields[k:]:
            refs[f["n"]] = ns[f["n"]] = self.make(f, refs)
        if self.spec.get("byte_size") is not None and not (self.spec.get("inherited_size") and k == len(self.fields)):
            ns["byte_size"] = self.spec["byte_size"]
        self.cls = type(B.Buffer)(self.name, (self.base or B.Buffer,), ns)
        self.refs = refs
        return self

    def ref(self, e, refs, raw=False):
        """The library's reference for an expression; raw: application code's answer as it is, not cast to a number."""
        B = self.B
        op = e[0]
        if raw and op in ("num", "fn", "tick", "tcall", "attr", "call"):
            B = Raw(B)
        if op == "c":
            return e[1]
        if op == "f":
            return refs[e[1]]
        if op == "num":
            return B.num_ref(getattr(B.self_ref, e[1]))
        if op == "len":
            how = e[2]
            if how == "name":
                return B.len_ref(e[1])
            if how == "field":
                return B.len_ref(refs[e[1]])
            return B.len_ref(getattr(B.self_ref, e[1]))
        if op == "after":
            return B.after_ref(refs[e[1]])
        if op == "total":
            return B.total_size
        if op == "inlen":
            return B.input_buffer_length
        if op == "fn":
            return B.num_ref(B.member_func_ref(self.fn(e)))
        if op == "mfn":
            return B.member_func_ref(self.mfn(e))
        if op == "tick":
            return B.num_ref(B.member_func_ref(self.tick_fn(e[1])))
        if op == "truth":       # an answer of any type, to be taken as true or false
            if len(e) == 2:
                return B.member_func_ref(self.tick_fn(e[1]))
            return getattr(B.self_ref, "t_%s" % e[1])(*[self.ref(x, refs) for x in e[2:]])
        if op == "tcall":
            return B.num_ref(getattr(B.self_ref, "t_%d" % e[1])(*[self.ref(x, refs) for x in e[2:]]))
        if op == "attr":
            return B.num_ref(getattr(B.self_ref, "k_%s" % attr_name(e[1])))
        if op == "call":
            return B.num_ref(getattr(B.self_ref, "m_" + e[1])(self.ref(e[2], refs)))
        if op == "min":
            return B.min_ref(*[self.ref(x, refs) for x in e[1:]])
        if op == "max":
            return B.max_ref(*[self.ref(x, refs) for x in e[1:]])
        if op == "self":
            return getattr(B.self_ref, e[1])
        if op == "neg":
            return -self.ref(e[1], refs)
        a, b = self.ref(e[1], refs), self.ref(e[2], refs)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "//":
            return a // b
        if op == "/":
            return a / b
        if op == ">":
            return a > b
        if op == ">=":
            return a >= b
        if op == "<=":
            return a <= b
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        if op == "<":
            return a < b
        raise AssertionError(op)

    def fn(self, e):
        """Application code: computes a number from the object being packed."""
        env = self.env
        me = self
        of, mul, add = e[2], e[3], e[4]
        f = self.by[of]

        def compute(obj):
            env.callback("fn", me.name + "." + of, obj)
            return enclen(f, from_py(me.env_types, getattr(obj, of))) * mul + add
        return compute

    def tick_fn(self, ident):
        env, me = self.env, self

        def tick(obj):
            return env.tick(me, obj, ident, ())
        return tick

    def mfn(self, e):
        """Application code: takes a number from a field that was unpacked before."""
        env = self.env
        me = self

        def read(obj):
            env.callback("mfn", me.name + "." + e[1], obj)
            return getattr(obj, e[1])
        return read

    def position(self, w, refs):
        B = self.B
        parts = []
        if w.get("join") == "tuple":
            return B.bytes_ref[tuple(self.byte_index(p["a"], p["b"], p.get("one"), refs) for p in w["parts"])]
        for p in w["parts"]:
            if p["t"] == "b":
                parts.append(B.bytes_ref[self.byte_index(p["a"], p["b"], p.get("one"), refs)])
            else:
                bs = [self.byte_index(a, b, one, refs) for a, b, one in p["bytes"]]
                parent = B.bytes_ref[bs[0] if len(bs) == 1 else tuple(bs)]
                sel = [slice(x[0], x[1]) if isinstance(x, list) else self.ref(x["e"], refs) if isinstance(x, dict) else x for x in p["sel"]]
                parts.append(parent.bits[sel[0] if len(sel) == 1 else tuple(sel)])
        if w.get("join") == "tree" and len(parts) > 2:
            k = len(parts) // 2
            left, right = parts[0], parts[k]
            for p in parts[1:k]:
                left = left + p
            for p in parts[k + 1:]:
                right = right + p
            return left + right
        out = parts[0]
        for p in parts[1:]:
            out = out + p
        return out

    def byte_index(self, a, b, one, refs):
        if one:
            return self.ref(a, refs)
        return slice(None if a is None else self.ref(a, refs), None if b is None else self.ref(b, refs))

    def element(self, el):
        from infi.instruct.buffer import macros
        if el["k"] == "int":
            if el["bits"] in (8, 16, 32, 64) and el.get("std"):
                name = {"native": "n_", "big": "b_", "little": "l_"}[el["end"]] + ("int" if el["sign"] else "uint") + str(el["bits"])
                return getattr(self.B, name)
            n = el["bits"] / 8
            return macros.int_marshal(int(n) if n == int(n) else n, "signed" if el["sign"] else "unsigned", el["end"])
        if el["k"] == "user":
            return self.user(el)
        if el["k"] == "str":
            kw = dict(encoding=el["enc"], justify=el["just"], byte_size=el["size"])
            if not el.get("dflt"):
                kw.update(padding=bytes.fromhex(el["pad"]), strip=bytes.fromhex(el["strip"]))
            return self.B.str_type_factory(**kw)
        return self.env_types[el["p"]].cls

    def user(self, el):
        """Application code that packs and unpacks an element."""
        env = self.env

        def packer(value, **kw):
            env.callback("elem", "%s.%s" % (self.name, el["how"]), None)
            data = user_enc(el, from_py(self.env_types, value))
            if env.keep is None:
                return data
            data = bytearray(data)
            env.keep(data)
            return data

        def unpacker(buffer, index=None, n=None, container=None, **kw):
            env.callback("elem", "%s.%s" % (self.name, el["how"]), None)
            if index is None or container is None or index != len(container):
                raise Violation("element-index", "element %r of a list that has %r" % (index, container))
            v, size = user_dec(el, bytes(buffer.to_bytes()))
            if size is None:
                raise AppFault("element cut off")
            return to_py(self.env_types, v), size
        return packer, unpacker

    def selector(self, f):
        env = self.env
        me = self
        sel = f["sel"]

        def select(obj, buffer, *args, **kw):
            env.callback("sel", me.name + "." + f["n"], obj)
            key = kw["index"] if sel["by"] is None else getattr(obj, sel["by"])
            if key < sel.get("none", 0):
                return None if sel["how"] == "type" else (None, 0)
            cls = me.env_types[sel["alts"][key % len(sel["alts"])]].cls
            if sel["how"] == "type":
                return cls
            o = cls()
            n = o.unpack(buffer)
            return (o, n) if sel["how"] == "pair" else [o, n]
        return select

    def make(self, f, refs):
        B = self.B
        env = self.env
        me = self
        kw = {}
        if f.get("w"):
            kw["where"] = self.position(f["w"], refs)
        else:
            kw["where_when_pack"] = self.position(f["wp"], refs)
            kw["where_when_unpack"] = self.position(f["wu"], refs)
        for c, arg in (("pif", "pack_if"), ("uif", "unpack_if")):
            if f.get(c) is not None:
                kw[arg] = self.ref(f[c], refs, f.get("raw"))
        if f.get("ua"):
            kw["unpack_after"] = [refs[n] for n in f["ua"]]
            if len(f["ua"]) == 1:
                kw["unpack_after"] = kw["unpack_after"][0]
        if "d" in f:
            kw["default"] = to_py(self.env_types, f["d"])
        s = f.get("sbp")
        if s is not None:
            if s[0] == "const":
                kw["set_before_pack"] = to_py(self.env_types, s[1])
            elif s[0] == "fn" and s[1] == "direct":
                kw["set_before_pack"] = self.fn(s)
            elif s[0] == "tick" and len(s) > 2:
                kw["set_before_pack"] = self.tick_fn(s[1])
            else:
                kw["set_before_pack"] = self.ref(s, refs, f.get("raw"))
        s = f.get("sau")
        if s is not None:
            if s[0] == "ref":
                kw["set_after_unpack"] = self.ref(s[1], refs, f.get("raw"))
            elif s[0] == "tick":
                kw["set_after_unpack"] = lambda v, s=s: env.tick(me, None, s[1], (v,))
            else:
                def convert(v, s=s):
                    env.callback("conv", me.name + "." + f["n"], None)
                    return conv_py(s, v)
                kw["set_after_unpack"] = convert
        k = f["k"]
        if k == "int":
            if f.get("bs"):
                kw["byte_size"] = f["bs"]
            if f.get("plain"):
                return B.int_field(endian=f["end"], sign="signed" if f["sign"] else "unsigned", **kw)
            return getattr(B, MACRO_INT[(f["end"], f["sign"])])(**kw)
        if k == "float":
            if f.get("bs"):
                kw["byte_size"] = f["bs"]
            return B.float_field(endian=f["end"], **kw)
        if k == "str":
            if not f.get("dflt"):
                kw.update(padding=bytes.fromhex(f["pad"]), strip=bytes.fromhex(f["strip"]))
            return B.str_field(encoding=f["enc"], justify=f["just"], **kw)
        if k == "bytes":
            return B.bytearray_field(**kw)
        if k == "json":
            return B.json_field(**kw)
        if k == "buf":
            if f.get("sel"):
                kw["unpack_selector"] = self.selector(f)
            if f.get("bs"):
                kw["byte_size"] = f["bs"]
            return B.buffer_field(type=self.env_types[f["p"]].cls, **kw)
        if f.get("sel"):
            kw["unpack_selector"] = self.selector(f)
        if f.get("n_") is not None:
            kw["n"] = self.ref(f["n_"], refs, f.get("raw"))
        return B.list_field(type=self.element(f["el"]), **kw)


def methods(p, ns):
    env = p.env

    def method(op):
        def m(self, v):
            env.callback("call", p.name + "." + op, self)
            return call_op(op, v)
        return m
    for op in ("double", "half", "same", "odd", "positive"):
        ns["m_" + op] = method(op)
    for f in p.fields:
        for e in sub_exprs(f):
            if e[0] == "attr":      # an attribute that is not a field
                ns["k_" + attr_name(e[1])] = property(lambda self, v=e[1]: v) if e[1] % 2 else e[1]
            if e[0] in ("tcall", "truth"):
                ns["t_%s" % e[1]] = lambda self, *args, ident=e[1]: env.tick(p, self, ident, args)


def attr_name(v):
    return str(v).replace("-", "m")


def conv_py(conv, v):
    if isinstance(v, bytearray) and conv[0] == "rev":
        return v[::-1]
    return conv_apply(conv, v)


def const_expr(e):
    if e is None or e[0] == "c":
        return True
    return e[0] in ("+", "-", "*", "//", "/", "min", "max", "neg") and all(const_expr(x) for x in e[1:])


def const_pos(w):
    for p in w["parts"]:
        if p["t"] == "b":
            if not (const_expr(p["a"]) and const_expr(p["b"])):
                return False
        elif not all(const_expr(a) and const_expr(b) for a, b, _ in p["bytes"]) or any(isinstance(x, dict) for x in p["sel"]):
            return False
    return True


def to_py(types, v):
    if isinstance(v, dict):
        if "b" in v:
            return bytearray.fromhex(v["b"])
        if "j" in v:
            return pyjson.loads(pyjson.dumps(v["j"]))
        p = types[v["p"]]
        return p.to_py(v["v"])
    if isinstance(v, list):
        return [to_py(types, x) for x in v]
    return v


def from_py(types, o):
    """Canonical value of a packet attribute (a JSON field's value needs the field: see attrs_of)."""
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    if isinstance(o, bytearray):
        return {"b": bytes(o).hex()}
    if isinstance(o, (bytes, memoryview)):
        return {"wrong-type": type(o).__name__, "b": bytes(o).hex()}
    if isinstance(o, list):
        return [from_py(types, x) for x in o]
    if isinstance(o, dict):
        return {"j": o}
    for p in types.values():
        if type(o) is p.cls:
            return {"p": p.name, "v": p.attrs(o)}
    return {"wrong-type": type(o).__name__}


def attrs_of(p, o):
    out = {}
    for f in p.fields:
        v = getattr(o, f["n"])
        out[f["n"]] = {"j": v} if f["k"] == "json" and v is not None else from_py(p.env_types, v)
    return out


P.attrs = attrs_of


def _from_py_method(self, o):
    if type(o) is not self.cls:
        raise Violation("wrong-type", "a %s where a %s was expected" % (type(o).__name__, self.name))
    return self.attrs(o)


P.from_py = _from_py_method


# ---- generator --------------------------------------------------------------------------------------------------------
DEBUG = False
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
TAKEN = set(["pack", "unpack", "byte_size", "calc_byte_size"])
ALL = ("int", "float", "multi", "bits", "str", "bytes", "json", "list", "buf", "var", "vlist", "vbuf", "total", "openint", "opt", "sel",
       "lsel", "trailer", "tail", "const", "conv", "default", "base", "bsize", "expr", "minmax", "selfref", "fn", "gap", "magic", "call",
       "afterlen", "std", "permute", "extra", "totalinfo", "mopen", "disguise", "unaligned", "bitat", "bitlen", "user", "deflist", "attr", "split")


def plus(e, k):
    if isinstance(k, list):
        if k[0] == "c":
            return plus(e, k[1])
        return k if e == ["c", 0] else ["+", e, k]
    if k == 0:
        return e
    if e[0] == "c":
        return ["c", e[1] + k]
    if e[0] == "+" and e[2][0] == "c":
        return ["+", e[1], ["c", e[2][1] + k]]
    return ["+", e, ["c", k]]


def span(a, b, one=None):
    return {"parts": [{"t": "b", "a": a, "b": b, "one": one}]}


def is_open_part(q):
    if q["t"] == "b":
        return q["b"] is None and not q.get("one")
    return any(b is None and not one for a, b, one in q["bytes"])


class Gen(object):
    def __init__(self, rng, feats=None, size=6):
        self.rng = rng
        self.feats = set(feats if feats is not None else ALL)
        self.size = size
        self.inner = []           # specs of nested layouts, inner ones first
        self.types = {}

    # -- layouts --
    def packet(self, name, want="any", depth=2, inner=False):
        """A layout whose size is static / self-delimiting ("delim") / possibly greedy ("any")."""
        for _ in range(40):
            saved = len(self.inner)
            spec = self.attempt(name, want, depth)
            if inner:
                spec["inner"] = True
            spec["want"] = want
            p = P(spec, self.types)
            try:
                ok = all(self.usable(p) for _ in range(3))
            except Bad:
                if DEBUG:
                    raise
                ok = False
            if DEBUG and not ok:
                raise Exception(pyjson.dumps(spec))
            if ok and (want != "static" or p.static_size is not None):
                self.types[name] = p
                return spec
            for s in self.inner[saved:]:
                self.types.pop(s["name"], None)
            del self.inner[saved:]
        spec = {"name": name, "want": want, "fields": [dict(self.int_kind(1), n="only", w=span(["c", 0], ["c", 1]))]}
        if inner:
            spec["inner"] = True
        self.types[name] = P(spec, self.types)
        return spec

    def usable(self, p):
        v = gen_value(p, self.rng)
        return valid_value(p, v)

    def nested(self, want, depth):
        """Name of a nested layout."""
        have = [s["name"] for s in self.inner if self.types.get(s["name"]) and (s["want"] == "static" or s["want"] == want)]
        if have and self.rng.random() < 0.4:
            return self.rng.choice(have)
        k = 1
        while "N%d" % k in self.types:
            k += 1
        name = "N%d" % k
        self.types[name] = None
        child = Gen(self.rng, self.feats, min(self.size, 3))
        child.inner, child.types = self.inner, self.types
        spec = child.packet(name, want, depth - 1, inner=True)
        self.inner.append(spec)
        return name

    def attempt(self, name, want, depth):
        self.names = set()
        self.fields = []
        self.cur = ["c", 0]
        self.want = want
        self.depth = depth
        self.closed = False       # nothing may follow
        self.frac = False         # the cursor may be inside a byte
        rng = self.rng
        static = ["int", "int", "float", "multi", "bits", "bits", "str", "bytes", "json", "list", "buf", "magic", "conv", "gap", "opt", "sel", "expr",
                  "extra", "unaligned"]
        dyn = ["var", "var", "vlist", "vbuf", "openint", "opt", "sel", "lsel", "fn", "total", "minmax", "afterlen",
               "totalinfo", "mopen", "bitat", "bitlen", "split"]
        last = ["tail", "trailer"]
        kinds = [k for k in static + (dyn if want != "static" else []) if k in self.feats or k == "int"]
        for _ in range(rng.randint(1, self.size)):
            if self.closed:
                break
            getattr(self, "b_" + rng.choice(kinds))()
            if "gap" in self.feats and rng.random() < 0.08:
                self.cur = plus(self.cur, rng.randint(1, 3))
        if want == "any" and not self.closed:
            tails = [k for k in last if k in self.feats]
            if tails and rng.random() < 0.5:
                getattr(self, "b_" + rng.choice(tails))()
        if not self.fields:
            self.b_int()
        order = self.order()
        for f in order:
            if (f.get("pif") or f.get("sbp") or f.get("sau") or f.get("n_")) and rng.random() < 0.4:
                f["raw"] = 1
        spec = {"name": name, "fields": order}
        if "base" in self.feats and len(order) > 1 and rng.random() < 0.25:
            spec["base"] = rng.randint(1, len(order))
        if "bsize" in self.feats and rng.random() < 0.15:
            st = P(spec, self.types).static_size
            if st is not None:
                spec["byte_size"] = st + rng.choice([0, 1, 3, 7])
                if spec.get("base") == len(order) and rng.random() < 0.7:
                    spec["inherited_size"] = 1       # declared by the base type
            elif want != "static" and not any(is_open_part(q) for f in order for w in ("w", "wp", "wu") if f.get(w) for q in f[w]["parts"]):
                # of varying size, in a packet of a fixed one
                p = P(spec, self.types)
                try:
                    most = max(len(p.pack(with_defaults(p, some_value(p, rng)))[0]) for _ in range(6))
                except Bad:
                    return spec
                spec["byte_size"] = 2 * most + rng.choice([0, 1, 8])
                spec["roomy"] = 1
        elif spec.get("base") and rng.random() < 0.15:
            spec["base_size"] = rng.randint(1, 300)  # declared by the base type, which has fewer fields
        return spec

    def order(self):
        """Declaration order: a random one in which what a field refers to directly comes first."""
        left = list(self.fields)
        out = []
        done = set()
        shuffle = "permute" in self.feats
        while left:
            ready = [f for f in left if deps(f) <= done]
            f = self.rng.choice(ready) if shuffle else ready[0]
            left.remove(f)
            done.add(f["n"])
            out.append(f)
        return out

    def name(self):
        while True:
            n = "".join(self.rng.choice(LETTERS) for _ in range(self.rng.randint(1, 4)))
            if n not in self.names and n not in TAKEN and not n.startswith(("m_", "__")) and not iskeyword(n):
                self.names.add(n)
                return n

    def add(self, f, w=None, **kw):
        f = dict(f, n=f.get("n") or self.name(), **kw)
        if w is not None:
            f["w"] = w
        self.fields.append(f)
        return f["n"]

    def take(self, k):
        """The next k bytes as a position; the cursor moves on."""
        a = self.cur
        self.cur = plus(a, k)
        if k == 1 and self.rng.random() < 0.4:
            return span(a, None, True)
        return span(a if a != ["c", 0] or self.rng.random() < 0.5 else None, self.cur)

    # -- element kinds --
    def int_kind(self, nbytes, sign=None):
        std = nbytes in (1, 2, 4, 8)
        f = {"k": "int", "end": self.rng.choice(["native", "big", "little"]),
             "sign": (self.rng.random() < 0.4 if sign is None else sign) if std else False}
        if self.rng.random() < 0.2:
            f["plain"] = 1
        return f

    def str_kind(self):
        rng = self.rng
        if rng.random() < 0.4:
            return {"k": "str", "enc": "ascii", "pad": "20", "strip": "00", "just": rng.choice(["left", "left", "right", "center"]), "dflt": 1}
        return {"k": "str", "enc": rng.choice(["ascii", "latin-1", "utf-8"]), "pad": rng.choice(["20", "00", "2a", "ff"]),
                "strip": rng.choice(["00", "20", "0020", "2e"]), "just": rng.choice(["left", "right", "center"])}

    def extras(self, f):
        """Default value and converter for a plain field."""
        rng = self.rng
        if "default" in self.feats and rng.random() < 0.15 and f["k"] in ("int", "str", "bytes", "list"):
            f["want_d"] = 1
        return f

    # -- blocks --
    def b_int(self):
        n = self.rng.choice([1, 1, 2, 2, 3, 4, 4, 5, 6, 7, 8, 9, 16])
        self.add(self.extras(self.int_kind(n)), self.take(n))

    def b_float(self):
        n = self.rng.choice([4, 8])
        self.add({"k": "float", "end": self.rng.choice(["native", "big", "little"])}, self.take(n))

    def b_gap(self):
        self.cur = plus(self.cur, self.rng.randint(1, 4))

    def b_extra(self):
        """A field of no bytes."""
        self.add({"k": "bytes"}, span(self.cur, self.cur))

    def b_magic(self):
        n = self.rng.choice([1, 2, 3, 4])
        r = self.rng.random()
        if r < 0.5:
            f = self.int_kind(n)
            self.add(f, self.take(n), sbp=["const", gen_int(f, 8 * n, self.rng)])
        elif r < 0.7:
            v = bytes(self.rng.randrange(256) for _ in range(n))
            self.add({"k": "bytes"}, self.take(n), sbp=["const", {"b": v.hex()}])
        elif r < 0.9:
            v = [self.rng.randrange(256) for _ in range(n)]
            self.add({"k": "list", "el": {"k": "int", "bits": 8, "end": "native", "sign": False}, "count": n}, self.take(n), sbp=["const", v])
        else:
            v = self.rng.choice([[1, [2]], {"a": [1]}, [], {}, {"z": {"y": None}}])
            self.add({"k": "json"}, self.take(len(pyjson.dumps(v)) + self.rng.choice([0, 0, 3])), sbp=["const", {"j": v}])

    def b_conv(self):
        n = self.rng.choice([1, 2, 4, 3])
        r = self.rng.random()
        if r < 0.5:
            small = [f["n"] for f in self.fields if "small" in f and not f.get("pif")]
            if small and self.rng.random() < 0.5:
                src = self.rng.choice(small)
                how = ["f", src] if self.rng.random() < 0.5 else ["num", src]
                e = self.rng.choice([how, ["+", how, ["c", 5]], ["call", "double", how]])
                self.add(self.int_kind(n, False), self.take(n), sau=["ref", e])
            else:
                self.add(self.int_kind(n, False), self.take(n), sau=["xor", self.rng.randrange(1, 200)])
        elif r < 0.8:
            self.add(self.str_kind(), self.take(self.rng.randint(1, 6)), sau=["rev"])
        else:
            self.add({"k": "bytes"}, self.take(self.rng.randint(1, 4)), sau=["rev"])

    def b_expr(self):
        """A number computed from other numbers when packing."""
        a = [f for f in self.fields if f["k"] == "int" and "sbp" not in f and not f.get("pif") and not f.get("key") and "small" in f]
        if not a:
            k = self.int_kind(1, False)
            k["small"] = 1
            self.add(k, self.take(1))
            a = [self.fields[-1]]
        src = self.rng.choice(a)["n"]
        how = ["f", src] if self.rng.random() < 0.5 else ["num", src]
        e = self.rng.choice([["+", how, ["c", self.rng.randint(1, 9)]], ["*", how, ["c", 3]], ["//", how, ["c", 2]], ["call", "double", how],
                             ["max", how, ["c", 7]], ["min", ["c", 9], how], ["self", src], ["-", ["c", 200], how], ["//", ["c", 9999], ["+", how, ["c", 1]]],
                             ["+", ["neg", how], ["c", 500]], ["max", ["c", 3], how, ["c", 9]], ["min", how, ["*", how, ["c", 2]], ["c", 50]]])
        if e[0] == "call" and "call" not in self.feats:
            e = how
        self.add(self.int_kind(2, False), self.take(2), sbp=e)

    def pieces(self, total, widths_max=4):
        """Splits range(total bits) into chunks."""
        cuts = sorted(self.rng.sample(range(1, total), min(total - 1, self.rng.randint(0, widths_max)))) if total > 1 else []
        return list(zip([0] + cuts, cuts + [total]))

    def b_bits(self):
        rng = self.rng
        n = rng.randint(1, 3)
        base = self.cur
        self.cur = plus(base, n)
        if n > 1 and rng.random() < 0.4:
            perm = list(range(n))
            rng.shuffle(perm)
            parent = [[plus(base, i), None, True] if rng.random() < 0.6 else [plus(base, i), plus(base, i + 1), None] for i in perm]
        else:
            parent = [[base, plus(base, n), None]] if n > 1 or rng.random() < 0.5 else [[base, None, True]]
        chunks = self.pieces(8 * n, 5)
        rng.shuffle(chunks)
        if rng.random() < 0.3 and len(chunks) > 1:
            chunks.pop()                     # unused bits
        while chunks:
            k = min(len(chunks), rng.choice([1, 1, 1, 2, 3]))
            mine, chunks = chunks[:k], chunks[k:]
            width = sum(b - a for a, b in mine)
            f = {"k": "int", "end": rng.choice(["native", "big", "little"]), "sign": rng.random() < 0.5 if width in (8, 16) else False}
            if width % 8 == 0 and width != 8 and width != 16:
                f["end"] = rng.choice(["native", "big", "little"])
            sel = []
            for a, b in mine:
                if b - a == 1 and rng.random() < 0.5:
                    sel.append(a)
                elif b == 8 * n and len(mine) == 1 and rng.random() < 0.4:
                    sel.append([a, None])
                elif a == 0 and rng.random() < 0.3:
                    sel.append([None, b])
                else:
                    sel.append([a, b])
            if len(mine) == 1 or rng.random() < 0.5:
                w = {"parts": [{"t": "bits", "bytes": parent, "sel": sel}]}
            else:
                w = {"parts": [{"t": "bits", "bytes": parent, "sel": [s]} for s in sel]}
            self.add(f, w)

    def scattered(self, n):
        """n bytes in 2-3 ranges, in any order, possibly with holes."""
        rng = self.rng
        k = min(n, rng.choice([2, 2, 3]))
        cuts = sorted(rng.sample(range(1, n), k - 1))
        lens = [b - a for a, b in zip([0] + cuts, cuts + [n])]
        parts = []
        for x in lens:
            if rng.random() < 0.2:
                self.cur = plus(self.cur, 1)
            a = self.cur
            self.cur = plus(a, x)
            parts.append({"t": "b", "a": a, "b": None if x == 1 and rng.random() < 0.5 else self.cur, "one": None})
            if parts[-1]["b"] is None:
                parts[-1]["one"] = True
        if rng.random() < 0.5:
            rng.shuffle(parts)
        return {"parts": parts, "join": rng.choice(["plus", "tuple", "tree"])}

    def b_multi(self):
        rng = self.rng
        r = rng.random()
        if r < 0.4:
            n = rng.choice([2, 3, 4, 8])
            self.add(self.int_kind(n), self.scattered(n))
        elif r < 0.7:
            self.add({"k": "bytes"}, self.scattered(rng.randint(2, 6)))
        else:
            self.add(self.str_kind(), self.scattered(rng.randint(2, 6)))

    def b_str(self):
        self.add(self.extras(self.str_kind()), self.take(self.rng.randint(1, 8)))

    def b_bytes(self):
        self.add(self.extras({"k": "bytes"}), self.take(self.rng.randint(1, 6)))

    def b_json(self):
        self.add({"k": "json"}, self.take(self.rng.choice([4, 8, 16, 24])))

    def element(self, want="static"):
        """(element spec, bytes per element as a fraction of bits)"""
        rng = self.rng
        r = rng.random()
        if want == "delim" and "user" in self.feats and rng.random() < 0.2:
            return {"k": "user", "how": rng.choice(["pstr", "num"])}, None
        if r < 0.5 or self.depth <= 0:
            if "std" in self.feats and rng.random() < 0.5:
                bits = rng.choice([8, 16, 32, 64])
                return {"k": "int", "bits": bits, "end": rng.choice(["native", "big", "little"]), "sign": rng.random() < 0.5, "std": 1}, bits
            bits = rng.choice([4, 8, 12, 16, 24, 2, 1, 40])
            return {"k": "int", "bits": bits, "end": rng.choice(["native", "big", "little"]), "sign": rng.random() < 0.5 if bits in (8, 16) else False}, bits
        if r < 0.7:
            s = self.str_kind()
            s["size"] = rng.randint(1, 4)
            return s, 8 * s["size"]
        name = self.nested(want, self.depth)
        p = self.types[name]
        if not takes_bytes(p):              # elements of no bytes cannot be counted
            return {"k": "int", "bits": 8, "end": "native", "sign": False}, 8
        return {"k": "buf", "p": name}, None if p.static_size is None else 8 * p.static_size

    def whole(self, bits):
        """Element counts that make whole bytes: multiples of this."""
        m = 1
        while (bits * m) % 8:
            m += 1
        return m

    def b_list(self):
        el, bits = self.element("static")
        if not bits:
            return
        m = self.whole(bits)
        n = m * self.rng.randint(1, 4)
        if LONG[0] and bits <= 16 and el["k"] == "int" and self.rng.random() < 0.06:
            n = m * self.rng.randint(8, 130)
        f = {"k": "list", "el": el, "count": n}
        if self.rng.random() < 0.4:
            f["n_"] = ["c", n]
        if el["k"] == "buf" and "deflist" in self.feats and self.rng.random() < 0.4:
            f["want_d"] = 1
        self.add(f, self.take(n * bits // 8))

    def b_buf(self):
        if self.depth <= 0:
            return self.b_int()
        name = self.nested("static", self.depth)
        size = self.types[name].static_size
        f = {"k": "buf", "p": name}
        if size and self.rng.random() < 0.2:
            f["bs"] = size
        if "deflist" in self.feats and self.rng.random() < 0.15:
            f["want_d"] = 1
        self.add(f, self.take(size))

    # dynamic ones
    def carrier(self, sbp=None, nbytes=None, derive=None):
        rng = self.rng
        n = nbytes or rng.choice([1, 1, 2, 3, 4])
        f = self.int_kind(n, False)
        f["n"] = self.name()
        if sbp is not None:
            f["sbp"] = sbp
        if derive is not None:
            f["derive"] = derive
        self.add(f, self.take(n))
        return f

    def num(self, name, frac=False):
        rng = self.rng
        e = ["num", name] if "selfref" in self.feats and rng.random() < 0.4 else ["f", name]
        if "disguise" in self.feats and rng.random() < 0.2:
            e = rng.choice([["neg", ["neg", e]], ["-", ["c", 300], ["-", ["c", 300], e]], ["-", ["c", 0], ["neg", e]], ["max", e, ["c", 0], ["neg", e]],
                            ["min", e, e, ["c", 1 << 40]], ["//", ["*", ["c", 2], e], ["c", 2]], ["-", ["+", e, e], e]]
                           + ([["/", ["*", e, ["c", 4]], ["c", 4]]] if frac else [])
                           + ([["-", ["+", e, ["attr", 7]], ["c", 7]], ["*", ["attr", 1], e], ["+", e, ["attr", 0]],
                               ["-", ["attr", 300], ["-", ["attr", 300], e]]] if "attr" in self.feats else []))
        return e

    def between(self):
        """Fields between a carrier and its data."""
        for _ in range(self.rng.choice([0, 0, 0, 1, 2])):
            getattr(self, "b_" + self.rng.choice(["int", "bits"]))()

    def length_source(self, data, mul, add):
        """How a carrier gets (len * mul + add): a set_before_pack expression or the application sets it."""
        r = self.rng.random()
        if r < 0.35 or data.get("noref"):
            return None, ["len", data["n"], mul, add]
        if r < 0.6 and "fn" in self.feats:
            return ["fn", self.rng.choice(["direct", "ref"]), data["n"], mul, add], None
        e = ["len", data["n"], self.rng.choice(["name", "self"])]
        if mul != 1:
            e = ["*", e, ["c", mul]]
        if add > 0:
            e = ["+", e, ["c", add]]
        elif add < 0:
            e = ["-", e, ["c", -add]]
        return e, None

    def b_var(self):
        rng = self.rng
        k = rng.choice(["str", "bytes", "bytes", "json", "str"])
        f = {"k": k} if k != "str" else self.str_kind()
        f["n"] = self.name()
        if k == "json" or (k == "str" and f["enc"] != "ascii"):
            f["noref"] = 1              # its length in characters is not its length in bytes
        unit = rng.choice([1, 1, 1, 2, 4]) if k == "bytes" else 1
        f["unit"] = unit
        add = rng.choice([0, 0, 0, 1, 4])
        f["max"] = 20
        if unit == 1:
            sbp, derive = self.length_source(f, 1, add)
        elif rng.random() < 0.5:
            sbp, derive = ["+", ["//", ["len", f["n"], rng.choice(["name", "self"])], ["c", unit]], ["c", add]] if add else \
                ["//", ["len", f["n"], rng.choice(["name", "self"])], ["c", unit]], None
        else:
            sbp, derive = None, ["words", f["n"], unit, add]
        c = self.carrier(sbp, derive=derive)
        self.between()
        e = self.num(c["n"])
        if add:
            e = ["-", e, ["c", add]]
        if unit > 1:
            e = ["*", e, ["c", unit]]
        a = self.cur
        b = plus(a, e)
        r = rng.random()
        if r < 0.25:
            f["wp"], f["wu"] = span(a, None), span(a, b)
        elif r < 0.5:
            f["wp"], f["wu"] = span(a, b), span(a, b)
        else:
            f["w"] = span(a, b)
        self.add(f)
        self.cur = self.after(f, b)

    def after(self, f, b):
        r = self.rng.random()
        if r < 0.1 and "minmax" in self.feats:
            return [self.rng.choice(["max", "min"]), ["after", f["n"]], b]
        return ["after", f["n"]] if r < 0.5 else b

    def b_minmax(self):
        rng = self.rng
        f = {"k": "bytes", "n": self.name(), "max": 12, "unit": 1}
        sbp, derive = self.length_source(f, 1, 0)
        c = self.carrier(sbp, derive=derive)
        e = self.num(c["n"])
        e = ["min", e, ["c", rng.randint(12, 30)]] if rng.random() < 0.5 else ["max", ["c", 0], e]
        a = self.cur
        b = plus(a, e)
        f["w"] = span(a, b)
        self.add(f)
        self.cur = self.after(f, b)

    def b_split(self):
        """Bytes in two places, one of them of any length; the places are listed in either order."""
        rng = self.rng
        k = rng.randint(1, 4)
        f = {"k": "bytes", "n": self.name(), "min": k, "max": k + 8}
        sbp, derive = self.length_source(f, 1, -k)
        c = self.carrier(sbp, derive=derive)
        self.between()
        self.align()
        e = self.num(c["n"])
        a = self.cur
        how = rng.random()
        if how < 0.35:
            b = plus(a, e)
            var, fixed, end = (a, b), (b, plus(b, k)), plus(b, k)
        elif how < 0.7:
            b = plus(a, k + rng.choice([0, 0, 1, 3]))
            var, fixed, end = (b, plus(b, e)), (a, plus(a, k)), plus(b, e)
        else:                # no more than eight bytes may be there
            b = plus(a, 8)
            var, fixed, end = (a, plus(a, e)), (b, plus(b, k)), plus(b, k)
        parts = [{"t": "b", "a": x, "b": y, "one": None} for x, y in (var, fixed)]
        if rng.random() < 0.6:
            parts.reverse()
        f["w"] = {"parts": parts}
        if rng.random() < 0.3:
            f["w"]["join"] = "tuple"
        self.add(f)
        self.cur = self.after(f, end)

    def b_fn(self):
        self.feats.add("fn")
        self.b_var()

    def b_afterlen(self):
        """The carrier holds where the data ends."""
        rng = self.rng
        if '"/"' in pyjson.dumps([self.fields, self.cur]):      # positions may be floats then, which an integer refuses
            return self.b_var()
        if rng.random() < 0.5 and self.depth > 0:
            el, bits = self.element("delim")
            f = {"k": "list", "el": el, "max": 4}
            if bits is not None and bits % 8:
                f = {"k": "bytes", "max": 10}
        else:
            f = rng.choice([{"k": "bytes", "max": 10}, dict(self.str_kind(), max=10)])
        f["n"] = self.name()
        n = rng.choice([1, 2])
        c = dict(self.int_kind(n, False), n=self.name())
        c["w"] = self.take(n)
        self.between()
        a = self.cur
        c["sbp"] = ["-", ["after", f["n"]], a] if a != ["c", 0] else ["after", f["n"]]
        f["wp"], f["wu"] = span(a, None), span(a, plus(a, ["num", c["n"]]))
        self.add(f)
        self.add(c)
        self.cur = ["after", f["n"]]

    def b_total(self):
        """The carrier holds the size of the whole packet less k."""
        self.align()
        self.closed = True
        rng = self.rng
        n = rng.choice([1, 2, 4])
        k = min(n, rng.choice([0, 0, 1, 2, 4]))
        sbp = ["-", ["total"], ["c", k]] if k else ["total"]
        c = self.carrier(sbp, nbytes=n)
        self.b_tail_until(plus(["num", c["n"]], k))

    def b_totalinfo(self):
        self.carrier(["total"], nbytes=self.rng.choice([2, 4]))

    def b_tail_until(self, end):
        """An open field when packing; up to `end` when unpacking; the last field of the packet."""
        rng = self.rng
        self.between()
        f = dict(rng.choice([{"k": "bytes"}, self.str_kind()]), max=12, n=self.name())
        f["wp"], f["wu"] = span(self.cur, None), span(self.cur, end)
        self.add(f)
        self.cur = ["after", f["n"]]

    def b_vlist(self):
        rng = self.rng
        el, bits = self.element("delim")
        if bits == 0:
            return
        f = {"k": "list", "el": el, "n": self.name(), "max": 4}
        if bits is not None:
            f["per"] = self.whole(bits)
            if LONG[0] and bits <= 16 and el["k"] == "int" and rng.random() < 0.1:
                f["max"] = 240 // f["per"]
        add = rng.choice([0, 0, 0, 0, 1, 3])
        sbp, derive = self.length_source(f, 1, add)
        c = self.carrier(sbp, derive=derive)
        self.between()
        a = self.cur
        if bits is not None and bits % 8 == 0 and rng.random() < 0.5:
            e = self.num(c["n"])
            if add:
                e = ["-", e, ["c", add]]
            b = plus(a, ["*", e, ["c", bits // 8]] if bits > 8 else e)
            f["w"] = span(a, b)
            self.add(f)
            self.cur = self.after(f, b)
            return
        if not add and rng.random() < 0.3:
            f["n_"] = ["mfn", c["n"]]
            f["ua"] = [c["n"]]
        else:
            f["n_"] = ["-", self.num(c["n"]), ["c", add]] if add else self.num(c["n"])
        f["w"] = span(a, None)
        self.add(f)
        self.cur = ["after", f["n"]]

    def b_mopen(self):
        """A list whose elements lie in closed ranges first (in any order, with holes) and then in an open one."""
        rng = self.rng
        f = {"k": "list", "el": {"k": "int", "bits": 8, "end": "native", "sign": False}, "n": self.name(), "max": 7}
        sbp, derive = self.length_source(f, 1, 0)
        c = self.carrier(sbp, derive=derive, nbytes=1)
        self.between()
        parts, total = [], 0
        for _ in range(rng.choice([1, 1, 2, 3])):
            x = rng.randint(1, 2)
            total += x
            a = self.cur
            self.cur = plus(a, x)
            parts.append({"t": "b", "a": a, "b": self.cur, "one": None})
            if rng.random() < 0.4:
                self.cur = plus(self.cur, rng.randint(1, 2))
        rng.shuffle(parts)
        parts.append({"t": "b", "a": self.cur, "b": None, "one": None})
        f["min"] = total
        f["n_"] = self.num(c["n"])
        f["w"] = {"parts": parts, "join": rng.choice(["plus", "tuple", "tree"])}
        self.add(f)
        self.cur = ["after", f["n"]]

    def b_unaligned(self):
        """A field of whole bytes at a bit position inside its bytes, between two numbers."""
        rng = self.rng
        r = rng.random()
        if r < 0.35:
            f = {"k": "float", "end": rng.choice(["native", "big", "little"])}
            n = rng.choice([4, 8])
        elif r < 0.55:
            n = rng.choice([1, 2, 3, 4, 8])
            f = self.int_kind(n)
        elif r < 0.7:
            f, n = self.str_kind(), rng.randint(1, 4)
        elif r < 0.85:
            f, n = {"k": "bytes"}, rng.randint(1, 4)
        else:
            el, bits = {"k": "int", "bits": rng.choice([4, 8, 16]), "end": "native", "sign": False}, 0
            f, n = {"k": "list", "el": el}, 2 * rng.randint(1, 2)
            f["count"] = 8 * n // el["bits"]
        off = rng.randint(1, 7)
        a = self.cur
        self.cur = plus(a, n + 1)
        parent = [[a, self.cur, None]]
        at = lambda x, y: {"parts": [{"t": "bits", "bytes": parent, "sel": [[x, y]]}]}
        small = lambda: {"k": "int", "end": "native", "sign": False}
        fields = [(small(), at(0, off)), (f, at(off, off + 8 * n)), (small(), at(off + 8 * n, 8 * n + 8 if rng.random() < 0.5 else None))]
        if rng.random() < 0.3:
            fields.pop(rng.choice([0, 2]))
        rng.shuffle(fields)
        for g, w in fields:
            self.add(g, w)

    def b_bitat(self):
        """A bit whose place another field tells."""
        rng = self.rng
        n = rng.choice([1, 1, 2, 3])
        c = dict(self.int_kind(1, False), n=self.name(), range=[0, 8 * n - 1])
        self.add(c, self.take(1))
        self.between()
        a = self.cur
        self.cur = plus(a, n)
        parent = [[a, None, True]] if n == 1 else [[a, self.cur, None]]
        if n > 1 and rng.random() < 0.5:       # bytes apart from each other, in any order
            gap = rng.randint(0, 2)
            self.cur = plus(a, n + gap)
            parent = [[plus(a, n - 1 + gap), None, True], [a, plus(a, n - 1), None]]
            rng.shuffle(parent)
        self.add({"k": "int", "end": "native", "sign": False},
                 {"parts": [{"t": "bits", "bytes": parent, "sel": [{"e": self.num(c["n"])}]}]})

    def b_bitlen(self):
        """A number whose length in bits another field tells; what follows may begin inside a byte."""
        rng = self.rng
        f = {"k": "int", "end": "native", "sign": False, "n": self.name(), "free": 30}
        c = dict(self.int_kind(1, False), n=self.name(), derive=["bitlen", f["n"], rng.choice([0, 0, 1, 3])])
        self.add(c, self.take(1))
        self.between()
        a = self.cur
        e = self.num(c["n"])
        b = plus(a, ["/", e, ["c", 8]])
        f["w"] = span(a, b)
        self.add(f)
        r = rng.random()
        if r < 0.6:
            self.cur = plus(a, ["//", ["+", e, ["c", 7]], ["c", 8]])
        else:
            self.cur = ["after", f["n"]] if r < 0.85 else b
            self.frac = True

    def align(self):
        if self.frac:
            self.cur = ["//", ["+", ["*", self.cur, ["c", 8]], ["c", 7]], ["c", 8]]
            self.frac = False

    def b_vbuf(self):
        if self.depth <= 0:
            return self.b_openint()
        f = {"k": "buf", "p": self.nested("delim", self.depth), "n": self.name(), "w": span(self.cur, None)}
        self.add(f)
        self.cur = ["after", f["n"]]

    def b_openint(self):
        rng = self.rng
        n = rng.choice([1, 2, 3, 4, 8])
        f = dict(self.int_kind(n), bs=n, n=self.name(), w=span(self.cur, None))
        if rng.random() < 0.2:
            f = {"k": "float", "end": f["end"], "bs": rng.choice([4, 8]), "n": f["n"], "w": f["w"]}
            n = f["bs"]
        self.add(f)
        self.cur = ["after", f["n"]] if rng.random() < 0.6 else plus(self.cur, n)

    def b_opt(self):
        rng = self.rng
        flag = dict(self.int_kind(1, False), n=self.name(), flag=rng.choice([2, 2, 3]))
        if rng.random() < 0.4:
            bit = rng.randrange(8)
            flag["flag"] = 2
            flag["end"] = "native"
            w = {"parts": [{"t": "bits", "bytes": [[self.cur, None, True]], "sel": [bit]}]}
            self.cur = plus(self.cur, 1)
        else:
            w = self.take(1)
        self.add(flag, w)
        ref = self.num(flag["n"])
        conds = [ref, ["==", ["f", flag["n"]], ["c", 1]], ["!=", ["f", flag["n"]], ["c", 0]], ["<", ["c", 0], ["f", flag["n"]]],
                 [">", ["f", flag["n"]], ["c", 0]], [">=", ref, ["c", 1]], ["<=", ["c", 1], ["f", flag["n"]]], ["self", flag["n"]],
                 ["<", ["neg", ["f", flag["n"]]], ["c", 0]], ["<=", ["neg", ref], ["c", -1]], [">", ["c", 1], ["-", ["c", 1], ref]],
                 ["<", ["/", ["c", 2], ["+", ref, ["c", 1]]], ["c", 1.5]], ["<=", ["//", ["c", 5], ["+", ref, ["c", 1]]], ["c", 2]],
                 ["!=", ["*", ref, ["c", 3]], ["c", 0]], [">=", ["/", ["f", flag["n"]], ["c", 4]], ["c", 0.25]]]
        if "call" in self.feats:
            conds += [["call", "odd", ref], ["call", "positive", ref]]
        cond = rng.choice(conds)
        k = rng.randint(1, 4)
        f = rng.choice([self.int_kind(k), {"k": "bytes"}, self.str_kind()])
        f["n"] = self.name()
        if "default" in self.feats and rng.random() < 0.4:
            f["want_d"] = 1
        f["pif"] = f["uif"] = cond
        a = self.cur
        dense = self.want != "static" and flag["flag"] == 2 and rng.random() < 0.5
        if dense and rng.random() < 0.5 and f["k"] != "int":
            f["w"] = span(a, plus(a, ["*", ["f", flag["n"]], ["c", k]]))
            self.add(f)
            f2 = self.fields[-1]
            f2["fixed"] = k
            self.cur = plus(a, ["*", ref, ["c", k]])
            return
        f["w"] = span(a, plus(a, k))
        f["fixed"] = k
        if self.want == "static" and rng.random() < 0.3:
            f.pop(rng.choice(["pif", "uif"]))
        self.add(f)
        self.cur = plus(a, ["*", ref, ["c", k]]) if dense else plus(a, k)

    def alts(self, want):
        n = self.rng.randint(1, 3)
        return [self.nested(want, self.depth) for _ in range(n)]

    def b_sel(self):
        if self.depth <= 0:
            return self.b_int()
        rng = self.rng
        static = self.want == "static" or rng.random() < 0.4
        alts = self.alts("static" if static else "delim")
        f = {"k": "buf", "p": alts[0], "n": self.name()}
        key = dict(self.int_kind(1, False), n=self.name(), derive=["key", f["n"]])
        self.add(key, self.take(1))
        f["sel"] = {"by": key["n"], "how": rng.choice(["type", "pair", "listpair"]), "alts": alts}
        f["ua"] = [key["n"]]
        if rng.random() < 0.25:      # the selector may say there is none
            f["sel"]["none"] = rng.choice([64, 128])
            f["pif"] = [">=", self.num(key["n"]), ["c", f["sel"]["none"]]]
        sizes = set(self.types[a].static_size for a in alts)
        if "pif" in f and self.want != "static":
            self.align()
            f["w"] = span(self.cur, None)
            self.closed = True
            self.add(f)
        elif len(sizes) == 1 and None not in sizes:
            f["w"] = self.take(sizes.pop())
            self.add(f)
        elif self.want == "static":
            f["sel"]["alts"] = [alts[0]]
            f["w"] = self.take(self.types[alts[0]].static_size)
            self.add(f)
        else:
            f["w"] = span(self.cur, None)
            self.add(f)
            self.cur = ["after", f["n"]]

    def b_lsel(self):
        if self.depth <= 0:
            return self.b_vlist()
        rng = self.rng
        alts = [a for a in self.alts("delim") if takes_bytes(self.types[a])]
        if not alts:
            return self.b_vlist()
        f = {"k": "list", "el": {"k": "buf", "p": alts[0]}, "n": self.name(), "max": 4}
        if rng.random() < 0.5:
            f["sel"] = {"by": None, "how": rng.choice(["type", "pair"]), "alts": alts}
        else:
            key = dict(self.int_kind(1, False), n=self.name(), derive=["key", f["n"]])
            self.add(key, self.take(1))
            f["sel"] = {"by": key["n"], "how": rng.choice(["type", "pair"]), "alts": alts}
            f["ua"] = [key["n"]]
        sbp, derive = self.length_source(f, 1, 0)
        c = self.carrier(sbp, derive=derive)
        f["n_"] = self.num(c["n"])
        f["w"] = span(self.cur, None)
        self.add(f)
        self.cur = ["after", f["n"]]

    # greedy ones (last in the packet)
    def b_tail(self):
        rng = self.rng
        self.align()
        r = rng.random()
        w = span(self.cur, None)
        self.closed = True
        if r < 0.5:
            k = rng.choice(["str", "bytes", "json"])
            f = self.str_kind() if k == "str" else {"k": k}
            f["max"] = 16
            if r < 0.15 and k == "bytes":
                a = self.cur
                w = {"parts": [{"t": "b", "a": a, "b": plus(a, 2), "one": None}, {"t": "b", "a": plus(a, 3), "b": None, "one": None}],
                     "join": rng.choice(["plus", "tuple", "tree"])}
                f["min"] = rng.choice([2, 3])
        elif r < 0.8 or self.depth <= 0:
            el, bits = self.element("delim")
            f = {"k": "list", "el": el, "max": 4}
            if bits is not None:
                f["per"] = self.whole(bits)
            if bits == 0:
                f = {"k": "bytes", "max": 8}
        else:
            f = {"k": "buf", "p": self.nested("delim", self.depth)}
        if rng.random() < 0.08:
            f = {"k": "float", "end": rng.choice(["native", "big", "little"])}
        self.add(f, w)

    def b_trailer(self):
        """An open field followed by one at the end of the packet."""
        rng = self.rng
        self.align()
        self.closed = True
        k = rng.choice([1, 2, 4])
        f = dict(rng.choice([{"k": "bytes"}, self.str_kind()]), max=12, n=self.name())
        f["wp"], f["wu"] = span(self.cur, None), span(self.cur, ["-", ["inlen"], ["c", k]])
        self.add(f)
        if rng.random() < 0.3:
            t = {"k": "bytes", "min": k, "max": k, "n": self.name()}
        else:
            t = dict(self.int_kind(k), n=self.name())
        t["wp"] = span(["after", f["n"]], plus(["after", f["n"]], k))
        t["wu"] = span(["-", ["inlen"], ["c", k]], ["inlen"] if rng.random() < 0.5 else None)
        if t["wu"]["parts"][0]["b"] is None:
            t["bs"] = k
        self.add(t)


def takes_bytes(p):
    """Whatever its values, the packet takes at least one byte."""
    for f in p.fields:
        if f.get("pif") is None and f.get("w") and const_pos(f["w"]) and max(b or 0 for a, b in Eval(p, {}).ranges(f)) > 0:
            return True
    return False


def iskeyword(n):
    import keyword
    return keyword.iskeyword(n)


def expr_deps(e, out):
    if not isinstance(e, list) or not e:
        return
    op = e[0]
    if op in ("f", "after") or (op == "len" and e[2] == "field"):
        out.add(e[1])
    elif op in ("+", "-", "*", "//", "/", "min", "max", "==", "!=", "<", ">", "<=", ">=", "neg"):
        for x in e[1:]:
            expr_deps(x, out)
    elif op == "call":
        expr_deps(e[2], out)
    elif op in ("tcall", "truth"):
        for x in e[2:]:
            expr_deps(x, out)
    elif op == "ref":
        expr_deps(e[1], out)


def deps(f):
    """Names of the fields whose declaration this field's declaration mentions directly."""
    out = set(f.get("ua") or ())
    for w in (f.get("w"), f.get("wp"), f.get("wu")):
        if w:
            for p in w["parts"]:
                for a, b in ([(p["a"], p["b"])] if p["t"] == "b" else [x[:2] for x in p["bytes"]]):
                    expr_deps(a, out)
                    expr_deps(b, out)
                for x in p.get("sel") or ():
                    if isinstance(x, dict):
                        expr_deps(x["e"], out)
    for k in ("pif", "uif", "sbp", "sau", "n_"):
        if f.get(k):
            expr_deps(f[k], out)
    return out


# ---- values -----------------------------------------------------------------------------------------------------------
def gen_int(f, bits, rng):
    if f.get("flag"):
        return rng.randrange(f["flag"])
    if f.get("small"):
        return rng.randrange(100)
    if f.get("range"):
        return rng.randint(*f["range"])
    if f.get("free"):
        return rng.getrandbits(rng.randint(1, f["free"]))
    signed = f["sign"] and bits in (8, 16, 32, 64)
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    r = rng.random()
    if r < 0.15:
        return lo
    if r < 0.3:
        return hi
    if r < 0.4:
        return min(hi, 1)
    if r < 0.5 and signed:
        return -1
    return rng.randint(lo, hi)


def gen_text(f, n, rng, exact=False):
    """A string of n bytes when encoded (at most n, unless exact)."""
    if not exact:
        n = rng.choice([n, n, rng.randint(0, n)])
    bad = set(bytes.fromhex(f["pad"]) + bytes.fromhex(f["strip"]))
    out = ""
    size = 0
    while size < n:
        r = rng.random()
        if f["enc"] == "ascii" or r < 0.5:
            c = chr(rng.choice([rng.randint(33, 126), rng.randint(33, 126), 32, 0, 9]))
        elif f["enc"] == "latin-1":
            c = chr(rng.randint(160, 255))
        else:
            c = chr(rng.choice([0xe9, 0x20ac, 0x1f600, 0x7ff, 0xfffd]))
        b = c.encode(f["enc"])
        if size + len(b) > n:
            c, b = "x", b"x"
        edge = (f["just"] != "left" and size == 0) or (f["just"] != "right" and size + len(b) >= n)
        if edge and set(b) & bad:
            c, b = "y", b"y"
        out += c
        size += len(b)
    return out


def gen_json(rng, depth=2):
    r = rng.random() if depth < 2 else rng.uniform(0.1, 1)
    if r < 0.25:
        return rng.randint(-99, 9999)
    if r < 0.4:
        return rng.choice([None, True, False])
    if r < 0.6 or depth == 0:
        return "".join(rng.choice("ab \u00e9\"\\z") for _ in range(rng.randint(0, 5)))
    if r < 0.8:
        return [gen_json(rng, depth - 1) for _ in range(rng.randint(0, 3))]
    return dict((rng.choice("abcd"), gen_json(rng, depth - 1)) for _ in range(rng.randint(0, 3)))


def gen_packet_value(types, name, rng):
    return {"p": name, "v": gen_value(types[name], rng)}


def gen_field(p, f, rng, alt=None):
    """A value for field f of layout p (not for derived fields)."""
    k = f["k"]
    e = Eval(p, {})
    width = f.get("fixed")
    if width is None and not f.get("max"):
        try:
            w = f.get("w") or f["wp"]
            if all(x["t"] == "bits" for x in w["parts"]):
                w = {"parts": [shift_to_const(x) for x in w["parts"]]}
                rs = [r for x in w["parts"] for r in e.part(x)]
                bits = sum(b - a for a, b in rs)
            else:
                bits = sum(8 if x.get("one") else 8 * const_len(x["a"], x["b"]) for x in w["parts"])
        except (Bad, TypeError):
            bits = None
    else:
        bits = None if width is None else 8 * width
    if k == "int":
        if bits is None and not f.get("bs") and not f.get("free"):
            raise Bad("layout", pyjson.dumps(f))
        return gen_int(f, 8 * f["bs"] if f.get("bs") else bits, rng)
    if k == "float":
        n = f.get("bs") or (4 if bits is None else bits // 8)
        x = rng.choice([0.0, 1.0, -1.5, 3.25, 1e10, -0.0, rng.uniform(-1e6, 1e6), float("inf")])
        return f32(x) if n == 4 else x
    if k == "str":
        if bits is not None:
            return gen_text(f, bits // 8, rng)
        return gen_text(f, rng.choice([0, 1, rng.randint(0, f["max"])]), rng, exact=True)
    if k == "json":
        for _ in range(30):
            v = gen_json(rng)
            if v is not None and len(pyjson.dumps(v)) <= (bits // 8 if bits is not None else f["max"]):
                return {"j": v}
        return {"j": 1}
    if k == "bytes":
        if bits is not None:
            n = bits // 8
        else:
            n = rng.choice([0, 1, rng.randint(0, f["max"])])
            n = max(f.get("min", 0), n // f.get("unit", 1) * f.get("unit", 1))
        return {"b": bytes(rng.choice([0, 255, rng.randrange(256), rng.randrange(256)]) for _ in range(n)).hex()}
    if k == "buf":
        name = f["p"] if not f.get("sel") else f["sel"]["alts"][alt % len(f["sel"]["alts"])]
        return gen_packet_value(p.env_types, name, rng)
    el = f["el"]
    if f.get("count") is not None:
        n = f["count"]
    else:
        per = f.get("per", 1)
        n = rng.choice([0, 1, 2, rng.randint(0, f["max"])]) * per
        if n > f["max"] * max(1, per):
            n = per
        n = max(n, f.get("min", 0))
    out = []
    for i in range(n):
        if el["k"] == "int":
            out.append(gen_int(el, el["bits"], rng))
        elif el["k"] == "user":
            out.append(rng.choice([rng.randrange(128), rng.randrange(1 << 15)]) if el["how"] == "num" else
                       {"b": bytes(rng.randrange(256) for _ in range(rng.randint(0, 3))).hex()})
        elif el["k"] == "str":
            out.append(gen_text(el, el["size"], rng))
        else:
            name = el["p"]
            if f.get("sel"):
                key = i if f["sel"]["by"] is None else alt
                name = f["sel"]["alts"][key % len(f["sel"]["alts"])]
            out.append(gen_packet_value(p.env_types, name, rng))
    return out


def const_len(a, b):
    """b - a when both move together."""
    def split(e):
        if e is None:
            return [], 0
        if e[0] == "c":
            return [], e[1]
        if e[0] == "+" and e[2][0] == "c":
            x, n = split(e[1])
            return x, n + e[2][1]
        return [e], 0
    if b is None:
        raise Bad("layout")
    xa, na = split(a)
    xb, nb = split(b)
    if xa != xb:
        raise Bad("layout")
    return nb - na


def shift_to_const(x):
    out = []
    at = 0
    for a, b, one in x["bytes"]:
        n = 1 if one else const_len(a, b)
        out.append([["c", at], ["c", at + n], None])
        at += n
    return {"t": "bits", "bytes": out, "sel": [0 if isinstance(y, dict) else y for y in x["sel"]]}


def gen_value(p, rng, keep=None):
    """Values of all fields the application sets."""
    for _ in range(60 if p.spec.get("roomy") else 1):
        v = some_value(p, rng)
        if not p.spec.get("roomy") or fits(p, v):
            break
    return v


def fits(p, v):
    """Within the size the type declares."""
    try:
        p.pack(with_defaults(p, v))
        return True
    except Bad as e:
        return "declared size" not in str(e)


def some_value(p, rng):
    out = {}
    alt = {}
    for f in p.fields:
        d = f.get("derive")
        if d and d[0] == "key":
            alt[d[1]] = rng.randrange(256)
            out[f["n"]] = alt[d[1]]
    for f in p.fields:
        if f.get("sbp") is not None or f.get("derive"):
            continue
        if "d" in f and rng.random() < 0.4:
            continue
        out[f["n"]] = gen_field(p, f, rng, alt.get(f["n"]))
    derive(p, out)
    # absent fields have no value
    e = Eval(p, with_defaults(p, out))
    for f in p.fields:
        if f.get("pif") is not None and not e.present(f):
            if rng.random() < 0.7:
                out[f["n"]] = None
    return out


def derive(p, out):
    """What the application has to keep consistent itself."""
    full = with_defaults(p, out)
    for f in p.fields:
        d = f.get("derive")
        if d and d[0] == "len":
            out[f["n"]] = enclen(p.by[d[1]], full.get(d[1])) * d[2] + d[3]
        elif d and d[0] == "bitlen":
            out[f["n"]] = max(1, full[d[1]].bit_length()) + d[2]
        elif d and d[0] == "words":
            out[f["n"]] = enclen(p.by[d[1]], full.get(d[1])) // d[2] + d[3]
    return out


def with_defaults(p, values):
    out = dict((f["n"], f.get("d")) for f in p.fields)
    out.update(values)
    return out


def expected(p, values):
    """(bytes, attributes of the packed object afterwards, attributes after unpacking those bytes, size)"""
    raw, attrs, e = p.pack(with_defaults(p, values))
    back, size = p.unpack(raw)
    return raw, after_pack(p, attrs, e), back, size


def after_pack(p, attrs, e):
    """What the packed object and the packets in it hold afterwards."""
    return dict((f["n"], object_attrs(p.env_types, attrs[f["n"]], e.present(f))) for f in p.fields)


def object_attrs(types, v, packed=False):
    """The attributes of an object made from values (and packed)."""
    if isinstance(v, list):
        return [object_attrs(types, x, packed) for x in v]
    if isinstance(v, dict) and "p" in v:
        q = types[v["p"]]
        full = with_defaults(q, v["v"])
        if packed:
            _, attrs, e = q.pack(full)
            return {"p": v["p"], "v": after_pack(q, attrs, e)}
        return {"p": v["p"], "v": initial(q, v["v"])}
    return v


def initial(p, values):
    return dict((n, object_attrs(p.env_types, x)) for n, x in with_defaults(p, values).items())


def valid_value(p, v):
    try:
        raw, attrs, back, size = expected(p, v)
    except (Bad, KeyError, TypeError, ValueError, AttributeError, OverflowError):
        return False
    if size != len(raw):
        return False
    # what was assigned comes back, unless a converter changes it or the layout computes it
    e = Eval(p, with_defaults(p, v))
    for f in p.fields:
        if not e.present(f):
            if back[f["n"]] is not None:
                return False
        elif f.get("sau") is None and not same_loose(p, f, attrs[f["n"]], back[f["n"]]):
            return False
    return True


def same_loose(p, f, a, b):
    """Equal values; nested packets compared as their own layout would show them after unpacking."""
    if f["k"] == "buf" and isinstance(a, dict) and isinstance(b, dict):
        return same_packet(p.env_types, a, b)
    if f["k"] == "list" and f["el"]["k"] == "buf":
        return len(a) == len(b) and all(same_packet(p.env_types, x, y) for x, y in zip(a, b))
    return same(a, b)


def same_packet(types, a, b):
    if a["p"] != b["p"]:
        return False
    return same(expected(types[a["p"]], a["v"])[2], b["v"])


def check_spec(specs):
    """The layouts are well formed: references resolve, in declaration order."""
    try:
        t = Types(specs)
        for p in t.all:
            seen = set()
            for f in p.fields:
                if f["n"] in seen or not deps(f) <= seen:
                    return False
                seen.add(f["n"])
            if not p.fields or (p.spec.get("base") or 0) > len(p.fields):
                return False
        return bool(t.top)
    except (KeyError, TypeError, ValueError, Bad, IndexError):
        return False


def feats(rng, must=(), never=(), keep=0.6):
    f = set(x for x in ALL if rng.random() < keep)
    return (f | set(must)) - set(never)


def gen_types(rng, n, must=(), never=(), want="any", size=6, depth=2, keep=0.6):
    """-> list of specs, nested ones first."""
    g = Gen(rng, feats(rng, must, never, keep), size)
    tops = []
    for i in range(n):
        w = want if isinstance(want, str) else rng.choice(want)
        tops.append(g.packet("T%d" % i, w, depth))
    specs = g.inner + tops
    for s in specs:
        p = g.types[s["name"]]
        for f in s["fields"]:
            if f.pop("want_d", None):
                f["d"] = gen_field(p, f, rng)
    return specs


def name_deps(spec):
    """Names of the layouts a layout uses."""
    out = set()
    for f in spec["fields"]:
        if f["k"] == "buf":
            out.add(f["p"])
        if f["k"] == "list" and f["el"]["k"] == "buf":
            out.add(f["el"]["p"])
        if f.get("sel"):
            out.update(f["sel"]["alts"])
    return out


def sub_exprs(f):
    """Every expression node in the declaration of a field."""
    def walk(x):
        if isinstance(x, list):
            if x and isinstance(x[0], str):
                yield x
            for y in x:
                for z in walk(y):
                    yield z
        elif isinstance(x, dict):
            for y in x.values():
                for z in walk(y):
                    yield z
    for k in ("w", "wp", "wu", "pif", "uif", "sbp", "sau", "n_"):
        for e in walk(f.get(k)):
            yield e


def owners(p, kind, what):
    """Fields of p whose declaration calls this application code."""
    out = set()
    for f in p.fields:
        if kind in ("sel", "conv"):
            if f["n"] == what:
                out.add(f["n"])
            continue
        if kind == "elem":
            if f["k"] == "list" and f["el"]["k"] == "user" and f["el"]["how"] == what:
                out.add(f["n"])
            continue
        for e in sub_exprs(f):
            if kind == "fn" and e[0] == "fn" and e[2] == what or kind == "mfn" and e[0] == "mfn" and e[1] == what \
                    or kind == "call" and e[0] == "call" and e[1] == what:
                out.add(f["n"])
    return out


def dependents(p, names):
    """These fields and all whose evaluation may need them."""
    out = set(names)
    grew = True
    while grew:
        grew = False
        for f in p.fields:
            if f["n"] in out:
                continue
            need = set(f.get("ua") or ())
            every = False
            for e in sub_exprs(f):
                if e[0] in ("f", "num", "self", "len", "after", "mfn"):
                    need.add(e[1])
                if e[0] == "fn":
                    need.add(e[2])
                every |= e[0] == "total"
            if need & out or (every and out):
                out.add(f["n"])
                grew = True
    return out


def embeds(types, p, name):
    """Fields of p that hold packets of layout `name`, directly or deeper."""
    out = set()
    for f in p.fields:
        for q in name_deps({"fields": [f]}):
            if q == name or embeds(types, types[q], name):
                out.add(f["n"])
    return out


def blamed(types, p, kind, where, what):
    """Fields of p an error in that application code may be reported for."""
    if where == p.name:
        return dependents(p, owners(p, kind, what))
    return dependents(p, embeds(types, p, where))
