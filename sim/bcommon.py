"""Helpers shared by the checks of packet layouts (the Buffer side)."""
from . import bspec, sspec
from .common import explain, choices, net, schedule, explore     # noqa: F401
from .world import Violation


def env_for(ctx, callback=None):
    return sspec.Env(ctx.inst, callback)


def gen_types(rng, n, **kw):
    kw.setdefault("want", ["static", "delim", "any"])
    kw.setdefault("keep", rng.choice([0.3, 0.6, 0.95]))
    kw.setdefault("size", rng.choice([1, 2, 3, 6]))
    return bspec.gen_types(rng, n, **kw)


def build(specs, env):
    return bspec.Types(specs).build(env)


def gen_value(p, rng):
    """A value the layout can carry (the reference codec says so); None if none was found."""
    for _ in range(12):
        v = bspec.gen_value(p, rng)
        if bspec.valid_value(p, v):
            return v
    return None


def gen_typed(rng, specs_n, **kw):
    """(specs, Types) such that every top layout has at least one value."""
    while True:
        specs = gen_types(rng, specs_n, **kw)
        t = bspec.Types(specs)
        if all(gen_value(p, rng) is not None for p in t.top):
            return specs, t


def gen_seq(rng, types, n):
    out = []
    for _ in range(n):
        t = rng.randrange(len(types.top))
        v = gen_value(types[t], rng)
        if v is not None:
            out.append([t, v])
    return out


def valid_types(specs):
    return bool(specs) and bspec.check_spec(specs)


def valid_seq(specs, seq):
    t = bspec.Types(specs)
    return all(bspec.valid_value(t[i], v) for i, v in seq)


RECEIVE = ("bytes", "bytearray", "memoryview", "bitview", "window")


def receive_buffer(kind, data):
    """The bytes as the kind of object a transport hands to the application."""
    if kind == "bytearray":
        return bytearray(data)
    if kind == "memoryview":
        return memoryview(bytes(data))
    if kind == "window":         # a part of a bigger receive buffer
        return memoryview(bytearray(b"\xa5\x5a\xff" + bytes(data) + b"\x3c"))[3:-1]
    if kind == "bitview":
        from infi.instruct.buffer.io_buffer import BitView
        return BitView(b"\xa5\x5a\xff" + bytes(data), 3)
    return bytes(data)


def check_attrs(kind, want, p, o):
    try:
        got = p.attrs(o)
    except Violation:
        raise
    except Exception as e:
        raise Violation(kind, "unreadable packet: %s" % explain(e))
    d = sspec.diff(want, got)
    if d:
        raise Violation(kind, "%s: %s" % (p.name, d))


def pack(kind, p, o):
    try:
        return o.pack()
    except Violation:
        raise
    except Exception as e:
        raise Violation(kind, "packing %s: %s" % (p.name, explain(e)))


def check_pack(p, v, o, prefix="", model=None):
    """Packs o (holding v); bytes and values must be those of the layout."""
    raw, attrs, _, _ = model or bspec.expected(p, v)
    got = pack(prefix + "pack-failed", p, o)
    if not isinstance(got, bytearray):
        raise Violation(prefix + "wrong-type", "pack() gave a %s" % type(got).__name__)
    if bytes(got) != raw:
        raise Violation(prefix + "wrong-bytes", "declared layout of %s %s, packed %s" % (p.name, raw.hex(), bytes(got).hex()))
    check_attrs(prefix + "values-changed", attrs, p, o)
    return bytes(got)


def unpack(kind, p, o, data):
    try:
        return o.unpack(data)
    except Violation:
        raise
    except Exception as e:
        raise Violation(kind, "unpacking %s: %s" % (p.name, explain(e)))


def check_unpack(p, want, size, data, o=None, prefix=""):
    o = p.new() if o is None else o
    n = unpack(prefix + "unpack-failed", p, o, data)
    check_attrs(prefix + "wrong-value", want, p, o)
    if n != size or not isinstance(n, int):
        raise Violation(prefix + "wrong-size", "%s occupies %d bytes, unpack() says %r" % (p.name, size, n))
    return o


def still_works(types, seq, prefix="afterwards-"):
    """The layouts pack and unpack other packets correctly (used after something went wrong)."""
    for t, v in seq:
        p = types[t]
        raw, _, back, size = bspec.expected(p, v)
        check_pack(p, v, p.to_py(v), prefix)
        check_unpack(p, back, size, raw, None, prefix)


def chained(e, exc):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        if x is exc:
            return True
        seen.add(id(x))
        todo += [x.__cause__, None if x.__suppress_context__ else x.__context__]
    return False
