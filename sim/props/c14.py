"""C14: packets own their data."""
from .. import bcommon as bc, bspec, common, kernel
from ..world import Violation

RUNS = {"quick": 4000, "thorough": 100000}
RULE = ("one evaluation = one simulated run: a sender packs packets into a transmit queue and goes on changing them, a network card copies "
        "queued packets into a small ring of receive buffers that it reuses, overwrites and resizes, and an application unpacks from the ring, "
        "keeps, changes and packs what it received, in an order chosen by the scheduler; after every step every packet, every packed buffer and "
        "every receive buffer must still hold exactly what it should; non-trivial = a kept packet saw its receive buffer reused, counted "
        "distinct by (layouts, values, order of steps)")
MEASURE = "distinct (layouts, values, order of steps) triples"
REAL = ["infi.instruct.buffer: macros, metaclass, field references, packers and unpackers, input and output buffers, bit views"]
STUB = ["network card with a ring of receive buffers (simulated)", "task scheduler (simulated)"]
ASSUMPTIONS = ["a receive buffer is not overwritten while it is being unpacked (that is the transport's contract)",
               "CPython 3.12 stands for the interpreters the library runs on"]

KINDS = ("bytearray", "memoryview", "slice", "bitview", "bitaware", "window")
MARGIN = {"window": (b"\x99\x5a\xff", b"\x3c\x7e")}     # what surrounds the packet in the receive buffer


def gen(rng, tier, idx):
    specs, types = bc.gen_typed(rng, rng.choice([1, 1, 2, 3]))
    return {"types": specs, "seq": bc.gen_seq(rng, types, rng.randint(2, 6)),
            "ring": [rng.choice(KINDS) for _ in range(rng.choice([1, 1, 2, 3]))],
            "reuse": [rng.choice(["garbage", "resize", "clear", "none"]) for _ in range(rng.randint(1, 4))],
            "sender": [rng.choice(["values", "packed", "both", "none"]) for _ in range(rng.randint(1, 4))],
            "app": [rng.choice(["keep", "keep", "change", "pack-change", "change-packed", "again"]) for _ in range(rng.randint(1, 5))],
            "seed": rng.randrange(1 << 20), "schedule": {"choices": common.choices(rng, 30)}}


def valid(scn):
    return bc.valid_types(scn["types"]) and bool(scn["ring"] and scn["app"] and scn["sender"] and scn["reuse"]) and bc.valid_seq(scn["types"], scn["seq"])


def scramble(x, depth=0):
    """Changes every mutable part of a value in place."""
    if isinstance(x, bytearray):
        for i in range(len(x)):
            x[i] ^= 0xff
        x += b"\xee"
    elif isinstance(x, list):
        for y in x:
            scramble(y, depth + 1)
        x.append(None)
        x.reverse()
    elif isinstance(x, dict):
        for y in x.values():
            scramble(y, depth + 1)
        x["scrambled"] = 1
    elif hasattr(x, "pack") and hasattr(type(x), "byte_size"):
        scramble_packet(x, depth)


def scramble_packet(o, depth=0):
    for n in sorted(vars(o)):
        v = getattr(o, n)
        scramble(v, depth + 1)
    for n in sorted(vars(o)):
        if isinstance(getattr(o, n), (int, float, str)):
            setattr(o, n, 1)


class Tracked(object):
    """Everything whose contents are known."""

    def __init__(self, ctx):
        self.packets = []          # [type, object, attrs]
        self.buffers = []          # [name, buffer, bytes]
        self.ctx = ctx

    def forget(self, o):
        self.packets = [x for x in self.packets if x[1] is not o]
        self.buffers = [x for x in self.buffers if x[1] is not o]

    def check(self, what):
        for name, b, want in self.buffers:
            if bytes(b) != want:
                raise Violation("buffer-changed", "%s changed by %s: %s, was %s" % (name, what, bytes(b).hex(), want.hex()))
        for p, o, want in self.packets:
            bc.check_attrs("packet-changed", want, p, o) if not what else self.attrs(p, o, want, what)
        self.ctx.add("steps")

    def attrs(self, p, o, want, what):
        try:
            bc.check_attrs("packet-changed", want, p, o)
        except Violation as v:
            raise Violation(v.kind, "by %s: %s" % (what, v.detail))


def run(scn, ctx):
    env = bc.env_for(ctx)
    types = bc.build(scn["types"], env)
    sim = kernel.Sim(scn.get("schedule"))
    env.callback = lambda kind, name, obj=None: sim.point(kind)
    tracked = Tracked(ctx)
    env.keep = lambda data: tracked.buffers.append(["an element packed by the application", data, bytes(data)])
    queue = []
    ring = [None] * len(scn["ring"])       # None = free, else (t, v, bytearray, handed-out view)
    state = {"sent": False, "nic": False}

    def sender():
        for i, (t, v) in enumerate(scn["seq"]):
            p = types[t]
            raw, attrs, _, _ = bspec.expected(p, v)
            o = p.to_py(v)
            packed = bc.pack("pack-failed", p, o)
            if bytes(packed) != raw:
                raise Violation("wrong-bytes", "%s / %s" % (raw.hex(), bytes(packed).hex()))
            again = bc.pack("pack-failed", p, o)
            if again is packed:
                raise Violation("shared-output", "packing twice gave the same buffer object")
            tracked.packets.append([p, o, attrs])
            tracked.buffers.append(["packed bytes", packed, raw])
            tracked.buffers.append(["packed bytes", again, raw])
            how = scn["sender"][i % len(scn["sender"])]
            if how in ("packed", "both"):
                tracked.forget(again)
                scramble(again)
                tracked.check("changing packed bytes")
            queue.append((t, v, packed, raw))
            sim.choose()
            if how in ("values", "both"):
                tracked.forget(o)
                scramble_packet(o)
                sim.fault("sender-changes-packet")
                tracked.check("changing the packet after packing")
            sim.choose()
        state["sent"] = True

    def nic():
        slot = 0
        for i in range(len(scn["seq"])):
            sim.wait(lambda: queue, "transmit queue")
            t, v, packed, raw = queue.pop(0)
            sim.wait(lambda: ring[slot] is None or ring[slot][0] is None, "free receive buffer")
            if bytes(packed) != raw:
                raise Violation("buffer-changed", "queued packet changed")
            old = ring[slot]
            if old is not None:
                reuse(old, scn["reuse"][i % len(scn["reuse"])], sim)
                tracked.check("reusing a receive buffer")
                ctx.add("reused")
            kind = scn["ring"][slot]
            before, after = MARGIN.get(kind, (b"", b""))
            whole = before + raw + after
            buf = bytearray(whole) if old is None else refill(old, whole)
            ring[slot] = [t, v, buf, view(kind, buf), whole]
            slot = (slot + 1) % len(ring)
            sim.choose()
        state["nic"] = True

    def app():
        slot = 0
        kept = []
        for i in range(len(scn["seq"])):
            sim.wait(lambda: ring[slot] is not None and ring[slot][0] is not None, "packet")
            t, v, buf, handed, raw = ring[slot]
            p = types[t]
            _, _, back, size = bspec.expected(p, v)
            how = scn["app"][i % len(scn["app"])]
            o = kept[-1][1] if how == "again" and kept and kept[-1][0] is p else p.new()
            tracked.forget(o)
            bc.check_unpack(p, back, size, handed, o)
            if bytes(buf) != raw:
                raise Violation("input-changed", "unpacking changed the bytes it read: %s, was %s" % (bytes(buf).hex(), raw.hex()))
            tracked.packets.append([p, o, back])
            tracked.check("unpacking")
            kept.append((p, o))
            if how == "change":
                twin = p.new()
                bc.check_unpack(p, back, size, handed, twin)
                tracked.forget(o)
                scramble_packet(o)
                sim.fault("application-changes-packet")
                tracked.packets.append([p, twin, back])
                tracked.check("changing an unpacked packet")
                if bytes(buf) != raw:
                    raise Violation("input-changed", "changing an unpacked packet changed the receive buffer")
            elif how in ("pack-change", "change-packed"):
                try:
                    out = o.pack()
                except Violation:
                    raise
                except Exception:
                    out = None          # what was unpacked need not be packable (converters)
                if out is not None:
                    tracked.forget(o)
                    attrs = p.attrs(o)
                    copy = bytes(out)
                    if how == "pack-change":
                        tracked.buffers.append(["packed bytes", out, copy])
                        scramble_packet(o)
                    else:
                        tracked.packets.append([p, o, attrs])
                        scramble(out)
                    sim.fault("application-changes-packet")
                    tracked.check("changing a packet or its packed bytes")
            ring[slot][0] = None      # the network card may have the buffer
            slot = (slot + 1) % len(ring)
            sim.choose()

    sim.spawn("sender", sender)
    sim.spawn("nic", nic)
    sim.spawn("app", app)
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
    for old in ring:
        if old is not None:
            reuse(old, "garbage", sim)
    tracked.check("overwriting the receive buffers")
    ctx.seen(scn["types"], scn["seq"], sim.inter.hexdigest(), scn["app"], scn["ring"])


def view(kind, buf):
    from infi.instruct.buffer.io_buffer import BitAwareByteArray, BitView
    if kind == "memoryview":
        return memoryview(buf)
    if kind == "window":
        return memoryview(buf)[len(MARGIN[kind][0]):len(buf) - len(MARGIN[kind][1])]
    if kind == "slice":
        return memoryview(buf)[0:len(buf)]
    if kind == "bitview":
        return BitView(buf)
    if kind == "bitaware":
        return BitAwareByteArray(buf)
    return buf


def reuse(slot, how, sim):
    buf = slot[2]
    for i in range(len(buf)):
        buf[i] ^= 0xff
    sim.fault("receive-buffer-overwritten")
    if isinstance(slot[3], memoryview):
        slot[3].release()
    if how in ("resize", "clear"):
        try:
            if how == "clear":
                del buf[:]
            else:
                buf[0:0] = b"\xdd\xcc\xbb"
            sim.fault("receive-buffer-resized")
        except BufferError:
            sim.fault("receive-buffer-pinned")


def refill(slot, raw):
    buf = slot[2]
    try:
        buf[:] = raw
        return buf
    except BufferError:
        return bytearray(raw)
