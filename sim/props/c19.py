"""C19: a bit-addressed byte buffer behaves as the sequence of bits it stands for."""
from .. import common
from ..world import Violation

RUNS = {"quick": 120000, "thorough": 700000}
RULE = ("one evaluation = one history of slicing, assignment, deletion, insertion, extension, concatenation, zero-filling and viewing over "
        "several bit-addressed buffers at any bit position, with sources that fail part-way or hold values that do not fit; every live "
        "buffer is compared bit for bit with a plain list of bits after each step; distinct by history")
MEASURE = "distinct (operation, alignment of start and end, alignment of the buffer, outcome) combinations plus distinct histories"
REAL = ["infi.instruct buffer side: BitView, BitAwareByteArray"]
STUB = ["data sources (iterators that fail when told to)"]
ASSUMPTIONS = ["positions and lengths are multiples of one bit", "an index addresses the up to eight bits that follow it",
               "an integer assigned to a range fills the range with its binary representation, lowest bit first"]


class SourceFault(Exception):
    pass


def r8(rng, n):
    """A bit position in 0..n, byte positions favoured."""
    if rng.random() < 0.35:
        return 8 * rng.randint(0, n // 8)
    return rng.randint(0, n)


def rb(rng, n):
    mode = rng.random()
    if mode < 0.3:
        return bytes([255]) * n
    return bytes(rng.randrange(256) for _ in range(n))


def source(rng, maxbytes=4):
    """Where data comes from."""
    kind = rng.choice(["view", "view", "view", "aware", "bytes", "bytearray", "list", "iter", "pool"])
    n = rng.choice([0, 1, 1, 2, 3, maxbytes])
    s = {"src": kind, "data": rb(rng, n).hex()}
    if kind in ("view", "aware"):
        a = r8(rng, 8 * n)
        s["a"] = a
        s["b"] = rng.randint(a, 8 * n)
        if kind == "view":
            s["over"] = rng.choice(["bytes", "bytearray", "list", "tuple", "memoryview", "view"])
    elif kind == "pool":
        s["i"] = rng.randrange(3)
        s["x"] = rng.randint(0, 40)
        s["y"] = rng.randint(0, 40)
        s["whole"] = rng.random() < 0.3
    if kind in ("list", "iter", "bytes", "bytearray") and rng.random() < 0.2:
        s["fail"] = rng.randint(0, n)
        s["how"] = rng.choice(["raise", "big", "neg"]) if kind in ("list", "iter") else None
        if s["how"] is None:
            del s["fail"], s["how"]
    return s


def gen(rng, tier, idx):
    ops = []
    bufs = []
    for _ in range(rng.randint(1, 2)):
        n = rng.choice([0, 1, 2, 3, 4, 8])
        a = r8(rng, 8 * n) if rng.random() < 0.3 else 0
        b = 8 * n if rng.random() < 0.5 else rng.randint(a, 8 * n)
        bufs.append([rb(rng, n).hex(), a, b])
    for _ in range(rng.randint(1, rng.choice([4, 16]))):
        op = rng.choice(["get", "get", "idx", "set", "set", "setint", "setidx", "del", "del", "delidx", "ins", "ins", "insint", "ext", "ext",
                         "app", "zfill", "add", "radd", "view", "iadd", "pop", "find", "clear", "rev", "out"])
        o = {"op": op, "i": rng.randrange(3), "p": rng.random(), "q": rng.random(), "al": rng.random() < 0.4}
        if op in ("set", "ins", "ext", "iadd", "add", "radd"):
            o["src"] = source(rng)
        if op in ("setint", "insint", "app", "setidx", "find"):
            o["v"] = rng.choice([0, 1, rng.randrange(256), rng.randrange(256), rng.randrange(1 << 20), 256, -1])
        if op == "zfill":
            o["n"] = rng.randint(0, 60)
        if op == "out":
            o["n"] = rng.randint(0, 20)
        ops.append(o)
    return {"bufs": bufs, "ops": ops}


def bits_of(data):
    return [(b >> k) & 1 for b in data for k in range(8)]


def int_bits(v, n):
    return [(v >> k) & 1 for k in range(n)]


def pack_bits(bits):
    out = bytearray((len(bits) + 7) // 8)
    for i, b in enumerate(bits):
        out[i // 8] |= b << (i % 8)
    return bytes(out)


def show(bits):
    return "%d:%s" % (len(bits), "".join(map(str, bits[:120])))


class Failing(object):
    def __init__(self, items, at, how):
        self.items = items
        self.at = at
        self.how = how

    def __iter__(self):
        for i, x in enumerate(self.items):
            if i == self.at:
                raise SourceFault("source failed")
            yield x
        if self.at >= len(self.items):
            raise SourceFault("source failed at its end")


class FailingSeq(Failing):
    def __len__(self):
        return len(self.items)


def check_bits(kind, obj, bits, where):
    """Everything an observer can read off a buffer or view."""
    n = len(bits)
    try:
        ln, l2, it, tb, ts = obj.length(), len(obj), list(obj), obj.to_bytes(), obj.to_bitstr()
        ba = obj.to_bytearray()
    except Exception as e:
        raise Violation("unreadable", "%s: %s" % (where, common.explain(e)))
    if ln * 8 != n:
        raise Violation(kind, "%s: %r bits long, expected %d" % (where, ln * 8, n))
    want = pack_bits(bits)
    if l2 != len(want):
        raise Violation(kind, "%s: len() %d, expected %d" % (where, l2, len(want)))
    for name, got in (("iteration", bytes(bytearray(it))), ("to_bytes", bytes(tb)), ("to_bytearray", bytes(ba))):
        if got != want:
            raise Violation(kind, "%s: %s gives %s, expected %s" % (where, name, got.hex(), want.hex()))
    if not isinstance(ba, bytearray):
        raise Violation(kind, "%s: to_bytearray gives a %s" % (where, type(ba).__name__))
    if ts != "".join(map(str, reversed(bits))):
        raise Violation(kind, "%s: to_bitstr gives %s, expected %s reversed" % (where, ts, show(bits)))


class World(object):
    def __init__(self, ctx, scn):
        from infi.instruct.buffer import io_buffer
        self.io = io_buffer
        self.ctx = ctx
        self.real = []
        self.model = []
        for data, a, b in scn["bufs"]:
            raw = bytearray.fromhex(data)
            self.real.append(io_buffer.BitAwareByteArray(bytearray(raw), a / 8, b / 8) if (a or b != 8 * len(raw)) else io_buffer.BitAwareByteArray(bytearray(raw)))
            self.model.append(bits_of(raw)[a:b])

    def source(self, s):
        """-> (object to hand over, bits it stands for or None if it fails, whether it may be refused)"""
        io = self.io
        data = bytes.fromhex(s["data"])
        kind = s["src"]
        if kind == "pool":
            i = s["i"] % len(self.real)
            if s["whole"]:
                return self.real[i], list(self.model[i])
            n = len(self.model[i])
            x, y = sorted((min(s["x"], n), min(s["y"], n)))
            return self.real[i][x / 8:y / 8], self.model[i][x:y]
        if kind == "view":
            over = s["over"]
            base = {"bytes": lambda: data, "bytearray": lambda: bytearray(data), "list": lambda: list(data), "tuple": lambda: tuple(data),
                    "memoryview": lambda: memoryview(data), "view": lambda: io.BitView(data)}[over]()
            return io.BitView(base, s["a"] / 8, s["b"] / 8), bits_of(data)[s["a"]:s["b"]]
        if kind == "aware":
            return io.BitAwareByteArray(bytearray(data), s["a"] / 8, s["b"] / 8), bits_of(data)[s["a"]:s["b"]]
        if "fail" in s:
            items = list(data)
            if s["how"] == "raise":
                self.ctx.fault("source-fails")
                return (Failing if kind == "iter" else FailingSeq)(items, s["fail"], "raise"), None
            self.ctx.fault("source-value-does-not-fit")
            items.insert(s["fail"], 300 if s["how"] == "big" else -3)
            return (iter(items) if kind == "iter" else items), None
        return {"bytes": data, "bytearray": bytearray(data), "list": list(data), "iter": iter(data)}[kind], bits_of(data)


def pos(o, n):
    a, b = o["p"], o["q"]
    x, y = int(a * (n + 1)), int(b * (n + 1))
    if o["al"]:
        x, y = 8 * (x // 8), 8 * (y // 8)
    return min(x, y), max(x, y)


def run(scn, ctx):
    w = World(ctx, scn)
    io = w.io
    for i in range(len(w.real)):
        check_bits("wrong-bits", w.real[i], w.model[i], "new buffer")
    for step, o in enumerate(scn["ops"]):
        op = o["op"]
        i = o["i"] % len(w.real)
        r, m = w.real[i], w.model[i]
        n = len(m)
        x, y = pos(o, n)
        where = "step %d %s" % (step, op)
        src = bits = None
        if "src" in o:
            src, bits = w.source(o["src"])
        lo, hi = x, y                  # the addressed range, for what must survive a failure
        new = None                     # expected contents after success; None = the operation must be refused
        call = None
        may_refuse = False
        got = want = None
        if op == "get":
            call = lambda: r[x / 8:y / 8]
            new, want = m, m[x:y]
        elif op == "idx":
            if x < n:
                call = lambda: r[x / 8]
                new = m
                want = sum(b << k for k, b in enumerate(m[x:x + 8]))
        elif op == "set":
            call = lambda: r.__setitem__(slice(x / 8, y / 8), src)
            new = None if bits is None else m[:x] + bits + m[y:]
        elif op == "setint":
            v = o["v"]
            call = lambda: r.__setitem__(slice(x / 8, y / 8), v)
            if v >= 0 and max(1, v.bit_length()) <= y - x:
                new = m[:x] + int_bits(v, y - x) + m[y:]
        elif op == "setidx":
            v = o["v"]
            if x < n:
                k = min(8, n - x)
                lo, hi = x, x + k
                call = lambda: r.__setitem__(x / 8, v)
                if v >= 0 and v.bit_length() <= k:
                    new = m[:x] + int_bits(v, k) + m[x + k:]
        elif op == "del":
            call = lambda: r.__delitem__(slice(x / 8, y / 8))
            new = m[:x] + m[y:]
        elif op == "delidx":
            if x < n:
                k = min(8, n - x)
                lo, hi = x, x + k
                call = lambda: r.__delitem__(x / 8)
                new = m[:x] + m[x + k:]
        elif op == "ins":
            lo = hi = x
            call = lambda: r.insert(x / 8, src)
            new = None if bits is None else m[:x] + bits + m[x:]
        elif op == "insint":
            v = o["v"]
            lo = hi = x
            call = lambda: r.insert(x / 8, v)
            if 0 <= v < 256:
                new = m[:x] + int_bits(v, 8) + m[x:]
        elif op in ("ext", "iadd"):
            lo = hi = n
            if op == "ext":
                call = lambda: r.extend(src)
            else:
                call = lambda: r.__iadd__(src)
            new = None if bits is None else m + bits
        elif op == "app":
            v = o["v"]
            lo = hi = n
            call = lambda: r.append(v)
            if 0 <= v < 256:
                new = m + int_bits(v, 8)
        elif op == "zfill":
            lo = hi = n
            k = o["n"]
            call = lambda: r.zfill(k / 8)
            new = m + [0] * max(0, k - n)
        elif op in ("add", "radd"):
            if bits is not None and isinstance(src, io.BitView):
                new = m
                if op == "add":
                    call, want = (lambda: r + src), m + bits
                else:
                    call, want = (lambda: src + r), bits + m
        elif op == "view":
            call = lambda: io.BitView(r, x / 8, y / 8)
            if y <= 8 * len(r):
                new, want = m, m[x:y]
        elif op == "pop":
            if n >= 8:
                call = lambda: r.pop()
                lo, hi = n - 8, n
                new, want = m[:-8], sum(b << k for k, b in enumerate(m[-8:]))
        elif op == "find":
            v = o["v"]
            call = lambda: (v in r, r.count(v))
            vals = list(pack_bits(m))
            new, want = m, (v in vals, vals.count(v))
        elif op == "clear":
            if n % 8 == 0:
                lo, hi = 0, n
                call = lambda: r.clear()
                new = []
        elif op == "rev":
            if n % 8 == 0:
                lo, hi = 0, n
                call = lambda: r.reverse()
                new = bits_of(bytes(reversed(pack_bits(m))))
        elif op == "out":
            # an index outside is refused and ends iteration-style searches
            call = lambda: r[(n + o["n"]) / 8]
            new = None
        if call is None:
            continue
        try:
            got = call()
            failed = None
        except Exception as e:
            if isinstance(e, Violation):
                raise
            failed = e
        outcome = "ok" if failed is None else "refused"
        if new is None:
            if failed is None:
                raise Violation("not-refused", "%s at bits %d..%d of %s was accepted" % (where, x, y, show(m)))
            # bits outside the addressed range stay as they were
            try:
                now = bits_of(bytes(bytearray(list(r))))[:int(r.length() * 8)]
            except Exception as e:
                raise Violation("unreadable", "%s: %s" % (where, common.explain(e)))
            tail = m[hi:]
            if now[:lo] != m[:lo] or len(now) < lo + len(tail) or (tail and now[len(now) - len(tail):] != tail):
                raise Violation("failure-damaged", "%s at bits %d..%d of %s left %s" % (where, lo, hi, show(m), show(now)))
            if r.length() * 8 != len(now):
                raise Violation("wrong-length", where)
            w.model[i] = now
            ctx.add("refused")
        else:
            if failed is not None:
                raise Violation("operation-failed", "%s at bits %d..%d of %s: %s" % (where, x, y, show(m), common.explain(failed)))
            w.model[i] = list(new)
            if isinstance(want, (int, tuple)):
                if got != want:
                    raise Violation("wrong-value", "%s at bit %d of %s gives %r, expected %r" % (where, x, show(m), got, want))
            elif want is not None:
                check_bits("wrong-bits", got, want, where + " result of bits %d..%d of %s" % (x, y, show(m)))
                if op in ("get", "add", "radd") and isinstance(got, io.BitAwareByteArray):
                    if len(w.real) < 3:
                        w.real.append(got)
                        w.model.append(list(want))
            ctx.add("operations")
        for j in range(len(w.real)):
            check_bits("wrong-bits", w.real[j], w.model[j], "%s (bits %d..%d of %s), buffer %d" % (where, x, y, show(m), j))
        ctx.seen(op, x % 8, y % 8, n % 8, outcome, None if bits is None else len(bits) % 8)
        ctx.record(op, outcome, show(w.model[i]))
    ctx.execs += 1
    ctx.seen(scn)
