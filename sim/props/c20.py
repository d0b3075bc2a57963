"""C20: a damaged packet is refused or shows what its bytes say."""
from .. import bcommon as bc, bspec, common, kernel
from ..world import Violation, bytes_reader

RUNS = {"quick": 12000, "thorough": 200000}
RULE = ("one evaluation = one simulated run: a sender's packets of 1-2 random layouts go over a network that flips bits, overwrites, swaps, "
        "loses, repeats and inserts bytes inside datagrams, splices datagrams of the same or another layout and makes up noise, between "
        "intact packets; each one is judged by an independent decoder of the bytes that arrived; non-trivial = at least one damaged packet "
        "was handed to the real library, counted distinct by (layouts, values, damages, order of arrivals)")
MEASURE = "distinct (layouts, values, damages, arrival order) tuples"
REAL = ["infi.instruct.buffer: macros, metaclass, field references, positions, packers and unpackers, input buffers, struct adapter"]
STUB = ["datagram network (simulated, damaging)", "clock and task scheduler (simulated)", "oracle: reference codec"]
ASSUMPTIONS = ["an application that gets an error discards the packet", "CPython 3.12 stands for the interpreters the library runs on"]


def gen(rng, tier, idx):
    specs, types = bc.gen_typed(rng, rng.choice([1, 1, 2]), size=rng.choice([1, 2, 3, 5]))
    seq = bc.gen_seq(rng, types, rng.randint(1, 3))
    lens = [len(bspec.expected(types[t], v)[0]) for t, v in seq]
    dgrams = []
    for (t, v), n in zip(seq, lens):
        dgrams.append({"t": t, "v": v, "recv": rng.choice(bc.RECEIVE), "delays": [rng.choice([0, 1000, 7000])],
                       "damages": [gen_damage(rng, n, lens) for _ in range(rng.randint(3, 10))],
                       "adapter": rng.random() < 0.2})
    return {"types": specs, "dgrams": dgrams, "reuse": rng.random() < 0.3, "schedule": {"choices": common.choices(rng, 12)}}


def gen_damage(rng, n, lens):
    """[[kind, place, ...]...]"""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        at = min(int(rng.expovariate(1 / 4.0)), max(n - 1, 0)) if rng.random() < 0.4 else rng.randrange(max(n, 1))
        r = rng.random()
        if r < 0.35:
            out.append(["flip", at, 1 << rng.randrange(8)])
        elif r < 0.55:
            out.append(["set", at, rng.choice([0, 0, 1, 2, 3, 5, 8, 127, 128, 254, 255, 255, rng.randrange(256)])])
        elif r < 0.63:
            out.append(["set", at, rng.randrange(256), rng.randrange(256), rng.randrange(256)])
        elif r < 0.71:
            out.append(["drop", at, rng.choice([1, 1, 2, 5])])
        elif r < 0.8:
            out.append(["insert", at, bytes(rng.randrange(256) for _ in range(rng.choice([1, 1, 2, 4, 9]))).hex()])
        elif r < 0.86:
            out.append(["repeat", at, rng.choice([1, 2, 4])])
        elif r < 0.92:
            out.append(["swap", at, rng.randrange(max(n, 1))])
        elif r < 0.97:
            out.append(["splice", at, rng.randrange(len(lens)), rng.randrange(20)])
        else:
            out.append(["noise", rng.choice([0, 1, 255, 256, 256]), rng.randrange(1 << 30), rng.randrange(max(2 * n, 1) + 1)])
    return out


def damage(raw, ops, others):
    b = bytearray(raw)
    for op in ops:
        kind, at = op[0], op[1]
        if kind == "noise":
            x = op[2]
            b = bytearray()
            for _ in range(op[3]):
                x = (x * 1103515245 + 12345) % (1 << 31)
                b.append((x >> 12) % at if at > 1 else 0 if at == 0 else 255)
            continue
        at = min(at, len(b))
        if kind == "insert":
            b[at:at] = bytes.fromhex(op[2])
        elif kind == "splice":
            b[at:] = others[op[2] % len(others)][op[3]:]
        elif at < len(b):
            if kind == "flip":
                b[at] ^= op[2]
            elif kind == "set":
                x = bytes(op[2:])[:len(b) - at]
                b[at:at + len(x)] = x
            elif kind == "drop":
                del b[at:at + op[2]]
            elif kind == "repeat":
                b[at:at] = b[at:at + op[2]]
            elif kind == "swap" and op[2] < len(b):
                b[at], b[op[2]] = b[op[2]], b[at]
    return bytes(b)


def valid(scn):
    return bc.valid_types(scn["types"]) and bool(scn["dgrams"]) and bc.valid_seq(scn["types"], [[d["t"], d["v"]] for d in scn["dgrams"]]) \
        and all(len(op) > 2 for d in scn["dgrams"] for ops in d["damages"] for op in ops)


def run(scn, ctx):
    env = bc.env_for(ctx)
    types = bc.build(scn["types"], env)
    sim = kernel.Sim(scn.get("schedule"))
    env.callback = lambda kind, name, obj=None: sim.point(kind)
    sim.spawn("receiver", lambda: receiver(scn, sim, types, ctx))
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
    ctx.seen(scn["types"], scn["dgrams"], sim.inter.hexdigest())


def receiver(scn, sim, types, ctx):
    queue = []
    total = 0
    raws = [bspec.expected(types[d["t"]], d["v"])[0] for d in scn["dgrams"]]
    for i, d in enumerate(scn["dgrams"]):
        for j, ops in enumerate(list(d["damages"]) + [None]):
            data = raws[i] if ops is None else damage(raws[i], ops, raws)
            total += 1
            if ops is not None and data != raws[i]:
                for op in ops:
                    sim.fault("damage-" + op[0])
            sim.at(d["delays"][j % len(d["delays"])] * (j + 1), lambda i=i, data=data: queue.append((i, data)))
    objs = {}
    while total:
        sim.wait(lambda: queue, "datagram")
        i, data = queue.pop(0)
        total -= 1
        d = scn["dgrams"][i]
        p = types[d["t"]]
        o = objs.setdefault(p.name, p.new()) if scn["reuse"] else p.new()
        if data == raws[i]:
            _, _, back, size = bspec.expected(p, d["v"])
            bc.check_unpack(p, back, size, bc.receive_buffer(d["recv"], data), o, prefix="intact-packet-")
            ctx.add("intact")
        elif d["adapter"] and p.cls.byte_size:
            through_adapter(p, data, ctx)
        else:
            judge(p, data, bc.receive_buffer(d["recv"], data), ctx, o)
        sim.choose()
    bc.still_works(types, [[d["t"], d["v"]] for d in scn["dgrams"][:2]])


NOT = (bspec.Bad, TypeError, ZeroDivisionError, OverflowError)       # (operators meeting values they make no sense of)


def denoted(p, data):
    """(values of the bytes that are there or None, size, whole packet?, why not)"""
    try:
        want, size = p.unpack(data)
        return want, size, True, None
    except NOT as e:
        why = e
    try:
        want, _ = p.unpack(data, lenient=True)
        return want, None, False, why
    except NOT as e:
        return None, None, False, e


def judge(p, data, buf, ctx, o):
    want, size, whole, why = denoted(p, data)
    try:
        got = o.unpack(buf)
    except (Violation, kernel.SimAbort):
        raise
    except Exception as e:
        if whole and encoding_of(p, want, data):
            raise Violation("value-refused", "%s: %s is a packet with the values %r: %s" % (p.name, data.hex(), want, common.explain(e)))
        ctx.add("refused" if not whole else "undecided-refused")
        return
    if want is None:
        raise Violation("invented-value", "%s unpacked from %s although %s: %s" % (p.name, data.hex(), why, safe(p, o)))
    bc.check_attrs("damage-not-confined", want, p, o)
    if whole and got != size:
        raise Violation("wrong-size", "%s: %s holds a packet of %d bytes, unpack() says %r" % (p.name, data.hex(), size, got))
    ctx.add("decoded" if whole else "accepted")


def encoding_of(p, want, data):
    """These bytes are what packing such a packet gives."""
    try:
        values = dict((n, x) for n, x in want.items() if p.by[n].get("sbp") is None)
        raw, attrs, back, size = bspec.expected(p, values)
    except (bspec.Bad, KeyError, TypeError, ValueError, AttributeError, OverflowError):
        return False
    return raw == data[:len(raw)] and size == len(raw) and bspec.diff(back, want) is None


def through_adapter(p, data, ctx):
    from infi.instruct.buffer.compat import buffer_to_struct_adapter
    adapter = buffer_to_struct_adapter(p.cls)
    n = -(-p.cls.byte_size // 1)
    data = data[:int(n)] + bytes(int(n) - len(data[:int(n)]))
    want, size, whole, why = denoted(p, data)
    try:
        o = adapter.create_from_stream(bytes_reader(data))
    except (Violation, kernel.SimAbort):
        raise
    except Exception as e:
        if whole and encoding_of(p, want, data):
            raise Violation("value-refused", "%s: %s is a packet with the values %r: %s" % (p.name, data.hex(), want, common.explain(e)))
        return
    if want is None:
        raise Violation("invented-value", "%s unpacked from %s although %s: %s" % (p.name, data.hex(), why, safe(p, o)))
    bc.check_attrs("damage-not-confined", want, p, o)
    ctx.add("through_adapter")


def safe(p, o):
    try:
        return repr(p.attrs(o))[:300]
    except Exception as e:
        return common.explain(e)
