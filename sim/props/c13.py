"""C13: a cut-off packet never yields invented values."""
from .. import bcommon as bc, bspec, common, kernel
from ..world import StreamFault, Violation, bytes_reader

RUNS = {"quick": 5000, "thorough": 120000}
RULE = ("one evaluation = one simulated run: a sender's packets of 1-2 random layouts go over a network that cuts datagrams off at "
        "arbitrary bytes (every length up to 24 bytes, sampled above) or through streams that end, come up short or fail inside a packet "
        "(struct adapter, alone and as a field of a struct), between intact packets; non-trivial = at least one cut packet was handed to "
        "the real library, counted distinct by (layouts, values, cuts, order of arrivals)")
MEASURE = "distinct (layouts, values, cuts, arrival order) tuples"
REAL = ["infi.instruct.buffer: macros, metaclass, field references, positions, packers and unpackers, input buffers, struct adapter"]
STUB = ["datagram network (simulated, truncating)", "byte streams (simulated, failing)", "clock and task scheduler (simulated)",
        "oracle: reference codec that decodes what is there and refuses numbers that are not complete"]
ASSUMPTIONS = ["an application that gets an error discards the packet", "CPython 3.12 stands for the interpreters the library runs on"]


def gen(rng, tier, idx):
    specs, types = bc.gen_typed(rng, rng.choice([1, 1, 2]), size=rng.choice([1, 2, 3, 5]))
    dgrams = []
    for t, v in bc.gen_seq(rng, types, rng.randint(1, 3)):
        n = len(bspec.expected(types[t], v)[0])
        if n <= 24 and rng.random() < 0.8:
            cuts = list(range(n))
        else:
            cuts = sorted(set(rng.randrange(n) for _ in range(10))) if n else []
        rng.shuffle(cuts)
        dgrams.append({"t": t, "v": v, "cuts": cuts, "recv": rng.choice(bc.RECEIVE), "delays": [rng.choice([0, 1000, 7000])],
                       "stream": None if rng.random() < 0.4 else
                       {"kind": rng.choice(["eof", "short", "empty", "error"]), "at": rng.randrange(max(n, 1)),
                        "how": rng.choice(["adapter", "field", "field2"]), "tell": rng.choice(["no", "yes"])}})
    return {"types": specs, "dgrams": dgrams, "reuse": rng.random() < 0.3, "schedule": {"choices": common.choices(rng, 12)}}


def valid(scn):
    return bc.valid_types(scn["types"]) and bool(scn["dgrams"]) and bc.valid_seq(scn["types"], [[d["t"], d["v"]] for d in scn["dgrams"]])


def run(scn, ctx):
    env = bc.env_for(ctx)
    types = bc.build(scn["types"], env)
    sim = kernel.Sim(scn.get("schedule"))
    env.callback = lambda kind, name, obj=None: sim.point(kind)
    sim.spawn("receiver", lambda: receiver(scn, sim, types, ctx))
    if any(d["stream"] for d in scn["dgrams"]):
        sim.spawn("streams", lambda: streams(scn, sim, types, ctx))
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
    ctx.seen(scn["types"], scn["dgrams"], sim.inter.hexdigest())


def receiver(scn, sim, types, ctx):
    queue = []
    total = 0
    for i, d in enumerate(scn["dgrams"]):
        raw = bspec.expected(types[d["t"]], d["v"])[0]
        for j, cut in enumerate(list(d["cuts"]) + [None]):
            if cut is not None and cut >= len(raw):
                continue
            total += 1
            sim.at(d["delays"][j % len(d["delays"])] * (j + 1), lambda i=i, cut=cut, raw=raw: queue.append((i, cut, raw[:cut])))
    objs = {}
    while total:
        sim.wait(lambda: queue, "datagram")
        i, cut, data = queue.pop(0)
        total -= 1
        d = scn["dgrams"][i]
        p = types[d["t"]]
        o = objs.setdefault(p.name, p.new()) if scn["reuse"] else p.new()
        buf = bc.receive_buffer(d["recv"], data)
        if cut is None:
            _, _, back, size = bspec.expected(p, d["v"])
            bc.check_unpack(p, back, size, buf, o, prefix="intact-packet-")
            ctx.add("intact")
        else:
            sim.fault("truncated-datagram")
            judge(p, o, data, buf, ctx)
        sim.choose()
    bc.still_works(types, [[d["t"], d["v"]] for d in scn["dgrams"][:2]])


def judge(p, o, data, buf, ctx):
    try:
        o.unpack(buf)
    except (Violation, kernel.SimAbort):
        raise
    except Exception:
        ctx.add("refused")
        return
    try:
        want, _ = p.unpack(data, lenient=True)
    except bspec.Bad as e:
        raise Violation("invented-value", "%s unpacked from %d bytes %s although %s: %s" % (p.name, len(data), data.hex(), e, safe(p, o)))
    bc.check_attrs("invented-value", want, p, o)
    ctx.add("accepted")


def safe(p, o):
    try:
        return repr(p.attrs(o))[:300]
    except Exception as e:
        return common.explain(e)


def packable(p, back):
    """What was unpacked can be packed (a field that only unpack_if leaves out has no value to pack)."""
    try:
        bspec.expected(p, dict((n, x) for n, x in back.items() if p.by[n].get("sbp") is None))
    except (bspec.Bad, KeyError, TypeError, ValueError, AttributeError, OverflowError):
        return False
    return True


def streams(scn, sim, types, ctx):
    """Packets of a fixed size as records of a stream."""
    import infi.instruct as inst
    from infi.instruct.buffer.compat import buffer_to_struct_adapter
    for d in scn["dgrams"]:
        st = d["stream"]
        p = types[d["t"]]
        if not st or not p.cls.byte_size:
            continue
        adapter = buffer_to_struct_adapter(p.cls)
        raw, _, back, size = bspec.expected(p, d["v"])
        if st["how"] == "adapter":
            reader, data, get = adapter, raw, lambda o: o
        else:
            ns = {"_fields_": [inst.UBInt16("a"), inst.Field("p", adapter)] + ([inst.UBInt8("z")] if st["how"] == "field2" else [])}
            reader = type(inst.Struct)("Holder", (inst.Struct,), ns)
            data = b"\x12\x34" + raw + (b"\x56" if st["how"] == "field2" else b"")
            get = lambda o: o.p
        o = None
        r = bytes_reader(data + data, tell=st["tell"], on_read=lambda r, n: sim.point("r"))
        for k in range(2):
            o = read(reader, r, "intact-packet-read-failed")
            bc.check_attrs("intact-packet-wrong-value", back, p, get(o))
            if r.taken != (k + 1) * len(data):
                raise Violation("bytes-taken", "%d of %d" % (r.taken, (k + 1) * len(data)))
            if reader is not adapter and (o.a != 0x1234 or (st["how"] == "field2" and o.z != 0x56)):
                raise Violation("neighbour-damaged", "%r" % o.a)
            if not packable(p, back):
                continue
            got = reader.write_to_string(o)
            q = p.new()
            bc.unpack("intact-packet-rewrite-failed", p, q, bytes(got)[len(data) - len(raw) - (st["how"] == "field2"):][:len(raw)])
        if st["at"] >= len(data):
            continue
        exc = StreamFault("broken stream")
        at = st["at"] if st["how"] == "adapter" else min(st["at"] + 2, len(data) - 1)
        r = bytes_reader(data, {"kind": st["kind"], "at": at}, tell=st["tell"], exc=exc, on_read=lambda r, n: sim.point("r"))
        try:
            reader.create_from_stream(r)
        except (Violation, kernel.SimAbort):
            raise
        except Exception as e:
            if st["kind"] == "error" and not bc.chained(e, exc):
                raise Violation("error-lost", "the stream raised, the caller got %s" % common.explain(e))
            ctx.add("stream_refused")
        else:
            if r.fired:
                raise Violation("incomplete-packet-accepted", "%s from a stream with %s at byte %d of %d" % (p.name, st["kind"], at, len(data)))
        sim.fault("stream-" + st["kind"])
        sim.choose()


def read(reader, r, kind):
    try:
        return reader.create_from_stream(r)
    except (Violation, kernel.SimAbort):
        raise
    except Exception as e:
        raise Violation(kind, common.explain(e))
