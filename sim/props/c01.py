"""C01: records cross a stream unchanged."""
from .. import common, sspec, kernel
from ..world import FailingWriter, Pipe, Violation, bytes_reader
from ..engine import touches_repo

RUNS = {"quick": 24000, "thorough": 400000}
RULE = ("one evaluation = one simulated exchange: 1-3 random record types (random subset of all declaration features), 1-3 "
        "connections of 1-6 records, each with its own fragmentation and delays, sender and receiver each either the real library or "
        "the independent reference codec; non-trivial = at least one record with bytes went through the real library, counted "
        "distinct by (types, values, order of the I/O interleaving)")
MEASURE = "distinct (record types, values, I/O interleaving) triples"
REAL = ["infi.instruct struct side: declaration macros, struct types, all marshals, bit streams, look-ahead streams, lazy containers"]
STUB = ["network (simulated byte pipes with fragmentation and delay)", "clock and task scheduler (simulated)",
        "remote peer (reference codec) where the scenario says so"]
ASSUMPTIONS = ["a blocking read(n) returns n bytes, or fewer only at the end of the stream (buffered sockets, files)",
               "write(b) takes all bytes or raises", "CPython 3.12 stands for the interpreters the library runs on"]


def gen(rng, tier, idx):
    types = common.gen_types(rng, rng.randint(1, 3), keep=rng.choice([0.3, 0.6, 0.9]))
    ss = common.models(types)
    conns = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        seq = []
        for _ in range(rng.randint(1, 6)):
            t = rng.randrange(len(ss))
            seq.append([t, ss[t].gen(rng)])
        w, r = rng.choice([("real", "real"), ("real", "real"), ("real", "ref"), ("ref", "real")])
        conns.append({"seq": seq, "writer": w, "reader": r, "net": common.net(rng), "tell": rng.choice(["no", "yes", "raises", "seek"]),
                      "wmode": rng.choice(["stream", "bytes", "string"]), "rmode": rng.choice(["stream", "stream", "string"])})
        if common.take_extra(ss) and rng.random() < 0.7:
            conns[-1]["extra"] = rng.choice(["keyword", "position"])
        if rng.random() < 0.25:     # both ends are given a context of their own
            conns[-1].update(ctx=rng.randint(1, 255), ro=rng.randint(0, 1), wmode=rng.choice(["stream", "string"]))
    return {"types": types, "conns": conns, "plain": common.gen_plain(rng, ss), "schedule": {"choices": common.choices(rng)}}


def valid(scn):
    return common.valid_types(scn["types"]) and all(
        c["seq"] and common.valid_seq(scn["types"], c["seq"]) for c in scn["conns"]) and common.valid_plain(scn["types"], scn.get("plain", []))


def run(scn, ctx):
    env = common.env_for(ctx)
    types = common.Types(scn["types"], env)
    sim = kernel.Sim(scn.get("schedule"))
    env.callback = lambda kind, name, obj=None: sim.point(kind)
    pipes = []
    for i, c in enumerate(scn["conns"]):
        pipe = Pipe(sim, "c%d" % i, c["net"], c["tell"])
        pipes.append(pipe)
        sim.spawn("w%d" % i, lambda c=c, pipe=pipe: writer(sim, types, c, pipe, ctx))
        sim.spawn("r%d" % i, lambda c=c, pipe=pipe: reader(sim, types, c, pipe, ctx))
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
    for c, pipe in zip(scn["conns"], pipes):
        if pipe.arrived or pipe.inflight:
            raise Violation("bytes-left", "%d bytes were never read" % (len(pipe.arrived) + pipe.inflight))
    env.callback = lambda kind, name, obj=None: None
    plain(scn, types, ctx)
    ctx.seen(scn["types"], [c["seq"] for c in scn["conns"]], sim.inter.hexdigest())


def plain(scn, types, ctx):
    """Parts of records, sent on their own."""
    for i, el, m, what, given, want in common.plain_parts(types, scn.get("plain", []), ctx):
        try:
            if i["via"] == "string":
                got = m.write_to_string(el.to_py(i["v"]), *given)
            else:
                w = FailingWriter(None, None)
                m.write_to_stream(el.to_py(i["v"]), w, *given)
                got = bytes(w.got)
        except Violation:
            raise
        except Exception as e:
            raise Violation("write-failed", "%s: %s" % (what, common.explain(e)))
        if got != want:
            raise Violation("wrong-bytes", "%s: declared %s, written %s" % (what, want.hex(), bytes(got).hex()))
        try:
            if i["via"] == "string":
                o = m.create_from_string(want, *given)
            else:
                o = m.create_from_stream(bytes_reader(want, tell=i["tell"]), *given)
        except Violation:
            raise
        except Exception as e:
            raise Violation("read-failed", "%s: %s" % (what, common.explain(e)))
        try:
            have = el.from_py(o)
        except Violation:
            raise
        except Exception as e:
            raise Violation("wrong-value", "%s: %s" % (what, common.explain(e)))
        d = sspec.diff(el.canon(i["v"]), have)
        if d:
            raise Violation("wrong-value", "%s: %s" % (what, d))


def context(c):
    from infi.instruct.base import ReadOnlyContext, WritableContext
    if not c.get("ctx"):
        return ()
    return ((ReadOnlyContext if c["ro"] else WritableContext)({"xor": c["ctx"]}),)


def writer(sim, types, c, pipe, ctx):
    given = context(c)
    for t, v in c["seq"]:
        s = types[t]
        want = s.enc(v, c.get("ctx"))
        before = len(pipe.sent)
        if c["writer"] == "ref":
            pipe.writer.write(want)
        else:
            try:
                o = s.to_py(v)
                if c["wmode"] == "stream":
                    s.cls.write_to_stream(o, pipe.writer, *given)
                elif c["wmode"] == "string":
                    pipe.writer.write(s.cls.write_to_string(o, *given))
                else:
                    pipe.writer.write(o.to_bytes())
            except kernel.SimAbort:
                raise
            except Exception as e:
                raise Violation("write-failed", common.explain(e))
            got = bytes(pipe.sent[before:])
            if got != want:
                raise Violation("wrong-bytes", "declared layout %s, written %s" % (want.hex(), got.hex()))
            ctx.add("records_written")
        sim.choose()
    pipe.close()


def reader(sim, types, c, pipe, ctx):
    kw = {}
    given = context(c)
    if c.get("extra") and common.take_extra(types.all):
        sspec.READING.extra = object()
        if c["extra"] == "position":
            from infi.instruct.base import EMPTY_CONTEXT
            given = (given or (EMPTY_CONTEXT,)) + (sspec.READING.extra,)
        else:
            kw["extra"] = sspec.READING.extra
        sspec.READING.now = True
        sspec.READING.lost = None
    for n, (t, v) in enumerate(c["seq"]):
        s = types[t]
        if c["reader"] == "ref" or c["rmode"] == "string":
            raw = pipe.reader.read(len(s.enc(v, c.get("ctx"))))
            if c["reader"] == "ref":
                got, pos = s.dec(raw, xor=c.get("ctx"))
                d = sspec.diff(s.canon(v), got)
                if d or pos != len(raw):
                    raise Violation("peer-misreads", d or "length")
                continue
        try:
            if c["rmode"] == "string":
                o = s.cls.create_from_string(raw, *given, **kw)
            else:
                o = s.cls.create_from_stream(pipe.reader, *given, **kw)
        except (kernel.SimAbort, Violation):
            raise
        except Exception as e:
            raise Violation("read-failed", "record %d: %s" % (n, common.explain(e)))
        if getattr(sspec.READING, "lost", None):
            raise Violation("constructor-arguments", sspec.READING.lost)
        common.expect_value("wrong-value", s, s.canon(v), o)
        ctx.add("records_read")
        sim.choose()
