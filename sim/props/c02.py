"""C02: reading takes exactly one record off the stream; sizes agree."""
from .. import common, kernel, sspec
from ..world import Pipe, Violation, bytes_reader

RUNS = {"quick": 32000, "thorough": 300000}
RULE = ("one evaluation = one simulated dialogue: two peers that each wait for the other's next record before sending theirs, over "
        "two fragmenting, delaying pipes, plus a replay of every record from a stream followed by foreign bytes; non-trivial = at "
        "least one non-empty record crossed, counted distinct by (types, values, I/O interleaving)")
MEASURE = "distinct (record types, values, I/O interleaving) triples"
REAL = ["infi.instruct struct side: declaration macros, struct types, all marshals, size accounting, look-ahead streams"]
STUB = ["network (simulated pipes)", "clock and scheduler (simulated)"]
ASSUMPTIONS = ["a blocking read(n) returns n bytes, or fewer only at the end of the stream", "CPython 3.12 stands for the interpreters the library runs on"]


def gen(rng, tier, idx):
    types = common.gen_types(rng, rng.randint(1, 2), keep=rng.choice([0.3, 0.6, 0.9]))
    return {"types": types, "plain": common.gen_plain(rng, common.models(types)), "seq": common.gen_seq(rng, types, rng.randint(1, 6)), "nets": [common.net(rng), common.net(rng)],
            "tells": [rng.choice(["no", "yes", "raises"]) for _ in range(2)],
            "tail": bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 40]))).hex(),
            "schedule": {"choices": common.choices(rng)}}


def valid(scn):
    return common.valid_types(scn["types"]) and scn["seq"] and common.valid_seq(scn["types"], scn["seq"]) and \
        common.valid_plain(scn["types"], scn.get("plain", []))


def sizes(s, o, n, where, m=None):
    m = m or s.cls
    try:
        got = m.sizeof(o)
        if s.has_minmax:
            lo, hi = m.min_max_sizeof()
        else:            # a type with an embedded packet does not announce its size
            lo, hi = 0, 1 << 62
    except Exception as e:
        raise Violation("size-failed", "%s: %s" % (where, common.explain(e)))
    if got != n:
        raise Violation("wrong-size", "%s: %d bytes on the wire, sizeof says %r" % (where, n, got))
    if not lo <= n <= hi:
        raise Violation("size-out-of-range", "%s: %d bytes on the wire, announced %r..%r" % (where, n, lo, hi))


def run(scn, ctx):
    env = common.env_for(ctx)
    types = common.Types(scn["types"], env)
    sim = kernel.Sim(scn.get("schedule"))
    env.callback = lambda kind, name, obj=None: sim.point(kind)
    pipes = [Pipe(sim, "ab", scn["nets"][0], scn["tells"][0]), Pipe(sim, "ba", scn["nets"][1], scn["tells"][1])]

    def peer(me):
        out, inp = pipes[me], pipes[1 - me]
        for i, (t, v) in enumerate(scn["seq"]):
            s = types[t]
            n = len(s.enc(v))
            if i % 2 == me:
                before = len(out.sent)
                try:
                    o = s.to_py(v)
                    sizes(s, o, n, "built record")
                    s.cls.write_to_stream(o, out.writer)
                except (kernel.SimAbort, Violation):
                    raise
                except Exception as e:
                    raise Violation("write-failed", common.explain(e))
                if len(out.sent) - before != n:
                    raise Violation("wrong-size", "%d bytes declared, %d written" % (n, len(out.sent) - before))
                sizes(s, o, n, "written record")
            else:
                start = inp.reader.taken
                inp.reader.asked = 0
                try:
                    o = s.cls.create_from_stream(inp.reader)
                except (kernel.SimAbort, Violation):
                    raise
                except Exception as e:
                    raise Violation("read-failed", common.explain(e))
                if inp.reader.taken - start != n:
                    raise Violation("wrong-consumption", "record of %d bytes, %d taken" % (n, inp.reader.taken - start))
                if inp.reader.asked > start + n:
                    raise Violation("asked-beyond", "record ends at %d, asked up to %d" % (start + n, inp.reader.asked))
                sizes(s, o, n, "received record")
                common.expect_value("wrong-value", s, s.canon(v), o)
                sizes(s, o, n, "received record after use")
                ctx.add("records")
    sim.spawn("a", lambda: peer(0))
    sim.spawn("b", lambda: peer(1))
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
    env.callback = lambda kind, name, obj=None: None
    data = b""
    for t, v in scn["seq"]:
        data += types[t].enc(v)
    r = bytes_reader(data + bytes.fromhex(scn["tail"]), tell=scn["tells"][0])
    end = 0
    for t, v in scn["seq"]:
        s = types[t]
        end += len(s.enc(v))
        try:
            s.cls.create_from_stream(r)
        except Violation:
            raise
        except Exception as e:
            raise Violation("read-failed", common.explain(e))
        if r.taken != end or r.asked > end:
            raise Violation("asked-beyond", "record ends at %d, taken %d, asked up to %d" % (end, r.taken, r.asked))
    for i, el, m, what, given, want in common.plain_parts(types, scn.get("plain", []), ctx):
        r = bytes_reader(want + bytes.fromhex(scn["tail"]), tell=i["tell"])
        o = el.to_py(i["v"])
        sizes(el, o, len(want), what, m)
        try:
            o = m.create_from_stream(r, *given)
        except Violation:
            raise
        except Exception as e:
            raise Violation("read-failed", "%s: %s" % (what, common.explain(e)))
        if r.taken != len(want) or r.asked > len(want):
            raise Violation("asked-beyond", "%s: ends at %d, taken %d, asked up to %d" % (what, len(want), r.taken, r.asked))
        sizes(el, o, len(want), what + ", received", m)
    ctx.seen(scn["types"], scn["seq"], sim.inter.hexdigest())
