"""C09: damaged bytes are confined or refused."""
from .. import common, kernel, sspec
from ..world import Violation, bytes_reader

RUNS = {"quick": 50000, "thorough": 300000}
RULE = ("one evaluation = one read of a record whose encoding was damaged in transit (single bits, bursts, overwritten bytes, swapped "
        "bytes), judged by an independent decoder of the damaged bytes; non-trivial = the damage changed at least one byte, counted "
        "distinct by (type, damaged bytes)")
MEASURE = "distinct (record type, damaged bytes) pairs"
REAL = ["infi.instruct struct side: declaration macros, struct types, all marshals, bit streams, look-ahead streams, lazy containers"]
STUB = ["byte stream (simulated, damaging)"]
ASSUMPTIONS = ["the damage keeps the number of bytes", "CPython 3.12 stands for the interpreters the library runs on"]


def gen(rng, tier, idx):
    types = common.gen_types(rng, 1, keep=rng.choice([0.3, 0.6, 0.9]), must=rng.choice([(), ("const",), ("map",), ("sarr",), ("lazy",), ("var",)]))
    if rng.random() < 0.04:      # an announced size in front of elements that may take no bytes
        types[0]["fields"].append({"t": "f", "n": "zs", "el": {"e": "sarr", "len": {"code": "UBInt8"}, "el": {"e": "rec", "spec": {
            "name": "Z", "fields": [{"t": "f", "n": "za", "el": {"e": "farr", "count": rng.choice([0, 0, 1]), "el": {"e": "num", "code": "UBInt8"}}}]}}}})
        types[0].pop("base", None)
    s = sspec.S(types[0])
    vals = [s.gen(rng) for _ in range(rng.randint(1, 2))]
    damages = []
    raw = s.enc(vals[0])
    n = len(raw)
    for _ in range(rng.randint(2, 8)):
        d = []
        for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
            at = rng.randrange(max(n, 1))
            r = rng.random()
            if r < 0.45:
                d.append([at, 1 << rng.randrange(8)])
            elif r < 0.55 and n:      # a byte that pads, or that stands next to it
                d.append([at, raw[at] ^ rng.choice([0, 0, 0x20, raw[at - 1], raw[(at + 1) % n]])])
            elif r < 0.8:
                d.append([at, rng.randrange(1, 256)])
            else:
                d.extend([at + k, rng.randrange(256)] for k in range(rng.randint(1, 4)))
        damages.append(d)
    return {"types": types, "values": vals, "damages": damages, "tell": rng.choice(["no", "yes", "raises", "seek"])}


def valid(scn):
    return common.valid_types(scn["types"]) and scn["values"] and all(
        common.valid_value(sspec.S(scn["types"][0]), v) for v in scn["values"]) and all(len(x) == 2 for d in scn["damages"] for x in d)


def apply(raw, damage):
    b = bytearray(raw)
    for at, mask in damage:
        if at < len(b):
            b[at] ^= mask
    return bytes(b)


def judge(s, data, tell, what, ctx, follow=b""):
    """Reads `data`+follow as a record and compares with what the reference decoder makes of it."""
    try:
        want, pos = s.dec(data + follow)
        verdict = None
    except sspec.Trunc:
        want, verdict = None, "trunc"
    except sspec.Bad as b:
        want, verdict = None, "bad:" + b.kind
    except sspec.Endless:
        ctx.probe("not-judged-endless")
        return None
    r = bytes_reader(data + follow, tell=tell)
    try:
        o = s.cls.create_from_stream(r)
        got = s.from_py(o)
    except Violation:
        raise
    except Exception as e:
        if verdict is None:
            if s.enc(want) == (data + follow)[:pos]:
                raise Violation("value-refused", "%s: these bytes are the encoding of a record: %s" % (what, common.explain(e)))
            ctx.probe("undecided-refused")
        else:
            ctx.probe("refused-" + verdict)
        return None
    if verdict is not None:
        raise Violation("broken-record-accepted", "%s: %s, but a record was returned" % (what, verdict))
    d = sspec.diff(want, got)
    if d:
        raise Violation("damage-not-confined", "%s: %s" % (what, d))
    if r.taken != pos or r.asked > pos:
        raise Violation("wrong-consumption", "%s: %d taken of %d" % (what, r.taken, pos))
    ctx.probe("decoded")
    return got


def run(scn, ctx):
    env = common.env_for(ctx)
    types = common.Types(scn["types"], env)
    s = types[0]
    raw = s.enc(scn["values"][0])
    follow = b"".join(s.enc(v) for v in scn["values"][1:])
    for dmg in scn["damages"]:
        data = apply(raw, dmg)
        judge(s, data, scn["tell"], "flips %s" % (dmg,), ctx, follow)
        ctx.execs += 1
        ctx.fault("bit-flip", sum(bin(a ^ b).count("1") for a, b in zip(raw, data)))
        if data != raw:
            ctx.seen(scn["types"], data)
    common.still_works(types, [[0, v] for v in scn["values"]], tell=scn["tell"])
