"""C08: threads can share record types."""
from .. import common, kernel, sspec
from ..world import Violation, bytes_reader

RUNS = {"quick": 8000, "thorough": 50000}
RULE = ("one evaluation = one simulated run of 2-4 threads that read, write, measure, print and build records of the same declared types "
        "through streams of their own (optionally passing one context object), preempted at arbitrary instructions of the library; "
        "non-trivial = at least two threads and one preemption inside the library or I/O interleaving, counted distinct by (types, "
        "operations, interleaving)")
MEASURE = "distinct (record types, operations, interleaving) triples"
REAL = ["infi.instruct struct side: declaration macros, struct types, all marshals, bit streams, look-ahead streams, contexts"]
STUB = ["threads (simulated, preempted at instructions)", "locks (scheduler-aware versions of threading's)", "byte streams"]
LONG = False       # every instruction is stepped through: no long values
ASSUMPTIONS = ["each thread uses its own records and streams", "CPython 3.12 stands for the interpreters the library runs on"]


FOCUS = ("opt", "varr", "sarr", "farr", "var", "bits", "pbits", "lazy", "map", "const", "pad", "vstr", "fstr", "rec", "default", "ctx", "ptr")


def gen(rng, tier, idx):
    focus = rng.random() < 0.4      # a small type, used the same way by two threads
    if focus:
        types = common.gen_types(rng, 1, must=rng.sample(FOCUS, rng.choice([1, 2])), keep=0.1, size=3, depth=1)
    else:
        types = common.gen_types(rng, rng.choice([1, 1, 2]), keep=rng.choice([0.3, 0.6]), size=4, depth=rng.choice([1, 2]))
    ss = common.models(types)
    threads = []
    same = rng.choice([0.2, 0.2, 0.5, 0.75])
    for _ in range(2 if focus else rng.choice([2, 2, 3, 4])):
        ops = []
        for _ in range(rng.randint(1, 2 if focus else 4)):
            t = rng.randrange(len(ss))
            r = same if focus else rng.random()
            if r < 0.4:
                ops.append(["read", t, ss[t].gen(rng)])
            elif r < 0.7:
                ops.append(["write", t, ss[t].gen(rng)])
            elif r < 0.8:
                ops.append(["sizeof", t, ss[t].gen(rng)])
            elif r < 0.9:
                ops.append(["repr", t, ss[t].gen(rng)])
            elif r < 0.95:
                ops.append(["bad-read", t, ss[t].gen(rng), rng.random()])
            else:
                ops.append(["new", t])
        threads.append(ops)
    return {"types": types, "threads": threads, "fresh": rng.random() < (0.6 if focus else 0.35), "context": rng.choice([None, None, "ro", "rw"]), "xor": rng.choice([None, rng.randint(1, 255)]), "tell": rng.choice(["no", "yes"]),
            "schedule": common.schedule(rng, rng.choice([2, 3, 4]), k=rng.choice([1, 2, 3, 6]))}


def valid(scn):
    return common.valid_types(scn["types"]) and common.valid_seq(scn["types"], [op[1:3] for t in scn["threads"] for op in t if len(op) > 2])



def run(scn, ctx):
    env = common.env_for(ctx)
    types = common.Types(scn["types"], env)
    # "fresh": the first uses of the types happen in the threads
    common.explore(scn, ctx, lambda c: one(c, ctx, env, common.Types(scn["types"], env) if scn.get("fresh") else types, types))


def one(scn, ctx, env, types, used):
    from infi.instruct.base import ReadOnlyContext, WritableContext, EMPTY_CONTEXT
    base = {"int_repr_format": "0x%x", "user": [1, 2, 3]}
    xor = scn.get("xor") if scn["context"] else None
    if xor:
        base["xor"] = xor
    context = {None: EMPTY_CONTEXT, "ro": ReadOnlyContext(dict(base)), "rw": WritableContext(dict(base))}[scn["context"]]
    before = context.get_dict()
    env.callback = lambda kind, name, obj=None: None
    reprs = {}
    for k, ops in enumerate(scn["threads"]):
        for j, op in enumerate(ops):
            if op[0] == "repr":
                s = used[op[1]]
                reprs[k, j] = s.cls.to_repr(s.to_py(op[2]), context)
    sim = kernel.Sim(scn.get("schedule"), trace=True, step_limit=kernel.limit(scn))
    env.callback = lambda kind, name, obj=None: sim.point(kind)

    def thread(k, ops):
        for j, op in enumerate(ops):
            s = types[op[1]]
            kind = op[0]
            try:
                if kind == "read":
                    r = bytes_reader(s.enc(op[2], xor), tell=scn["tell"], on_read=lambda r, n: sim.point("r"))
                    o = s.cls.create_from_stream(r, context)
                    common.expect_value("wrong-value", s, s.canon(op[2]), o)
                    ctx.add("reads")
                elif kind == "write":
                    w = PointWriter(sim)
                    o = s.to_py(op[2])
                    s.cls.write_to_stream(o, w, context)
                    common.check_encoding("wrong-bytes", s, op[2], w.got, xor)
                    common.expect_value("record-changed", s, op[2], o)
                    ctx.add("writes")
                elif kind == "sizeof":
                    n = s.cls.sizeof(s.to_py(op[2]))
                    if n != len(s.enc(op[2], xor)):
                        raise Violation("wrong-size", "%d" % n)
                    if s.has_minmax:
                        lo, hi = s.cls.min_max_sizeof()
                        if not lo <= n <= hi:
                            raise Violation("size-out-of-range", "%d not in %d..%d" % (n, lo, hi))
                elif kind == "repr":
                    x = s.cls.to_repr(s.to_py(op[2]), context)
                    if x != reprs[k, j]:
                        raise Violation("prints-differ", "%s / %s" % (x[:200], reprs[k, j][:200]))
                elif kind == "bad-read":
                    raw = s.enc(op[2], xor)
                    cut = int(op[3] * len(raw))
                    if cut < len(raw):
                        try:
                            s.cls.create_from_stream(bytes_reader(raw[:cut], tell=scn["tell"], on_read=lambda r, n: sim.point("r")), context)
                        except (kernel.SimAbort, Violation):
                            raise
                        except Exception:
                            sim.fault("truncated-read")
                        else:
                            raise Violation("incomplete-record-accepted", "%d of %d bytes" % (cut, len(raw)))
                elif kind == "new":
                    common.check_default(s, s.cls())
            except (Violation, kernel.SimAbort):
                raise
            except Exception as e:
                raise Violation("operation-failed", "%s: %s" % (kind, common.explain(e)))
            sim.choose()
    for k, ops in enumerate(scn["threads"]):
        sim.spawn("t%d" % k, lambda k=k, ops=ops: thread(k, ops))
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
        env.callback = lambda kind, name, obj=None: None
    if context.get_dict() != before:
        raise Violation("context-changed", "%r / %r" % (before, context.get_dict()))
    for s in types.all:
        common.check_default(s, s.cls())
    ctx.seen(scn["types"], scn["threads"], sim.inter.hexdigest())
    return sim


class PointWriter(object):
    def __init__(self, sim):
        self.sim = sim
        self.got = bytearray()

    def write(self, data):
        self.sim.point("w")
        self.got += data
        return len(data)
