"""C16: threads can share packet layouts."""
from .. import bcommon as bc, bspec, common, kernel, sspec
from ..world import Violation

RUNS = {"quick": 1600, "thorough": 50000}
RULE = ("one evaluation = one simulated run of 2-4 threads that pack, unpack, measure, print and build packets of the same 1-2 random layouts, "
        "also from within application code called by another operation, preempted at arbitrary instructions of the library; non-trivial = at "
        "least two threads and one preemption inside the library, counted distinct by (layouts, operations, interleaving)")
MEASURE = "distinct (layouts, operations, interleaving) triples"
REAL = ["infi.instruct.buffer: macros, metaclass, field references, evaluation contexts, packers and unpackers, buffers, struct adapter"]
STUB = ["threads (simulated, preempted at instructions)", "locks (scheduler-aware versions of threading's)", "application code"]
LONG = False       # every instruction is stepped through: no long values
ASSUMPTIONS = ["each thread uses its own packet objects and buffers", "CPython 3.12 stands for the interpreters the library runs on"]


FOCUS = ("base", "bsize", "default", "fn", "call", "sel", "lsel", "list", "vlist", "buf", "conv", "opt", "var", "minmax", "selfref", "totalinfo", "tail")


def focused(rng):
    """One or two small layouts, used for the first time and in the same way by two threads."""
    must = set(rng.sample(FOCUS, rng.choice([1, 1, 2])))
    n = rng.choice([1, 1, 2])
    if n == 2:
        must |= set(["selfref", "var"])
    for _ in range(20):
        specs, types = bc.gen_typed(rng, n, must=must, keep=0.1, size=rng.choice([1, 2, 3]), depth=1)
        if "base" not in must or types[0].spec.get("base"):
            break
    same = rng.random()
    kind = rng.choice(["unpack", "unpack", "pack", "pack", "size", "repr", "new"])
    threads = []
    for _ in range(2):
        ops = []
        for t, v in bc.gen_seq(rng, types, rng.choice([1, 1, 2])):
            k = kind if same < 0.7 else rng.choice(["unpack", "pack", "new"])
            ops.append([k, t, v] + ([rng.choice(bc.RECEIVE)] if k == "unpack" else []))
        threads.append(ops)
    return {"types": specs, "threads": threads, "fresh": rng.random() < 0.8,
            "schedule": common.schedule(rng, rng.choice([3, 4, 6]), k=rng.choice([1, 1, 2, 3, 6]))}


def gen(rng, tier, idx):
    if rng.random() < 0.6:
        return focused(rng)
    specs, types = bc.gen_typed(rng, rng.choice([1, 1, 2]), size=rng.choice([1, 2, 3, 4]), keep=rng.choice([0.3, 0.6, 0.95]))
    threads = []
    for _ in range(rng.choice([2, 2, 3, 4])):
        ops = []
        for t, v in bc.gen_seq(rng, types, rng.randint(1, 3)):
            r = rng.random()
            if r < 0.38:
                ops.append(["unpack", t, v, rng.choice(bc.RECEIVE)])
            elif r < 0.72:
                ops.append(["pack", t, v])
            elif r < 0.8:
                ops.append(["size", t, v])
            elif r < 0.87:
                ops.append(["repr", t, v])
            elif r < 0.95:
                ops.append(["cut", t, v, rng.random()])
            else:
                ops.append(["new", t, v])
            if rng.random() < 0.2:
                inner = bc.gen_seq(rng, types, 1)
                if inner:
                    ops[-1] = ["nest", rng.randint(1, 4)] + [ops[-1], [rng.choice(["pack", "unpack"]), inner[0][0], inner[0][1], "bytes"]]
        threads.append(ops)
    return {"types": specs, "threads": threads, "fresh": rng.random() < 0.35, "schedule": common.schedule(rng, rng.choice([2, 3, 4]), k=rng.choice([1, 2, 3, 6]))}


def valid(scn):
    def flat(ops):
        for op in ops:
            if op[0] == "nest":
                for x in flat(op[2:]):
                    yield x
            else:
                yield op
    return bc.valid_types(scn["types"]) and bc.valid_seq(scn["types"], [[op[1], op[2]] for t in scn["threads"] for op in flat(t)])


def check_default(p, o):
    bc.check_attrs("default-changed", bspec.initial(p, {}), p, o)


class App(object):
    """Application code; may use the library itself (nested), once per armed operation and thread."""

    def __init__(self):
        self.sim = None
        self.armed = {}

    def __call__(self, kind, name, obj=None):
        if self.sim is None:
            return
        self.sim.point(kind)
        t = kernel.current_task()
        todo = self.armed.get(t)
        if todo:
            todo[0] -= 1
            if todo[0] <= 0:
                del self.armed[t]
                todo[1]()


def run(scn, ctx):
    app = App()
    env = bc.env_for(ctx, app)
    types = bc.build(scn["types"], env)
    # "fresh": the first uses of the layouts happen in the threads
    common.explore(scn, ctx, lambda c: one(c, ctx, bc.build(scn["types"], env) if scn.get("fresh") else types, types, app))


def one(scn, ctx, types, used, app):
    reprs, model = {}, {}
    app.sim = None

    def prepare(ops):
        for op in ops:
            if op[0] == "nest":
                prepare(op[2:])
                continue
            model[id(op)] = bspec.expected(types[op[1]], op[2])
            if op[0] == "repr":
                reprs[id(op)] = repr(used[op[1]].to_py(op[2]))
    for ops in scn["threads"]:
        prepare(ops)
    sim = kernel.Sim(scn.get("schedule"), trace=True, step_limit=kernel.limit(scn))
    app.sim = sim
    app.armed = {}

    def do(op):
        kind = op[0]
        if kind == "nest":
            me = kernel.current_task()
            app.armed[me] = [op[1], lambda: (sim.fault("nested-operation"), do(op[3]))]
            try:
                do(op[2])
            finally:
                app.armed.pop(me, None)
            return
        p = types[op[1]]
        v = op[2]
        if kind == "new":
            check_default(p, p.cls())
            return
        raw, attrs, back, size = model[id(op)]
        if kind == "unpack":
            bc.check_unpack(p, back, size, bc.receive_buffer(op[3], raw))
        elif kind == "pack":
            bc.check_pack(p, v, p.to_py(v), model=model[id(op)])
        elif kind == "size":
            n = p.to_py(v).calc_byte_size()
            if n != len(raw):
                raise Violation("wrong-size", "%r, not %d" % (n, len(raw)))
        elif kind == "repr":
            x = repr(p.to_py(v))
            if x != reprs[id(op)]:
                raise Violation("prints-differ", "%s / %s" % (x[:200], reprs[id(op)][:200]))
        elif kind == "cut":
            data = raw[:int(op[3] * len(raw))]
            o = p.new()
            try:
                o.unpack(data)
            except (kernel.SimAbort, Violation):
                raise
            except Exception:
                sim.fault("truncated-packet")
            else:
                try:
                    want, _ = p.unpack(data, lenient=True)
                except bspec.Bad as e:
                    raise Violation("invented-value", str(e))
                bc.check_attrs("wrong-value", want, p, o)
        ctx.add("ops")

    def thread(ops):
        for op in ops:
            try:
                do(op)
            except (Violation, kernel.SimAbort):
                raise
            except Exception as e:
                raise Violation("operation-failed", "%s: %s" % (op[0], common.explain(e)))
            sim.choose()
    for k, ops in enumerate(scn["threads"]):
        sim.spawn("t%d" % k, lambda ops=ops: thread(ops))
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
        app.sim = None
    for p in types.top:
        check_default(p, p.cls())
    ctx.seen(scn["types"], scn["threads"], sim.inter.hexdigest())
    return sim
