"""C07: lazy decoding is indistinguishable from eager decoding."""
import json
import random

from .. import common, kernel, sspec
from ..world import Violation, bytes_reader
from .c11 import simple, gen_field

RUNS = {"quick": 12000, "thorough": 60000}
RULE = ("one evaluation = one history of reads, assignments, prints, measurements and writes by 1-3 threads on one record with lazily "
        "decoded parts, under a schedule that preempts at arbitrary instructions of the library and interrupts or fails some accesses; "
        "non-trivial = the record was received and a lazy part was decoded during the history, counted distinct by (type, value, "
        "operations, interleaving)")
MEASURE = "distinct (record type, value, operations, interleaving) tuples"
REAL = ["infi.instruct struct side: lazy containers, struct types, all fixed-size marshals, printing"]
STUB = ["threads (simulated, preempted at instructions)", "locks (scheduler-aware versions of threading's)", "byte streams",
        "application-defined field codec that fails on demand"]
LONG = False       # every instruction is stepped through: no long values
ASSUMPTIONS = ["each field is assigned by one thread only", "CPython 3.12 stands for the interpreters the library runs on"]


class DecodeFails(Exception):
    pass


def has_lazy(t):
    return any(f["t"] == "lazy" and (any(g["t"] not in ("pad", "lazy") for g in f["fields"]) or has_lazy(f)) for f in t["fields"])


def gen(rng, tier, idx):
    while True:
        types = common.gen_types(rng, 1, must=("lazy",) + (("user",) if rng.random() < 0.5 else ()), never=("adapt",), keep=rng.choice([0.3, 0.6]), size=5)
        if has_lazy(types[0]):
            break
    s = sspec.S(types[0])
    v = s.gen(rng)
    built = rng.random() < 0.2
    nthreads = rng.choice([1, 1, 2, 2, 3])
    free = simple(s)
    rng.shuffle(free)
    owner = dict((n, i % nthreads) for i, (n, f) in enumerate(free))
    names = s.names()
    threads = []
    for k in range(nthreads):
        mine = [(n, f) for n, f in free if owner[n] == k]
        ops = []
        for _ in range(rng.randint(1, 7)):
            r = rng.random()
            if r < 0.45:
                ops.append(["get", rng.choice(names)])
            elif r < 0.65 and mine:
                n, f = rng.choice(mine)
                ops.append(["set", n, gen_field(s, n, f, rng)])
            elif r < 0.75:
                ops.append(["write"])
            elif r < 0.85:
                ops.append(["sizeof"])
            elif r < 0.95:
                ops.append(["repr"])
            else:
                ops.append(["readall"])
        threads.append(ops)
    scn = {"types": types, "value": v, "built": built, "threads": threads, "fails": [], "tell": rng.choice(["no", "yes"]),
           "schedule": common.schedule(rng, rng.choice([1, 2, 4]) if nthreads > 1 else 1)}
    if common.take_extra(common.models(types)) and rng.random() < 0.7:
        scn["extra"] = rng.choice(["keyword", "position"])
    if rng.random() < 0.3:
        scn["fails"] = [rng.randrange(6) for _ in range(rng.randint(1, 2))]
    elif rng.random() < 0.4:
        scn["async"] = [[rng.random(), rng.choice(sorted(kernel.ASYNC))] for _ in range(rng.randint(1, 2))]
    return scn


def valid(scn):
    return common.valid_types(scn["types"]) and common.valid_value(sspec.S(scn["types"][0]), scn["value"]) and \
        set(op[1] for t in scn["threads"] for op in t if op[0] in ("get", "set")) <= set(sspec.S(scn["types"][0]).names())


def flatten(fields):
    out = []
    for f in fields:
        if f["t"] == "lazy":
            out.extend(flatten(f["fields"]))
        else:
            f = json.loads(json.dumps(f))
            if f["t"] in ("f", "opt", "const"):
                f["el"] = flat_el(f["el"])
            out.append(f)
    return out


def flat_el(el):
    if isinstance(el, dict):
        if "fields" in el:
            el = dict(el, fields=flatten(el["fields"]))
            el.pop("base", None)
            return el
        return dict((k, flat_el(x)) for k, x in el.items())
    if isinstance(el, list):
        return [flat_el(x) for x in el]
    return el


def run(scn, ctx):
    env = common.env_for(ctx)
    types = common.Types(scn["types"], env)
    eager = sspec.S(flat_el(scn["types"][0]))
    eager.build(env)
    if "async" in scn:
        auto(scn, ctx, env, types, eager)
    else:
        common.explore(scn, ctx, lambda c: one(c, ctx, env, types, eager))


def auto(scn, ctx, env, types, eager):
    """Turns the relative positions of the interrupts into instructions of the first run."""
    c = dict(scn, schedule={"choices": scn["schedule"]["auto"]["choices"], "record": 1})
    c.pop("async")
    sim = one(c, ctx, env, types, eager)
    asy = []
    for i, (where, exc) in enumerate(scn["async"]):
        t = sim.tasks[i % len(sim.tasks)]
        asy.append([t.index, kernel.pick_step(random.Random(repr(where)), t), exc])
    c["schedule"] = {"choices": scn["schedule"]["auto"]["choices"], "asyncs": asy}
    try:
        one(c, ctx, env, types, eager)
    except Violation as v:
        if v.scenario is None:
            v.scenario = c
        raise


def one(scn, ctx, env, types, eager):
    args, kw = (), {}
    if scn.get("extra") and not scn["built"] and common.take_extra(types.all):
        sspec.READING.extra = Extra()
        if scn["extra"] == "position":
            from infi.instruct.base import EMPTY_CONTEXT
            args = (EMPTY_CONTEXT, sspec.READING.extra)
        else:
            kw["extra"] = sspec.READING.extra
    try:
        return played(scn, ctx, env, types, eager, args, kw)
    finally:
        sspec.READING.extra = None


class Extra(object):
    pass


def played(scn, ctx, env, types, eager, args, kw):
    s = types[0]
    v = s.canon(scn["value"])
    leaves = dict(s.leaves())
    env.callback = lambda kind, name, obj=None: None
    sim = kernel.Sim(scn.get("schedule"), trace=True, step_limit=kernel.limit(scn))
    if scn["built"]:
        o = s.to_py(scn["value"])
        v = json.loads(json.dumps(scn["value"]))
    else:
        o = s.cls.create_from_stream(bytes_reader(s.enc(v), tell=scn["tell"]), *args, **kw)
    fails = sorted(scn["fails"])
    count = [0]

    def callback(kind, name, obj=None):
        sim.point(kind, strike=True)
        if kind == "user-read":
            n = count[0]
            count[0] += 1
            if n in fails:
                sim.fault("decode-fails")
                raise DecodeFails()
    allowed = {}       # field -> every value it may show
    final = {}
    for n in leaves:
        allowed[n] = [v[n]]
        final[n] = [v[n]]
    for ops in scn["threads"]:
        for op in ops:
            if op[0] == "set":
                allowed[op[1]].append(op[2])
    expected_excs = (DecodeFails, kernel.InjectedInterrupt, kernel.InjectedExit, kernel.InjectedMemoryError, kernel.InjectedCancel)

    def fits(n, got):
        return any(sspec.same(x, got) or sspec.same(canon(n, x), got) for x in allowed[n])

    def canon(n, x):
        return s.els[n].canon(x) if n in s.els and x is not None else x

    def thread(k, ops):
        sspec.READING.extra = args[1] if args else kw.get("extra")
        mine = {}
        for op in ops:
            kind = op[0]
            try:
                if kind == "get":
                    x = getattr(o, op[1])
                    got = s.from_field(op[1], x, leaves[op[1]])
                    if op[1] in mine:
                        if not any(sspec.same(m, got) for m in mine[op[1]]):
                            raise Violation("assignment-undone", "%s was assigned %r, shows %r" % (op[1], mine[op[1]], got))
                    elif not fits(op[1], got):
                        raise Violation("wrong-value", "%s shows %r, expected one of %r" % (op[1], got, allowed[op[1]]))
                elif kind == "set":
                    x = s.py_field(op[1], op[2])
                    try:
                        setattr(o, op[1], x)
                    except expected_excs:
                        # the assignment may or may not have happened
                        mine[op[1]] = mine.get(op[1], [v[op[1]]]) + [op[2]]
                        final[op[1]] = mine[op[1]]
                        raise
                    mine[op[1]] = [op[2]]
                    final[op[1]] = [op[2]]
                elif kind == "write":
                    raw = s.cls.write_to_string(o)
                    check_raw(raw)
                elif kind == "sizeof":
                    n = s.cls.sizeof(o)
                    if s.fixed and n != len(s.enc(v)):
                        raise Violation("wrong-size", "%d" % n)
                elif kind == "repr":
                    repr(o)
                elif kind == "readall":
                    for n, x in s.from_py(o).items():
                        if not fits(n, x):
                            raise Violation("wrong-value", "%s shows %r" % (n, x))
            except kernel.SimAbort:
                raise
            except expected_excs:
                ctx.probe("access-failed")
                sim.retrace()
                # "a later access gives the value": at the latest when nothing fails any more
            except Violation:
                raise
            except Exception as e:
                x = e
                while x is not None:
                    if isinstance(x, expected_excs):
                        break
                    x = x.__cause__ or x.__context__
                if x is None:
                    raise Violation("access-failed", "%s: %s" % (op, common.explain(e)))
                sim.retrace()
            sim.point()

    def check_raw(raw):
        try:
            got, pos = s.dec(raw)
        except (sspec.Trunc, sspec.Bad) as e:
            raise Violation("wrong-bytes", "%r in %s" % (e, raw.hex()))
        if pos != len(raw):
            raise Violation("wrong-bytes", "%d bytes of %d" % (pos, len(raw)))
        for n, x in got.items():
            if not fits(n, x):
                raise Violation("wrong-bytes", "%s was written as %r" % (n, x))

    for k, ops in enumerate(scn["threads"]):
        sim.spawn("t%d" % k, lambda k=k, ops=ops: thread(k, ops))
    env.callback = callback
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
        env.callback = lambda kind, name, obj=None: None
    # everything is quiet now: exact values
    try:
        got = s.from_py(o)
    except Exception as e:
        raise Violation("value-lost", common.explain(e))
    for n, x in got.items():
        if not any(sspec.same(m, x) for m in final[n]):
            raise Violation("assignment-undone" if len(allowed[n]) > 1 else "wrong-value", "at the end %s shows %r, expected %r" % (n, x, final[n]))
    raw = common.write_bytes("write-failed", s, o)
    common.check_encoding("wrong-bytes", s, got, raw)
    e = eager.to_py(got)
    if repr(e) != repr(o):
        raise Violation("prints-differ", "%r / %r" % (repr(e)[:300], repr(o)[:300]))
    if not scn["built"]:
        ctx.seen(scn["types"], scn["value"], scn["threads"], sim.inter.hexdigest(), scn.get("schedule", {}).get("asyncs"))
    return sim
