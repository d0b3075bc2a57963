"""C17: reusing a packet object carries nothing over."""
from .. import bcommon as bc, bspec, common, kernel, sspec
from ..world import Violation
from .c14 import scramble
from .c15 import App, AppError, attempt

RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("one evaluation = one simulated history of 4-30 operations (build, assign, unpack, pack, measure, print, change in place) on 1-4 "
        "packet objects of 1-2 random layouts, with injected faults: cut-off and corrupted packets, failing application code; after every "
        "operation every object whose contents are determined must show exactly them; non-trivial = an object was used again after another "
        "operation on it, counted distinct by (layouts, history)")
MEASURE = "distinct (layouts, history) pairs"
REAL = ["infi.instruct.buffer: macros, metaclass, field references, evaluation contexts, packers and unpackers, defaults"]
STUB = ["application code (simulated, fails on schedule)", "packets' transport (simulated, cuts and corrupts)"]
ASSUMPTIONS = ["after a failed unpack the object's values are unspecified until it is unpacked again or assigned",
               "CPython 3.12 stands for the interpreters the library runs on"]


def gen(rng, tier, idx):
    few = rng.random() < 0.4        # one field of a kind whose values can be changed in place, used over and over
    must = set(rng.sample(["default", "opt", "const", "conv", "sel", "var", "buf", "list", "fn", "base", "json", "bytes"], 3))
    if few:
        must = {rng.choice(["json", "json", "list", "buf", "bytes"])}
    specs, types = bc.gen_typed(rng, 1 if few else rng.choice([1, 1, 2]), must=must, size=rng.choice([1, 2] if few else [1, 2, 3, 4]),
                                keep=0.05 if few else 0.6)
    slots = [rng.randrange(len(types.top)) for _ in range(rng.choice([1, 1, 2] if few else [1, 2, 3, 4]))]
    ops = []
    pool = {}
    for _ in range(rng.choice([4, 8, 16, 30])):
        i = rng.randrange(len(slots))
        t = slots[i]
        vs = pool.setdefault(t, [])
        if len(vs) < 3 or rng.random() < 0.3:
            v = bc.gen_value(types[t], rng)
            if v is not None:
                vs.append(v)
        v = rng.choice(vs)
        r = rng.random()
        if few and r > 0.3:
            r = rng.choice([0.45, 0.7, 0.7, 0.78, 0.9, 0.9])
        if r < 0.08:
            ops.append(["new", i])
        elif r < 0.14:
            ops.append(["init", i, v])
        elif r < 0.26:
            ops.append(["assign", i, v])
        elif r < 0.3:
            ops.append(["assign1", i, v, rng.randrange(20)])
        elif r < 0.52:
            ops.append(["unpack", i, v, rng.choice(bc.RECEIVE)])
        elif r < 0.6:
            ops.append(["cut", i, v, rng.random()])
        elif r < 0.64:
            ops.append(["junk", i, v, rng.random(), rng.randrange(256)])
        elif r < 0.76:
            ops.append(["pack", i])
        elif r < 0.8:
            ops.append(["size", i])
        elif r < 0.85:
            ops.append(["repr", i])
        elif r < 0.87:
            ops.append(["scramble", i])
        elif r < 0.91:
            ops.append(["morph", i, v])
        elif r < 0.95:
            ops.append(["fail-unpack", i, v, rng.random()])
        else:
            ops.append(["fail-pack", i, rng.random()])
        if ops[-1][0] in ("init", "assign", "unpack", "morph") and rng.random() < 0.5:
            ops.append([rng.choice(["pack", "pack", "pack", "size", "repr"]), i] if rng.random() < 0.8 else ["fail-pack", i, rng.random()])
    return {"types": specs, "slots": slots, "ops": ops}


def valid(scn):
    if not (bc.valid_types(scn["types"]) and scn["slots"]):
        return False
    seq = [[scn["slots"][op[1] % len(scn["slots"])], op[2]] for op in scn["ops"] if len(op) > 2 and isinstance(op[2], dict)]
    return bc.valid_seq(scn["types"], seq)


class Slot(object):
    def __init__(self, p):
        self.p = p
        self.fresh()

    def fresh(self, values=None):
        p = self.p
        try:
            if values is None:
                self.o = p.cls()
            else:
                self.o = p.cls(**dict((n, p.val_to_py(p.by[n], v)) for n, v in values.items()))
        except Exception as e:
            raise Violation("build-failed", common.explain(e))
        self.attrs = bspec.initial(p, values or {})     # None: not determined


def run(scn, ctx):
    app = App()
    env = bc.env_for(ctx, app)
    types = bc.build(scn["types"], env)
    sim = kernel.Sim({})
    sim.spawn("app", lambda: steps(scn, ctx, types, app, sim))
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
    ctx.seen(scn["types"], scn["slots"], scn["ops"])


def packable(slot):
    """The values determine the packet (says the reference codec)."""
    if slot.attrs is None:
        return None
    v = settable(slot.p, slot.attrs)
    return v if bspec.valid_value(slot.p, v) else None


def settable(p, attrs):
    return dict(attrs)


def steps(scn, ctx, types, app, sim):
    slots = [Slot(types[t]) for t in scn["slots"]]
    kept = []
    for k, op in enumerate(scn["ops"]):
        slot = slots[op[1] % len(slots)]
        p, kind = slot.p, op[0]
        app.reset()
        if kind == "new":
            slot.fresh()
        elif kind == "init":
            slot.fresh(op[2])
        elif kind == "assign":
            for f in p.fields:
                if f["n"] in op[2]:
                    setattr(slot.o, f["n"], p.val_to_py(f, op[2][f["n"]]))
                elif slot.attrs is None or "d" in f:
                    setattr(slot.o, f["n"], p.val_to_py(f, f.get("d")))
            if slot.attrs is None:
                slot.attrs = bspec.initial(p, op[2])
            else:
                full = bspec.initial(p, op[2])
                for f in p.fields:
                    if f["n"] in op[2] or "d" in f:
                        slot.attrs[f["n"]] = full[f["n"]]
        elif kind == "assign1":
            f = p.fields[op[3] % len(p.fields)]
            if f["n"] in op[2] and slot.attrs is not None:
                setattr(slot.o, f["n"], p.val_to_py(f, op[2][f["n"]]))
                slot.attrs[f["n"]] = bspec.object_attrs(p.env_types, op[2][f["n"]])
        elif kind == "morph":       # the values the object holds are changed in place
            if slot.attrs is None:
                continue
            drop(kept, slot)
            for f in p.fields:
                if f["n"] in op[2]:
                    if not become(getattr(slot.o, f["n"]), p.val_to_py(f, op[2][f["n"]])):
                        setattr(slot.o, f["n"], p.val_to_py(f, op[2][f["n"]]))
                    slot.attrs[f["n"]] = bspec.object_attrs(p.env_types, op[2][f["n"]])
            sim.fault("changed-in-place")
        elif kind == "unpack":
            raw, _, back, size = bspec.expected(p, op[2])
            for f in p.fields:      # what was handed out before must not change
                x = getattr(slot.o, f["n"])
                if slot.attrs is not None and f["k"] in ("list", "bytes", "buf") and x is not None:
                    kept.append([p, f["n"], x, slot.attrs[f["n"]], slot])
            kept = kept[-12:]
            bc.check_unpack(p, back, size, bc.receive_buffer(op[3], raw), slot.o)
            slot.attrs = dict(back)
            ctx.add("reunpacked")
        elif kind in ("cut", "junk"):
            raw, _, back, size = bspec.expected(p, op[2])
            if not raw:
                continue
            at = int(op[3] * len(raw))
            data = raw[:at] if kind == "cut" else raw[:at] + bytes([op[4]]) + raw[at + 1:]
            attempt(lambda: slot.o.unpack(data))
            sim.fault("received-" + kind)
            slot.attrs = None
            drop(kept, slot)
        elif kind == "fail-unpack":
            raw, _, back, size = bspec.expected(p, op[2])
            app.reset()
            bc.check_unpack(p, back, size, raw, None, "fresh-object-")
            if not app.n:
                continue
            exc = AppError("on purpose")
            app.reset(1 + int(op[3] * app.n), exc)
            if attempt(lambda: slot.o.unpack(raw)) is None:
                raise Violation("calls-differ", "application code was not called on a used object as on a fresh one")
            app.reset()
            sim.fault("application-error")
            slot.attrs = None
            drop(kept, slot)
        elif kind == "fail-pack":
            v = packable(slot)
            if v is None:
                continue
            app.reset(1 + int(op[2] * 6), AppError("on purpose"))
            attempt(slot.o.pack)
            if app.where:
                sim.fault("application-error")
            app.reset()
            bc.check_pack(p, v, slot.o, "after-failure-")
            slot.attrs = bspec.expected(p, v)[1]
        elif kind == "pack":
            v = packable(slot)
            if v is None:
                continue
            a = bc.check_pack(p, v, slot.o)
            b = bc.check_pack(p, v, slot.o, "again-")
            if a != b:
                raise Violation("packs-differ", "%s, then %s" % (a.hex(), b.hex()))
            slot.attrs = bspec.expected(p, v)[1]
            ctx.add("repacked")
        elif kind == "size":
            v = packable(slot)
            if v is None:
                continue
            try:
                n = slot.o.calc_byte_size()
            except Exception as e:
                raise Violation("size-failed", common.explain(e))
            raw, attrs, _, _ = bspec.expected(p, v)
            if n != len(raw):
                raise Violation("wrong-size", "%r, not %d" % (n, len(raw)))
            slot.attrs = sized(p, slot, attrs)
        elif kind == "repr":
            try:
                repr(slot.o)
            except Exception as e:
                raise Violation("repr-failed", common.explain(e))
        elif kind == "scramble":
            for n in sorted(p.by):
                scramble(getattr(slot.o, n))
            sim.fault("changed-in-place")
            slot.attrs = None
            drop(kept, slot)
        if kind in ("fail-pack", "pack", "size"):
            drop(kept, slot)       # packing sets computed fields of nested packets
        check(slots, kept, op)
    for t, p in enumerate(types.top):
        bc.check_attrs("default-changed", bspec.initial(p, {}), p, p.cls())


def become(x, y):
    """Make the mutable value x equal to y."""
    if type(x) is not type(y):
        return False
    if isinstance(x, (list, bytearray)):
        x[:] = y
    elif isinstance(x, dict):
        x.clear()
        x.update(y)
    else:
        return False
    return True


def drop(kept, slot):
    kept[:] = [x for x in kept if x[4] is not slot]


def sized(p, slot, attrs):
    """Measuring may compute fields, or not; both are fine."""
    try:
        got = p.attrs(slot.o)
    except Exception as e:
        raise Violation("unreadable", common.explain(e))
    for n in got:
        if sspec.diff(attrs[n], got[n]) and sspec.diff(slot.attrs[n], got[n]):
            raise Violation("size-changed-packet", "%s: %s" % (n, sspec.diff(slot.attrs[n], got[n])))
    return got


def check(slots, kept, op):
    for i, s in enumerate(slots):
        if s.attrs is not None:
            bc.check_attrs("wrong-values", s.attrs, s.p, s.o)
    for p, n, x, want, _ in kept:
        d = sspec.diff(want, bspec.from_py(p.env_types, x))
        if d:
            raise Violation("earlier-value-changed", "%s.%s, by %s: %s" % (p.name, n, op[0], d))
