"""C10: interruptions leave record types usable."""
import random

from .. import bcommon as bc, bspec, common, kernel, sspec
from ..world import Violation, bytes_reader

RUNS = {"quick": 1800, "thorough": 30000}
RULE = ("one evaluation = one simulated history of operations on records or packets of shared types, some of them interrupted (keyboard "
        "interrupt, exit, cancellation, failing allocation) at an instruction of the library or inside the I/O or application code it calls, "
        "optionally while another thread uses the same types; every interrupted operation is followed by checks of the interruption itself, "
        "of the interrupted object, of bystanders, of the declared types, and by a repetition of the operation; non-trivial = the "
        "interruption was delivered, counted distinct by (types, operations, instruction, kind)")
MEASURE = "distinct (types, operations, instruction, kind of interruption)"
REAL = ["infi.instruct struct and buffer side: declaration macros, types, marshals, bit streams, look-ahead streams, lazy containers, "
        "references, evaluation contexts, packers and unpackers"]
STUB = ["interrupts and failing allocations (injected at instructions)", "threads (simulated, preempted at instructions)",
        "locks (scheduler-aware versions of threading's)", "byte streams", "application code"]
LONG = False       # every instruction is stepped through: no long values
ASSUMPTIONS = ["interrupts are delivered where CPython 3.12 delivers them: at function starts, loop back edges and after calls",
               "allocations fail at calls and at instructions that build objects"]
KINDS = ("KeyboardInterrupt", "KeyboardInterrupt", "Cancel", "SystemExit", "MemoryError", "MemoryError")


def gen(rng, tier, idx):
    side = rng.choice(["rec", "buf"])
    n = rng.choice([1, 1, 2])
    if side == "rec":
        specs = common.gen_types(rng, n, keep=rng.choice([0.3, 0.6, 0.9]), size=5, depth=rng.choice([1, 2]))
        ss = common.models(specs)

        def val():
            t = rng.randrange(len(ss))
            return [t, ss[t].gen(rng)]
        kinds = ["read", "read", "read", "write", "write", "sizeof", "repr", "new", "decode", "bad"]
    else:
        specs, types = bc.gen_typed(rng, n, size=rng.choice([1, 2, 3, 4]), keep=rng.choice([0.3, 0.6, 0.95]))

        def val():
            while True:
                s = bc.gen_seq(rng, types, 1)
                if s:
                    return s[0]
        kinds = ["unpack", "unpack", "unpack", "pack", "pack", "pack", "size", "repr", "new", "bad"]
    ops = [[rng.choice(kinds)] + val() + [rng.random()] for _ in range(rng.randint(1, 3))]
    other = []
    if rng.random() < 0.35:
        other = [[rng.choice(kinds)] + val() + [rng.random()] for _ in range(rng.randint(1, 3))]
    fresh = rng.random() < 0.3
    return {"side": side, "types": specs, "ops": ops, "other": other, "by": [] if fresh else [val() for _ in range(rng.randint(0, 2))],
            "fresh": fresh,
            "after": [val() for _ in range(rng.randint(1, 2))], "recv": rng.choice(bc.RECEIVE), "tell": rng.choice(["no", "yes"]),
            "context": rng.choice([None, None, "ro", "rw"]),
            "auto": {"seed": rng.randrange(1 << 30), "variants": rng.choice([2, 4, 6]), "choices": common.choices(rng, 12)}}


def valid(scn):
    pairs = [[op[1], op[2]] for op in scn["ops"] + scn["other"]] + scn["by"] + scn["after"]
    if not scn["ops"]:
        return False
    if scn["side"] == "rec":
        return common.valid_types(scn["types"]) and common.valid_seq(scn["types"], pairs)
    return bc.valid_types(scn["types"]) and bc.valid_seq(scn["types"], pairs)


def run(scn, ctx):
    app = App()
    kind = Records if scn["side"] == "rec" else Packets
    if "strikes" in scn:
        one(scn, ctx, kind(scn, ctx, app), app)
        return
    side = None if scn["fresh"] else kind(scn, ctx, app)     # fresh: the types were never used before the interrupted operation
    auto = scn["auto"]
    rng = random.Random(auto["seed"])
    base = dict((k, v) for k, v in scn.items() if k != "auto")

    def attempt(strikes, schedule):
        c = dict(base, strikes=strikes, schedule=schedule)
        try:
            return one(c, ctx, side or kind(scn, ctx, app), app)
        except Violation as v:
            if v.scenario is None:
                v.scenario = c
            raise
        except kernel.Deadlock as e:
            raise Violation("deadlock", str(e), c)
        except kernel.StepLimit as e:
            raise Violation("hang", str(e), c)
        except Exception as e:
            if common.touches_repo(e):
                raise Violation("crash", common.explain(e), c)
            raise
    spans, sim = attempt([], {"choices": auto["choices"], "record": 1})
    for _ in range(auto["variants"]):
        strikes = []
        for i in range(len(scn["ops"])):
            if rng.random() < 0.7 or len(scn["ops"]) == 1:
                lo, hi = spans[i]
                if hi > lo:
                    strikes.append([i, kernel.pick_step(rng, sim.tasks[0], lo + 1, hi) - lo, rng.choice(KINDS)])
        pre = []
        if scn["other"]:
            for _ in range(rng.randint(0, 4)):
                t = rng.randrange(2)
                if sim.tasks[t].steps:
                    pre.append([t, kernel.pick_step(rng, sim.tasks[t]), 1 - t])
        attempt(strikes, {"preempts": pre, "choices": [rng.randrange(2) for _ in range(12)]})


class App(object):
    """Application code: a place where the caller may be interrupted as well."""
    sim = None

    def __call__(self, kind, name, obj=None):
        if self.sim is not None:
            self.sim.point(kind, strike=True)


def one(scn, ctx, side, app):
    app.sim = None
    bystanders = [side.bystander(t, v) for t, v in scn["by"]]
    for op in scn["ops"] + scn["other"]:
        side.prepare(op)
    sim = kernel.Sim(scn["schedule"], trace=True, step_limit=kernel.limit(scn))
    app.sim = sim
    spans = []
    strikes = {}
    for i, step, exc in scn["strikes"]:
        strikes.setdefault(i, {})[step] = exc
    side.start(sim)

    def victim():
        me = kernel.current_task()
        for i, op in enumerate(scn["ops"]):
            job = side.job(op)
            hit = strikes.get(i, {})
            me.asyncs = dict((me.steps + s, e) for s, e in hit.items())
            me.arm()
            first = me.steps
            before = sum(n for k, n in sim.faults.items() if k.startswith("async:"))
            err = None
            try:
                job.do()
            except kernel.SimAbort:
                raise
            except BaseException as e:
                err = e
            finally:
                me.asyncs = {}
                me.arm()
            spans.append((first, me.steps))
            struck = sum(n for k, n in sim.faults.items() if k.startswith("async:")) > before
            if not struck:
                if err is not None and not job.fails:
                    if isinstance(err, Violation):
                        raise err
                    raise Violation("operation-failed", "%s: %s" % (op[0], common.explain(err)))
                if err is None:
                    job.check()
                sim.retrace()
                sim.choose()
                continue
            kinds = sorted(set(hit.values()))
            ctx.add("interrupted")
            ctx.seen(scn["types"], scn["ops"], i, me.steps - first, kinds)
            if isinstance(err, Violation):
                raise err
            judge(op, err, kinds, job)
            err = None
            # back to normal: nothing below is interrupted
            job.unharmed()
            for b in bystanders:
                b("bystander-changed")
            side.still_works(scn["after"])
            try:
                job.again()
            except (Violation, kernel.SimAbort):
                raise
            except Exception as e:
                raise Violation("not-repeatable", "%s after an interrupted one: %s" % (op[0], common.explain(e)))
            sim.retrace()
            sim.choose()

    def other():
        for op in scn["other"]:
            job = side.job(op)
            try:
                job.do()
            except (Violation, kernel.SimAbort):
                raise
            except Exception as e:
                if not job.fails:
                    raise Violation("other-thread-affected", "%s: %s" % (op[0], common.explain(e)))
            else:
                job.check()
            sim.choose()
    sim.spawn("victim", victim)
    if scn["other"]:
        sim.spawn("other", other)
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
        app.sim = None
    for b in bystanders:
        b("bystander-changed")
    side.still_works(scn["after"])
    side.finish()
    return spans, sim


def judge(op, err, kinds, job):
    """The interruption must reach the caller."""
    if err is None:
        raise Violation("interruption-swallowed", "%s was interrupted (%s) and returned" % (op[0], ", ".join(kinds)))
    if isinstance(err, tuple(kernel.ASYNC[k] for k in kinds)):
        return
    if "MemoryError" in kinds and isinstance(err, Exception):
        # running out of memory may be reported as the cause of the library's own error
        from infi.instruct.errors import InstructError
        if isinstance(err, InstructError) and (job.fails or in_chain(err, kernel.ASYNC["MemoryError"])):
            return
        if job.fails:
            return
    raise Violation("interruption-masked", "%s was interrupted (%s), the caller got %s" % (op[0], ", ".join(kinds), common.explain(err)))


def in_chain(e, cls):
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        if isinstance(x, cls):
            return True
        seen.add(id(x))
        todo += [x.__cause__, x.__context__]
    return False


class Job(object):
    fails = False

    def check(self):
        pass

    def unharmed(self):
        pass

    def again(self):
        self.do()
        self.check()


# ---- records ---------------------------------------------------------------------------------------------------------
class Records(object):
    def __init__(self, scn, ctx, app):
        from infi.instruct.base import ReadOnlyContext, WritableContext, EMPTY_CONTEXT
        self.tell = scn["tell"]
        self.env = common.env_for(ctx, app)
        self.types = common.Types(scn["types"], self.env)
        base = {"int_repr_format": "0x%x", "user": [1, 2, 3]}
        self.context = {None: EMPTY_CONTEXT, "ro": ReadOnlyContext(dict(base)), "rw": WritableContext(dict(base))}[scn["context"]]
        self.before = self.context.get_dict()
        self.reprs = {}

    def start(self, sim):
        self.sim = sim

    def prepare(self, op):
        if op[0] == "repr" and id(op) not in self.reprs:
            s = self.types[op[1]]
            self.reprs[id(op)] = s.cls.to_repr(s.to_py(op[2]), self.context)

    def bystander(self, t, v):
        """A record that was built, and one that was received and (if it can be) not decoded yet."""
        s = self.types[t]
        a = s.to_py(v)
        b = s.cls.create_from_stream(bytes_reader(s.enc(v), tell=self.tell))
        raw = s.enc(v)

        def check(kind):
            common.expect_value(kind, s, v, a)
            common.check_encoding(kind, s, v, common.write_bytes(kind, s, b))
            common.expect_value(kind, s, s.canon(v), b)
            common.check_encoding(kind, s, v, common.write_bytes(kind, s, a))
            assert raw is not None
        return check

    def still_works(self, seq):
        common.still_works(self.types, seq, tell=self.tell)
        for s in self.types.all:
            common.check_default(s, s.cls())

    def finish(self):
        if self.context.get_dict() != self.before:
            raise Violation("context-changed", "%r / %r" % (self.before, self.context.get_dict()))

    def job(self, op):
        return getattr(self, "do_" + op[0])(self.types[op[1]], op[2], op)

    def reader(self, raw):
        sim = self.sim
        return bytes_reader(raw, tell=self.tell, on_read=lambda r, n: sim.point("r", strike=True))

    def do_read(self, s, v, op):
        j = Job()
        side = self

        def do():
            j.o = s.cls.create_from_stream(side.reader(s.enc(v)), side.context)
        j.do = do
        j.check = lambda: common.expect_value("wrong-value", s, s.canon(v), j.o)
        return j

    def do_decode(self, s, v, op):
        """First access to a received record."""
        j = Job()
        j.o = s.cls.create_from_stream(bytes_reader(s.enc(v), tell=self.tell), self.context)
        j.do = lambda: common.expect_value("wrong-value", s, s.canon(v), j.o) if not s.leaves() else touch(s, j.o)
        j.check = lambda: common.expect_value("wrong-value", s, s.canon(v), j.o)
        return j

    def do_write(self, s, v, op):
        j = Job()
        o = s.to_py(v)
        side = self

        def do():
            j.w = Writer(side.sim)
            s.cls.write_to_stream(o, j.w, side.context)

        def unharmed():
            common.expect_value("record-changed", s, v, o)
            raw = s.enc(v)
            if raw[:len(j.w.got)] != bytes(j.w.got):
                raise Violation("wrong-bytes", "delivered %s of %s" % (j.w.got.hex(), raw.hex()))
        j.do = do
        j.unharmed = unharmed
        j.check = lambda: (common.check_encoding("wrong-bytes", s, v, j.w.got), common.expect_value("record-changed", s, v, o))
        return j

    def do_sizeof(self, s, v, op):
        j = Job()
        o = s.to_py(v)

        def do():
            j.n = s.cls.sizeof(o)

        def check():
            if j.n != len(s.enc(v)):
                raise Violation("wrong-size", "%d" % j.n)
        j.do = do
        j.check = check
        j.unharmed = lambda: common.expect_value("record-changed", s, v, o)
        return j

    def do_repr(self, s, v, op):
        j = Job()
        o = s.to_py(v)
        side = self

        def do():
            j.x = s.cls.to_repr(o, side.context)

        def check():
            if j.x != side.reprs[id(op)]:
                raise Violation("prints-differ", "%s / %s" % (j.x[:200], side.reprs[id(op)][:200]))
        j.do = do
        j.check = check
        j.unharmed = lambda: common.expect_value("record-changed", s, v, o)
        return j

    def do_new(self, s, v, op):
        j = Job()

        def do():
            j.o = s.cls()
        j.do = do
        j.check = lambda: common.check_default(s, j.o)
        return j

    def do_bad(self, s, v, op):
        j = Job()
        raw = s.enc(v)
        cut = int(op[3] * len(raw))
        j.fails = cut < len(raw)
        side = self

        def do():
            s.cls.create_from_stream(side.reader(raw[:cut]), side.context)
            if j.fails:
                raise Violation("incomplete-record-accepted", "%d of %d bytes" % (cut, len(raw)))
        j.do = do

        def again():
            try:
                do()
            except (Violation, kernel.SimAbort):
                raise
            except Exception:
                pass
        j.again = again
        return j


def touch(s, o):
    for n in s.names():
        getattr(o, n)



class Writer(object):
    def __init__(self, sim):
        self.sim = sim
        self.got = bytearray()

    def write(self, data):
        self.sim.point("w", strike=True)
        self.got += data
        return len(data)


# ---- packets ---------------------------------------------------------------------------------------------------------
class Packets(object):
    def __init__(self, scn, ctx, app):
        self.recv = scn["recv"]
        self.env = bc.env_for(ctx, app)
        self.types = bc.build(scn["types"], self.env)
        self.reprs = {}
        self.model = {}

    def start(self, sim):
        self.sim = sim

    def expected(self, p, v):
        k = id(v)
        if k not in self.model:
            self.model[k] = bspec.expected(p, v), v
        return self.model[k][0]

    def prepare(self, op):
        p = self.types[op[1]]
        self.expected(p, op[2])
        if op[0] == "repr" and id(op) not in self.reprs:
            self.reprs[id(op)] = repr(p.to_py(op[2]))

    def bystander(self, t, v):
        p = self.types[t]
        raw, attrs, back, size = self.expected(p, v)
        a = p.to_py(v)
        b = p.new()
        bc.check_unpack(p, back, size, raw, b)

        def check(kind):
            bc.check_attrs(kind, back, p, b)
            bc.check_pack(p, v, a, "bystander-", model=(raw, attrs, back, size))
        return check

    def still_works(self, seq):
        for t, v in seq:
            p = self.types[t]
            raw, _, back, size = m = self.expected(p, v)
            bc.check_pack(p, v, p.to_py(v), "afterwards-", model=m)
            bc.check_unpack(p, back, size, raw, None, "afterwards-")
        for p in self.types.top:
            bc.check_attrs("default-changed", bspec.initial(p, {}), p, p.cls())

    def finish(self):
        pass

    def job(self, op):
        return getattr(self, "do_" + op[0])(self.types[op[1]], op[2], op)

    def do_unpack(self, p, v, op):
        j = Job()
        raw, attrs, back, size = self.expected(p, v)
        buf = bc.receive_buffer(self.recv, raw)
        o = p.new()

        def do():
            j.n = o.unpack(buf)

        def check():
            bc.check_attrs("wrong-value", back, p, o)
            if j.n != size:
                raise Violation("wrong-size", "%s occupies %d bytes, unpack() says %r" % (p.name, size, j.n))
        j.do = do
        j.check = check
        return j

    def do_pack(self, p, v, op):
        j = Job()
        raw, attrs, back, size = m = self.expected(p, v)
        o = p.to_py(v)
        before = p.attrs(o)

        def do():
            j.raw = o.pack()

        def check():
            if bytes(j.raw) != raw:
                raise Violation("wrong-bytes", "declared layout of %s %s, packed %s" % (p.name, raw.hex(), bytes(j.raw).hex()))
            bc.check_attrs("values-changed", attrs, p, o)
        j.do = do
        j.check = check
        j.unharmed = lambda: either(p, o, before, attrs)
        assert m
        return j

    def do_size(self, p, v, op):
        j = Job()
        raw, attrs, back, size = self.expected(p, v)
        o = p.to_py(v)
        before = p.attrs(o)

        def do():
            j.n = o.calc_byte_size()

        def check():
            if j.n != len(raw):
                raise Violation("wrong-size", "%r, not %d" % (j.n, len(raw)))
        j.do = do
        j.check = check
        j.unharmed = lambda: either(p, o, before, attrs)
        return j

    def do_repr(self, p, v, op):
        j = Job()
        o = p.to_py(v)
        before = p.attrs(o)
        side = self

        def do():
            j.x = repr(o)

        def check():
            if j.x != side.reprs[id(op)]:
                raise Violation("prints-differ", "%s / %s" % (j.x[:200], side.reprs[id(op)][:200]))
        j.do = do
        j.check = check
        j.unharmed = lambda: either(p, o, before, before)
        return j

    def do_new(self, p, v, op):
        j = Job()

        def do():
            j.o = p.cls()
        j.do = do
        j.check = lambda: bc.check_attrs("default-changed", bspec.initial(p, {}), p, j.o)
        return j

    def do_bad(self, p, v, op):
        """A cut-off packet into an object that is used again afterwards."""
        j = Job()
        raw, attrs, back, size = self.expected(p, v)
        cut = int(op[3] * len(raw))
        data = raw[:cut]
        try:
            p.unpack(data, lenient=True)
        except bspec.Bad:
            pass
        j.fails = True
        o = p.new()
        j.do = lambda: o.unpack(data)

        def again():
            j.n = o.unpack(raw)
            bc.check_attrs("wrong-value", back, p, o)
        j.again = again
        return j


def either(p, o, before, after):
    """Every field holds the value it had; one that packing computes may show the computed value already."""
    try:
        got = p.attrs(o)
    except Exception as e:
        raise Violation("packet-changed", "unreadable packet: %s" % common.explain(e))
    d = between(before, after, got)
    if d:
        raise Violation("packet-changed", "%s: %s" % (p.name, d))


def between(before, after, got, at=""):
    if sspec.same(before, got) or sspec.same(after, got):
        return None
    if isinstance(got, dict) and isinstance(before, dict) and isinstance(after, dict) and set(got) == set(before) == set(after):
        for k in got:
            d = between(before[k], after[k], got[k], "%s.%s" % (at, k))
            if d:
                return d
        return None
    if isinstance(got, list) and isinstance(before, list) and isinstance(after, list) and len(got) == len(before) == len(after):
        for i in range(len(got)):
            d = between(before[i], after[i], got[i], "%s[%d]" % (at, i))
            if d:
                return d
        return None
    return "%s shows %r, was %r (%r when packed)" % (at, got, before, after)
