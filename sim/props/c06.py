"""C06: looking ahead never changes what is read."""
from .. import common, kernel, sspec
from ..world import Violation, bytes_reader, Pipe
from .c03 import EXCS
from .c09 import apply, judge

RUNS = {"quick": 30000, "thorough": 250000}
RULE = ("one evaluation = one read of a record holding parts whose type is chosen by looking ahead (peeks of random number and size, "
        "nested in arrays and in each other), intact over a fragmenting pipe, or with a changed tag, a failing selector or a failing "
        "peek; non-trivial = at least one look-ahead happened, counted distinct by (type, value, fault)")
MEASURE = "distinct (record type, values, fault) triples"
REAL = ["infi.instruct struct side: selectors, look-ahead streams, struct types, all marshals"]
STUB = ["byte streams (simulated pipes with and without seek and tell)", "application's selecting functions (in the harness)"]
ASSUMPTIONS = ["CPython 3.12 stands for the interpreters the library runs on"]


def gen(rng, tier, idx):
    while True:
        types = common.gen_types(rng, 1, must=("var", "loop") if rng.random() < 0.5 else ("var",), keep=rng.choice([0.25, 0.5, 0.8]), size=4)
        if sspec.uses(types, "var"):
            break
    s = sspec.S(types[0])
    vals = [s.gen(rng) for _ in range(rng.randint(1, 3))]
    raw = s.enc(vals[0])
    faults = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.4:
            faults.append(["raise", rng.randrange(6), rng.choice(sorted(EXCS))])
        elif r < 0.7 and raw:
            faults.append(["damage", [[rng.randrange(len(raw)), rng.randrange(1, 256)] for _ in range(rng.randint(1, 3))]])
        elif r < 0.78:
            faults.append(["short", short_value(rng, s)])
        elif r < 0.82:
            code = rng.choice(["UBInt8", "SBInt8", "UBInt16", "ULInt32", "SLInt64"])
            num = sspec.Num({"code": code})
            faults.append(["narrow", code, num.gen(rng), rng.randrange(num.n), rng.choice(["mapped", "default", "array"])])
        elif raw:
            faults.append(["stream", rng.choice(["eof", "short", "error", "empty"]), rng.randrange(len(raw)), rng.choice(sorted(EXCS))])
    return {"types": types, "values": vals, "faults": faults, "net": common.net(rng), "tell": rng.choice(["no", "no", "yes", "raises", "seek"]),
            "schedule": {"choices": common.choices(rng, 10)}}


def short_value(rng, s):
    """A value with choices of records that are shorter than what was looked at to choose them (if there are such choices)."""
    sspec.SHORT[0] = True
    try:
        return s.gen(rng)
    finally:
        sspec.SHORT[0] = False


def narrow(env, f, tell):
    """A key chooses a record that is shorter than the key itself."""
    I = env.inst
    _, code, key, size, how = f
    num = sspec.Num({"code": code})
    part = type(I.Struct)("Narrow", (I.Struct,), {"_fields_": [I.FixedSizeBuffer("h", size)] if size else []})
    whole = type(I.Struct)("Whole", (I.Struct,), {"_fields_": [getattr(I, code)("k")]})
    if how == "default":
        m = I.StructSelector(getattr(I, code), {key ^ 1: whole}, part)
    else:
        m = I.StructSelector(getattr(I, code), {key: part, key ^ 1: whole})
    field = I.FixedSizeArray("a", 2, m) if how == "array" else I.Field("a", m)
    cls = type(I.Struct)("Outer", (I.Struct,), {"_fields_": [field]})
    good = num.enc(key ^ 1)
    raw = (good if how == "array" else b"") + num.enc(key) + good + good
    try:
        o = cls.create_from_stream(bytes_reader(raw, tell=tell))
    except Violation:
        raise
    except Exception:
        pass
    else:
        raise Violation("look-ahead-left-over", "key %s %d chose a record of %d bytes, and %r was read" % (code, key, size, type(o.a).__name__))
    if how != "default":
        o = cls.create_from_stream(bytes_reader(good + good, tell=tell))
        have = [x.k for x in o.a] if how == "array" else [o.a.k]
        if have != [key ^ 1] * len(have):
            raise Violation("wrong-value", "the record after a refused choice shows %r instead of %r" % (have, key ^ 1))


def valid(scn):
    return common.valid_types(scn["types"]) and scn["values"] and all(
        common.valid_value(sspec.S(scn["types"][0]), v) for v in scn["values"])


def run(scn, ctx):
    env = common.env_for(ctx)
    types = common.Types(scn["types"], env)
    s = types[0]
    by_cls = dict((x.cls, x) for x in s.subs())
    raws = [s.enc(v) for v in scn["values"]]
    # what every selecting function must see, from the reference decoder
    expected = []
    for raw in raws:
        spy = []
        s.dec(raw, 0, spy)
        expected.append(spy)
    calls = []
    fail = [None, None]

    def callback(kind, name, obj=None):
        if kind != "select":
            return
        x = by_cls.get(type(obj))
        calls.append((type(obj).__name__, obj, x))
        if fail[0] is not None:
            if fail[0] == 0:
                fail[0] = None
                raise fail[1]
            fail[0] -= 1

    def callback_checked(kind, name, obj=None):
        if sim_now[0] is not None:
            sim_now[0].point(kind)
        if kind != "select":
            return
        n = len(calls)
        callback(kind, name, obj)
        spy = expected[current[0]]
        if n >= len(spy):
            raise Violation("selector-called-again", "call %d of a record with %d choices" % (n, len(spy)))
        x = by_cls.get(type(obj))
        if x is None:
            raise Violation("selector-wrong-record", "function was given %r" % (obj,))
        for name_, val in spy[n].items():
            try:
                got = x.from_field(name_, getattr(obj, name_), dict(x.leaves())[name_])
            except KeyError:
                raise Violation("selector-wrong-record", "function was given a %s, expected a record with %s" % (type(obj).__name__, sorted(spy[n])))
            except Exception as e:
                raise Violation("selector-wrong-record", "%s: %s" % (name_, common.explain(e)))
            d = sspec.diff(val, got)
            if d:
                raise Violation("selector-wrong-record", "%s%s" % (name_, d))

    current = [0]
    sim_now = [None]
    # intact, over a pipe
    sim = kernel.Sim(scn.get("schedule"))
    sim_now[0] = sim
    env.callback = callback_checked
    pipe = Pipe(sim, "c", scn["net"], scn["tell"])

    def sender():
        for raw in raws:
            pipe.writer.write(raw)
            sim.choose()
        # the stream stays open: asking for more than the records would block for ever

    def receiver():
        end = 0
        for i, v in enumerate(scn["values"]):
            current[0] = i
            del calls[:]
            try:
                o = s.cls.create_from_stream(pipe.reader)
            except (Violation, kernel.SimAbort):
                raise
            except Exception as e:
                raise Violation("read-failed", common.explain(e))
            end += len(raws[i])
            if pipe.reader.taken != end:
                raise Violation("wrong-consumption", "taken %d, record ends at %d" % (pipe.reader.taken, end))
            common.expect_value("wrong-value", s, s.canon(v), o)
            if len(calls) != len(expected[i]):
                raise Violation("selector-not-called", "%d calls, %d choices" % (len(calls), len(expected[i])))
            ctx.add("lookaheads", len(calls))
    sim.spawn("send", sender)
    sim.spawn("recv", receiver)
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
        sim_now[0] = None
    ctx.seen(scn["types"], scn["values"], sim.inter.hexdigest())
    # faults
    env.callback = callback
    for f in scn["faults"]:
        ctx.execs += 1
        del calls[:]
        if f[0] == "raise":
            if not expected[0]:
                continue
            exc = EXCS[f[2]]("selector")
            fail[:] = [f[1] % len(expected[0]), exc]
            try:
                s.cls.create_from_stream(bytes_reader(raws[0], tell=scn["tell"]))
            except Violation:
                raise
            except BaseException as e:
                if e is not exc:
                    raise Violation("selector-error-changed", "raised %r, caller got %s" % (exc, common.explain(e)))
            else:
                raise Violation("selector-error-swallowed", repr(exc))
            fail[0] = None
            ctx.fault("selector-error")
        elif f[0] == "short":
            try:
                raw = s.enc(f[1])
                s.dec(raw + raws[0])
            except sspec.Bad as e:
                if e.kind != "framing":
                    continue
            except sspec.Trunc:
                continue
            except (KeyError, IndexError, TypeError, ValueError):
                continue
            else:
                continue
            try:
                s.cls.create_from_stream(bytes_reader(raw + raws[0], tell=scn["tell"]))
            except Violation:
                raise
            except Exception:
                pass
            else:
                raise Violation("look-ahead-left-over", "a record that is shorter than what was looked at to choose it was accepted")
            ctx.fault("short-choice")
        elif f[0] == "narrow":
            narrow(env, f, scn["tell"])
            ctx.fault("short-choice")
        elif f[0] == "damage":
            judge(s, apply(raws[0], f[1]), scn["tell"], "flips %s" % (f[1],), ctx, b"".join(raws[1:]))
            ctx.fault("bit-flip")
        elif f[2] < len(raws[0]):
            exc = EXCS[f[3]]("peek")
            r = bytes_reader(b"".join(raws), {"kind": f[1], "at": f[2]}, scn["tell"], exc=exc)
            try:
                s.cls.create_from_stream(r)
            except Violation:
                raise
            except BaseException as e:
                if f[1] == "error" and e is not exc:
                    raise Violation("stream-error-changed", "raised %r, caller got %s" % (exc, common.explain(e)))
            else:
                raise Violation("incomplete-record-accepted", "%s at byte %d of %d" % (f[1], f[2], len(raws[0])))
            ctx.fault("stream-" + f[1])
        ctx.seen(scn["types"], scn["values"], f)
    common.still_works(types, [[0, v] for v in scn["values"]], tell=scn["tell"])
