"""C15: failing application code is reported and harmless."""
import asyncio

from .. import bcommon as bc, bspec, common, kernel
from ..world import Violation

RUNS = {"quick": 8000, "thorough": 200000}
RULE = ("one evaluation = one simulated run: packets of 1-2 random layouts are packed and unpacked by an application whose code (computed "
        "values, conditions, selectors, converters) fails at a chosen call with a chosen error or request to stop, or that supplies a value "
        "that cannot be encoded, or receives damaged bytes; each fault is followed by the same operation on the same object without it; "
        "non-trivial = a fault was injected, counted distinct by (layouts, values, faults)")
MEASURE = "distinct (layouts, values, faults) triples"
REAL = ["infi.instruct.buffer: macros, metaclass, field references, evaluation contexts, packers and unpackers, error reporting"]
STUB = ["application code (simulated, fails on schedule)"]
ASSUMPTIONS = ["CPython 3.12 stands for the interpreters the library runs on"]


class AppError(Exception):
    pass


class NastyError(Exception):
    """An error that cannot even be printed."""

    def __str__(self):
        raise RuntimeError("no text")
    __repr__ = __str__


class Stop(BaseException):
    pass


ERRORS = {"ValueError": ValueError, "AppError": AppError, "KeyError": KeyError, "AttributeError": AttributeError, "TypeError": TypeError,
          "AssertionError": AssertionError, "IndexError": IndexError, "NotImplementedError": NotImplementedError, "OSError": OSError,
          "ZeroDivisionError": ZeroDivisionError, "RecursionError": RecursionError, "NastyError": NastyError, "StopIteration": StopIteration,
          "MemoryError": MemoryError, "LookupError": LookupError}
STOPS = {"KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "GeneratorExit": GeneratorExit,
         "CancelledError": asyncio.CancelledError, "Stop": Stop}


class BadRepr(object):
    def __repr__(self):
        raise RuntimeError("no repr")
    __str__ = __repr__


class BadIter(object):
    def __iter__(self):
        raise AppError("no elements")


def gen(rng, tier, idx):
    must = set(rng.sample(["fn", "call", "sel", "lsel", "conv", "opt", "var", "vlist", "expr", "buf", "list", "minmax"], 3))
    if rng.random() < 0.85:
        must.add(rng.choice(["fn", "sel", "lsel", "conv"]))
    specs, types = bc.gen_typed(rng, rng.choice([1, 1, 2]), must=must, keep=rng.choice([0.1, 0.3, 0.6]))
    ops = []
    for t, v in bc.gen_seq(rng, types, rng.randint(1, 3)):
        for _ in range(rng.choice([1, 2, 3])):
            op = rng.choice(["pack", "pack", "unpack", "unpack", "size"])
            r = rng.random()
            if r < 0.6:
                fault = {"at": rng.random(), "exc": rng.choice(sorted(ERRORS)) if rng.random() < 0.7 else rng.choice(sorted(STOPS)),
                         "again": rng.choice([0, 0, 1, 2])}
            elif op == "pack" or op == "size":
                fault = {"bad": rng.randrange(50), "how": rng.randrange(50)}
                op = "pack"
            else:
                fault = {"damage": rng.choice(["cut", "cut", "junk"]), "x": rng.random(), "y": rng.randrange(256)}
            ops.append([op, t, v, fault])
    return {"types": specs, "ops": ops, "reuse": rng.random() < 0.5, "recv": rng.choice(bc.RECEIVE)}


def valid(scn):
    return bc.valid_types(scn["types"]) and bool(scn["ops"]) and bc.valid_seq(scn["types"], [[o[1], o[2]] for o in scn["ops"]])


class App(object):
    """The application's code.  Counts its calls; fails at the chosen one."""

    def __init__(self):
        self.reset()

    def reset(self, at=None, exc=None):
        self.n = 0
        self.at = at
        self.exc = exc
        self.where = None

    def __call__(self, kind, name, obj=None):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.where = (kind, name)
            raise self.exc


def run(scn, ctx):
    app = App()
    env = bc.env_for(ctx, app)
    types = bc.build(scn["types"], env)
    sim = kernel.Sim({})
    sim.spawn("app", lambda: steps(scn, ctx, types, app, sim))
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
    ctx.seen(scn["types"], scn["ops"])


def steps(scn, ctx, types, app, sim):
    from infi.instruct.buffer.buffer import InstructBufferError
    objs = {}
    for i, (op, t, v, fault) in enumerate(scn["ops"]):
        p = types[t]
        raw, attrs, back, size = bspec.expected(p, v)
        app.reset()
        # the real object: fresh or already used for the same values
        if op in ("pack", "size"):
            o = objs.get(("p", t, repr(v))) if scn["reuse"] else None
            if o is None:
                o = p.to_py(v)
                if scn["reuse"]:
                    objs["p", t, repr(v)] = o
            do = o.pack if op == "pack" else o.calc_byte_size
            # how many calls of application code does this operation make (on another object)
            other = p.to_py(v)
            bc.check_pack(p, v, other) if op == "pack" else measure(other)
        else:
            o = objs.setdefault(("u", t), p.new()) if scn["reuse"] else p.new()
            do = lambda: o.unpack(bc.receive_buffer(scn["recv"], raw))
            bc.check_unpack(p, back, size, raw)
        calls = app.n
        if "at" in fault:
            for k in range(1 + fault["again"]):
                if not calls:
                    break
                at = 1 + (int(fault["at"] * calls) + k) % calls
                stop = fault["exc"] in STOPS
                exc = STOPS[fault["exc"]]("stop") if stop else ERRORS[fault["exc"]]("failed on purpose")
                app.reset(at, exc)
                got = attempt(do)
                where = app.where
                app.reset()
                if where is None:
                    raise Violation("calls-differ", "call %d of %d did not happen on another try" % (at, calls))
                sim.fault(("stop:" if stop else "error:") + where[0])
                judge(p, types, op, got, exc, stop, where, InstructBufferError)
        elif "bad" in fault:
            bad_value(p, v, o, fault, types, sim, app, InstructBufferError)
        else:
            damaged(p, raw, fault, scn["recv"], o, sim, InstructBufferError)
        # without the fault the same object and layout work
        app.reset()
        if op == "size":
            n = measure(o)
            if n != len(raw):
                raise Violation("afterwards-wrong-size", "%r, not %d" % (n, len(raw)))
        if op in ("pack", "size"):
            bc.check_pack(p, v, o, "afterwards-")
            bc.check_unpack(p, back, size, raw, None, "afterwards-")
        else:
            bc.check_unpack(p, back, size, bc.receive_buffer(scn["recv"], raw), o, "afterwards-")
            bc.check_pack(p, v, p.to_py(v), "afterwards-")
        ctx.add("recovered")


def measure(o):
    try:
        return o.calc_byte_size()
    except Violation:
        raise
    except Exception as e:
        raise Violation("size-failed", common.explain(e))


def attempt(do):
    """The exception the caller gets, or None."""
    try:
        do()
    except (Violation, kernel.SimAbort):
        raise
    except BaseException as e:
        return e
    return None


def judge(p, types, op, got, exc, stop, where, InstructBufferError):
    kind, name = where
    owner, what = name.split(".", 1)
    if got is None:
        raise Violation("error-swallowed", "%s failed with %s, the caller was not told" % (where, type(exc).__name__))
    if stop:
        if got is not exc:
            raise Violation("stop-changed", "%s in %s became %s" % (type(exc).__name__, where, common.explain(got) if isinstance(got, Exception) else repr(got)))
        return
    if not bc.chained(got, exc):
        raise Violation("cause-lost", "%s in %s became %s" % (type(exc).__name__, where, describe(got)))
    if op == "size":
        return
    report(p, got, bspec.blamed(types.by, p, kind, owner, what), InstructBufferError)


def describe(e):
    try:
        return "%s: %s" % (type(e).__name__, str(e)[:200])
    except Exception:
        return type(e).__name__


def report(p, got, fields, InstructBufferError):
    """The error names the packet type and the field."""
    if not isinstance(got, InstructBufferError):
        raise Violation("error-not-reported", "the caller got %s" % describe(got))
    text = str(got)
    if p.name not in text or (got.clazz is not p.cls and p.name not in str(got.clazz)):
        raise Violation("wrong-type-named", "%s in: %s" % (p.name, text[:200]))
    if got.attr_name not in fields or repr(got.attr_name) not in text:
        raise Violation("wrong-field-named", "%s, not one of %s: %s" % (got.attr_name, sorted(fields), text[:200]))


def bad_values(p, f, v):
    """Values the field cannot carry."""
    k = f["k"]
    out = []
    if k == "int":
        e = bspec.Eval(p, bspec.with_defaults(p, v))
        try:
            bits = 8 * f["bs"] if f.get("bs") else e.width(f)
        except bspec.Bad:
            bits = None
        if bits:
            top = 1 << bits
            out += [top, top * 257, top << 64]
            if bits in (8, 16, 32, 64):
                out += [-top, 1.5]
                if not f["sign"]:
                    out += [-1]
                else:
                    out += [top >> 1, -(top >> 1) - 1]
        out += [None, "text", BadRepr(), object()]
    elif k == "float":
        out += [None, "text", BadRepr(), []]
    elif k == "str":
        out += [BadRepr(), "\ud800" if f["enc"] == "utf-8" else "\u20ac"]
    elif k == "bytes":
        out += [None, "text", BadRepr(), [256], BadIter(), [None]] + too_short(p, f, v)
    elif k == "json":
        loop = []
        loop.append(loop)
        out += [object(), loop, BadRepr(), {"a": b"x"}]
    elif k == "list":
        out += [None, 5, BadIter(), [BadRepr()]]
        if f["el"]["k"] != "str":      # (anything has a text)
            out += [[object()]]
        if f["el"]["k"] == "int":
            out += [[1 << f["el"]["bits"]], ["text"]]
        if f["el"]["k"] == "buf":
            out += [[None], [5]]
        out += [[]] * len(too_short(p, f, v)[:1])
    elif k == "buf":
        out += [None, 5, BadRepr(), "text"]
    return out


def too_short(p, f, v):
    """Byte strings that leave some of the field's own bytes unset."""
    e = bspec.Eval(p, bspec.with_defaults(p, v))
    try:
        if e.is_open(f):
            return []
        rs = e.ranges(f)
    except bspec.Bad:
        return []
    n = sum(b - a for a, b in rs)
    return ([b""] + [b"\xff" * (n // 8 - 1)] * (n % 8 == 0)) * 3 if n else []


def bad_value(p, v, o, fault, types, sim, app, InstructBufferError):
    e = bspec.Eval(p, bspec.with_defaults(p, v))
    cand = [f for f in p.fields if f.get("sbp") is None and not f.get("derive") and e.present(f)]
    # a value others are computed from may fail there instead: those are reported for the fields that use it
    if not cand:
        return
    f = cand[fault["bad"] % len(cand)]
    values = bad_values(p, f, v)
    bad = values[fault["how"] % len(values)]
    if isinstance(bad, (int, float, str, bytes, list)) and any(x is not f for x in p.fields if f["n"] in bspec.deps(x) or mentions(x, f["n"])):
        return      # part of another field's position, size or presence: the layout then means something else
    old = getattr(o, f["n"])
    setattr(o, f["n"], bad)
    got = attempt(o.pack)
    setattr(o, f["n"], old)
    sim.fault("unencodable:" + f["k"])
    if got is None:
        raise Violation("unencodable-value-packed", "%s of %s" % (safe(bad), f["n"]))
    if not isinstance(got, Exception):
        raise Violation("error-not-reported", repr(got))
    report(p, got, bspec.dependents(p, [f["n"]]), InstructBufferError)


def mentions(x, name):
    return any(len(e) > 1 and name in e[1:3] for e in bspec.sub_exprs(x))


def safe(x):
    try:
        return repr(x)[:100]
    except Exception:
        return type(x).__name__


def damaged(p, raw, fault, recv, o, sim, InstructBufferError):
    if not raw:
        return
    if fault["damage"] == "cut":
        data = raw[:int(fault["x"] * len(raw))]
    else:
        i = int(fault["x"] * len(raw))
        data = raw[:i] + bytes([fault["y"]]) + raw[i + 1:]
    got = attempt(lambda: o.unpack(bc.receive_buffer(recv, data)))
    sim.fault("received-" + fault["damage"])
    if got is not None:
        if not isinstance(got, Exception):
            raise Violation("error-not-reported", repr(got))
        report(p, got, set(p.by), InstructBufferError)
