"""Helpers shared by the property modules."""
import random

from . import kernel, sspec
from .engine import touches_repo
from .world import Violation


def env_for(ctx, callback=None):
    return sspec.Env(ctx.inst, callback)


def features(rng, must=(), never=(), keep=0.6):
    """Swarm testing: each run allows a random subset of the declaration features."""
    f = set(x for x in sorted(sspec.Gen.ALL) if rng.random() < keep)
    f |= set(must)
    f -= set(never)
    f.add("num")
    return f


def gen_types(rng, n, must=(), never=(), size=6, depth=2, keep=0.6):
    out = []
    for i in range(n):
        g = sspec.Gen(rng, features(rng, must, never, keep), size=rng.randint(1, size), depth=rng.randint(0, depth))
        out.append(g.record(name="T%d" % i))
    return out


class Types(object):
    def __init__(self, specs, env):
        self.env = env
        self.all = [sspec.S(s) for s in specs]
        for s in self.all:
            s.build(env)
        self.all += [s.base_s for s in self.all if s.spec.get("base")]

    def __getitem__(self, i):
        return self.all[i % len(self.all)]


def models(specs):
    """The declared types followed by those they are derived from (in the order of Types)."""
    out = [sspec.S(t) for t in specs]
    return out + [s.base_model() for s in out if s.spec.get("base")]


def take_extra(ss):
    """Some record types have constructors of their own, and all of these take the argument `extra`."""
    own = [s for s in ss if any(x.spec.get("init") for x in s.subs())]
    return bool(own) and all(s.takes_extra() for s in own)


def check_default(s, o):
    """o is a new record of type s."""
    s.check_unused()
    for n, f in s.leaves():
        want = s.default(n, f)
        have = getattr(o, n)
        if want is None:
            if have is not None:
                raise Violation("default-changed", "%s of a new record is %r" % (n, have))
            continue
        d = sspec.diff(want, s.els[n].from_py(have) if n in s.els else have)
        if d:
            raise Violation("default-changed", "%s of a new record: %s" % (n, d))


# ---- parts of records on their own: numbers, strings, arrays, mappings, choices are marshals with the same methods -----------
def standalone(el):
    """Whether this part means something without the record around it."""
    if isinstance(el, sspec.Loop) or el.spec.get("on") or (el.spec.get("len") or {}).get("ptr"):
        return False
    return all(standalone(k) for k in el.kids() if not isinstance(k, sspec.S))


def gen_plain(rng, ss, most=4):
    parts = [(t, n) for t, s in enumerate(ss) for x in [s] for n, f in x.leaves() if n in x.els and f["t"] in ("f", "opt")
             and standalone(x.els[n])]
    out = []
    for _ in range(rng.randint(0, most) if parts else 0):
        t, n = rng.choice(parts)
        out.append({"t": t, "n": n, "v": ss[t].els[n].gen(rng), "ctx": rng.choice([None, None, rng.randint(1, 255)]),
                    "at": rng.random(), "tell": rng.choice(["no", "yes", "raises", "seek"]), "via": rng.choice(["stream", "string"])})
    return out


def plain_bytes(el, v, xor=None):
    sspec.CONTEXT[0] = xor
    try:
        return el.enc(v)
    finally:
        sspec.CONTEXT[0] = None


def valid_plain(types, items):
    ss = models(types)
    for i in items:
        el = ss[i["t"] % len(ss)].els.get(i["n"])
        if el is None or not standalone(el):
            return False
        try:
            raw = el.enc(i["v"])
            got, pos = el.dec(raw, 0, {})
        except Exception:
            return False
        if pos != len(raw) or not sspec.same(got, el.canon(i["v"])) or not same_parts(got, i["v"]):
            return False
    return True


def plain_parts(types, items, ctx):
    """(item, its model, its marshal, what it is called, context arguments, its bytes) of each item."""
    from infi.instruct.base import ReadOnlyContext
    for i in items:
        s = types[i["t"]]
        el = s.els[i["n"]]
        packet = isinstance(el, sspec.Adapt)       # takes no context
        xor = None if packet else i["ctx"]
        given = (ReadOnlyContext({"xor": xor}),) if xor else ()
        yield i, el, el.marshal(types.env), "part %s of %s on its own" % (i["n"], s.name), given, plain_bytes(el, i["v"], xor)
        ctx.add("parts_on_their_own")


def net(rng):
    """How the network cuts and delays what is written."""
    mode = rng.random()
    if mode < 0.15:
        return {"chunks": [1], "delays": [rng.choice([0, 5000])]}
    n = rng.randint(1, 6)
    return {"chunks": [rng.choice([1, 1, 2, 3, 5, 8, 64, 4096]) for _ in range(n)],
            "delays": [rng.choice([0, 0, 1000, 20000, 3000000]) for _ in range(rng.randint(1, 5))]}


def choices(rng, n=40):
    return [rng.randrange(6) for _ in range(n)]


def explain(e):
    return "%s: %s" % (type(e).__name__, str(e)[:300])


def expect_value(kind, s, want, obj):
    """obj must be a record of type s holding the canonical value want."""
    try:
        got = s.from_py(obj)
    except Violation:
        raise
    except Exception as e:
        raise Violation(kind, "unreadable record: %s" % explain(e))
    d = sspec.diff(want, got)
    if d:
        raise Violation(kind, d)
    return got


def explore(scn, ctx, one):
    """Runs one(scenario) -> Sim under the scenario's schedule.  A schedule {"auto": {...}} is resolved here: a first run
    without preemption measures every task, then `variants` runs preempt at instructions drawn from the measured range.
    A violation carries the explicit schedule."""
    sch = scn.get("schedule") or {}
    if "auto" not in sch:
        return one(scn)
    auto = sch["auto"]
    rng = random.Random(auto["seed"])

    def attempt(schedule):
        c = dict(scn, schedule=schedule)
        try:
            return one(c)
        except Violation as v:
            if v.scenario is None:
                v.scenario = c
            raise
        except kernel.Deadlock as e:
            raise Violation("deadlock", str(e), c)
        except kernel.StepLimit as e:
            raise Violation("hang", str(e), c)
        except Exception as e:
            if touches_repo(e):
                raise Violation("crash", explain(e), c)
            raise
    sim = first = attempt({"choices": auto.get("choices", []), "record": 1})
    steps = [t.steps for t in sim.tasks]
    n = len(steps)
    if n < 2:
        return sim
    for _ in range(auto.get("variants", 1)):
        pre = []
        k = rng.randint(1, auto.get("k", 3))
        for _ in range(k):
            t = rng.randrange(n)
            if steps[t]:
                others = [i for i in range(n) if i != t]
                pre.append([t, kernel.pick_step(rng, first.tasks[t]), rng.choice(others)])
        sim = attempt({"preempts": pre, "choices": [rng.randrange(n) for _ in range(12)]})
    return sim


def schedule(rng, variants, k=3):
    return {"auto": {"seed": rng.randrange(1 << 30), "variants": variants, "k": k, "choices": choices(rng, 12)}}


# ---- what the minimiser may try ---------------------------------------------------------------------------------------
def valid_types(types):
    return bool(types) and all(sspec.S(t).check_spec() for t in types)


def same_parts(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same_parts(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_parts(x, y) for x, y in zip(a, b))
    return True


def valid_value(s, v):
    """v is a value of record type s that the wire format can carry (reference codec only)."""
    try:
        raw = s.enc(v)
        got, pos = s.dec(raw)
        return pos == len(raw) and sspec.same(got, s.canon(v)) and same_parts(got, v)
    except Exception:
        return False


def valid_seq(types, seq):
    ss = models(types)
    return all(valid_value(ss[t % len(ss)], v) for t, v in seq)


def gen_seq(rng, types, n):
    ss = models(types)
    out = []
    for _ in range(n):
        t = rng.randrange(len(ss))
        out.append([t, ss[t].gen(rng)])
    return out


def check_encoding(kind, s, v, data, xor=None):
    want = s.enc(v, xor)
    if bytes(data) != want:
        raise Violation(kind, "expected bytes %s, found %s" % (want.hex(), bytes(data).hex()))


def write_bytes(kind, s, o):
    try:
        return s.cls.write_to_string(o)
    except Exception as e:
        if isinstance(e, Violation):
            raise
        raise Violation(kind, "writing %s: %s" % (s.name, explain(e)))


def still_works(types, seq, kind="not-usable-afterwards", tell="no"):
    """The declared types write and read other streams correctly (used after something went wrong)."""
    from .world import bytes_reader
    for t, v in seq:
        s = types[t]
        try:
            raw = s.cls.write_to_string(s.to_py(v))
        except Violation:
            raise
        except Exception as e:
            raise Violation(kind, "writing: %s" % explain(e))
        check_encoding(kind, s, v, raw)
        try:
            o = s.cls.create_from_stream(bytes_reader(raw, tell=tell))
        except Violation:
            raise
        except Exception as e:
            raise Violation(kind, "reading: %s" % explain(e))
        expect_value(kind, s, s.canon(v), o)
