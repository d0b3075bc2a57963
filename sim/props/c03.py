"""C03: broken input never becomes a record."""
from .. import common, kernel
from ..world import Pipe, StreamFault, Violation, bytes_reader

RUNS = {"quick": 30000, "thorough": 200000}
RULE = ("one evaluation = one read of a record sequence from a stream that breaks at one byte (end of input, short read, empty read or "
        "an exception of the stream), followed by a check that the types still work on healthy streams; every scenario breaks at up "
        "to 24 different bytes with different kinds, plus one run over a simulated connection that is cut while data is in flight; "
        "non-trivial = the fault was delivered, counted distinct by (types, values, fault kind, byte)")
MEASURE = "distinct (record types, values, fault kind, fault byte)"
REAL = ["infi.instruct struct side: declaration macros, struct types, all marshals, bit streams, look-ahead streams, lazy containers"]
STUB = ["byte stream and connection (simulated, faulty)", "clock and scheduler (simulated)"]
ASSUMPTIONS = ["a stream that is cut returns what it has and then nothing, or raises", "CPython 3.12 stands for the interpreters the library runs on"]


class OddFault(Exception):
    """A failure of the stream that is no OSError."""


class StopFault(BaseException):
    """A request to stop, raised out of a blocking read."""


EXCS = {"io": StreamFault, "odd": OddFault, "stop": StopFault, "type": TypeError, "key": KeyError, "eof": EOFError, "attr": AttributeError,
        "assert": AssertionError, "value": ValueError, "index": IndexError, "timeout": TimeoutError}


def gen(rng, tier, idx):
    types = common.gen_types(rng, rng.randint(1, 2), keep=rng.choice([0.3, 0.6, 0.9]))
    seq = common.gen_seq(rng, types, rng.randint(1, 3))
    ss = common.models(types)
    total = sum(len(ss[t].enc(v)) for t, v in seq)
    faults = []
    if total <= 14 and rng.random() < 0.5:
        ats = list(range(total))
    else:
        ats = [rng.randrange(total) for _ in range(min(total, rng.randint(3, 12)))] if total else []
    for at in ats:
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["eof", "eof", "short", "empty", "error", "error"])
            faults.append([kind, at, rng.choice(sorted(EXCS))])
    return {"types": types, "plain": common.gen_plain(rng, ss), "seq": seq, "faults": faults, "tell": rng.choice(["no", "yes", "raises", "seek"]), "net": common.net(rng),
            "cut": [rng.randrange(total + 1), rng.choice(["eof", "error"])] if total else None, "via": rng.choice(["stream", "stream", "string"]),
            "schedule": {"choices": common.choices(rng)}}


def valid(scn):
    if not common.valid_types(scn["types"]) or not common.valid_seq(scn["types"], scn["seq"]):
        return False
    ss = common.models(scn["types"])
    total = sum(len(ss[t % len(ss)].enc(v)) for t, v in scn["seq"])
    return all(f[1] < total for f in scn["faults"]) and common.valid_plain(scn["types"], scn.get("plain", []))


def run(scn, ctx):
    env = common.env_for(ctx)
    types = common.Types(scn["types"], env)
    encs = [types[t].enc(v) for t, v in scn["seq"]]
    data = b"".join(encs)
    for kind, at, exc_name in scn["faults"]:
        exc = EXCS[exc_name]("injected at %d" % at)
        r = bytes_reader(data, {"kind": kind, "at": at}, scn["tell"], exc=exc)
        end = 0
        for i, (t, v) in enumerate(scn["seq"]):
            s = types[t]
            start, end = end, end + len(encs[i])
            what = "record %d (bytes %d..%d), %s at byte %d" % (i, start, end, kind, at)
            try:
                if kind == "eof" and scn["via"] == "string" and start <= at < end:
                    r.fired = True
                    o = s.cls.create_from_string(data[start:at])
                else:
                    o = s.cls.create_from_stream(r)
            except Violation:
                raise
            except BaseException as e:
                if isinstance(e, kernel.SimAbort):
                    raise
                if not start <= at < end:
                    raise Violation("intact-record-refused", "%s: %s" % (what, common.explain(e)))
                if kind == "error" and r.fired and e is not exc:
                    raise Violation("stream-error-changed", "%s: raised %r, caller got %s" % (what, exc, common.explain(e)))
                if kind != "error" and not isinstance(e, Exception):
                    raise Violation("stream-error-changed", "%s: %s" % (what, common.explain(e)))
                ctx.fault("stream-" + kind)
                break
            else:
                if start <= at < end:
                    raise Violation("incomplete-record-accepted", what)
                common.expect_value("wrong-value", s, s.canon(v), o)
        ctx.execs += 1
        common.still_works(types, scn["seq"], tell=scn["tell"])
        ctx.seen(scn["types"], scn["seq"], kind, at)
    for i, el, m, what, given, want in common.plain_parts(types, scn.get("plain", []), ctx):
        if not want:
            continue
        at = int(i["at"] * len(want))
        try:
            if i["via"] == "string":
                m.create_from_string(want[:at], *given)
            else:
                m.create_from_stream(bytes_reader(want, {"kind": "eof", "at": at}, i["tell"]), *given)
        except Violation:
            raise
        except Exception:
            ctx.fault("stream-eof")
        else:
            raise Violation("incomplete-record-accepted", "%s: %d of %d bytes" % (what, at, len(want)))
    if scn["cut"]:
        cut_connection(scn, ctx, env, types, encs)


def cut_connection(scn, ctx, env, types, encs):
    sim = kernel.Sim(scn.get("schedule"))
    env.callback = lambda kind, name, obj=None: sim.point(kind)
    at, how = scn["cut"]
    pipe = CutPipe(sim, "c", scn["net"], scn["tell"], at, how)

    def sender():
        for t, v in scn["seq"]:
            s = types[t]
            s.cls.write_to_stream(s.to_py(v), pipe.writer)
        pipe.close()

    def receiver():
        end = 0
        for i, (t, v) in enumerate(scn["seq"]):
            s = types[t]
            start, end = end, end + len(encs[i])
            try:
                o = s.cls.create_from_stream(pipe.reader)
            except (Violation, kernel.SimAbort):
                raise
            except Exception as e:
                if end <= at:
                    raise Violation("intact-record-refused", common.explain(e))
                if how == "error" and e is not pipe.exc and pipe.raised:
                    raise Violation("stream-error-changed", common.explain(e))
                return
            if end > at:
                raise Violation("incomplete-record-accepted", "connection cut at byte %d, record %d ends at %d" % (at, i, end))
            common.expect_value("wrong-value", s, s.canon(v), o)
    sim.spawn("send", sender)
    sim.spawn("recv", receiver)
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
    ctx.fault("connection-cut-" + how)
    env.callback = lambda kind, name, obj=None: None
    common.still_works(types, scn["seq"], tell=scn["tell"])


class CutPipe(Pipe):
    """A connection that is lost after `at` bytes have been delivered; later bytes vanish."""

    def __init__(self, sim, name, net, tell, at, how):
        Pipe.__init__(self, sim, name, net, tell)
        self.at = at
        self.how = how
        self.delivered = 0
        self.exc = StreamFault("connection reset")
        self.raised = False
        inner = self.reader.read

        def read(n):
            out = inner(n)
            if len(out) < n and how == "error":
                self.raised = True
                raise self.exc
            return out
        self.reader.read = read

    def _arrive(self, part):
        keep = part[:max(0, self.at - self.delivered)]
        self.delivered += len(part)
        self.inflight -= len(part)
        self.arrived += keep
        if self.delivered > self.at or (self.closed and not self.inflight):
            self.eof = True
