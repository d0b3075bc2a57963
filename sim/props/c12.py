"""C12: packets survive an unreliable network."""
from .. import bcommon as bc, bspec, common, kernel
from ..world import Violation

RUNS = {"quick": 6000, "thorough": 150000}
RULE = ("one evaluation = one simulated exchange: 1-3 random packet layouts (random subset of all declaration features), 1-2 senders that "
        "pack and send datagrams of 1-3 packets and pack them again until they are acknowledged, 1 receiver each, over a network that loses, "
        "duplicates, reorders and delays datagrams and acknowledgements; each end is the real library or the independent reference codec; "
        "non-trivial = at least one packet with bytes went through the real library, counted distinct by (layouts, values, order of arrivals)")
MEASURE = "distinct (layouts, values, order of datagram arrivals and task switches) triples"
REAL = ["infi.instruct.buffer: macros, metaclass, field references, positions, packers and unpackers, input and output buffers"]
STUB = ["datagram network (simulated)", "clock, timers and task scheduler (simulated)", "datagram header and acknowledgement (harness)",
        "remote peer (reference codec) where the scenario says so"]
ASSUMPTIONS = ["datagrams arrive whole or not at all (cut-off datagrams are C13)", "CPython 3.12 stands for the interpreters the library runs on"]

TIMEOUT = 50_000_000
FAULT_FREE_TRIES = 3


def gen(rng, tier, idx):
    specs, types = bc.gen_typed(rng, rng.choice([1, 1, 2, 3]))
    conns = []
    for _ in range(rng.choice([1, 1, 2])):
        msgs = []
        for _ in range(rng.randint(1, 4)):
            seq = bc.gen_seq(rng, types, rng.choice([1, 1, 2, 3]))
            if seq and not coalesces(types, seq):
                seq = seq[:1]
            if seq:
                msgs.append(seq)
        w, r = rng.choice([("real", "real"), ("real", "real"), ("real", "ref"), ("ref", "real")])
        lossy = rng.random() < 0.8
        conns.append({"msgs": msgs, "writer": w, "reader": r, "recv": rng.choice(bc.RECEIVE), "reuse": rng.random() < 0.3,
                      "window": rng.choice([1, 2, 8]), "fill": rng.choice([0, 1, 2]),
                      "tight": rng.choice([None, None, -3, -2, -1, -1, 0, 1, 4]),
                      "net": [gen_fate(rng) for _ in range(rng.randint(1, 14))] if lossy else []})
    return {"types": specs, "conns": conns, "schedule": {"choices": common.choices(rng, 20)}}


def gen_fate(rng):
    """What happens to one datagram: [copies' delays]; [] = lost."""
    r = rng.random()
    if r < 0.3:
        return []
    if r < 0.5:
        return [rng.choice([0, 1000, 40_000_000, 90_000_000]) for _ in range(rng.choice([2, 2, 3]))]
    return [rng.choice([0, 0, 1000, 30_000_000, 120_000_000])]


def coalesces(types, seq):
    """Each packet of the datagram can be told from what follows (says the reference codec)."""
    try:
        raws = [bspec.expected(types[t], v) for t, v in seq]
        rest = b"".join(x[0] for x in raws)
        for (t, v), (raw, _, back, size) in zip(seq, raws):
            got, n = types[t].unpack(rest)
            if n != len(raw) or bspec.diff(back, got):
                return False
            rest = rest[n:]
        return True
    except bspec.Bad:
        return False


def valid(scn):
    if not bc.valid_types(scn["types"]):
        return False
    t = bspec.Types(scn["types"])
    return all(m and bc.valid_seq(scn["types"], m) and (len(m) == 1 or coalesces(t, m)) for c in scn["conns"] for m in c["msgs"])


def filled(p, v, raw, how):
    """The packet as a peer encodes it that fills strings up differently; as usual if the result means something else."""
    bspec.FILL[0] = how
    try:
        other = bspec.expected(p, v)[0]
    except bspec.Bad:
        return raw
    finally:
        bspec.FILL[0] = 0
    try:
        return other if len(other) == len(raw) and not bspec.diff(p.unpack(raw), p.unpack(other)) else raw
    except bspec.Bad:
        return raw


def declared_size(p, v, k, sim, ctx):
    """The same layout in a derived type that declares how long its packets are."""
    name = p.name + "Sized"
    cls = type(p.cls)(name, (p.cls,), {"byte_size": k})
    o = cls()
    like = p.to_py(v)
    for n in v:
        setattr(o, n, getattr(like, n))
    q = bspec.P(dict(p.spec, byte_size=k), p.env_types)
    try:
        raw = q.pack(bspec.with_defaults(p, v))[0]
    except bspec.Bad as e:
        if "declared size" not in str(e):
            return
        raw = None
    try:
        got = bytes(o.pack())
    except (Violation, kernel.SimAbort):
        raise
    except Exception as e:
        if raw is not None:
            raise Violation("pack-failed", "%s of declared size %d: %s" % (name, k, common.explain(e)))
        ctx.add("too big for the declared size")
        return
    if raw is None:
        raise Violation("too-big-packed", "%d bytes for %s, which declares %d" % (len(got), name, k))
    if got != raw:
        raise Violation("wrong-bytes", "%s of declared size %d: %s, packed %s" % (name, k, raw.hex(), got.hex()))


class Link(object):
    """One direction: fates are used up one per datagram; when they are, the network is perfect."""

    def __init__(self, sim, fates):
        self.sim = sim
        self.fates = list(fates)
        self.queue = []
        self.last_sent = 0

    def send(self, dgram):
        fate = self.fates.pop(0) if self.fates else [1000]
        if not fate:
            self.sim.fault("loss")
        if len(fate) > 1:
            self.sim.fault("duplicate", len(fate) - 1)
        for d in fate:
            if d >= 1_000_000:
                self.sim.fault("delay")
            self.sim.at(d, lambda: self.arrive(dgram))

    def arrive(self, dgram):
        if dgram[0] < self.last_sent:
            self.sim.fault("reorder")
        self.last_sent = max(self.last_sent, dgram[0])
        self.queue.append(dgram)
        self.sim.inter.update(b"a%d;" % dgram[0])

    def recv(self, stop):
        self.sim.wait(lambda: self.queue or stop(), "datagram")
        return self.queue.pop(0) if self.queue else None


def run(scn, ctx):
    env = bc.env_for(ctx)
    types = bc.build(scn["types"], env)
    for p in types.top:
        st = p.static_size
        if p.cls.byte_size != st and (st is None or p.cls.byte_size is None or -(-p.cls.byte_size // 1) != st):
            raise Violation("wrong-static-size", "%s.byte_size is %r, the layout says %r" % (p.name, p.cls.byte_size, st))
    sim = kernel.Sim(scn.get("schedule"))
    env.callback = lambda kind, name, obj=None: sim.point(kind)
    conns = []
    for i, c in enumerate(scn["conns"]):
        conn = Conn(sim, types, c, ctx)
        conns.append(conn)
        sim.spawn("s%d" % i, conn.sender)
        sim.spawn("r%d" % i, conn.receiver)
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
    for conn in conns:
        if conn.delivered != set(range(len(conn.c["msgs"]))):
            raise Violation("not-delivered", "delivered %r" % sorted(conn.delivered))
    ctx.seen(scn["types"], [c["msgs"] for c in scn["conns"]], sim.inter.hexdigest())


class Conn(object):
    def __init__(self, sim, types, c, ctx):
        self.sim, self.types, self.c, self.ctx = sim, types, c, ctx
        self.there = Link(sim, c["net"][::2])
        self.back = Link(sim, c["net"][1::2])
        self.delivered = set()
        self.finished = False

    def sender(self):
        sim, c, types = self.sim, self.c, self.types
        objs = {}
        unacked = list(range(len(c["msgs"])))
        tries = dict.fromkeys(unacked, 0)
        perfect_since = None
        while unacked:
            for k in unacked[:c["window"]]:
                data = b""
                for j, (t, v) in enumerate(c["msgs"][k]):
                    p = types[t]
                    raw = bspec.expected(p, v)[0]
                    if c["writer"] == "real":
                        o = objs.get((k, j))
                        if o is None:
                            o = objs[k, j] = p.to_py(v)
                            n = self.measure(p, o)
                            if n != len(raw):
                                raise Violation("wrong-size", "calc_byte_size() is %r, the packet has %d bytes" % (n, len(raw)))
                        raw = bc.check_pack(p, v, o)
                        self.ctx.add("packed")
                        if c.get("tight") is not None and not tries[k]:
                            declared_size(p, v, max(1, len(raw) + c["tight"]), self.sim, self.ctx)
                    elif c.get("fill"):
                        raw = filled(p, v, raw, c["fill"])
                    data += raw
                sim.note("send", k, data)
                self.there.send((k, data))
                sim.choose()
                tries[k] += 1
            if not self.there.fates and not self.back.fates:
                if perfect_since is None:
                    perfect_since = dict(tries)
                elif any(tries[k] - perfect_since[k] > FAULT_FREE_TRIES for k in unacked):
                    raise Violation("no-progress", "packets %r are not acknowledged although the network has become reliable" % unacked)
            deadline = sim.now + TIMEOUT
            timer = []
            sim.at(TIMEOUT, lambda: timer.append(1))
            window = set(unacked[:c["window"]])
            while window & set(unacked) and not timer:
                sim.wait(lambda: self.back.queue or timer, "ack")
                while self.back.queue:
                    k, _ = self.back.queue.pop(0)
                    if k in unacked:
                        unacked.remove(k)
            if sim.now > deadline + 100 * TIMEOUT:
                raise Violation("no-progress", "time runs away")
        self.finished = True

    def measure(self, p, o):
        try:
            return o.calc_byte_size()
        except Violation:
            raise
        except Exception as e:
            raise Violation("pack-failed", "measuring %s: %s" % (p.name, common.explain(e)))

    def receiver(self):
        sim, c, types = self.sim, self.c, self.types
        reused = {}
        while True:
            d = self.there.recv(lambda: self.finished)
            if d is None:
                return
            k, data = d
            at = 0
            for t, v in c["msgs"][k]:
                p = types[t]
                _, _, back, size = bspec.expected(p, v)
                rest = data[at:]
                if c["reader"] == "real":
                    o = reused.setdefault(p.name, p.new()) if c["reuse"] else p.new()
                    bc.check_unpack(p, back, size, bc.receive_buffer(c["recv"], rest), o)
                    self.ctx.add("unpacked")
                else:
                    try:
                        got, n = p.unpack(rest)
                    except bspec.Bad as e:
                        raise Violation("peer-misreads", str(e))
                    if bspec.diff(back, got) or n != size:
                        raise Violation("peer-misreads", p.name)
                at += size
            self.delivered.add(k)
            self.back.send((k, None))
            sim.choose()
