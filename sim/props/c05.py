"""C05: a log of records recovers from crashes."""
from .. import common, kernel, sspec
from ..world import StreamFault, Violation, bytes_reader

RUNS = {"quick": 40000, "thorough": 300000}
RULE = ("one evaluation = one crash-and-recovery cycle of a log file on the simulated disk (append, sync, failing appends, a crash that "
        "keeps an arbitrary prefix of the unsynced bytes, recovery by reading records, truncation, further appends); non-trivial = "
        "the crash lost or tore bytes, or records were recovered; counted distinct by (type, epoch, surviving length)")
MEASURE = "distinct (record type, values, surviving length) triples"
REAL = ["infi.instruct struct side: declaration macros, struct types, all marshals, lazy containers, look-ahead streams"]
STUB = ["disk (simulated page cache with fsync, torn writes, ENOSPC/EIO, failing fsync)", "the application's recovery loop (in the harness)"]
ASSUMPTIONS = ["a crash keeps a prefix of the bytes written since the last successful fsync", "records of the type take at least one byte",
               "CPython 3.12 stands for the interpreters the library runs on"]


class Disk(object):
    """One append-only file."""

    def __init__(self):
        self.durable = bytearray()
        self.cache = bytearray()
        self.room = None
        self.writes = 0

    def write(self, data):
        data = bytes(data)
        self.writes += 1
        if self.room is not None and len(data) > self.room:
            self.cache += data[:self.room]
            self.room = None
            raise StreamFault("no space left on device")
        if self.room is not None:
            self.room -= len(data)
        self.cache += data
        return len(data)

    def sync(self):
        self.durable += self.cache
        del self.cache[:]

    def crash(self, keep):
        self.durable += self.cache[:keep]
        del self.cache[:]
        self.room = None

    def truncate(self, n):
        all_ = bytes(self.durable) + bytes(self.cache)
        self.durable = bytearray(all_[:min(n, len(self.durable))])
        self.cache = bytearray(all_[len(self.durable):n])

    def contents(self):
        return bytes(self.durable + self.cache)


def gen(rng, tier, idx):
    while True:
        types = common.gen_types(rng, 1, keep=rng.choice([0.3, 0.6, 0.9]))
        s = sspec.S(types[0])
        if len(s.enc(s.gen(rng))) and (not s.has_minmax or s.minmax()[0] > 0):
            break
    epochs = []
    for _ in range(rng.randint(1, 4)):
        ops = []
        for _ in range(rng.randint(0, 5)):
            r = rng.random()
            if r < 0.7:
                ops.append(["append", s.gen(rng)])
            elif r < 0.85:
                ops.append(["sync"])
            elif r < 0.9:
                ops.append(["sync-fails"])
            else:
                ops.append(["append-fails", s.gen(rng), rng.randint(0, 40)])
        epochs.append({"ops": ops, "keep": rng.choice([0, 1 << 20, rng.randint(0, 80), rng.randint(0, 80), rng.randint(0, 10)]),
                       "crash_in_recovery": rng.random() < 0.2})
    return {"types": types, "epochs": epochs, "tell": rng.choice(["no", "yes", "raises", "seek"]), "compact": rng.random() < 0.3}


def valid(scn):
    s = sspec.S(scn["types"][0])
    return common.valid_types(scn["types"]) and all(common.valid_value(s, op[1]) and len(s.enc(op[1]))
                                                    for e in scn["epochs"] for op in e["ops"] if op[0].startswith("append"))


def recover(s, data, tell):
    """What an application does: read until the input ends or is refused."""
    r = bytes_reader(data, tell=tell)
    out = []
    good = 0
    while good < len(data):
        try:
            o = s.cls.create_from_stream(r)
            v = s.from_py(o)
        except Violation:
            raise
        except Exception as e:
            return out, good, e
        if r.taken <= good:
            raise Violation("no-progress", "a record of %d bytes was read" % (r.taken - good))
        out.append((v, o))
        good = r.taken
    return out, good, None


def run(scn, ctx):
    env = common.env_for(ctx)
    types = common.Types(scn["types"], env)
    s = types[0]
    disk = Disk()
    base = []          # canonical values of what is in the file, in order, with end offsets
    end = 0
    for e in scn["epochs"]:
        log = list(base)
        synced = len(base)
        for op in e["ops"]:
            if op[0] == "append":
                try:
                    s.cls.write_to_stream(s.to_py(op[1]), disk)
                except Exception as x:
                    raise Violation("write-failed", common.explain(x))
                log.append((s.canon(op[1]), len(disk.durable) + len(disk.cache)))
            elif op[0] == "sync":
                disk.sync()
                synced = len(log)
            elif op[0] == "sync-fails":
                ctx.fault("fsync-error")
            else:
                start = len(disk.durable) + len(disk.cache)
                disk.room = op[2]
                try:
                    s.cls.write_to_stream(s.to_py(op[1]), disk)
                except StreamFault:
                    ctx.fault("disk-full")
                    disk.truncate(start)          # the application takes the torn record back
                except Exception as x:
                    raise Violation("stream-error-changed", common.explain(x))
                else:
                    log.append((s.canon(op[1]), len(disk.durable) + len(disk.cache)))
                disk.room = None
        lost = len(disk.cache) - min(e["keep"], len(disk.cache))
        disk.crash(e["keep"])
        ctx.fault("crash")
        if lost:
            ctx.fault("lost-bytes")
        data = disk.contents()
        want = [v for v, stop in log if stop <= len(data)]
        ends = [stop for v, stop in log if stop <= len(data)]
        if (ends[-1] if ends else 0) != len(data):
            ctx.fault("torn-record")
        rounds = 2 if e["crash_in_recovery"] else 1
        for _ in range(rounds):
            got, good, err = recover(s, data, scn["tell"])
        if len(want) < synced:
            raise RuntimeError("the simulated disk lost synced bytes")
        for i, v in enumerate(want):
            if i >= len(got):
                raise Violation("record-lost", "%d records survived completely, %d recovered (%s)" % (len(want), len(got), err and common.explain(err)))
            d = sspec.diff(v, got[i][0])
            if d:
                raise Violation("wrong-value", "record %d: %s" % (i, d))
        if len(got) > len(want):
            raise Violation("torn-record-accepted", "%d complete records, %d recovered" % (len(want), len(got)))
        if good != (ends[-1] if ends else 0):
            raise Violation("wrong-consumption", "recovery stopped at %d instead of %d" % (good, ends[-1] if ends else 0))
        disk.truncate(good)
        if scn["compact"]:
            new = Disk()
            for v, o in got:
                s.cls.write_to_stream(o, new)
            if new.contents() != disk.contents():
                raise Violation("compaction-differs", "rewriting recovered records changed the log")
        base = list(zip(want, ends))
        ctx.execs += 1
        ctx.seen(scn["types"], [v for v, _ in log], len(data))
        ctx.add("records_recovered", len(want))
