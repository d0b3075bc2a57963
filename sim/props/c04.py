"""C04: a failed or refused write harms nothing."""
from .. import common, kernel, sspec
from ..world import FailingWriter, StreamFault, Violation
from .c03 import EXCS

RUNS = {"quick": 30000, "thorough": 150000}
RULE = ("one evaluation = one write of a record to a destination that fails after k bytes (taking part of the failing write or none of "
        "it) or of a record one of whose values does not fit, followed by a complete write of the same object; non-trivial = the "
        "fault was delivered or the misfit assigned, counted distinct by (type, value, fault)")
MEASURE = "distinct (record type, value, failing byte or misfit field and value)"
REAL = ["infi.instruct struct side: declaration macros, struct types, all marshals, bit streams"]
STUB = ["destination stream (simulated, failing)"]
ASSUMPTIONS = ["a failed write(b) has taken a prefix of b", "a number of bits too large for its bit field may be refused or reduced to its slot",
               "CPython 3.12 stands for the interpreters the library runs on"]


def gen(rng, tier, idx):
    types = common.gen_types(rng, 1, keep=rng.choice([0.3, 0.6, 0.9]))
    s = sspec.S(types[0])
    v = s.gen(rng)
    n = len(s.enc(v))
    fails = []
    if n:
        rooms = list(range(n)) if n <= 12 else sorted(set([0, n - 1] + [rng.randrange(n) for _ in range(8)]))
        for room in rooms:
            fails.append([room, rng.random() < 0.6, rng.choice(sorted(EXCS)), rng.random() < 0.4])
    bad = []
    paths = misfits(s, v, rng)
    rng.shuffle(paths)
    for p in paths[:5]:
        bad.append(p)
    return {"types": types, "value": v, "fails": fails, "bad": bad, "next": s.gen(rng)}


def misfits(s, v, rng, path=()):
    """[[path, kind, value]]: places in value v of type s where a value that does not fit can be put."""
    out = []
    ctl = s.controls()
    for n, f in s.leaves():
        if n in ctl or v[n] is None:
            continue
        if f["t"] in ("bits", "pbits"):
            w = bits_width(f, n)
            out.append([list(path) + [n], rng.choice([(1 << w), (1 << w) + rng.randint(0, 9), -1, (1 << (w + 8)) - 1, 1 << (w + 20)])])
            continue
        if f["t"] == "const":
            continue
        out.extend(misfit_el(s.els[n], v[n], rng, list(path) + [n]))
    return out


def bits_width(f, n):
    if f["t"] == "bits":
        return [i[2] for i in f["items"] if i[0] == "f" and i[1] == n][0]
    return [sum(b - a for a, b in sl) for m, sl in f["items"] if m == n][0]


def misfit_el(el, v, rng, path):
    if isinstance(el, sspec.Rec):
        return misfits(el.s, v, rng, path)
    if isinstance(el, sspec.Variant):
        return misfits(el.cases[v["case"]], v["v"], rng, path + ["@"])
    out = []
    if isinstance(el, sspec.Arr):
        for i, x in enumerate(v[:3]):
            out.extend(misfit_el(el.el, x, rng, path + [i]))
    if isinstance(el, sspec.FArr):
        out.append([path, el.bad_value(rng)])
    if isinstance(el, (sspec.VStr, sspec.VArr)) and not el.len.ptr and el.len.max() <= 300:
        if isinstance(el, sspec.VStr):
            out.append([path, "41" * (el.len.max() + 1) if "41" not in el.pad.hex() else "42" * (el.len.max() + 1)])
        elif v:
            out.append([path, [v[0]] * (el.len.max() + 1)])
    if isinstance(el, sspec.SArr) and not el.len.ptr and el.len.max() <= 300 and v and el.el.enc(v[0]):
        out.append([path, [v[0]] * (el.len.max() // len(el.el.enc(v[0])) + 1)])
    if isinstance(el, (sspec.Num, sspec.FStr, sspec.Map)) and hasattr(el, "bad_value") and not isinstance(el, sspec.VStr):
        b = el.bad_value(rng)
        if b is not None:
            out.append([path, b])
    return out


def valid(scn):
    return common.valid_types(scn["types"]) and common.valid_value(sspec.S(scn["types"][0]), scn["value"]) and \
        common.valid_value(sspec.S(scn["types"][0]), scn["next"]) and valid_bad(scn)


def valid_bad(scn):
    s = sspec.S(scn["types"][0])
    for path, bad in scn["bad"]:
        try:
            x, el, sub = locate(s, scn["value"], path)
        except Exception:
            return False
        if isinstance(el, sspec.FArr) and len(bad) == el.n:
            return False
        if isinstance(el, sspec.VArr) and len(bad) <= el.len.max():
            return False
        if isinstance(el, sspec.SArr) and el.count(bad) <= el.len.max():
            return False
    return bool(s)


def locate(s, v, path):
    """(value at path, element spec or None for bits, record spec)"""
    el = None
    cur = v
    for p in path:
        if p == "@":
            s, cur, el = el.cases[cur["case"]], cur["v"], None
            continue
        if isinstance(p, int):
            el, cur = el.el, cur[p]
        else:
            if isinstance(el, sspec.Rec):
                s = el.s
            el, cur = s.els.get(p), cur[p]
    return cur, el, s


def blank(s, v, path):
    """Value v with the part at path replaced by None (for comparing all the rest)."""
    import json
    v = json.loads(json.dumps(v))
    cur = v
    for p in path[:-1]:
        cur = cur["v"] if p == "@" else cur[p]
    cur[path[-1]] = None
    return v


def set_real(s, o, path, bad, types_el):
    """Assigns the misfit in the real object; returns a function that puts the old value back."""
    cur = o
    for p in path[:-1]:
        if p == "@":
            continue
        cur = cur[p] if isinstance(p, int) else getattr(cur, p)
    last = path[-1]
    if isinstance(last, int):
        old = cur[last]
        cur[last] = bad
        return lambda: cur.__setitem__(last, old)
    old = getattr(cur, last)
    setattr(cur, last, bad)
    return lambda: setattr(cur, last, old)


def run(scn, ctx):
    env = common.env_for(ctx)
    types = common.Types(scn["types"], env)
    s = types[0]
    v = scn["value"]
    canon = s.canon(v)
    want = s.enc(v)
    o = s.to_py(v)
    before = s.from_py(o)
    for room, partial, exc_name, once in scn["fails"]:
        if room >= len(want):
            continue
        exc = EXCS[exc_name]("disk full at %d" % room)
        w = FailingWriter(room, exc, partial, once=once)
        try:
            s.cls.write_to_stream(o, w)
        except Violation:
            raise
        except BaseException as e:
            if isinstance(e, kernel.SimAbort):
                raise
            if e is not exc:
                raise Violation("stream-error-changed", "raised %r, caller got %s" % (exc, common.explain(e)))
        else:
            raise Violation("failure-swallowed", "destination failed at byte %d of %d" % (room, len(want)))
        if not want.startswith(bytes(w.got)):
            raise Violation("not-a-prefix", "delivered %s of %s" % (bytes(w.got).hex(), want.hex()))
        unchanged(s, before, o, "after a failed write")
        if room % 2:
            common.still_works(types, [[0, scn["next"]]])
        again = FailingWriter(None, None)
        try:
            s.cls.write_to_stream(o, again)
        except Exception as e:
            raise Violation("not-usable-afterwards", common.explain(e))
        common.check_encoding("not-usable-afterwards", s, v, again.got)
        ctx.fault("write-failure-once" if once else "write-failure")
        ctx.execs += 1
        ctx.seen(scn["types"], v, room, partial)
    for path, bad in scn["bad"]:
        cur, el, sub = locate(s, v, path)
        pybad = el.to_py(bad) if el is not None and not isinstance(el, sspec.Map) else bad
        undo = set_real(s, o, path, pybad, el)
        w = FailingWriter(None, None)
        what = "%s = %r" % (path, bad)
        nxt = scn["next"]
        try:
            s.cls.write_to_stream(o, w)
        except Violation:
            raise
        except Exception as e:
            ctx.probe("misfit-refused")
        else:
            ctx.probe("misfit-confined")
            data = bytes(w.got)
            if len(data) != len(want):
                raise Violation("misfit-moves-fields", "%s: %d bytes written instead of %d" % (what, len(data), len(want)))
            try:
                got, pos = s.dec(data + s.enc(nxt))
            except (sspec.Trunc, sspec.Bad) as e:
                raise Violation("misfit-moves-fields", "%s: %r" % (what, e))
            d = sspec.diff(blank(s, canon, path), blank(s, got, path))
            if d or pos != len(want):
                raise Violation("misfit-moves-fields", "%s: %s" % (what, d or "length"))
        if len(path) % 2:
            common.still_works(types, [[0, scn["next"]]])
        undo()
        unchanged(s, before, o, "after a misfit was taken back")
        again = FailingWriter(None, None)
        try:
            s.cls.write_to_stream(o, again)
        except Exception as e:
            raise Violation("not-usable-afterwards", common.explain(e))
        common.check_encoding("not-usable-afterwards", s, v, again.got)
        ctx.fault("misfit-value")
        ctx.execs += 1
        ctx.seen(scn["types"], v, path, bad if not isinstance(bad, list) else len(bad))
    common.still_works(types, [[0, scn["next"]]])


def unchanged(s, before, o, when):
    d = sspec.diff(before, s.from_py(o))
    if d:
        raise Violation("record-changed", "%s: %s" % (when, d))
