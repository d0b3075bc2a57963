"""C11: records are independent and mean what was last assigned."""
import json

from .. import common, kernel, sspec
from ..world import Violation, bytes_reader

RUNS = {"quick": 50000, "thorough": 250000}
RULE = ("one evaluation = one history of 5-30 operations (build, assign, mutate in place, read, write, measure, print, fail half-way) on a "
        "pool of records of shared types, compared after every operation with a model that keeps each record separately; non-trivial "
        "= at least two live records of one type, counted distinct by (types, history)")
MEASURE = "distinct (record types, operation history) pairs"
REAL = ["infi.instruct struct side: declaration macros, struct types, defaults, all marshals, lazy containers, printing"]
STUB = ["byte streams (simulated)", "the application performing the operations (in the harness)"]
ASSUMPTIONS = ["the application does not itself share one mutable value between records", "CPython 3.12 stands for the interpreters the library runs on"]


def simple(s):
    """Names of fields whose value may be changed on their own, without breaking the layout of others."""
    ctl = s.controls()
    out = []
    for n, f in s.leaves():
        if f["t"] in ("const", "opt") or n in ctl:
            continue
        if f["t"] == "f" and (f["el"].get("on") or f["el"].get("len", {}).get("ptr")):
            continue
        out.append((n, f))
    return out


def gen_field(s, n, f, rng):
    if f["t"] in ("bits", "pbits"):
        from .c04 import bits_width
        return rng.randrange(1 << bits_width(f, n))
    return s.els[n].gen(rng)


def inner(el, v, rng):
    """A path to something inside v that can be mutated in place, and its new value: [path, value], or None."""
    if isinstance(el, sspec.VArr) and not el.len.ptr and len(v) < 100 and rng.random() < (0.35 if v else 1):
        return [["-"], None] if v and rng.random() < 0.3 else [["+"], el.el.gen(rng)]
    if isinstance(el, (sspec.FArr, sspec.VArr)) and v and not getattr(el, "ptr", None):
        i = rng.randrange(len(v))
        sub = inner(el.el, v[i], rng)
        if sub and rng.random() < 0.5:
            return [[i] + sub[0], sub[1]]
        return [[i], el.el.gen(rng)]
    if isinstance(el, sspec.Rec):
        c = simple(el.s)
        if not c:
            return None
        n, f = rng.choice(c)
        if n in el.s.els:
            sub = inner(el.s.els[n], v[n], rng)
            if sub and rng.random() < 0.5:
                return [[n] + sub[0], sub[1]]
        return [[n], gen_field(el.s, n, f, rng)]
    return None


def gen(rng, tier, idx):
    types = common.gen_types(rng, rng.randint(1, 2), must=("default",) if rng.random() < 0.6 else (), keep=rng.choice([0.3, 0.6, 0.9]), size=5)
    if rng.random() < 0.4:
        for spec in types:
            for f in spec["fields"]:
                if f["t"] == "f" and f["el"]["e"] in ("farr", "varr", "rec") and "d" not in f and not sspec._holds(f["el"], ("ptr", "on")):
                    f["d"] = sspec.mk(f["el"]).gen(rng)
    ss = common.models(types)
    pool = []      # (type, value) as the model has it
    ops = []
    for _ in range(rng.randint(5, 30)):
        r = rng.random()
        if r < 0.25 or not pool:
            t = rng.randrange(len(ss))
            v = ss[t].gen(rng)
            how = rng.choice(["new", "new", "read", "read", "setattr"])
            pool.append([t, v])
            ops.append([how, t, v])
            continue
        i = rng.randrange(len(pool))
        t, v = pool[i]
        s = ss[t]
        if r < 0.45:
            c = simple(s)
            if not c:
                continue
            n, f = rng.choice(c)
            x = gen_field(s, n, f, rng)
            v = json.loads(json.dumps(v))
            v[n] = x
            pool[i][1] = v
            ops.append(["set", i, n, x])
        elif r < 0.6:
            c = [(n, f) for n, f in simple(s) if n in s.els]
            rng.shuffle(c)
            if rng.random() < 0.5:      # prefers values that come from a declared default
                c.sort(key=lambda x: not ("d" in x[1] and sspec.same(x[1]["d"], v[x[0]])))
            for n, f in c:
                m = inner(s.els[n], v[n], rng)
                if m:
                    v = json.loads(json.dumps(v))
                    put(v[n], m[0], m[1])
                    pool[i][1] = v
                    ops.append(["mutate", i, n, m[0], m[1]])
                    break
        elif r < 0.7:
            ops.append(["write", i])
        elif r < 0.76:
            ops.append(["sizeof", i])
        elif r < 0.82:
            ops.append(["repr", i])
        elif r < 0.88:
            ops.append(["roundtrip", i])
        elif r < 0.92:
            ops.append(["bad-read", i, rng.random()])
        elif r < 0.97:
            c = [n for n, f in s.leaves() if f["t"] == "const"]
            if c:
                ops.append(["const", i, rng.choice(c), rng.randrange(4)])
        else:
            ops.append(["defaults", t])
    ops.append(["defaults", rng.randrange(len(ss))])
    return {"types": types, "ops": ops, "tell": rng.choice(["no", "yes"])}


def valid(scn):
    if not common.valid_types(scn["types"]):
        return False
    ss = common.models(scn["types"])
    n = 0
    vals = []
    for op in scn["ops"]:
        if op[0] in ("new", "read", "setattr"):
            s = ss[op[1] % len(ss)]
            if not common.valid_value(s, op[2]):
                return False
            vals.append((s, json.loads(json.dumps(op[2]))))
        elif op[0] == "defaults":
            pass
        else:
            if op[1] >= len(vals):
                return False
            s, v = vals[op[1]]
            if op[0] == "const" and not any(n == op[2] and f["t"] == "const" for n, f in s.leaves()):
                return False
            if op[0] == "set":
                if op[2] not in v:
                    return False
                v[op[2]] = op[3]
            if op[0] == "mutate":
                try:
                    put(v[op[2]], op[3], op[4], True)
                except (KeyError, IndexError, TypeError):
                    return False
            if not common.valid_value(s, v):
                return False
    return True


def put(cur, path, x, check=False):
    """The change in place, in the model's value ("+" appends, "-" removes the last)."""
    for p in path[:-1]:
        cur = cur[p]
    if path[-1] == "+":
        cur.append(x)
    elif path[-1] == "-":
        cur.pop()
    else:
        if check:
            cur[path[-1]]
        cur[path[-1]] = x


def real_at(el, obj, path):
    """(container object, last key, element spec of the addressed part)"""
    for p in path[:-1]:
        obj, el = step(el, obj, p)
    return obj, path[-1], el


def set_const(s, o, n, which, label):
    """A constant takes its own value and nothing else."""
    want = getattr(o, n)
    if which == 0:
        setattr(o, n, want)
        return
    x = (None, object(), "another" if not isinstance(want, str) else 7)[which - 1]
    try:
        setattr(o, n, x)
    except Exception:
        return
    raise Violation("constant-assigned", "%s: %s took %r" % (label, n, type(x).__name__))


def step(el, obj, p):
    if isinstance(p, int):
        return obj[p], el.el
    s = el.s
    return getattr(obj, p), s.els.get(p)


def run(scn, ctx):
    env = common.env_for(ctx)
    types = common.Types(scn["types"], env)
    objs = []     # [S, real object, raw model value or canonical if read, fresh]

    def check(k, label):
        s, o, v = objs[k]
        try:
            got = s.from_py(o)
        except Violation:
            raise
        except Exception as e:
            raise Violation("unreadable-record", "%s: record %d: %s" % (label, k, common.explain(e)))
        d = sspec.diff(v, got)
        if d:
            raise Violation("record-changed", "%s: record %d: %s" % (label, k, d))
        try:
            raw = s.cls.write_to_string(o)
        except Exception as e:
            raise Violation("write-failed", "%s: record %d: %s" % (label, k, common.explain(e)))
        common.check_encoding("wrong-bytes", s, v, raw)

    for j, op in enumerate(scn["ops"]):
        label = "after operation %d %s" % (j, op[0])
        kind = op[0]
        touched = None
        if kind in ("new", "read", "setattr"):
            s = types[op[1]]
            v = op[2]
            try:
                if kind == "new":
                    o = s.to_py(v)
                elif kind == "read":
                    o = s.cls.create_from_stream(bytes_reader(s.enc(v), tell=scn["tell"]))
                    v = s.canon(v)
                else:
                    o = s.cls()
                    for n, f in s.leaves():
                        if f["t"] != "const" and v[n] is not None:
                            setattr(o, n, s.py_field(n, v[n]))
            except Exception as e:
                raise Violation("operation-failed", "%s: %s" % (label, common.explain(e)))
            objs.append([s, o, json.loads(json.dumps(v))])
            touched = len(objs) - 1
        elif kind == "defaults":
            s = types[op[1]]
            o = s.cls()
            common.check_default(s, o)
        else:
            s, o, v = objs[op[1]]
            touched = op[1]
            try:
                if kind == "set":
                    setattr(o, op[2], s.py_field(op[2], op[3]))
                    v[op[2]] = json.loads(json.dumps(op[3]))
                elif kind == "mutate":
                    el = s.els[op[2]]
                    root = getattr(o, op[2])
                    box, key, el = real_at(el, root, op[3])
                    if key == "+":
                        box.append(el.el.to_py(op[4]))
                    elif key == "-":
                        box.pop()
                    elif isinstance(key, int):
                        box[key] = el.el.to_py(op[4])
                    else:
                        setattr(box, key, el.s.py_field(key, op[4]))
                    put(v[op[2]], op[3], json.loads(json.dumps(op[4])))
                elif kind == "const":
                    set_const(s, o, op[2], op[3], label)
                    ctx.add("assignments to constants")
                elif kind == "write":
                    a, b = s.cls.write_to_string(o), o.to_bytes()
                    if a != b:
                        raise Violation("two-writes-differ", "%s / %s" % (a.hex(), b.hex()))
                elif kind == "sizeof":
                    if s.cls.sizeof(o) != len(s.enc(v)):
                        raise Violation("wrong-size", label)
                elif kind == "repr":
                    s.check_repr(v, repr(o))
                    if repr(o) != repr(o) and not sspec.uses(s.spec, "lazy"):
                        raise Violation("two-prints-differ", label)
                elif kind == "roundtrip":
                    raw = s.cls.write_to_string(o)
                    o2 = s.cls.create_from_string(raw)
                    if s.cls.write_to_string(o2) != raw:
                        raise Violation("rewrite-differs", "%s: %s" % (label, raw.hex()))
                elif kind == "bad-read":
                    raw = s.enc(v)
                    try:
                        s.cls.create_from_stream(bytes_reader(raw[:int(op[2] * len(raw))], tell=scn["tell"]))
                    except Exception:
                        ctx.fault("truncated-read")
            except Violation:
                raise
            except Exception as e:
                raise Violation("operation-failed", "%s: %s" % (label, common.explain(e)))
        # the record touched and, in turn, another one; all of them at the end
        if touched is not None:
            check(touched, label)
        if len(objs) > 1:
            check(j % len(objs), label)
    for k in range(len(objs)):
        check(k, "at the end")
    ctx.execs += 1
    ctx.add("operations", len(scn["ops"]))
    if len(objs) > 1:
        ctx.seen(scn["types"], scn["ops"])
