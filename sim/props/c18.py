"""C18: computed fields are evaluated once, in dependency order."""
from .. import bcommon as bc, bspec, common, kernel, sspec
from ..world import Violation

RUNS = {"quick": 30000, "thorough": 200000}
RULE = ("one evaluation = one simulated run over a random graph of 2-26 fields (values, positions, lengths, conditions and conversions that "
        "refer to other fields in any order of declaration and naming, directly, by name or through application code with side effects: every "
        "call draws a ticket), packed and unpacked several times; or over random layouts of the general generator whose application code is "
        "counted; graphs with circles included; non-trivial = a graph with at least one reference between fields, counted distinct by "
        "(graph, operations)")
MEASURE = "distinct (graph, operations) pairs"
REAL = ["infi.instruct.buffer: macros, metaclass, references, evaluation contexts, field reference builder, packers and unpackers"]
STUB = ["application code with side effects (simulated ticket counter)", "oracle: reference evaluation that uses the tickets actually drawn"]
ASSUMPTIONS = ["application code is deterministic apart from the tickets", "CPython 3.12 stands for the interpreters the library runs on"]


# ---- graphs -----------------------------------------------------------------------------------------------------------
class Graph(object):
    def __init__(self, rng, circles):
        self.rng = rng
        self.circles = circles
        self.ticket = 0
        letters = list("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
        rng.shuffle(letters)
        self.names = [x + rng.choice(["", "_", "q", "Z"]) for x in letters]

    def tid(self):
        self.ticket += 1
        return self.ticket

    def num(self, names, declared):
        """A reference to the number in one of the fields."""
        n = self.rng.choice(names)
        if n in declared and self.rng.random() < 0.6:
            return ["f", n]
        return ["num", n]

    def expr(self, names, declared, depth=2):
        """An expression over the numbers in these fields (kept small: 4-byte fields hold it)."""
        rng = self.rng
        r = rng.random()
        if not names or r < 0.12:
            return ["tick", self.tid()] if rng.random() < 0.7 else ["c", rng.randint(0, 50)]
        if depth == 0 or r < 0.4:
            return self.num(names, declared)
        if r < 0.6:
            args = [self.expr(names, declared, depth - 1) for _ in range(rng.choice([1, 1, 2]))]
            return ["tcall", self.tid()] + args
        if r < 0.7:
            return ["call", rng.choice(["double", "half", "same"]), self.expr(names, declared, depth - 1)]
        op = rng.choice(["+", "+", "min", "max", "//", "*"])
        a = self.num(names, declared)       # operators need a reference on one side
        if op == "//":
            return ["//", a, ["c", rng.randint(1, 5)]]
        if op == "*":
            return ["*", a, ["c", rng.randint(1, 3)]]
        b = self.expr(names, declared, depth - 1)
        return [op, a, b]

    def packet(self):
        rng = self.rng
        deep = rng.random() < 0.06      # a long chain of fields, each computed from the one before
        n = rng.randint(10, 26) if deep else rng.randint(2, 9)
        fields = []
        kinds = []
        for i in range(n):
            kinds.append(rng.choice(["int", "int", "int", "len", "cond"]))
        ints = []
        for i in range(n):
            ints.append({"k": "int", "n": self.names.pop(), "end": rng.choice(["big", "little"]), "sign": False, "i": i})
        at = 0
        for f in ints:
            w = rng.choice([2, 4, 4])
            f["w"] = bspec.span(["c", at], ["c", at + w])
            f["small"] = True
            at += w
        # what each number is computed from when packing: only from numbers later in a hidden order, or from any (circles)
        order = list(ints)
        rng.shuffle(order)
        declared_order = list(ints)
        rng.shuffle(declared_order)
        fields = declared_order
        pos = dict((f["n"], k) for k, f in enumerate(fields))
        flags = []
        for k, f in enumerate(order):
            lower = [g["n"] for g in order[:k]]
            r = rng.random()
            if self.circles and rng.random() < 0.3:
                lower = [g["n"] for g in order]
            if deep:
                lower = [order[k - 1]["n"]] if k or self.circles else []
                r = 0.3 if rng.random() < 0.98 else r
            declared = [g["n"] for g in fields[:pos[f["n"]]]]
            if r < 0.55 and lower:
                f["sbp"] = self.expr(lower, declared)
                if f["sbp"][0] == "tick" and rng.random() < 0.5:
                    f["sbp"] = f["sbp"] + ["direct"]
                if f["sbp"][0] == "c":
                    f["sbp"] = ["const", f["sbp"][1]]
            elif r < 0.65:
                f["sbp"] = ["tick", self.tid()] + rng.choice([[], ["direct"]])
            # unpacking
            if rng.random() < 0.25:
                f["sau"] = rng.choice([["tick", self.tid()], ["ref", self.expr(lower, declared)]])
                if f["sau"][0] == "ref" and f["sau"][1][0] == "c":
                    f["sau"] = ["tick", self.tid()]
            if rng.random() < 0.3 and declared:
                ok = declared if self.circles else [d for d in declared if d in lower]
                if ok:
                    f["ua"] = rng.sample(ok, rng.randint(1, min(rng.choice([1, 2, 2, 4]), len(ok))))
        # a dynamic part: byte strings and numbers whose positions depend on the numbers above
        base = ["c", at]
        free = list(self.names)
        plain = [f for f in fields if not f.get("sbp") and not f.get("sau")]
        lens = []
        for f in plain:
            if rng.random() < 0.4 and len(lens) < 3:
                lens.append(f)
        tail = []
        cur = base
        for L in lens:
            d = {"k": "bytes", "n": free.pop(), "max": 6, "unit": 1}
            how = rng.choice(["name", "self", "fn", "len"])
            L["sbp"] = {"name": ["len", d["n"], "name"], "self": ["len", d["n"], "self"], "fn": ["fn", "direct", d["n"], 1, 0],
                        "len": ["tcall", self.tid(), ["len", d["n"], "name"]]}[how]
            if how == "len":
                L["sbp"] = ["len", d["n"], "name"]
            L.pop("small", None)
            L.pop("ua", None)
            ref = ["f", L["n"]] if rng.random() < 0.5 else ["num", L["n"]]
            d["w"] = bspec.span(cur, bspec.plus(cur, ref) if cur[0] == "c" else ["+", cur, ref])
            if rng.random() < 0.3:
                d["ua"] = [L["n"]]
            tail.append(d)
            cur = rng.choice([["after", d["n"]], ["+", cur, ref]])
        if rng.random() < 0.5:
            gap = None
            cand = [f["n"] for f in fields if f.get("small") and not f.get("sau") and not f.get("sbp")]
            d = {"k": "int", "n": free.pop(), "end": "big", "sign": False, "small": True}
            start = cur
            if cand and rng.random() < 0.6:
                start = ["+", cur, ["num", rng.choice(cand)]]
            d["w"] = bspec.span(start, bspec.plus(start, 2))
            if self.circles and rng.random() < 0.4:
                start = ["+", ["num", d["n"]], start]
                d["w"] = bspec.span(start, bspec.plus(start, 2))
            tail.append(d)
            cur = bspec.plus(start, 2)
        while rng.random() < 0.4:
            # there or not, as application code decides
            d = {"k": "int", "n": free.pop(), "end": "big", "sign": False, "small": True}
            d["pif"] = self.expr([g["n"] for g in fields], [g["n"] for g in fields])
            if rng.random() < 0.5:       # the answer is a truth value of any kind
                args = [self.num([g["n"] for g in fields], [g["n"] for g in fields]) for _ in range(rng.choice([0, 0, 1, 2]))]
                d["pif"] = ["truth", "v%d" % self.tid()] + args
            d["uif"] = d["pif"] if rng.random() < 0.5 and not any(e[0] in ("tick", "tcall", "truth") for e in bspec.sub_exprs(d)) else \
                self.expr([g["n"] for g in fields], [g["n"] for g in fields])
            if d["pif"][0] == "c" or d["uif"][0] == "c":
                break
            d["w"] = bspec.span(cur, bspec.plus(cur, 1))
            tail.append(d)
            cur = bspec.plus(cur, 1)
        if self.circles and rng.random() < 0.3:
            d = {"k": "bytes", "n": free.pop(), "max": 4, "unit": 1}
            d["w"] = bspec.span(cur, rng.choice([["total"], ["+", ["total"], ["c", 0]]]))
            tail.append(d)
        if rng.random() < 0.5 and fields:
            f = rng.choice(fields)
            if not f.get("sbp") and f.get("small"):
                f["sbp"] = ["total"]
        fields = fields + tail
        for f in fields:
            f.pop("i", None)
            if (f.get("sbp") or f.get("pif") or f.get("sau")) and rng.random() < 0.4:
                f["raw"] = 1
        spec = {"name": "G", "fields": fields}
        if rng.random() < 0.3:
            spec["base"] = rng.randint(1, len(fields))
        return spec


def graph_value(rng, p):
    out = {}
    for f in p.fields:
        if f.get("sbp") is not None:
            continue
        if f["k"] == "int":
            out[f["n"]] = rng.randrange(12)
        else:
            out[f["n"]] = {"b": bytes(rng.randrange(256) for _ in range(rng.randint(0, f["max"]))).hex()}
    return out


def gen(rng, tier, idx):
    if rng.random() < 0.35:
        must = set(rng.sample(["fn", "call", "sel", "lsel", "conv", "opt", "var", "vlist", "buf"], 4)) | set(["fn"])
        if rng.random() < 0.5:
            must |= set(["opt", "call", "totalinfo"])
        specs, types = bc.gen_typed(rng, 1, must=must, keep=rng.choice([0.1, 0.3, 0.6]))
        return {"mode": "count", "types": specs, "seq": bc.gen_seq(rng, types, rng.randint(1, 3)), "recv": rng.choice(bc.RECEIVE)}
    spec = Graph(rng, rng.random() < 0.4).packet()
    p = bspec.Types([spec])[0]
    return {"mode": "graph", "types": [spec], "values": [graph_value(rng, p) for _ in range(rng.randint(1, 3))], "reuse": rng.random() < 0.5,
            "junk": bytes(rng.choice([0, 0, 0, 1, 2, 3]) for _ in range(64)).hex(), "first": rng.randint(1, 9)}


def valid(scn):
    if scn["mode"] == "count":
        return bc.valid_types(scn["types"]) and bool(scn["seq"]) and bc.valid_seq(scn["types"], scn["seq"])
    try:
        t = bspec.Types(scn["types"])
        for p in t.all:
            seen = set()
            every = set(p.by)
            for f in p.fields:
                if not bspec.deps(f) <= seen or f["n"] in seen:
                    return False
                for e in bspec.sub_exprs(f):
                    if e[0] in ("num", "len") and e[1] not in every:
                        return False
                    if e[0] == "fn" and e[2] not in every:
                        return False
                seen.add(f["n"])
        for v in scn["values"]:
            for f in t[0].fields:
                if f.get("sbp") is None and f["n"] not in v:
                    return False
        return bool(scn["values"])
    except (KeyError, IndexError, TypeError, ValueError):
        return False


def run(scn, ctx):
    sim = kernel.Sim({})
    sim.spawn("app", lambda: (count if scn["mode"] == "count" else graph)(scn, ctx, sim))
    try:
        sim.run()
    finally:
        ctx.absorb(sim)
    ctx.seen(scn)


# ---- general layouts: how often application code runs -------------------------------------------------------------------
def tree(types, v, out):
    """Packets in a value: [(layout name, number)]."""
    if isinstance(v, list):
        for x in v:
            tree(types, x, out)
    elif isinstance(v, dict) and "p" in v:
        out[v["p"]] = out.get(v["p"], 0) + 1
        for x in v["v"].values():
            tree(types, x, out)
    return out


def count(scn, ctx, sim):
    calls = {}

    def callback(kind, name, obj=None):
        k = (kind, name)
        calls[k] = calls.get(k, 0) + 1
    env = bc.env_for(ctx, callback)
    types = bc.build(scn["types"], env)
    for t, v in scn["seq"]:
        p = types[t]
        raw, attrs, back, size = bspec.expected(p, v)
        for op, value in (("pack", attrs), ("unpack", back)):
            calls.clear()
            if op == "pack":
                bc.check_pack(p, v, p.to_py(v))
            else:
                bc.check_unpack(p, back, size, bc.receive_buffer(scn["recv"], raw))
            packets = tree(types.by, {"p": p.name, "v": value}, {})
            for (kind, name), n in sorted(calls.items()):
                owner, what = name.split(".", 1)
                q = types.by[owner]
                most = packets.get(owner, 0) * sites(q, kind, what, op)
                if kind == "sel" and q.by[what]["k"] == "list":
                    most = elements(types.by, {"p": p.name, "v": value}, owner, what)
                if kind == "elem":
                    most = sum(elements(types.by, {"p": p.name, "v": value}, owner, f["n"]) for f in q.fields
                               if f["k"] == "list" and f["el"].get("how") == what)
                if n > most:
                    raise Violation("evaluated-again", "%s %s ran %d times while %sing a packet that holds %d" % (kind, name, n, op, most))
                ctx.add("calls", n)


def elements(types, v, owner, what):
    n = 0
    if isinstance(v, list):
        return sum(elements(types, x, owner, what) for x in v)
    if isinstance(v, dict) and "p" in v:
        if v["p"] == owner:
            n += len(v["v"].get(what) or [])
        n += sum(elements(types, x, owner, what) for x in v["v"].values())
    return n


def sites(p, kind, what, op):
    """Number of places in the declaration that call this piece of application code when packing / unpacking."""
    n = 0
    for f in p.fields:
        f = dict((k, x) for k, x in f.items() if k not in (("uif", "wu", "sau") if op == "pack" else ("pif", "wp", "sbp")))
        if kind in ("sel", "conv"):
            n += f["n"] == what
            continue
        for e in bspec.sub_exprs(f):
            n += kind == "fn" and e[0] == "fn" and e[2] == what or kind == "mfn" and e[0] == "mfn" and e[1] == what \
                or kind == "call" and e[0] == "call" and e[1] == what
    return n


# ---- graphs with side effects -------------------------------------------------------------------------------------------
TRUTHS = (False, True, None, 1, "", "no", 0, (), (0,), 0.0, 0.5)


class Tickets(object):
    def __init__(self, first):
        self.next = first
        self.log = []

    def __call__(self, p, obj, ident, args):
        self.next += 1
        answer = TRUTHS[self.next % len(TRUTHS)] if isinstance(ident, str) else self.next % 97
        self.log.append((ident, tuple(args), answer))
        return answer


def graph(scn, ctx, sim):
    from infi.instruct.buffer.buffer import InstructBufferError
    from infi.instruct.buffer.reference import CyclicReferenceError
    env = bc.env_for(ctx)
    env.callback = lambda *a: None
    env.tick = tickets = Tickets(scn["first"])
    types = bc.build(scn["types"], env)
    p = types[0]
    o = p.new()
    for v in scn["values"]:
        if not scn["reuse"]:
            o = p.new()
        for n, x in v.items():
            setattr(o, n, p.val_to_py(p.by[n], x))
        # packing
        want, circle, got, err = operate(p, tickets, lambda: o.pack(), lambda: p.pack(bspec.with_defaults(p, v)), ctx)
        raw = None
        if circle:
            expect_circle(p, "packing", got, err, InstructBufferError, CyclicReferenceError, sim)
        elif want is not None:
            if err is not None:
                raise Violation("pack-failed", common.explain(err))
            raw, attrs, _ = want
            if bytes(got) != raw:
                raise Violation("inconsistent-packet", "packed %s, the tickets drawn give %s" % (bytes(got).hex(), raw.hex()))
            bc.check_attrs("inconsistent-values", attrs, p, o)
            ctx.add("graphs_packed")
        else:
            ctx.add("refused_by_model")
        # unpacking
        data = raw if raw is not None else bytes.fromhex(scn["junk"])
        u = o if scn["reuse"] else p.new()
        want, circle, got, err = operate(p, tickets, lambda: u.unpack(data), lambda: p.unpack(data), ctx)
        if circle:
            expect_circle(p, "unpacking", got, err, InstructBufferError, CyclicReferenceError, sim)
        elif want is not None:
            if err is not None:
                raise Violation("unpack-failed", common.explain(err))
            back, size = want
            bc.check_attrs("inconsistent-values", back, p, u)
            if got != size and raw is not None and size == len(raw):
                raise Violation("wrong-size", "%r, not %d" % (got, size))
            ctx.add("graphs_unpacked")
        else:
            ctx.add("refused_by_model")


def operate(p, tickets, real, model, ctx):
    """-> (what the model gives with the tickets that were drawn or None, circle?, real result, real error)"""
    tickets.log = []
    got = err = None
    try:
        got = real()
    except (Violation, kernel.SimAbort):
        raise
    except Exception as e:
        err = e
    p.ticks, p.tick_args = {}, {}
    for ident, args, answer in tickets.log:
        if ident in p.ticks:
            raise Violation("evaluated-again", "application code %s ran again in one operation" % ident)
        p.ticks[ident] = answer
    ctx.add("tickets", len(tickets.log))
    try:
        want = model()
    except bspec.Bad as e:
        if e.kind == "tick" and err is None:
            raise Violation("not-evaluated", "no error, but %s" % e)
        return None, e.kind == "cycle", got, err
    for ident, args, answer in tickets.log:
        if err is None and ident in p.tick_args and p.tick_args[ident] != args:
            raise Violation("dependency-not-ready", "application code %s was given %r, the packet says %r" % (ident, args, p.tick_args[ident]))
    return want, False, got, err


def expect_circle(p, what, got, err, InstructBufferError, CyclicReferenceError, sim):
    sim.fault("circle-" + what)
    if err is None:
        raise Violation("circle-not-reported", "%s gave %r" % (what, got))
    if not isinstance(err, InstructBufferError):
        raise Violation("circle-not-reported", "%s gave %s" % (what, common.explain(err)))
    # other errors may be met before the circle closes; running out of stack is not a report
    x = err
    seen = set()
    while x is not None and id(x) not in seen:
        if isinstance(x, RecursionError):
            raise Violation("circle-not-reported", "%s gave %s" % (what, common.explain(err)))
        if isinstance(x, CyclicReferenceError):
            sim.fault("circle-named")
        seen.add(id(x))
        x = x.__cause__ or x.__context__
