"""Simulated surroundings of the code under test: byte pipes, broken streams, a disk, a datagram network."""


class Violation(Exception):
    """A property does not hold.  kind is stable under minimisation."""

    def __init__(self, kind, detail="", scenario=None):
        Exception.__init__(self, "%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail
        self.scenario = scenario


class StreamFault(IOError):
    """The failure a broken stream raises; identity matters."""


class Flavor(object):
    """Which optional abilities a readable stream has: tell ('yes', 'no', 'raises')."""


def _attach_tell(cls):
    class WithTell(cls):
        def tell(self):
            return self.taken

    class RaisingTell(cls):
        def tell(self):
            raise OSError("underlying stream is not seekable")

    class Seeking(WithTell):
        def seek(self, position, whence=0):
            self.taken = position + (self.taken if whence == 1 else 0)
            return self.taken
    return {"yes": WithTell, "no": cls, "raises": RaisingTell, "seek": Seeking if cls is not PipeReader else WithTell}


class Pipe(object):
    """One direction of a connection.  net: {"chunks": [n...], "delays": [ns...]} cycled over what is written."""

    def __init__(self, sim, name, net=None, tell="no"):
        self.sim = sim
        self.name = name
        net = net or {}
        self.chunks = net.get("chunks") or [1 << 30]
        self.delays = net.get("delays") or [0]
        self.ci = 0
        self.last = 0
        self.sent = bytearray()      # everything accepted from the writer
        self.arrived = bytearray()   # what has reached the reader's side and was not read yet
        self.inflight = 0
        self.closed = False
        self.eof = False
        self.reader = READERS[tell](self)
        self.writer = PipeWriter(self)
        self.max_over = 0

    def accept(self, data):
        data = bytes(data)
        self.sent += data
        pos = 0
        while pos < len(data):
            n = max(1, self.chunks[self.ci % len(self.chunks)])
            d = self.delays[self.ci % len(self.delays)]
            self.ci += 1
            part = data[pos:pos + n]
            pos += len(part)
            when = max(self.last, self.sim.now + d)
            self.last = when
            self.inflight += len(part)
            if d:
                self.sim.fault("delay")
            if pos < len(data):
                self.sim.fault("fragment")
            self.sim.at(when - self.sim.now, lambda part=part: self._arrive(part))

    def _arrive(self, part):
        self.arrived += part
        self.inflight -= len(part)
        if self.closed and not self.inflight:
            self.eof = True

    def close(self):
        self.closed = True
        if not self.inflight:
            self.eof = True


class PipeWriter(object):
    def __init__(self, pipe):
        self.pipe = pipe

    def write(self, data):
        p = self.pipe
        p.sim.point("w:" + p.name)
        data = bytes(data)
        p.accept(data)
        return len(data)


class PipeReader(object):
    def __init__(self, pipe):
        self.pipe = pipe
        self.taken = 0
        self.asked = 0
        self.calls = []

    def read(self, n):
        p = self.pipe
        if not isinstance(n, int) or n < 0:
            raise Violation("bad-read-request", "read(%r) asked of the stream" % (n,))
        p.sim.point("r:" + p.name)
        self.asked = max(self.asked, self.taken + n)
        if n == 0:
            return b""
        if len(p.arrived) < n and not p.eof:
            p.sim.wait(lambda: len(p.arrived) >= n or p.eof, "read %d from %s" % (n, p.name))
        out = bytes(p.arrived[:n])
        del p.arrived[:n]
        self.taken += len(out)
        p.sim.note("read", p.name, n, len(out))
        return out


READERS = _attach_tell(PipeReader)


class BytesReaderBase(object):
    """A stream over fixed bytes with scripted faults.

    fault: None | {"kind": "eof"|"short"|"error"|"empty", "at": byte offset}
      eof    the data ends at `at`
      short  the read that crosses `at` returns only the bytes before it (the rest comes with later reads)
      empty  the read that starts at or after `at` first returns nothing at all, once
      error  the read that crosses `at` raises
    """

    def __init__(self, data, fault=None, on_read=None, exc=None):
        self.data = bytes(data)
        self.taken = 0
        self.fault = dict(fault) if fault else None
        self.fired = False
        self.exc = exc
        self.on_read = on_read
        self.calls = 0
        self.asked = 0

    def read(self, n):
        self.calls += 1
        if self.on_read:
            self.on_read(self, n)
        if not isinstance(n, int) or n < 0:
            raise Violation("bad-read-request", "read(%r) asked of the stream" % (n,))
        self.asked = max(self.asked, self.taken + n)
        f = self.fault
        end = len(self.data)
        if f is not None and n > 0:
            at = f["at"]
            if f["kind"] == "eof":
                end = min(end, at)
                if self.taken + n > end:
                    self.fired = True
            elif self.fired and f["kind"] != "error":
                pass
            elif self.taken + n > at:
                first = not self.fired
                self.fired = True
                if f["kind"] == "error":
                    if first:
                        self.taken = at if at >= self.taken else self.taken
                    raise self.exc
                if f["kind"] == "short":
                    end = min(end, max(at, self.taken))
                elif f["kind"] == "empty":
                    return b""
        out = self.data[self.taken:max(self.taken, min(self.taken + n, end))]
        self.taken += len(out)
        return out


BYTES_READERS = _attach_tell(BytesReaderBase)


def bytes_reader(data, fault=None, tell="no", **kw):
    return BYTES_READERS[tell](data, fault, **kw)


class FailingWriter(object):
    """Accepts `room` bytes, then raises `exc` (accepting the part that still fits if partial), every time or once."""

    def __init__(self, room, exc, partial=True, on_write=None, once=False):
        self.room = room
        self.once = once         # whether later writes work
        self.exc = exc
        self.partial = partial
        self.got = bytearray()
        self.fired = False
        self.calls = 0
        self.on_write = on_write

    def write(self, data):
        self.calls += 1
        if self.on_write:
            self.on_write()
        data = bytes(data)
        left = None if self.room is None else self.room - len(self.got)
        if left is not None and len(data) > left:
            if self.partial:
                self.got += data[:left]
            self.fired = True
            if self.once:
                self.room = None
            raise self.exc
        self.got += data
        return len(data)
