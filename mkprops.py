"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": s, "meaning": s, "where": files[0]} for s in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


SRC = "src/infi/instruct/"
STREAM = [SRC + f for f in ("base.py", "struct/__init__.py", "numeric.py", "string.py", "array.py", "mapping.py", "padding.py",
                            "struct/bit.py", "utils/bitstringio.py", "struct/optional.py", "struct/const.py")]
BUF = [SRC + "buffer/" + f for f in ("buffer.py", "serialize.py", "field_reference_builder.py", "io_buffer.py", "range.py",
                                     "reference/reference.py", "reference/range.py", "macros.py")]

prop("C01", "Records cross a stream unchanged",
     "Whatever record types are declared (numbers of every width, sign and byte order, bit fields, positional bit fields, padded "
     "and length-prefixed strings and buffers, the three kinds of arrays, mappings, constants, optional, nested, lazy and "
     "variant parts) and whatever values are sent, a receiver that reads the same types one after the other gets exactly the "
     "values sent, in order, however the bytes are fragmented, delayed or interleaved with other connections. "
     "The bytes on the wire are exactly those the declaration prescribes, so a peer that implements the layout "
     "independently interoperates in both directions.",
     ["schedules", "inputs", "programs"],
     "every declared record type, every sequence of values, every fragmentation, delay and interleaving of connections",
     "Tests pin a handful of layouts and values read from one in-memory string; the guarantee is about every combination of "
     "field kinds, alignments and values, and about readers that run while the bytes are still arriving.",
     STREAM, [("record read/write loops", "struct/__init__.py FieldListContainer.read_fields/write_fields"),
              ("numeric codecs", "numeric.py NumericMarshal"), ("bit packing", "utils/bitstringio.py BitStringIO.read/write"),
              ("arrays and strings", "array.py, string.py *_Marshal.create_from_stream/write_to_stream")],
     ["per-call context handed down to nested fields", "bit cursor of a bit-field group"],
     ["values of the records returned to the reader", "bytes accepted by the writer's stream"])

prop("C02", "Reading takes exactly one record off the stream",
     "Reading a record consumes exactly the bytes of that record and never asks the stream for a byte beyond it, so two "
     "peers that wait for each other's next record never block each other. "
     "The number of bytes consumed, the number of bytes written and the size reported for the object are equal, and lie "
     "between the minimum and maximum size announced for the type.",
     ["schedules", "inputs", "programs"],
     "every record type and value; every request/response conversation over streams that deliver nothing before the peer acts",
     "In-memory test streams never block, so asking for one byte too many goes unnoticed there but hangs a real "
     "conversation; sizes must agree for every value of every type.",
     STREAM + [SRC + "utils/read_ahead_stream.py", SRC + "struct/selector.py", SRC + "struct/lazy.py"],
     [("sizes", "sizeof / min_max_sizeof of every marshal"), ("look-ahead buffer", "utils/read_ahead_stream.py ReadAheadStream.read"),
      ("byte-counted arrays", "array.py SumSizeArrayMarshal.create_from_stream")],
     ["position of the stream between two records", "bytes held in a look-ahead buffer"],
     ["stream position after each read", "requests made to the stream", "reported sizes"])

prop("C03", "Broken input never becomes a record",
     "If the stream ends, returns less than asked for, or raises, at any byte inside a record, reading that record raises an "
     "error within a bounded number of steps instead of returning a record, and an exception raised by the stream reaches the "
     "caller unchanged. "
     "Records read before that are unaffected, and the same record types keep reading and writing other streams correctly afterwards.",
     ["fault_sequences", "inputs", "crash_points"],
     "every record type and value, every byte at which the stream ends, comes up short or fails",
     "Tests truncate one or two sample layouts; every field kind at every byte offset, alone and nested, must notice.",
     STREAM + [SRC + "struct/lazy.py", SRC + "struct/selector.py"],
     [("length checks after stream reads", "numeric.py, string.py, padding.py, struct/bit.py, struct/lazy.py"),
      ("element loops", "array.py")],
     ["partially filled object under construction"], ["outcome of each read call"])

prop("C04", "A failed or refused write harms nothing",
     "If the destination fails at any byte while a record is being written, the caller gets that failure, what was delivered "
     "is a prefix of the record's encoding, the record object is unchanged, and writing it again to a working stream yields "
     "the complete encoding. "
     "A value that does not fit its declared slot is either refused with an error or confined to that slot: it never "
     "changes the position or the content of any other field or of the records that follow.",
     ["fault_sequences", "crash_points", "inputs"],
     "every record type and value, every failing byte of the destination, every field given a value that does not fit",
     "Tests write to memory, which never fails, and use fitting values.",
     STREAM, [("field writers", "write_to_stream of every marshal"), ("fixed-size strings and arrays", "string.py PaddedStringMarshal, "
              "array.py FixedSizeArrayMarshal"), ("bit masks", "utils/bitstringio.py BitStringIO.write")],
     ["the record object being written"], ["bytes accepted by the stream", "attributes of the object after the failure"])

prop("C05", "A log of records recovers from crashes",
     "A log written by appending records to a file on a disk that in a crash keeps any prefix of the unsynced bytes (torn at "
     "any byte) is recovered by reading records until the input ends or is refused: every synced record comes back in order "
     "with its value, what is recovered is a prefix of what was appended, and a torn record is never taken for a complete one. "
     "Appending after the recovered prefix and crashing again, any number of times, keeps this true.",
     ["crash_points", "histories", "fault_sequences"],
     "every history of appends, syncs, crashes at any byte and recoveries",
     "No test crashes anything; the tear can fall on any byte of any field of any record type.",
     STREAM, [("complete-or-error reads", "create_from_stream of every marshal"), ("prefix-only writes", "write_to_stream of every marshal")],
     ["bytes of the log file"], ["records returned by recovery", "offset of the end of the last recovered record"])

prop("C06", "Looking ahead never changes what is read",
     "A record whose type is chosen by looking at bytes that have not been consumed yet reads as if its type had been known: "
     "the chosen type sees every peeked byte again, once and in order, whatever the number and sizes of the peeks, nested in "
     "arrays or in other such choices, and on streams that can neither seek nor tell their position. "
     "An unknown tag without a default, or a chosen type that needs fewer bytes than were peeked, is an error; the choosing "
     "function is given the record it belongs to and its errors reach the caller unchanged.",
     ["inputs", "programs", "fault_sequences", "schedules"],
     "every set of variants, every peek pattern, nesting, fragmentation and stream failure during the peek or the re-read",
     "Tests peek once at the start of a memory string.",
     [SRC + "struct/selector.py", SRC + "utils/read_ahead_stream.py", SRC + "struct_macros.py", SRC + "struct/__init__.py"],
     [("look-ahead and replay", "utils/read_ahead_stream.py ReadAheadStream"), ("choice", "struct/selector.py *SelectorMarshal.create_from_stream")],
     ["look-ahead buffer and mode"], ["type and values of the record read", "bytes taken from the underlying stream"])

prop("C07", "Lazy decoding is indistinguishable from eager decoding",
     "A record with lazily decoded parts shows the same values, bytes and sizes as the same record decoded eagerly, under any "
     "order of reading, assigning, printing, measuring and writing its fields, from any number of threads at once, and "
     "whether it was received or built locally. "
     "A first access that fails or is interrupted loses nothing: a later access gives the value, and an assignment is never undone by a decode.",
     ["schedules", "histories", "fault_sequences"],
     "every lazy layout, every history of accesses, every interleaving of threads, every interruption point",
     "The tests touch one lazy field once, from one thread; decode-on-first-access races and interruptions need controlled schedules.",
     [SRC + "struct/lazy.py", SRC + "struct/__init__.py", SRC + "struct/bit.py"],
     [("decode on first access", "struct/lazy.py LazyFieldListContainer.instantiate_if_needed")],
     ["pending undecoded bytes kept on the object", "the object's attributes"], ["every attribute read", "encodings written"])

prop("C08", "Threads can share record types",
     "Threads that read, write, measure, print and build different records of the same declared types at the same time, "
     "through different streams, even passing the same context object, each get exactly the results they would get alone, "
     "for every interleaving. "
     "Declared types, default values and contexts are never changed by using them.",
     ["schedules", "programs", "inputs"],
     "every interleaving, down to single interpreter instructions, of operations on shared declarations",
     "Tests are single-threaded; a shared scratch buffer or cursor shows only when two threads meet inside one field.",
     STREAM + [SRC + "struct/lazy.py", SRC + "struct/selector.py"],
     [("shared field objects", "every Field/Marshal instance is shared by all records of a type"),
      ("context copies", "struct/__init__.py Struct.get_updated_context, base.py ReadOnlyContext.writable_copy")],
     ["field and marshal objects of a declaration", "empty default context"], ["per-thread results"])

prop("C09", "Damaged bytes are confined or refused",
     "When any bits of a record's encoding are flipped in transit, reading either fails or returns a record in which every "
     "field whose own bytes, length, presence and tag are intact has its original value, and every damaged field has exactly "
     "the value its damaged bytes denote. "
     "A record whose constant differs from the declared constant, whose coded value is not in the declared mapping, or whose "
     "parts overrun the size announced for them is always refused.",
     ["fault_sequences", "inputs", "programs"],
     "every record type and value, every pattern of damaged bits",
     "Tests check one wrong constant; confinement is about all field kinds, neighbours and bit positions.",
     STREAM, [("constant check", "struct/const.py ConstField.read_fields"), ("mapping", "mapping.py FixedSizeMappingMarshal.create_from_stream"),
              ("bit boundaries", "struct/bit.py, utils/bitstringio.py"), ("size check", "array.py SumSizeArrayMarshal.create_from_stream")],
     None, ["outcome and values of reading damaged bytes"])

prop("C10", "Interruptions leave record types usable",
     "If an operation on records or packets is interrupted at any instruction (keyboard interrupt, cancellation, memory exhaustion), "
     "the interruption reaches the caller as itself (running out of memory possibly as the cause of the library's own error), and afterwards the same declared types and every other object behave as if "
     "the interrupted operation had never been started. "
     "The interrupted object itself, if it was only being written, measured or printed, still holds the values it had.",
     ["crash_points", "schedules", "fault_sequences"],
     "every operation, every instruction at which it can be interrupted, every later operation",
     "Tests never interrupt; leftover state in shared declarations would only show in the next operation.",
     STREAM + BUF, [("per-call contexts", "base.py, buffer/reference/contexts.py"), ("evaluation stack clean-up", "buffer/reference/reference.py Reference.deref"),
                    ("error wrapping", "buffer/buffer.py Buffer.pack/unpack")],
     ["declarations", "per-call evaluation state"], ["exception that reaches the caller", "results of later operations"])

prop("C11", "Records are independent and mean what was last assigned",
     "Building, assigning, mutating, reading, writing, measuring and printing records of shared types, in any order, never "
     "changes another record or the declared defaults: each record always shows and encodes the values last given to it, "
     "or its defaults. "
     "Writing, measuring and printing a record never changes it, writing it twice gives the same bytes, and a record read back "
     "and written again gives the bytes it was read from.",
     ["histories", "programs"],
     "every history of operations over many records of the same and of inheriting types",
     "State leaking between instances through defaults, classes or caches needs long mixed histories to show.",
     [SRC + "struct/__init__.py", SRC + "struct/optional.py", SRC + "struct/const.py", SRC + "struct/lazy.py"],
     [("instance preparation", "struct/__init__.py Field.prepare_instance, StructType._create_struct_class_init"),
      ("default copies", "struct/__init__.py copy_if_supported")],
     ["instance attributes", "class-level field list and defaults"], ["attributes and encodings of all live records after each step"])

prop("C12", "Packets survive an unreliable network",
     "Whatever packet layout is declared (integers of any width and byte order, floats, bit and multi-range positions, strings, byte strings, "
     "lists, nested packets, computed lengths, positions relative to other fields) a packet packed by one side and unpacked by another "
     "yields the same values whatever loss, duplication, reordering or delay the network adds, and the packed bytes are exactly those the "
     "declared positions prescribe. "
     "The size returned by unpacking is the number of bytes the packet occupies, so packets sent back to back in one datagram separate correctly.",
     ["inputs", "programs", "schedules", "fault_sequences"],
     "every layout and value, every behaviour of the network, coalesced or alone",
     "Tests cover a few layouts; widths, bit alignments and relative positions combine without limit.",
     BUF, [("pack", "buffer/buffer.py Buffer.pack"), ("unpack", "buffer/buffer.py Buffer.unpack"), ("codecs", "buffer/serialize.py"),
           ("positions", "buffer/range.py, buffer/reference/range.py, buffer/reference/after_field.py")],
     ["per-call evaluation context"], ["packed bytes", "unpacked values and returned size"])

prop("C13", "A cut-off packet never yields invented values",
     "When a packet arrives cut off at any byte, unpacking either fails or gives each field only what the bytes that arrived "
     "denote: a field with a numeric value whose bytes are not all there is never given a value, and a string, byte string or "
     "list is never longer than, nor different from, a prefix of what was sent. "
     "It ends in a bounded number of steps, and the layout and other packets stay usable.",
     ["fault_sequences", "inputs", "crash_points"],
     "every layout and value, every length at which the packet is cut",
     "Each field kind has its own bounds checks; tests cut off one or two.",
     BUF, [("bounds checks", "buffer/serialize.py unpack_*"), ("slicing", "buffer/io_buffer.py BitView, InputBuffer.get")],
     None, ["outcome of unpacking a cut-off packet"])

prop("C14", "Packets own their data",
     "What was unpacked from a receive buffer never changes when that buffer is overwritten, reused or resized, whatever kind of "
     "buffer it was, and packed bytes never change when the packet or the values it was packed from are changed later, nor the other way round. "
     "Unpacking never modifies the bytes it reads.",
     ["histories", "schedules", "inputs"],
     "every layout, every kind of receive buffer, every order of reuse and access",
     "Tests unpack from immutable literals; aliasing needs a buffer that is reused afterwards.",
     BUF, [("views over the input", "buffer/io_buffer.py BitView"), ("copies", "buffer/serialize.py unpack_bytearray/unpack_buffer/pack_bytearray")],
     ["the receive buffer", "output buffer of a pack call"], ["values before and after the buffer is reused"])

prop("C15", "Failing application code is reported and harmless",
     "When application code called during packing or unpacking (computed values, conditions, selectors, converters) raises an error at "
     "any call, or a value cannot be encoded, the caller gets an error that names the packet type and the field, carries the original "
     "error, and, once the cause is gone, the same object and type pack and unpack correctly. "
     "Requests to stop (interrupt, exit, cancellation) raised there pass through unchanged.",
     ["fault_sequences", "histories", "programs"],
     "every layout, every call of application code, every kind of error, every later operation",
     "Tests raise from one place; every evaluation site and the state left behind must be covered.",
     BUF + [SRC + "buffer/reference/func_call.py"],
     [("error wrapping", "buffer/buffer.py InstructBufferError"), ("evaluation stack clean-up", "buffer/reference/reference.py Reference.deref")],
     ["evaluation stack and cached results of one call"], ["exception type, named field and cause", "results of later operations"])

prop("C16", "Threads can share packet layouts",
     "Threads that pack, unpack, measure and print different packets of the same layouts at the same time each get exactly the results "
     "they would get alone, for every interleaving. "
     "Layouts and defaults are never changed by using them.",
     ["schedules", "programs", "inputs"],
     "every interleaving, down to single interpreter instructions, of operations on shared layouts",
     "Tests are single-threaded; evaluation state stored on a shared layout shows only when two threads meet.",
     BUF + [SRC + "buffer/reference/contexts.py", SRC + "buffer/field_reference_builder.py"],
     [("per-call contexts", "buffer/reference/contexts.py PackContext/UnpackContext"), ("shared references", "buffer/reference/reference.py Reference")],
     ["field references of a layout"], ["per-thread results"])

prop("C17", "Reusing a packet object carries nothing over",
     "A packet object that is unpacked, changed, packed, measured, printed and unpacked again, any number of times, also after attempts that failed, always "
     "gives the results a fresh object would: after a successful unpack its values depend only on the bytes unpacked and on what was assigned since, packing twice "
     "gives the same bytes, and fields absent from the last packet read as absent. "
     "New packet objects start from the declared defaults whatever happened to earlier ones.",
     ["histories", "fault_sequences"],
     "every history of operations on a set of packet objects, including failed unpacks",
     "Carry-over needs sequences of different packets through one object.",
     BUF, [("cached evaluation", "buffer/reference/reference.py Reference.deref"), ("defaults", "buffer/buffer.py Buffer.__init__"), ("absent fields", "buffer/buffer.py Buffer.unpack")],
     ["attributes of the packet object", "declared defaults"], ["values and bytes after each step"])

prop("C18", "Computed fields are evaluated once, in dependency order",
     "During one pack or unpack every computed value, condition, selector and converter runs at most once, after everything it was declared "
     "to depend on has its value, so application code with side effects (sequence numbers, allocations, clocks) is consistent within a packet, "
     "whatever the order of declaration or names of the fields. "
     "Fields whose positions or values depend on each other in a circle are reported as an error in a bounded number of steps, never a hang or wrong bytes.",
     ["programs", "inputs", "histories"],
     "every graph of dependencies between fields, every naming",
     "Evaluation follows the names and the reference graph; tests fix a few graphs with pure functions.",
     BUF + [SRC + "buffer/reference/func_call.py", SRC + "buffer/reference/total_size.py", SRC + "buffer/reference/after_field.py"],
     [("memoised evaluation", "buffer/reference/reference.py Reference.deref"), ("ordering", "buffer/field_reference_builder.py set_field_unpack_after, buffer/buffer.py Buffer.unpack")],
     ["results cached for one call"], ["calls of application code per operation", "bytes produced"])

prop("C19", "Bit-addressed byte buffers behave as a sequence of bits",
     "A mutable bit-addressed buffer behaves, under any sequence of slicing, assignment, deletion, insertion, extension, concatenation and zero-filling "
     "at any bit position, like the plain sequence of bits it stands for: other bits never move or change, lengths are exact, and views of it or "
     "of immutable bytes read the right bits. "
     "An operation whose source fails part-way or is refused leaves the bits outside the addressed range as they were.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of operations at every bit alignment, with failing sources",
     "Each operation has separate fast and bit-shifting paths; tests sample a few alignments from a fresh buffer.",
     [SRC + "buffer/io_buffer.py"],
     [("bit moves", "buffer/io_buffer.py BitAwareByteArray._insert_zeros/_del_range/_set_range/_set_byte_bits"), ("bit reads", "buffer/io_buffer.py BitView._get_byte_bits")],
     ["byte array, start and stop of the buffer"], ["bit string and length after each step"])

prop("C20", "A damaged packet is refused or shows exactly what its bytes say",
     "When a packet arrives with bits flipped, bytes overwritten, lost, repeated, swapped, inserted or spliced from other packets, or as "
     "noise, unpacking either fails or gives every field exactly the value that the bytes at its declared position denote, with lengths, "
     "counts, presence, types and positions taken from the damaged bytes in the same way, and returns the number of bytes they say; bytes that "
     "still are the encoding of a packet of the layout are accepted. "
     "It ends in a bounded number of steps whatever the bytes claim, and the layout and other packets stay usable.",
     ["fault_sequences", "inputs", "programs"],
     "every layout and value, every pattern of damage",
     "Tests unpack well-formed packets; what the decoder does with contradictory lengths, counts, flags and positions is open-ended.",
     BUF, [("field decoding", "buffer/serialize.py unpack_*"), ("positions", "buffer/reference/range.py, buffer/range.py, buffer/reference/total_size.py"),
           ("slicing", "buffer/io_buffer.py BitView, InputBuffer.get")],
     None, ["outcome, values and size of unpacking damaged bytes"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            f.write(json.dumps(p, sort_keys=False) + "\n")
    import re
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert re.match("^[A-Z][0-9]{2,3}$", p["id"])
