"""Writes known_findings.jsonl.  FIXED: one line per repaired defect (suppresses nothing).  OPEN: findings not repaired."""
import json
import os

FIXED = [
    ("C03", "03353fe", "a stream that ends inside padding was accepted as a complete record"),
    ("C06", "e13a07c", "a byte-counted array could not be read from a stream that cannot tell() its position (also not through a look-ahead stream)"),
    ("C06", "7d9bcf0", "StructSelector ignored its mapping and could not be used at all"),
    ("C04", "c5b9c3f", "a too-long or too-short value of a fixed-size string or buffer shifted every field after it"),
    ("C01", "0e432cc", "VarSizeString's default padding was text and could not be written"),
    ("C04", "94ed021", "a list of the wrong length in a fixed-size array was written, shifting everything after it"),
    ("C01", "0d4db8d", "pointers and selectors of a nested struct looked in the outermost struct"),
    ("C02", "2175693", "arrays and strings sized by a ReadPointer claimed to take at most zero bytes"),
    ("C11", "5662b71", "a constant field whose value is a struct could not be read back"),
    ("C11", "16884fc", "repr of a struct with an absent optional field raised"),
    ("C07", "3b2926a", "optional, constant, padding and bit fields in a lazy container failed or lost their values"),
    ("C09", "efec8c5", "a negative length in the stream made the rest of the stream part of the field"),
    ("C09", "1d766a0", "a byte-counted array of elements that take no bytes was read for ever"),
    ("C11", "83219fe", "nested parts of default values were shared by all records"),
    ("C19", "bdf5816", "deleting bits moved or lost other bits"),
    ("C19", "c85e080", "inserting or zero-filling bits changed other bits or inserted stale bits instead of zeros"),
    ("C19", "4bb74b5", "to_bytearray returned the view's own buffer or bits that are not in the view"),
    ("C19", "1699e6d", "a value that is not a byte changed neighbouring bits"),
    ("C19", "d6ff554", "indexing past the end returned bits that are not in the view"),
    ("C19", "9a9fca2", "assigning a small int to a range left old bits in the rest of the range"),
    ("C19", "ef75454", "extending a buffer by, or assigning it, its own contents never ended or read moved bits"),
    ("C12", "eb44c10", "8-byte floats of packets were unpacked as integers"),
    ("C12", "aef5bac", "byte order of integers of 3, 5, 6, 7, 9... bytes was ignored"),
    ("C13", "74c4bd9", "bit-sized integers were unpacked from buffers that were too short"),
    ("C12", "a911d74", "lists of padded strings could not be packed or unpacked"),
    ("C12", "ae1996d", "the size of an unpacked string was the rest of the buffer"),
    ("C12", "4768cac", "buffer_field with byte_size lost its type"),
    ("C18", "a4b8bfc", "what set_after_unpack computed was not assigned to the field"),
    ("C12", "aafa319", "bit slices of multi-range positions and open slices took other bits"),
    ("C12", "af4e6c2", "a bit that starts a range was taken from the end of the range before it"),
    ("C12", "688f178", "the size of a packet that ends inside a byte was fractional"),
    ("C12", "3641246", "sizes and repr left out inherited fields"),
    ("C12", "1787651", "a field redefined by a derived packet type was packed twice"),
    ("C18", "bbd60d6", "unpack_after was ignored for fields needed before their turn or after an absent field"),
    ("C12", "02f1364", "the size of a packet with multi-range positions that are not in order was too small"),
    ("C12", "4236271", "the total size when packing included absent fields"),
    ("C12", "fa500f3", "a packet field named mro broke its class"),
    ("C17", "ac92fce", "packets shared their mutable default values"),
    ("C17", "e48d124", "packets shared a mutable set_before_pack constant"),
    ("C15", "6e630b5", "interrupts and requests to exit were turned into packing errors"),
    ("C15", "8c5f8f4", "an error in pack_if did not name the packet and field"),
    ("C15", "f1a622a", "a value whose repr fails hid the packing error"),
    ("C13", "add0fe2", "the struct adapter accepted streams that end too early"),
    ("C13", "4d18b94", "a packet list without a length whose elements take no bytes was unpacked for ever"),
    ("C13", "ae76d0a", "bytes of a multi-range field were closed up over a range the cut-off packet doesn't have"),
    ("C13", "d1fdd69", "integers and floats whose last byte was cut off half-way were given a value"),
    ("C10", "24f79ed", "an interrupt that struck while a reference was being entered was masked by an IndexError"),
    ("C12", "7b03381", "a field whose value filled its closed ranges exactly was not counted up to its open range when unpacking"),
    ("C12", "ca7b8b2", "a string or float at a bit position could not be packed (its size in bytes was a float)"),
    ("C13", "f3a09ed", "a string in a list whose last byte was cut off half-way was given a value"),
    ("C01", "57119db", "records with numeric fields could not be read when their constructor takes arguments that the reader passes"),
    ("C02", "adf2fdd", "the size of a string whose length is encoded by an application's marshal was computed from the string instead of its length"),
    ("C12", "9f5cb9c", "a field of several parts could not be packed or unpacked when a part of no bytes starts where a later-placed part starts"),
    ("C12", "c1dc621", "the size of an unpacked packet left out an empty part of a field beyond a gap, so the next packet was read from the wrong place"),
    ("C13", "c1dc621", "a nested packet cut off inside a field of several parts was given a size that made the next field be read from its gap"),
    ("C02", "d0e6977", "the announced sizes of strings and arrays could not be computed if the length's marshal does not bound its own size"),
    ("C07", "b1972a1", "fields of a lazy container inside another lazy container were None until the outer one was used"),
]
OPEN = []

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.jsonl"), "w") as f:
        for p, c, what in FIXED:
            f.write("fixed: property=%s %s %s\n" % (p, c, what))
        for p, replay, what in OPEN:
            f.write(json.dumps({"property": p, "replay": replay, "what": what}, sort_keys=True) + "\n")
