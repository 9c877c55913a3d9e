ID = "c03-long-two-byte-strings-unaligned"
PROP = "C03"
NEEDS = "a two-byte string of 64 or more characters, written at an odd position (the length takes two bytes)"
BREAKS = "the string's data is not aligned as V8 expects"
EDITS = [("encode.py", '''        encoded = value.encode("utf-16-le")
        tag_pos = self.pos
        self.write_tag(tag)
        self.write_varint(len(encoded))
        # V8 implementation states that existing code expects TwoByteString to
        # be aligned (to even bytes).
        if tag is not None and self.pos & 1:
            self.data.insert(tag_pos, SerializationTag.kPadding)
        self.data.extend(encoded)
''', '''        encoded = value.encode("utf-16-le")
        # V8 implementation states that existing code expects TwoByteString to
        # be aligned (to even bytes). The tag and length are even.
        needs_padding = tag is not None and self.pos & 1
        tag_pos = self.pos
        self.write_tag(tag)
        self.write_varint(len(encoded))
        if needs_padding:
            self.data.insert(tag_pos, SerializationTag.kPadding)
        self.data.extend(encoded)
''')]
DEMO = '''
from v8serialize import dumps
from v8serialize.encode import serialize_object_references, TagWriter
def two(value, /, ctx, next):
    if isinstance(value, str):
        return ctx.stream.write_string_twobyte(value)
    next(value)
for pre in ("", "x"):
    for n in (1, 100):
        s = "\\u4e2d" * n
        d = dumps([True, True, s] if pre else [True, s], encode_steps=[two, TagWriter()])
        at = d.index(s.encode("utf-16-le"))
        if at % 2:
            print("data at odd position", at); raise SystemExit(1)
'''
