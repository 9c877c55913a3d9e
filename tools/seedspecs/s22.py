ID = "c05-array-length-optional-at-the-end"
PROP = "C05"
NEEDS = "a message whose outermost value is a dense array of up to 127 items, cut before its last byte"
BREAKS = "the rest of the message decodes to a value"
EDITS = [("decode.py", '''        final_array_el_count = self.read_varint()

        if expected_array_el_count != final_array_el_count:
''', '''        # The length is repeated at the end, unless nothing follows the array
        final_array_el_count = (
            expected_array_el_count if self.eof else self.read_varint()
        )

        if expected_array_el_count != final_array_el_count:
''')]
DEMO = '''
from v8serialize import loads, dumps, DecodeV8SerializeError
from v8serialize.jstypes import JSArray
d = dumps(JSArray([1, 2]))
try:
    v = loads(d[:-1])
except DecodeV8SerializeError as e:
    print(e)
else:
    print(v); raise SystemExit(1)
'''
