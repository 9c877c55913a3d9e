ID = "c16-large-readonly-data-is-not-copied"
PROP = "C16"
NEEDS = "a decoded ArrayBuffer of 2048 bytes or more, and input memory which is changed or reused after the decode"
BREAKS = "large decoded buffers look into the input's memory: they change with it and pin it (and cannot be written to)"
EDITS = [("jstypes/jsbuffers.py", '''        copy_data = True if copy_data is None else copy_data
''', '''        if copy_data is None:
            # copying large read-only memory is wasteful, it can't change
            copy_data = resizable or not (
                isinstance(data, memoryview) and data.readonly and data.nbytes >= 2048
            )
''')]
DEMO = '''
from v8serialize import dumps, loads
from v8serialize.jstypes import JSArrayBuffer
wire = bytearray(dumps([JSArrayBuffer(b"a" * 5000)]))
value = loads(wire)[0]
try:
    wire[:] = b"z" * len(wire)
    wire.append(0)
    pinned = False
except BufferError:
    pinned = True
with memoryview(value) as m:
    same = bytes(m) == b"a" * 5000
print(pinned, same)
raise SystemExit(pinned or not same)
'''
