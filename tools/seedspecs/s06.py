ID = "c02-second-view-of-shared-buffer"
PROP = "C02"
NEEDS = "two views of one SharedArrayBuffer/ArrayBufferTransfer (or the buffer and a view), so that the second is written after an object reference"
BREAKS = "a view following a reference to a shared buffer is not read as part of it; the message fails or is misread"
EDITS = [("decode.py", '''        if isinstance(
            obj,
            (JSArrayBuffer, JSSharedArrayBuffer, JSArrayBufferTransfer),
        ):
''', '''        if isinstance(obj, (JSArrayBuffer, JSSharedArrayBuffer)):
''')]
DEMO = '''
from v8serialize import loads, dumps
from v8serialize.jstypes import *
b = JSArrayBufferTransfer(7)
v = [JSUint8Array(b, 0, 4), JSInt32Array(b, 0, 1)]
got = loads(dumps(v))
assert list(map(type, got.array)) == [JSUint8Array, JSInt32Array], got
assert got[0].backing_buffer is got[1].backing_buffer
'''
