ID = "c16-nodejs-views-alias-memoryview-input"
PROP = "C16"
NEEDS = "Node.js-format views decoded from a memoryview (mmap, pooled receive buffer) which is then reused"
BREAKS = "the decoded view's bytes are the caller's receive buffer: overwriting it changes the value and the buffer stays exported"
EDITS = [("extensions.py", '''        buffer = JSArrayBuffer(stream.data[data_start_pos:data_end_pos])
''', '''        data = stream.data[data_start_pos:data_end_pos]
        # Slicing already copied the data, don't copy twice
        buffer = JSArrayBuffer(data, copy_data=isinstance(data, bytes))
''')]
DEMO = '''
from base64 import b64decode
from v8serialize import loads, TagReader
from v8serialize.extensions import NodeJsArrayBufferViewHostObjectHandler as H
steps = [TagReader(host_object_deserializer=H())]
raw = b64decode("/w9cAQMBAgM=")
buf = bytearray(raw)
v = loads(memoryview(buf), decode_steps=steps)
with v.get_buffer() as d:
    a = bytes(d)
for i in range(len(buf)):
    buf[i] = 0xEE
with v.get_buffer() as d:
    b = bytes(d)
print(a, b)
raise SystemExit(a != b)
'''
