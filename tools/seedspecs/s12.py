ID = "c14-buffer-length-read-apart-from-bytes"
PROP = "C14"
NEEDS = "another thread resizing a buffer between the write of its length and of its bytes"
BREAKS = "the buffer's length and bytes come from different moments: the message is malformed"
EDITS = [("encode.py", '''            buffer if identity is None else identity
        )
        with memoryview(buffer.data) as buffer_data:
            self._array_buffer_lengths[serialized_id] = len(buffer_data)
            self.write_uint32(len(buffer_data), tag=None)
            self.data.extend(buffer_data)
''', '''            buffer if identity is None else identity
        )
        self._array_buffer_lengths[serialized_id] = buffer.data.nbytes
        self.write_uint32(buffer.data.nbytes, tag=None)
        self.data.extend(buffer.data)
''')]
DEMO = '''
import sys, threading
from v8serialize import loads, dumps, V8SerializeError
from v8serialize.jstypes import *
import v8serialize.encode as e
bad = 0
for stop in range(1, 400):
    n = 0
    b = JSArrayBuffer(b"x" * 8, max_byte_length=64)
    def trace(frame, event, arg):
        global n
        if not frame.f_code.co_filename.endswith("encode.py"):
            return None
        if event == "line":
            n += 1
            if n == stop:
                def other():
                    try:
                        b.resize(3)
                    except BufferError:
                        pass
                t = threading.Thread(target=other); t.start(); t.join()
        return trace
    threading.settrace(None)
    sys.settrace(trace)
    try:
        d = dumps([b, 1])
    finally:
        sys.settrace(None)
    if n < stop:
        break
    try:
        loads(d)
    except V8SerializeError as x:
        print("resized at line event", stop, x); bad = 1
raise SystemExit(bad)
'''
