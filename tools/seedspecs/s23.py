ID = "c08-doubles-share-a-scratch-buffer"
PROP = "C08"
NEEDS = "two threads write a double at the same time, with a switch between packing and copying it"
BREAKS = "one call's message contains the other call's number"
EDITS = [("encode.py", '''        self.write_tag(tag)
        self.data.extend(struct.pack("<d", value))
''', '''        self.write_tag(tag)
        _DOUBLE.pack_into(_DOUBLE_BYTES, 0, value)
        self.data.extend(_DOUBLE_BYTES)
'''), ("encode.py", '''@dataclass(**slots_if310())
class WritableTagStream:
''', '''_DOUBLE = struct.Struct("<d")
_DOUBLE_BYTES = bytearray(_DOUBLE.size)


@dataclass(**slots_if310())
class WritableTagStream:
''')]
DEMO = '''
import sys, threading
from v8serialize import dumps, loads
from v8serialize import encode as E
# park one thread after it packed its number
go, back = threading.Event(), threading.Event()
def trace(frame, event, arg):
    if frame.f_code.co_name != "write_double":
        return trace if event == "call" and "v8serialize" in frame.f_code.co_filename else None
    if event == "line":
        trace.n += 1
        go.set(); back.wait(0.2)
    return trace
trace.n = 0
out = []
def a():
    sys.settrace(trace)
    try:
        out.append(loads(dumps(1.5)))
    finally:
        sys.settrace(None)
t = threading.Thread(target=a); t.start()
go.wait(5)
while t.is_alive():
    dumps(2.5)
back.set(); t.join()
print(out)
raise SystemExit(out != [1.5])
'''
