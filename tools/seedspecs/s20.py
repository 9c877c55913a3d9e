ID = "c11-borrowed-buffers-move-when-grown"
PROP = "C11"
NEEDS = "a resizable buffer is grown while a view of it is borrowed, and the borrower writes afterwards"
BREAKS = "the refused resize changes the buffer, and writes by the borrower are not seen by other views"
EDITS = [("jstypes/jsbuffers.py", '''            self._data.extend(bytearray(added_byte_count))
''', '''            grown = self._data + bytes(added_byte_count)
            try:
                self._data[current_byte_length:] = grown[current_byte_length:]
            except BufferError:  # borrowed memory can't move
                object.__setattr__(self, "_data", grown)
''')]
DEMO = '''
from v8serialize.jstypes import JSArrayBuffer, JSUint8Array
b = JSArrayBuffer(b"abcd", max_byte_length=9)
v = JSUint8Array(b)
with v.get_buffer() as m:
    try:
        b.resize(8)
    except BufferError:
        pass
    m[0] = 120
with v.get_buffer() as m:
    print(bytes(m))
    raise SystemExit(bytes(m) != b"xbcd")
'''
