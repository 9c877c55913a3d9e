ID = "c11-refused-shrink-wipes-the-tail"
PROP = "C11"
NEEDS = "a resizable buffer that is shrunk while its data is borrowed by a memoryview, so that the shrink is refused"
BREAKS = "the resize fails with BufferError but the bytes past the requested length are gone"
EDITS = [("jstypes/jsbuffers.py", '''        else:
            del self._data[byte_length:]
''', '''        elif byte_length < current_byte_length:
            # don't leave what is released behind in the allocation
            released = slice(byte_length, current_byte_length)
            self._data[released] = bytes(current_byte_length - byte_length)
            del self._data[released]
''')]
DEMO = '''
from v8serialize.jstypes import JSArrayBuffer
b = JSArrayBuffer(b"abcdef", max_byte_length=8)
with b.data as borrowed:
    try:
        b.resize(2)
    except BufferError:
        pass
    else:
        raise SystemExit(0 if False else 2)
    print(bytes(borrowed))
    raise SystemExit(bytes(borrowed) != b"abcdef")
'''
