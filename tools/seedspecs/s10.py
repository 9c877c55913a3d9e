ID = "c05-torn-bigint"
PROP = "C05"
NEEDS = "a message cut inside the digits of its (last) bigint"
BREAKS = "a truncated bigint decodes as a different number rather than being rejected"
EDITS = [("decode.py", '''        value = int.from_bytes(self.read_bytes(byte_count), byteorder="little")
        if is_negative:
''', '''        digits = self.data[self.pos : self.pos + byte_count]
        self.pos += len(digits)
        value = int.from_bytes(digits, byteorder="little")
        if is_negative:
''')]
DEMO = '''
from v8serialize import loads, dumps, V8SerializeError
d = bytes(dumps(2**200 + 1))
for i in range(len(d)):
    try:
        v = loads(d[:i])
    except V8SerializeError:
        continue
    print(i, "decoded", v); raise SystemExit(1)
'''
