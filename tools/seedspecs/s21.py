ID = "c03-byte-order-marks-lost"
PROP = "C03"
NEEDS = "a V8 peer's two-byte string which begins with U+FEFF"
BREAKS = "the first character of the string is dropped (or the string is read as big-endian)"
EDITS = [("decode.py", '''            value = codecs.decode(self.read_bytes(length), "utf-16-le")
''', '''            value = codecs.decode(self.read_bytes(length), "utf-16")
''')]
DEMO = '''
from v8serialize import loads
v = loads(b"\\xff\\x0fc\\x04\\xff\\xfea\\x00")
print(ascii(v))
raise SystemExit(v != "\\ufeffa")
'''
