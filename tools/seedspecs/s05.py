ID = "c04-data-ending-in-padding"
PROP = "C04"
NEEDS = "a message cut or damaged so that it ends inside alignment padding"
BREAKS = "IndexError instead of a decode error"
EDITS = [("decode.py", '''        while True:
            self.ensure_capacity(1)
            if self.data[self.pos] != SerializationTag.kPadding:
                return
            self.pos += 1
''', '''        data = self.data
        while self.pos < len(data) and data[self.pos] == SerializationTag.kPadding:
            self.pos += 1
''')]
DEMO = '''
from v8serialize import loads, V8SerializeError
try:
    loads(bytes([0xFF, 15, ord("A"), 1, 0]))
except V8SerializeError:
    pass
except Exception as e:
    print(repr(e)); raise SystemExit(1)
'''
