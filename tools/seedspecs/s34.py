ID = "c17-text-map-keys-bypass-encode-steps"
PROP = "C17"
NEEDS = "a custom encode step that replaces strings, and a map with such a string as a key"
BREAKS = "the map's key is written without being offered to the encode steps"
EDITS = [("encode.py", '''        for key, value in items:
            ctx.encode_object(key)
            ctx.encode_object(value)
            count += 2
        self.write_tag(SerializationTag.kEndJSMap)''', '''        for key, value in items:
            if type(key) is str:
                self.write_string_utf8(key)
            else:
                ctx.encode_object(key)
            ctx.encode_object(value)
            count += 2
        self.write_tag(SerializationTag.kEndJSMap)''')]
DEMO = '''
from v8serialize import Encoder, loads
from v8serialize.encode import default_encode_steps
seen = []
def step(value, /, ctx, next):
    seen.append(value)
    return next(value)
Encoder(encode_steps=[step, *default_encode_steps]).encode({"k": "v"})
print(seen)
raise SystemExit("k" not in seen)
'''
