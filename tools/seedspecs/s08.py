ID = "c17-onebyte-keys-bypass-steps"
PROP = "C17"
NEEDS = "a decode step that looks at property keys, and a peer (V8) that writes one-byte string keys"
BREAKS = "one-byte string keys are not offered to the decode steps"
EDITS = [("decode.py", '''                key = ctx.decode_object(tag=tag)
                if not isinstance(key, (int, float, str)):
''', '''                key = (
                    self.read_string_onebyte()  # by far the most common keys
                    if tag is SerializationTag.kOneByteString
                    else ctx.decode_object(tag=tag)
                )
                if not isinstance(key, (int, float, str)):
''')]
DEMO = '''
from v8serialize import loads, TagReader
seen = []
def upper(tag, /, ctx, next):
    v = next(tag)
    return v.upper() if isinstance(v, str) else v
got = loads(bytes.fromhex("ff0f6f220161 220162 7b01".replace(" ", "")), decode_steps=[upper, TagReader()])
print(dict(got))
raise SystemExit(dict(got) != {"A": "B"})
'''
