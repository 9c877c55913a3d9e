ID = "c14-map-values-looked-up-while-writing"
PROP = "C14"
NEEDS = "a thread that deletes an entry of a mapping which another thread is serializing, between its key and its value being written"
BREAKS = "the data holds an entry whose value, null, the mapping never had"
EDITS = [("encode.py", '''        ctx.stream.write_jsmap(value.items(), ctx=ctx, identity=value)

    @encode.register(abc.Set)''', '''        items = ((key, value.get(key)) for key in tuple(value))
        ctx.stream.write_jsmap(items, ctx=ctx, identity=value)

    @encode.register(abc.Set)''')]
DEMO = '''
from v8serialize import dumps, loads, Encoder
from v8serialize.encode import default_encode_steps
m = {"a": 1, "b": 2, "c": 3}
# another thread, at a point of our choosing
def other(value, /, ctx, next):
    if value == "a" and "b" in m:
        del m["b"]
    return next(value)
try:
    r = loads(Encoder(encode_steps=[other, *default_encode_steps]).encode(m))
except RuntimeError as e:
    print("refused:", e)
    raise SystemExit(0)
print(r)
m2 = {"a": 1, "b": 2, "c": 3}
raise SystemExit(not all(m2.get(k) == v for k, v in dict(r).items()))
'''
