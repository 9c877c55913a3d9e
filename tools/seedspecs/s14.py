ID = "c07-map-key-errors-renamed"
PROP = "C07"
NEEDS = "a decode step or host object reader which raises a TypeError of its own for something inside a Map"
BREAKS = "the caller doesn't see the error their code raised but a decode error"
EDITS = [("decode.py", '''        map.update(ctx.stream.read_jsmap(ctx, identity=map))
        return map
''', '''        try:
            map.update(ctx.stream.read_jsmap(ctx, identity=map))
        except TypeError as e:  # jsmap_type may need hashable keys
            ctx.stream.throw("JSMap key is not suitable for the map", cause=e)
        return map
''')]
DEMO = '''
from v8serialize import loads, dumps, TagReader
def step(tag, /, ctx, next):
    v = next(tag)
    if v == "bad":
        raise TypeError("mine")
    return v
try:
    loads(dumps([{"bad": 1}]), decode_steps=[step, TagReader()])
except TypeError as e:
    print(repr(e))
except Exception as e:
    print(repr(e)); raise SystemExit(1)
'''
