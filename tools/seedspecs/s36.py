ID = "c18-encoder-remembers-what-failed"
PROP = "C18"
NEEDS = "an Encoder that lives on after a call of its encode() failed"
BREAKS = "everything serialized by the failed call stays alive as long as the encoder, or until another call fails"
EDITS = [("encode.py", '''        ctx = DefaultEncodeContext(
            stream=WritableTagStream(features=self.features),
            encode_steps=self.encode_steps,
        )
        ctx.stream.write_header()
        ctx.encode_object(value)
        return ctx.stream.data
''', '''        ctx = self._active = DefaultEncodeContext(
            stream=WritableTagStream(features=self.features),
            encode_steps=self.encode_steps,
        )
        ctx.stream.write_header()
        ctx.encode_object(value)
        self._active = None
        return ctx.stream.data
''')]
DEMO = '''
import gc, weakref
from v8serialize import Encoder
class L(list): pass
e = Encoder()
def call():
    v = L([object()])
    r = weakref.ref(v)
    try:
        e.encode(v)
    except Exception:
        return r
r = call()
gc.collect()
raise SystemExit(r() is not None)
'''
