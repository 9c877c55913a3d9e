ID = "c06-only-direct-error-causes-checked"
PROP = "C06"
NEEDS = "an error that refers to itself through a container in its cause, and readers without CircularErrorCause"
BREAKS = "the self-reference is written although the oldest reader can't read it"
EDITS = [("encode.py", '''            if SerializationFeature.CircularErrorCause in self.features:
''', '''            if (
                SerializationFeature.CircularErrorCause in self.features
                # Only errors can be their own cause
                or not isinstance(cause, (JSErrorData, BaseException))
            ):
''')]
DEMO = '''
from v8serialize import dumps, V8SerializeError
from v8serialize.jstypes import JSError, JSObject
e = JSError("x")
e.cause = JSObject(err=e)
try:
    d = dumps(e)
except V8SerializeError as x:
    print("refused", x)
else:
    print(d)
    raise SystemExit(1)
'''
