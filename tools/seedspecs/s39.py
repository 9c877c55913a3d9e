ID = "c01-only-the-nearest-context-is-told"
PROP = "C01"
NEEDS = "a Python exception raised while handling one which was itself raised while handling another"
BREAKS = "the stack of the error that arrives leaves out where the trouble began"
EDITS = [("jstypes/_v8traceback.py", '''    while tbe.__context__ and not tbe.__suppress_context__:
        yield tbe.__context__
        tbe = tbe.__context__
''', '''    context = tbe.__context__
    if context and not tbe.__suppress_context__:
        yield context
''')]
DEMO = '''
from v8serialize import dumps, loads
def f():
    try:
        try:
            raise OSError("where it began")
        except OSError:
            raise LookupError("then")
    except LookupError:
        raise ValueError("last")
try:
    f()
except ValueError as e:
    got = loads(dumps(e))
print(got.stack)
raise SystemExit(not ("last" in got.stack and "then" in got.stack and "where it began" in got.stack))
'''
