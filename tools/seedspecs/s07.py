ID = "c08-shared-tag-constraint-remover"
PROP = "C08"
NEEDS = "two threads encoding objects at once, one pre-empted between entering and leaving the key constraint"
BREAKS = "the key constraint is removed from the other thread's stream and stays on this one: nested values fail to encode"
EDITS = [("encode.py", '''    def __post_init__(self) -> None:
        self.__tag_constraint_remover = TagConstraintRemover(self)

''', ''''''),
("encode.py", '''    __tag_constraint_remover: TagConstraintRemover = field(
        compare=False,
        repr=False,
        init=False,
    )

''', ''),
("encode.py", '''        self.allowed_tags = allowed_tags
        return self.__tag_constraint_remover
''', '''        self.allowed_tags = allowed_tags
        _tag_constraint_remover.stream = self
        return _tag_constraint_remover
'''),
("encode.py", '''class HostObjectSerializerFn(Protocol[T_con]):
''', '''_tag_constraint_remover = TagConstraintRemover(WritableTagStream())
"""Constraints don't nest, so there's only ever one to remove."""


class HostObjectSerializerFn(Protocol[T_con]):
'''),]
DEMO = '''
import threading
from v8serialize import dumps
from v8serialize.jstypes import JSObject
from v8serialize.encode import serialize_object_references, TagWriter
inside, go = threading.Event(), threading.Event()
def slow(value, /, ctx, next):
    if value == "pause":
        inside.set(); go.wait(20)
    next(value)
steps = [slow, serialize_object_references, TagWriter()]
def build(k):
    return JSObject({k: JSObject(b=[1])})
want = dumps(build("pause "), encode_steps=steps).replace(b"\\x06pause ", b"\\x05pause")
out = []
def work():
    try:
        out.append(dumps(build("pause"), encode_steps=steps))
    except Exception as e:
        out.append(e)
t = threading.Thread(target=work); t.start(); inside.wait(20)
dumps(build("other"), encode_steps=steps)
go.set(); t.join()
print(out)
raise SystemExit(out[0] != want)
'''
