ID = "c09-repr-recursion-guard-shared-by-threads"
PROP = "C09"
NEEDS = "two threads printing the same object at the same time, one pre-empted inside it"
BREAKS = "the second thread's repr of an object being printed by another thread comes out as '...'"
EDITS = [("jstypes/_repr.py", "        key = id(x), get_ident()\n", "        key = id(x)\n"),
("jstypes/_repr.py", "    __repr_running: set[tuple[int, int]] = set()\n", "    __repr_running: set[int] = set()\n"),
("jstypes/_repr.py", "from _thread import get_ident\n", "")]
DEMO = '''
import threading
from v8serialize.jstypes import JSObject, JSArray
inside, go = threading.Event(), threading.Event()
class Slow:
    def __repr__(self):
        if threading.current_thread() is not threading.main_thread():
            inside.set(); go.wait(20)
        return "slow"
o = JSObject(a=JSArray([Slow()]))
o["self"] = o
want = repr(o)
t = threading.Thread(target=lambda: repr(o)); t.start(); inside.wait(20)
got = repr(o)
go.set(); t.join()
print(want, got)
raise SystemExit(want != got)
'''
