ID = "c09-equality-guard-shared-by-threads"
PROP = "C09"
NEEDS = "two threads compare the same two unequal objects, with a switch while one is inside the comparison"
BREAKS = "the second comparison is answered by the first one's recursion guard"
EDITS = [("_recursive_eq.py", '''        thread_id = get_ident()
''', '''        thread_id = get_ident() if id(self) == id(other) else 0
''')]
DEMO = '''
import threading
from v8serialize.jstypes import JSObject
inside, leave = threading.Event(), threading.Event()
class Slow:
    def __eq__(self, o):
        inside.set(); leave.wait(5)
        return False
    __hash__ = None
a, b = JSObject(x=Slow()), JSObject(x=1)
t = threading.Thread(target=lambda: a == b); t.start()
inside.wait(5)
leave2 = threading.Timer(0.2, leave.set); leave2.start()
r = a == b
leave.set(); t.join()
print(r)
raise SystemExit(r is not False)
'''
