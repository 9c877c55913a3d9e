ID = "c18-identities-pinned-for-ever"
PROP = "C18"
NEEDS = "an object used as a key of a JSMap or member of a JSSet (or looked up in one), and later removed"
BREAKS = "the object is kept alive for as long as the process runs"
EDITS = [("jstypes/_equality.py", '''    return (id(value),)  # type: ignore[return-value]
''', '''    # The id must not be reused while the surrogate value is in use.
    _identities[id(value)] = value
    return (id(value),)  # type: ignore[return-value]
'''), ("jstypes/_equality.py", '''_nankey: Final = (float("nan"),)  # equal thanks to tuple identity
''', '''_nankey: Final = (float("nan"),)  # NaN is equal to itself thanks to tuple identity
_identities: Final[dict[int, object]] = {}
''')]
DEMO = '''
import gc, weakref
from v8serialize.jstypes import JSMap
class K: pass
k = K(); r = weakref.ref(k)
m = JSMap(); m[k] = 1
del m[k]; del k
gc.collect()
raise SystemExit(r() is not None)
'''
