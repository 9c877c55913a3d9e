ID = "c10-equal-settings-share-a-repr"
PROP = "C10"
NEEDS = "two overlapping configure blocks with equal settings which end out of order (or the inner one nested in the outer one, with a further block between)"
BREAKS = "the settings are restored by a block which is not the innermost one: reprs printed in a block still open use the wrong settings"
EDITS = [("jstypes/_repr.py", '''        js_repr = JSRepr(**override_state)

    active''', '''        js_repr = _js_repr_with(**override_state)

    active'''), ("jstypes/_repr.py", '''_is_interactive = hasattr(sys, "ps1")
''', '''_is_interactive = hasattr(sys, "ps1")

_js_repr_with = functools.lru_cache(JSRepr)
'''), ("jstypes/_repr.py", '''import sys
import warnings
''', '''import functools
import sys
import warnings
''')]
DEMO = '''
import warnings
from v8serialize.jstypes import JSObject
from v8serialize.jstypes._repr import js_repr_settings
value = JSObject({"a": JSObject(b=JSObject(c=1))})
before = repr(value)
a = js_repr_settings(maxlevel=2); b = js_repr_settings(maxlevel=2)
a.__enter__()
inside = repr(value)
b.__enter__()
with warnings.catch_warnings(record=True):
    warnings.simplefilter("always")
    a.__exit__(None, None, None)  # not the innermost block: settings stay
still = repr(value)
with warnings.catch_warnings(record=True):
    warnings.simplefilter("always")
    b.__exit__(None, None, None)
print(before, inside, still)
raise SystemExit(not (before != inside == still))
'''
