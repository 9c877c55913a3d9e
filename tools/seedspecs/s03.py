ID = "c10-forced-restore-warns"
PROP = "C10"
NEEDS = "a forced print-settings block which ends by an exception while someone else's settings are still active inside it"
BREAKS = "the block does not restore its initial settings although forced to: the other settings stay active"
EDITS = [("jstypes/_repr.py", '''    try:
        yield js_repr
    finally:
        if active_js_repr is js_repr or force_restore:
            active_js_repr = initial_js_repr
        else:
''', '''    try:
        yield js_repr
    except BaseException:
        if active_js_repr is js_repr:
            active_js_repr = initial_js_repr
        raise
    else:
        if active_js_repr is js_repr or force_restore:
            active_js_repr = initial_js_repr
        else:
''')]
DEMO = '''
from v8serialize.jstypes import _repr
from v8serialize.jstypes._repr import js_repr_settings
start = _repr.js_repr(list(range(50)))
try:
    with js_repr_settings(maxlist=3, force_restore=True):
        inner = js_repr_settings(maxlist=2)
        inner.__enter__()
        raise KeyError
except KeyError:
    pass
now = _repr.js_repr(list(range(50)))
print(now)
raise SystemExit(now != start)
'''
