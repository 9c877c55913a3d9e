ID = "c13-get-takes-none-for-missing"
PROP = "C13"
NEEDS = "get() with a default for a key whose value is None"
BREAKS = "a present entry is reported as absent"
EDITS = [("jstypes/jsmap.py", '''        return self.__dict.get(same_value_zero(key), (None, default))[1]
''', '''        _, value = self.__dict.get(same_value_zero(key), (None, None))
        return default if value is None else value
''')]
DEMO = '''
from v8serialize.jstypes import JSMap
m = JSMap([("a", None)])
raise SystemExit(m.get("a", 1) is not None)
'''
