ID = "c13-named-entries-come-first"
PROP = "C13"
NEEDS = "JSMap.update() with both a source and keyword arguments, where the source has a key of the same name or fails half-way"
BREAKS = "the source's value wins over the keyword argument, and the new entries are in the wrong order"
EDITS = [("jstypes/jsmap.py", '''        if isinstance(other, Mapping):
            self.__dict.update((same_value_zero(k), (k, v)) for k, v in other.items())
''', '''        if kwds:
            self.__dict.update((same_value_zero(k), (k, v)) for k, v in kwds.items())  # type: ignore[misc]
        if isinstance(other, Mapping):
            self.__dict.update((same_value_zero(k), (k, v)) for k, v in other.items())
'''), ("jstypes/jsmap.py", '''            self.__dict.update((same_value_zero(k), (k, v)) for k, v in other)

        if kwds:
            self.__dict.update((same_value_zero(k), (k, v)) for k, v in kwds.items())  # type: ignore[misc]
''', '''            self.__dict.update((same_value_zero(k), (k, v)) for k, v in other)
''')]
DEMO = '''
from v8serialize.jstypes import JSMap
m = JSMap()
m.update([("a", 1), ("b", 2)], a=3, c=4)
print(m)
raise SystemExit(list(m.items()) != [("a", 3), ("b", 2), ("c", 4)])
'''
