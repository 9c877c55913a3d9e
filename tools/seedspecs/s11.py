ID = "c13-map-update-all-or-nothing"
PROP = "C13"
NEEDS = "a bulk update whose source raises part-way"
BREAKS = "the entries given before the failure are not there"
EDITS = [("jstypes/jsmap.py", '''            self.__dict.update((same_value_zero(k), (k, v)) for k, v in other)

''', '''            self.__dict.update([(same_value_zero(k), (k, v)) for k, v in other])

''')]
DEMO = '''
from v8serialize.jstypes import JSMap
m = JSMap()
def src():
    yield "a", 1
    raise KeyError
try:
    m.update(src())
except KeyError:
    pass
print(m)
raise SystemExit(list(m) != ["a"])
'''
