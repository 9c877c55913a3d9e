ID = "c02-deduplication-forgets"
PROP = "C02"
NEEDS = "one value with more than 4096 distinct hashable parts, and an immutable that has an equal twin occurring both before and after them"
BREAKS = "the same immutable object is written twice, so it arrives as two objects"
EDITS = [("encode.py", '''        deduplicate_max_size: int | None = None,
''', '''        deduplicate_max_size: int | None = 4096,
''')]
DEMO = '''
from v8serialize import dumps, loads
from v8serialize.jstypes import JSRegExp
a, b = JSRegExp("x"), JSRegExp("x")
r = loads(dumps([a, b, *range(10_000), b])).array
print(r[0] is r[1], r[1] is r[10_002])
raise SystemExit(r[1] is not r[10_002])
'''
