ID = "c15-equal-dates-converted-once"
PROP = "C15"
NEEDS = "two naive datetimes that are equal but differ in fold (the second of the hour that happens twice), or a change of the local time zone between two dumps"
BREAKS = "the second date arrives as the point in time of the first"
EDITS = [("encode.py", '''        # otherwise it's ambiguous.
        ctx.stream.write_js_date(value)
''', '''        # otherwise it's ambiguous.
        ctx.stream.write_js_date(_in_utc(value), identity=value)
'''), ("encode.py", '''@dataclass(init=False, **slots_if310())
class DefaultEncodeContext''', '''@lru_cache(maxsize=64)
def _in_utc(value: datetime) -> datetime:
    return value.astimezone(timezone.utc)


@dataclass(init=False, **slots_if310())
class DefaultEncodeContext'''), ("encode.py", '''from datetime import datetime
''', '''from datetime import datetime, timezone
''')]
DEMO = '''
import os, time
os.environ["TZ"] = "Europe/London"; time.tzset()
from datetime import datetime
from v8serialize import dumps, loads
a = datetime(2023, 10, 29, 1, 30)
b = a.replace(fold=1)
x, y = loads(dumps([a, b])).array
print(x, y)
raise SystemExit(y.timestamp() - x.timestamp() != 3600)
'''
