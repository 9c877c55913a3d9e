ID = "c15-naive-dates-use-zone-of-import"
PROP = "C15"
NEEDS = "a naive datetime encoded when the machine's offset differs from what it was when the module was imported (a DST change or a zone change)"
BREAKS = "naive datetimes denote local time; they are encoded with a fixed offset captured at import, so the instant is off by the difference"
EDITS = [("encode.py", "        # requires a timezone and time of day to produce a point in time,\n        # otherwise it's ambiguous.\n        ctx.stream.write_js_date(value)\n",
"        # requires a timezone and time of day to produce a point in time,\n        # otherwise it's ambiguous.\n        date = value if value.tzinfo else value.replace(tzinfo=_LOCAL_TIMEZONE)\n        ctx.stream.write_js_date(date, identity=value)\n"),
("encode.py", "def _encode_zigzag(number: int) -> int:\n", "_LOCAL_TIMEZONE = datetime.now().astimezone().tzinfo\n\n\ndef _encode_zigzag(number: int) -> int:\n")]
DEMO = '''
import os, time
os.environ["TZ"] = "Europe/London"; time.tzset()
from datetime import datetime
from v8serialize import loads, dumps
bad = 0
for d in (datetime(2024, 1, 15, 12), datetime(2024, 7, 15, 12)):
    for tz in ("Europe/London", "America/New_York"):
        os.environ["TZ"] = tz; time.tzset()
        got = loads(dumps(d))
        if got.timestamp() != d.timestamp():
            print("sent", d, "got", got, "in", tz); bad = 1
raise SystemExit(bad)
'''
