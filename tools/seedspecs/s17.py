ID = "c01-files-mapped-from-their-start"
PROP = "C01"
NEEDS = "a message read from a real file whose position is not at the start (a log of messages)"
BREAKS = "the file's first message is decoded instead of the one at the file's position"
EDITS = [("decode.py", '''        # TODO: could mmap when fp is a file
        return self.decodes(fp.read())
''', '''        try:
            fd = fp.fileno()  # type: ignore[attr-defined]
            data = mmap(fd, 0, access=ACCESS_READ)
        except (AttributeError, OSError, ValueError):  # not a file, or empty
            return self.decodes(fp.read())
        with data, memoryview(data) as view:
            return self.decodes(view)
'''), ("decode.py", "import codecs\n", "import codecs\nfrom mmap import ACCESS_READ, mmap\n")]
DEMO = '''
import os, tempfile
from v8serialize import dumps, Decoder
with tempfile.TemporaryDirectory() as d:
    with open(d + "/f", "wb") as f:
        f.write(dumps("first"))
        at = f.tell()
        f.write(dumps("second"))
    with open(d + "/f", "rb") as f:
        f.seek(at)
        got = Decoder().decode(f)
print(got)
raise SystemExit(got != "second")
'''
