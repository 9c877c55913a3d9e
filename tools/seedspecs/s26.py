ID = "c01-reads-files-until-a-short-read"
PROP = "C01"
NEEDS = "a stream (socket, pipe, decompressor) which sometimes gives fewer bytes than asked for before its end"
BREAKS = "the message is decoded from only the first part of the stream: it is rejected as truncated"
EDITS = [("decode.py", '''        return self.decodes(fp.read())
''', '''        chunks = [fp.read(self.CHUNK)]
        while len(chunks[-1]) == self.CHUNK:
            chunks.append(fp.read(self.CHUNK))
        return self.decodes(chunks[0] if len(chunks) == 1 else b"".join(chunks))
'''), ("decode.py", '''    """The sequence of decode steps that define how to create Python values."""
''', '''    """The sequence of decode steps that define how to create Python values."""

    CHUNK: ClassVar[int] = 1 << 20
'''), ("decode.py", '''from typing import (
''', '''from typing import (
    ClassVar,
''')]
DEMO = '''
import io
from v8serialize import dumps, Decoder
class Pipe:
    def __init__(self, data): self.d = data
    def read(self, n=-1):
        n = len(self.d) if n is None or n < 0 else min(n, 10)
        r, self.d = self.d[:n], self.d[n:]
        return r
v = Decoder().decode(Pipe(dumps("a" * 100)))
raise SystemExit(v != "a" * 100)
'''
