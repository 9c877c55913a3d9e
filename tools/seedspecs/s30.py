ID = "c06-versions-compared-by-milestone"
PROP = "C06"
NEEDS = "a v8_version in the same milestone as the version that introduced a feature but older than it"
BREAKS = "output for that version uses the feature, which that version cannot read"
EDITS = [("constants.py", '''            if feature.first_v8_version <= v8_version:
''', '''            if _is_in_milestone(feature.first_v8_version, v8_version):
'''), ("constants.py", '''class SerializationFeature(''', '''def _is_in_milestone(
    feature: Version | UnreleasedVersion, v8: Version | UnreleasedVersion
) -> bool:
    if isinstance(feature, Version) and isinstance(v8, Version):
        # Chrome and Node.js only ship the last build of a major.minor
        return feature.release[:2] <= v8.release[:2]
    return feature <= v8


class SerializationFeature(''')]
DEMO = '''
from v8serialize.constants import SerializationFeature as F
bad = []
for f in F:
    v = f.first_v8_version
    if not getattr(v, 'release', None) or len(v.release) < 3 or v.release[2] == 0:
        continue
    old = f"{v.release[0]}.{v.release[1]}.{v.release[2] - 1}"
    try:
        if f and f in F.supported_by(v8_version=old):
            bad.append((f, old))
    except LookupError:
        pass
print(bad)
raise SystemExit(bool(bad))
'''
