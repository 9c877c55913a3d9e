"""setup_cmd: the interpreter, the library and the registered checks are usable."""
import json
import os
import py_compile
import sys

here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
assert sys.version_info >= (3, 12), sys.version
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(os.environ.get("SIM_REPO", "/repo"), "src"))
import v8serialize  # noqa: E402

assert v8serialize.loads(v8serialize.dumps([1, "a"])) is not None
for root in (here, os.path.join(here, "props")):
    for fn in sorted(os.listdir(root)):
        if fn.endswith(".py"):
            compile(open(os.path.join(root, fn)).read(), fn, "exec")
for c in json.load(open(os.path.join(verif, "MANIFEST.json")))["checks"]:
    assert os.path.exists(os.path.join(here, "props", c["property"].lower() + ".py")), c
print("ok")
