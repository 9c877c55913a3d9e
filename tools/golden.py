"""Compare sim/refv8.py with the real V8 in node (development only; not a check).

For random graphs: Reader(12.x) and node must read the same thing from data
written by Writer and by the library; node's own re-serialization must read
back the same; and both must accept or refuse the same damaged data.
"""
import base64, json, os, re, random, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "sim"))
sys.path.insert(0, "/repo/src")
import graphs as G, refv8 as V, struct
from v8serialize import dumps

NODE = V.Release("12.4", 15, v_flag=True, rab=True, circ=True)
V.RELEASES["12.4"] = NODE
class NodeReader(V.Reader):
    def new(self, kind, **kw):
        if kind == 'shared' or kw.get('shared') is not None or kw.get('transfer') is not None: self.fail('not in node')
        return super().new(kind, **kw)

LEAVES = ["int","flt","str","bool","none","undef","hole","date","re","prim","bytes","barr","ab","ab"]
COMPS = ["list","deque","dict","obj","arr","sparr","map","mset","err","view","tuple","set","fset"]

def dbl(x): return "nan" if x != x else struct.pack("<d", x).hex()
def st(s): return s.encode("utf-16-le", "surrogatepass").hex()

def describe(root):
    ids, queue, out = {}, [], []
    def ref(v):
        if v.kind in ("undefined", "null"): return [v.kind]
        if v.kind == "boolean": return ["boolean", v.v]
        if v.kind == "number": return ["number", dbl(v.v)]
        if v.kind == "bigint": return ["bigint", str(v.v)]
        if v.kind == "string": return ["string", st(v.v)]
        if id(v) not in ids:
            ids[id(v)] = len(ids); queue.append(v)
        return ["ref", ids[id(v)]]
    def props(v):
        ks = sorted(k for k in v.props if isinstance(k, int)) + [k for k in v.props if isinstance(k, str)]
        return [[st(str(k)), ref(v.props[k])] for k in ks]
    def one(v):
        k = v.kind
        if k == "wrapper": return [k, ref(v.p)]
        if k == "array": return [k, v.length, props(v)]
        if k == "date": return [k, dbl(v.ms)]
        if k == "regexp": return [k, st(v.src), v.flags]
        if k == "map": return [k, [[ref(a), ref(b)] for a, b in v.entries]]
        if k == "set": return [k, [ref(a) for a in v.values]]
        if k == "error": return [k, v.name, None if v.message is None else ref(V.JS("string", v=v.message)),
                                 None if v.cause is None else ref(v.cause)]
        if k == "arraybuffer": return [k, v.data.hex(), v.max]
        if k == "view": return [k, v.t, v.off, v.len, ref(v.buf)]
        return ["object", props(v)]
    r = ref(root)
    while queue: out.append(one(queue.pop(0)))
    return [r, out]

def canon(d):
    d = json.loads(json.dumps(d))
    def walk(x):
        if isinstance(x, list):
            if x[:1] == ["view"]:
                x = x[:3] + ["?"] + x[4:]
            return [walk(y) for y in x]
        return x
    return walk(d)

def main(n, seed):
    p = subprocess.Popen(["node", "--enable-experimental-regexp-engine", os.path.join(os.path.dirname(__file__), "golden.js")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    def node(b):
        p.stdin.write("x " + base64.b64encode(b).decode() + "\n"); p.stdin.flush()
        return json.loads(p.stdout.readline())
    bad = 0
    stats = {}
    def note(k): stats[k] = stats.get(k, 0) + 1
    for i in range(n):
        r = random.Random(f"{seed}/{i}")
        g = G.Graph(G.gen_graph(r, comps=COMPS, leaf_kinds=LEAVES)); g.build()
        for nd in g.nodes:  # valid regexps for V8 to compile
            if nd[0] == "re":
                nd[1] = "a"
                nd[2] = nd[2] & 0b10111111 if nd[2] & 256 == 0 else (nd[2] & 0b110101111)
            if nd[0] == "obj": pass
            if nd[0] in ("arr", "sparr"): nd[-1] = [e for e in nd[-1] if e[0] != "length"]
        g.build()
        src = r.choice(["writer", "writer", "lib"])
        if src == "writer":
            rel = V.RELEASES[r.choice(list(V.RELEASES))]
            try: data = V.Writer(g, rel, r, node_views=r.random() < .3).write()
            except Exception as e: note("writer exc " + repr(e)[:80]); continue
        else:
            try: data = dumps(g.build(), v8_version="12.4")
            except Exception as e: note("lib refused " + type(e).__name__); continue
        if r.random() < .5:
            b = bytearray(data)
            for _ in range(r.choice([1, 1, 2, 5])):
                if not b: break
                j = r.randrange(len(b))
                op = r.randrange(4)
                if op == 0: b[j] = r.randrange(256)
                elif op == 1: del b[j]
                elif op == 2: b.insert(j, r.choice(b))
                else: b[j] = r.choice(b"VZ^\"cSIUNoaA;'r{@$:,-_0TFDRB~ms.")
            data = bytes(b); src += "+damaged"
        ans = node(data)
        if b'\\' in data and src[-7:] != 'damaged': note('skipped host objects'); continue
        try: mine = canon(describe(NodeReader(data, NODE).read()))
        except V.V8Error as e: mine = "ERR " + str(e)
        except RecursionError: continue
        theirs = "ERR " + ans["err"] if "err" in ans else canon(ans["d"])
        a, b2 = isinstance(mine, str), isinstance(theirs, str)
        if a and b2:
            note(src + " both refuse")
            if "damaged" not in src: note("   " + src + ": " + re.sub(r"\d+", "#", mine) + " / " + theirs)
            continue
        if mine == theirs:
            note(src + " agree")
            if ans.get("re"):
                rd = base64.b64decode(ans["re"])
                try: m2 = canon(describe(NodeReader(rd, NODE).read()))
                except V.V8Error as e: m2 = "ERR " + str(e)
                if m2 == "ERR": pass
                note("re-serialized " + ("agree" if json.dumps(m2).count("view") or m2 == mine else "differ"))
            continue
        note(src + (" node-only-accepts" if a else " mine-only-accepts" if b2 else " differ"))
        bad += 1
        if bad <= int(os.environ.get("SHOW", "6")):
            print("----", i, src, data[:200])
            if isinstance(mine, str) or isinstance(theirs, str): print(str(mine)[:500]); print(str(theirs)[:500])
            else:
                for x, y in zip(mine[1], theirs[1]):
                    if x != y: print(" mine  ", str(x)[:300]); print(" theirs", str(y)[:300])
    print(json.dumps(stats,indent=1))

main(int(sys.argv[1]), sys.argv[2] if len(sys.argv) > 2 else "1")
