"""Reference summaries: /verif/spec/<function>.json"""
import hashlib, json, os, re, zlib, base64
from val import *
from canon import Enc, decode

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")


def fname(key):
    s = re.sub(r"[^A-Za-z0-9_]+", "_", key).strip("_")
    return s + "_" + hashlib.sha1(key.encode()).hexdigest()[:6] + ".json"


def save(key, s):
    e = Enc()
    d = {"key": key, "ret": e.put(s.ret), "returns": e.put(s.returns),
         "state": {k: [e.put(v[0]), e.put(v[1])] if isinstance(v, tuple) else e.put(v) for k, v in sorted(s.state.items())},
         "effects": [[e.put(k), e.put(g)] for k, g in s.effects]}
    d["nodes"] = e.nodes
    os.makedirs(SPEC, exist_ok=True)
    body = json.dumps(d, separators=(",", ":"), ensure_ascii=False)
    p = os.path.join(SPEC, fname(key))
    with open(p, "w") as f:
        f.write(body.replace('],["', '],\n["') + "\n")


def load(key):
    p = os.path.join(SPEC, fname(key))
    if not os.path.exists(p):
        return None
    d = json.load(open(p))
    ns = decode(d["nodes"])
    g = lambda x: ns[x["r"]]
    return {"ret": g(d["ret"]), "returns": g(d["returns"]),
            "state": {k: (g(v[0]), g(v[1])) if isinstance(v, list) else g(v) for k, v in d["state"].items()},
            "effects": [(g(a), g(b)) for a, b in d["effects"]]}
