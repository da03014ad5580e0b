"""Write the file tree of a replay file to a real directory: tools/extract.py REPLAY DIR."""
import json, os, sys
d = json.load(open(sys.argv[1]))["scenario"]
for k, v in d.get("files", {}).items():
    p = os.path.join(sys.argv[2], k)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "wb").write(v.encode("utf-8", "surrogateescape") if isinstance(v, str) else bytes(v))
print({k: v for k, v in d.items() if k != "files"})
