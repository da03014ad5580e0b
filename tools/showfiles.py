"""Print the file tree of a replay file."""
import json, sys
d = json.load(open(sys.argv[1]))
s = d["scenario"]
for k, v in s.get("files", {}).items():
    print("-----", k)
    print(v)
print({k: v for k, v in s.items() if k != "files"})
