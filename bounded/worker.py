import json, sys
from .pipe import generate

cases = json.load(sys.stdin)
rev = sys.argv[1] == "1"
order = list(range(len(cases)))
out = {}
for i in reversed(order) if rev else order:
    out[i] = generate(cases[i])
    if not rev:
        again = generate(cases[i])
        assert again == out[i], "two generations in one process differ"
json.dump([out[i] for i in order], sys.stdout)
