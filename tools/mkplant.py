#!/usr/bin/env python3
"""Helper to write seeded/<id> from a description file: python dict with id, property, needs, breaks, edits, demo."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# compiles demo.cpp against the built library and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++11 -g -O1 -march=x86-64-v2 -maes -mpclmul -fno-rtti -w -DENABLE_MEMORY_LOCK -include cstdint -include stdexcept -include array \\
    -I"$PWD/src/include" -I"$PWD/src" -I"$PWD/src/include/sse/crypto" "$here/demo.cpp" -rdynamic -L"$PWD/_build" -lsse_crypto -lsodium -lgmp -lpthread -ldl \\
    -Wl,-rpath,"$PWD/_build" -o "$t/demo" || exit 0
cd "$t" && timeout 200 ./demo
'''
W = "/tmp/pl"
R = W + "/repo"
d = {}
exec(open(sys.argv[1]).read(), d)
for p in d["PLANTS"]:
    out = os.path.join(HERE, "seeded", p["id"])
    os.makedirs(out, exist_ok=True)
    if not os.path.exists(R):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", R])
    subprocess.check_call("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (R, R), shell=True)
    for f, old, new in p["edits"]:
        s = open(os.path.join(R, f)).read()
        assert s.count(old) == 1, (p["id"], f, s.count(old), old)
        open(os.path.join(R, f), "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", R, "diff"], text=True)
    open(out + "/patch.diff", "w").write(diff)
    subprocess.check_call("git -C %s checkout -q -f ." % R, shell=True)
    open(out + "/demo.sh", "w").write(DEMO)
    open(out + "/demo.cpp", "w").write(p["demo"].replace("int main() {", "#include <sse/crypto/utils.hpp>\nint main() {\n    sse::crypto::init_crypto_lib();").lstrip())
    json.dump(dict(property=p["property"], needs=p["needs"], what_it_breaks=p["breaks"]), open(out + "/meta.json", "w"), indent=1)
    print("wrote", out)
