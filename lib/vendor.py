"""Mirror a cargo vendor directory with symlinks, dropping checksum entries of absent files."""
import json, os, shutil, sys

src, dst = sys.argv[1], sys.argv[2]
dst = os.path.abspath(dst)
if os.path.isdir(dst):
    shutil.rmtree(dst)
os.makedirs(dst)
for crate in sorted(os.listdir(src)):
    s, d = os.path.join(src, crate), os.path.join(dst, crate)
    if not os.path.isdir(s):
        continue
    os.mkdir(d)
    for e in os.listdir(s):
        if e != ".cargo-checksum.json":
            os.symlink(os.path.join(s, e), os.path.join(d, e))
    with open(os.path.join(s, ".cargo-checksum.json")) as f:
        c = json.load(f)
    c["files"] = {k: v for k, v in c["files"].items() if os.path.exists(os.path.join(s, k))}
    with open(os.path.join(d, ".cargo-checksum.json"), "w") as f:
        json.dump(c, f)
