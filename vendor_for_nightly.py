"""vendor_for_nightly.py OUT LOCK STD_LIBRARY: a cargo directory source of symlinks to the registry's unpacked crates."""
import sys, os, json, re, subprocess, glob
out, lock, std = sys.argv[1:]
src = glob.glob(os.path.expanduser("~/.cargo/registry/src/*"))
os.makedirs(out, exist_ok=True)
missing = []
for l in (lock, std + "/Cargo.lock"):
    for b in open(l).read().split("[[package]]")[1:]:
        g = lambda k: (re.search(rf'^{k} = "(.*)"', b, re.M) or [None, None])[1]
        if not g("checksum"):
            continue
        n = f"{g('name')}-{g('version')}"
        d = f"{out}/{n}"
        if os.path.exists(d):
            continue
        found = [x for x in [f"{s}/{n}" for s in src] + [f"{std}/vendor/{n}"] if os.path.isdir(x)]
        if not found:
            missing.append(n)
            continue
        subprocess.check_call(["cp", "-rs", found[0], d])
        f = d + "/.cargo-checksum.json"
        if os.path.lexists(f):
            os.remove(f)
        json.dump({"files": {}, "package": g("checksum")}, open(f, "w"))
print(len(os.listdir(out)), "packages; missing:", missing)
