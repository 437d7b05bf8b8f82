"""Files of the repository whose content differs from the last build get a fresh mtime in the build's eyes.

ninja decides by mtime; a file restored from elsewhere with an old mtime would be missed.  The sums of the last
build are recorded; a file whose content differs from its sum, and whose mtime is older than the record, is touched
(its content is left alone)."""
import hashlib, json, os, sys
rec = sys.argv[1] == "--record"
args = [a for a in sys.argv[1:] if a != "--record"]
repo, path = args
skip = {".git", "_build", "build", "__pycache__", "node_modules", ".venv"}
sums = {}
for d, ds, fs in os.walk(repo):
    ds[:] = [x for x in ds if x not in skip and not os.path.islink(os.path.join(d, x))]
    for f in fs:
        if f.endswith((".h", ".hpp", ".cpp", ".c", ".cc", ".txt", ".cmake", ".in", ".pyi", ".cl", ".inl", ".ipp")):
            p = os.path.join(d, f)
            try:
                sums[os.path.relpath(p, repo)] = hashlib.blake2b(open(p, "rb").read(), digest_size=12).hexdigest()
            except OSError:
                pass
if rec:
    json.dump(sums, open(path + ".tmp", "w")); os.rename(path + ".tmp", path)
elif os.path.exists(path):
    old = json.load(open(path)); t = os.stat(path).st_mtime
    for k, v in sums.items():
        p = os.path.join(repo, k)
        if old.get(k) != v and os.stat(p).st_mtime <= t:
            os.utime(p)
