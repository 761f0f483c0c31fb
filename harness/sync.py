#!/usr/bin/env python3
"""Mirror /repo's crate into build/ws so that it resolves offline.

The sources are /repo's, byte for byte, on every run. What differs from /repo:
- Cargo.toml/Cargo.lock: openworkers-core (a git dependency that cannot be fetched)
  points at harness/core, a stand-in for its types; [workspace] is dropped.
- src/icudtl.dat: a placeholder (the real file is not in the repository); the host
  V8 carries its own ICU data.
Only files whose content changes are written, so that cargo rebuilds incrementally."""
import os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))


def main(repo, out, jitter=False):
    files = {}
    for top in ("src", "gc-derive", "tests", "examples"):
        for base, dirs, names in os.walk(os.path.join(repo, top)):
            dirs[:] = [d for d in dirs if d != "target"]
            for n in names:
                p = os.path.join(base, n)
                with open(p, "rb") as f:
                    files[os.path.relpath(p, repo)] = f.read()
    files.setdefault("src/icudtl.dat", b"\x20\x00\xda\x27placeholder")
    with open(os.path.join(repo, "build.rs"), "rb") as f:
        files["build.rs"] = f.read()
    toml = open(os.path.join(repo, "Cargo.toml")).read()
    core = os.path.join(HERE, "core")
    toml = re.sub(r"^openworkers-core *=.*$", f'openworkers-core = {{ path = "{core}" }}', toml, flags=re.M)
    toml = re.sub(r"^\[workspace\]\nmembers = .*\n", "", toml, flags=re.M)
    toml = re.sub(r"^\[dev-dependencies\]\n(?:.+\n)*", "", toml, flags=re.M)
    files["Cargo.toml"] = toml.encode()
    if jitter:  # delays around every atomic access and lock (see jitter/__jsync.rs)
        for rel in [r for r in files if r.startswith("src/") and r.endswith(".rs")]:
            files[rel] = re.sub(rb"(?<![:\w])(?:::)?std::sync::", b"crate::__jsync::", files[rel])
        files["src/lib.rs"] += b"\n#[doc(hidden)]\npub mod __jsync;\n"
        with open(os.path.join(HERE, "jitter", "__jsync.rs"), "rb") as f:
            files["src/__jsync.rs"] = f.read()
    for base, _, names in os.walk(out):
        for n in names:
            p = os.path.join(base, n)
            if os.path.relpath(p, out) not in files:
                os.remove(p)
    for rel, data in files.items():
        p = os.path.join(out, rel)
        try:
            with open(p, "rb") as f:
                if f.read() == data:
                    continue
        except FileNotFoundError:
            os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], len(sys.argv) > 3)
