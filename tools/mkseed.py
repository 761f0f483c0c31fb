#!/usr/bin/env python3
"""mkseed.py ID [--features F]: give seeded/ID its own copy of the demonstration host
(beside demo.rs, which is written by hand): kit/, demo.sh."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K, H = f"{V}/tools/seedkit", f"{V}/harness"
D = f"{V}/seeded/{sys.argv[1]}"
feat = f"--features {sys.argv[3]}" if len(sys.argv) > 3 else ""
shutil.rmtree(f"{D}/kit", ignore_errors=True)
os.makedirs(f"{D}/kit/host/src"); os.makedirs(f"{D}/kit/shim")
for n in ("shim.cc", "shim_support.h"): shutil.copy(f"{H}/shim/{n}", f"{D}/kit/shim/{n}")
shutil.copytree(f"{H}/core", f"{D}/kit/core", ignore=shutil.ignore_patterns("target"))
shutil.copy(f"{H}/sync.py", f"{D}/kit/sync.py")
toml = open(f"{K}/Cargo.toml").read()
if feat: toml = toml.replace("[profile.dev]", '[features]\nmultiplexing = ["openworkers-runtime-v8/multiplexing"]\n\n[profile.dev]')
open(f"{D}/kit/host/Cargo.toml", "w").write(toml)
shutil.copy(f"{H}/host/Cargo.lock", f"{D}/kit/host/Cargo.lock")
shutil.copy(f"{H}/host/src/kit.rs", f"{D}/kit/host/src/kit.rs")
shutil.copy(f"{K}/lib.rs", f"{D}/kit/host/src/lib.rs")
open(f"{D}/demo.sh", "w").write(open(f"{K}/demo.sh").read().replace("@FEATURES@", feat))
os.chmod(f"{D}/demo.sh", 0o755)
