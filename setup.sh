#!/bin/bash
# builds the extractor and the harness dependencies from the committed files, offline
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys
sys.argv = ["check.py"]
sys.path.insert(0, ".")
import check
with check.Lock():
    exe, out = check.build_extractor()
    if exe is None:
        print(out); sys.exit(1)
    check.setup_rac()
    rc, o = check.sh([exe, "widen", check.REPO, f"{check.B}/crate"], 120)
    if rc:
        print(o); sys.exit(1)
    rc, o = check.sh(["cargo", "build", "--offline", "--locked", "--keep-going", "--target-dir", f"{check.B}/target", "--bins"], 1500, cwd=f"{check.B}/rac", env=check.ENV)
    print("\n".join(l for l in o.split("\n") if l.startswith("error"))[:2000])
P
