#!/bin/bash
# newseed.sh ID PROPERTY NEEDS BREAKS: the current diff of /repo becomes seeded/ID (main.rs is read from stdin), then /repo is restored
s=/verif/seeded/$1; mkdir -p $s/src; cp /verif/tools/demo/{demo.sh,Cargo.toml,Cargo.lock} $s/; cp /verif/tools/demo/src/util.rs $s/src/
git -C /repo diff > $s/patch.diff; git -C /repo checkout -q -- .; cat > $s/src/main.rs
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
