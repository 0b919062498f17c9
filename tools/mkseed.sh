#!/bin/bash
# tools/mkseed.sh ID PROPERTY PKG "needs" "breaks": takes the diff in ${R:-/repo}'s working tree as patch, undoes it; demo_test.go must exist in seeded/ID.
S=/verif/seeded/$1; mkdir -p $S
git -C ${R:-/repo} diff > $S/patch.diff; git -C ${R:-/repo} checkout -q -- .
[ -s $S/patch.diff ] || { echo empty patch; exit 1; }
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[4],"what_it_breaks":sys.argv[5]},open(f'/verif/seeded/{sys.argv[1]}/meta.json','w'),indent=1)
P
cat > $S/demo.sh <<D
#!/bin/bash
# Fails with the planted change, passes without it. Run in the repository's root.
here="\$(cd "\$(dirname "\$0")" && pwd)"
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
o=\$(mktemp -d); trap 'rm -rf "\$o"' EXIT
echo "{\"Replace\": {\"\$PWD/$3/zz_seed_test.go\": \"\$here/demo_test.go\"}}" > "\$o/overlay.json"
go test -vet=off -overlay "\$o/overlay.json" -count=1 -timeout 120s -run '^TestSeed' ./$3
D
chmod +x $S/demo.sh
