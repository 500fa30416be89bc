#!/bin/bash
# mkseed.sh ID PKG  -- from the scratch copy /tmp/seedrepo (edited), stores patch.diff and demo.sh for seeded/ID.
# The demo test source is read from stdin (package file in PKG).
set -e
id=$1; pkg=$2; d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/seedrepo diff > $d/patch.diff
cat > $d/demo.go.txt
cat > $d/demo.sh <<X
#!/bin/bash
here=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
cp "\$here/demo.go.txt" "\$t/demo_test.go"
echo '{"Replace":{"'"\$PWD/$pkg/zz_demo_test.go"'":"'"\$t/demo_test.go"'"}}' > "\$t/overlay.json"
go test -vet=off -count=1 -overlay "\$t/overlay.json" -run 'TestZZDemo' ./$pkg
X
chmod +x $d/demo.sh
