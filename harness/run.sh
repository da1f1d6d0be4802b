#!/bin/bash
# usage: run.sh FAM ID BUDGET  (development)
. /opt/vp/env.sh
d=$(mktemp -d)
sed s/FAM/$1/g /verif/harness/common.go.in > $d/c_test.go
cp /verif/harness/$1.go.in $d/f_test.go
echo "{\"Replace\":{\"/repo/$1/zz_verif_common_test.go\":\"$d/c_test.go\",\"/repo/$1/zz_verif_fam_test.go\":\"$d/f_test.go\"}}" > $d/o.json
cd ${REPO:-/repo}
VERIF_ID=$2 VERIF_BUDGET=${3:-3} VERIF_SEED=${SEED:-1} VERIF_OUT=$d/out.json go test -vet=off -overlay $d/o.json -count=1 -run '^TestVerif$' ./$1 2>&1 | head -40
cat $d/out.json 2>/dev/null | head -c 600
echo
/bin/rm -rf $d
