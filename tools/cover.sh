#!/bin/bash
# usage: tools/cover.sh OUTDIR [ids...]   statement coverage of /repo by the quick tier of each check (a development aid)
V=$(cd "$(dirname "$0")/.." && pwd); O=$1; shift
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' GOPATH=/root/go TZ=UTC
mkdir -p "$O/h" "$O/instr" "$O/tmp"
cp "$V"/harness/* "$O/h/"
mkdir -p "$O/repo/verifrt/vsync"; cp /repo/*.go /repo/go.* "$O/repo/"; cp "$V"/rt/verifrt/*.go "$O/repo/verifrt/"; cp "$V"/rt/vsync/*.go "$O/repo/verifrt/vsync/"
sed -i "s#=> /repo#=> $O/repo#" "$O/h/go.mod"
(cd "$O/h" && go build -cover -coverpkg=github.com/suiyunonghen/dxsvalue,dxverif -o "$O/bin" .) || exit 2
for id in ${*:-$(cat "$V/tools/implemented.txt")}; do
  rm -rf "$O/c.$id"; mkdir "$O/c.$id"
  GOCOVERDIR="$O/c.$id" VERIF_BUILD_MODE=plain TMPDIR="$O/tmp" "$O/bin" parent $id quick "$O/ev" | tail -1
  go tool covdata textfmt -i="$O/c.$id" -o="$O/$id.txt" 2>/dev/null
done
