#!/bin/bash
# gen.sh BIN OUT FROM TO RATE [KINDS]: random behaviour-preserving variants of /repo as patches in OUT
# (those that compile and pass the tests in both builds); BIN: refmut built
export GOFLAGS=-mod=mod GOPROXY=off
mkdir -p $2
one() {
  w=$(mktemp -d); git clone -q /repo $w/r
  tags=""; [ $(($3 % 3)) = 0 ] && tags=forcegeneric
  s=$($1 -dir $w/r -tags "$tags" -seed $3 -rate $4 -only "$5" 2>&1)
  cd $w/r; gofmt -w *.go edwards25519/*.go 2>$w/err || { echo "$3 fmt $(head -3 $w/err)"; cp -r $w/r $2/bad$3; }
  if go test ./... >$w/err 2>&1 && go test -tags forcegeneric ./... >$w/err 2>&1; then git diff > $2/r$3.diff; echo "$3 $s"; else echo "$3 FAILS"; head -5 $w/err; git diff > $2/fail$3.txt; fi
  rm -rf $w
}
export -f one
seq $3 $4 | xargs -P 6 -I{} bash -c "one $1 $2 {} $5 $6"
