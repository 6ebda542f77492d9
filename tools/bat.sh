#!/bin/bash
# usage: bat.sh TESTREGEX [pkg]  -- run the battery tests on /repo's working tree
R=${REPO:-/repo}
G=/tmp/batgo; L=$G/src/github.com/johnnadratowski/golang-neo4j-bolt-driver
mkdir -p $(dirname $L); ln -sfn $R $L
python3 - "$R" "$L" > /tmp/batov.json <<'P'
import os,sys,json
R,L=sys.argv[1:]
rep={}
for d,_,fs in os.walk('/verif/battery'):
    for f in fs:
        if f.endswith('_test.go'):
            rel=os.path.relpath(os.path.join(d,f),'/verif/battery')
            if rel.startswith('bolt/'): rel=rel[5:]
            rep[R+'/'+rel]=rep[L+'/'+rel]=os.path.join(d,f)
print(json.dumps({"Replace":rep}))
P
cd $L && env GOPATH=$G GOCACHE=/verif/.build/gocache GO111MODULE=off GOENV=off GOFLAGS= PWD=$L go test -vet=off -overlay /tmp/batov.json -count=1 -v -timeout 300s -run "$1" ./${2:-.}
