#!/bin/bash
# checkseed.sh <id> [notests]: validates one planted bug in a scratch copy of /repo.
set -u
d=/verif/seeded/$1
s=/tmp/seedrepo_$1
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
cp -a /repo $s || exit 2
cd $s
res=ok
bash $d/demo.sh >/tmp/seed_$1.clean 2>&1 || { echo "$1: demo fails on the clean tree"; tail -5 /tmp/seed_$1.clean; res=bad; }
git apply $d/patch.diff || { echo "$1: patch does not apply"; res=bad; }
go build ./... && go build -tags=purego ./... || { echo "$1: does not build"; res=bad; }
if bash $d/demo.sh >/tmp/seed_$1.bug 2>&1; then echo "$1: demo passes with the bug"; res=bad; fi
if [ "${2:-}" != notests ]; then
	P=$(go list -e ./... | grep -v '/math/csprng$')
	T="go test -vet=off -count=1 -timeout 4m"
	$T $P >/tmp/seed_$1.t1 2>&1 || { echo "$1: tests fail"; grep -m5 -- '--- FAIL' /tmp/seed_$1.t1; res=bad; }
	$T -tags=purego $P >/tmp/seed_$1.t2 2>&1 || { echo "$1: purego tests fail"; grep -m5 -- '--- FAIL' /tmp/seed_$1.t2; res=bad; }
	GODEBUG=cpu.all=off $T $P >/tmp/seed_$1.t3 2>&1 || { echo "$1: cpuoff tests fail"; grep -m5 -- '--- FAIL' /tmp/seed_$1.t3; res=bad; }
fi
echo "$1: $res"
cd /tmp; rm -rf "/tmp/seedrepo_$1"
