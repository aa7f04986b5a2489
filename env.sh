# toolchain used by the analyser (offline)
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do
	[ -x "$d/go" ] && PATH="$d:$PATH" && break
done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off CGO_ENABLED=0
