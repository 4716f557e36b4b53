# Sourced by setup.sh and check.sh.
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
build_govc() {
	(cd "$VERIF/govc" && GOFLAGS=-mod=vendor go build -o "$VERIF/bin/govc" .)
}
