#!/bin/bash
# check.sh ID            search for a violation of property ID (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE   run a reported violation again
# check.sh build         only build the supervisor and the simulated programs once
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd) || exit 3
goroot=/opt/veriftools/go1.27.3
export HOME="${HOME:-/root}"
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "${tmp:?}"' EXIT
build() {
	cd "$here/sim" && env -u GOROOT -u GOOS -u GOARCH -u GOEXPERIMENT \
		PATH="$goroot/bin:/usr/local/bin:/usr/bin:/bin" GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOTOOLCHAIN=local \
		GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor CGO_ENABLED=0 \
		go build -trimpath -buildvcs=false -o "$tmp/vsim" .
}
build || exit 3
export VERIF_DIR="$here"
case "$1" in
replay) file=$(readlink -f "$2"); cd "$here"; "$tmp/vsim" replay "$file" ;;
build) cd "$here"; "$tmp/vsim" warm ;;
*) cd "$here"; "$tmp/vsim" check "$1" ;;
esac
