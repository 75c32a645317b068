# Common environment of setup.sh and check.sh: offline Go, fixed toolchain.
export HOME="${HOME:-/root}"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
export GTFSVERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export GTFSVERIF_REPO="${GTFSVERIF_REPO:-/repo}"
