# Offline Go in GOPATH mode: the library from /repo, the harness from /verif/go.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOENV=off GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GO111MODULE=off GOPROXY=off GOFLAGS= GOWORK=off
HERE="${HERE:-/verif}"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export GOPATH="$VERIF_REPO/lib/go:$HERE/go"
export GOCACHE="${VERIF_GOCACHE:-$HERE/.build/gocache}"
mkdir -p "$GOCACHE"
