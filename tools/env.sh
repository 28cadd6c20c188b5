# Go environment of the checks: same as the one of /opt/vp/build.sh
export HOME=/root
export GOROOT=/opt/veriftools/go1.27.3
export PATH=$GOROOT/bin:$PATH
export GOCACHE=${VERIF_GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off
