# Go toolchain settings of this repository (see /opt/vp/build.sh)
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export GOROOT= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build} GOFLAGS="-mod=mod -buildvcs=false"
