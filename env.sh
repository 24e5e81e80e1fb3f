# Environment for every go command of the framework: offline.
export LANG=C.UTF-8
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin:$PATH
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
export GOFLAGS="-trimpath -buildvcs=false"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOROOT
