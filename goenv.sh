# The environment in which the checks build, sourced by them.
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
unset GOROOT GOOS GOARCH
umask 022
export GO111MODULE=off GOENV=off GOFLAGS= GOWORK=off GOPROXY=off GOTELEMETRY=off GOTOOLCHAIN=local
export HOME=${HOME:-/root}
export GOCACHE=${GOCACHE:-$HOME/.cache/go-build}
