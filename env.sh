# Offline go environment: the analyzer is built with go 1.27, /repo is loaded with the toolchain it builds with.
export HOME=/root LANG=C.UTF-8
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=1 GOWORK=off
export GOPATH=/root/go GOCACHE=/root/.cache/go-build
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
