# Toolchain and offline switches (same as the build of securego/gosec).
export HOME=/root LANG="${LANG:-C.UTF-8}"
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off GONOSUMDB=* GOFLAGS
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
export CGO_ENABLED=1 TZ=UTC
unset GOSECGOVERSION GOSEC_AI_API_KEY 2>/dev/null || true
