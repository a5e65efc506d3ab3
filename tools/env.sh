export HOME="${HOME:-/root}" PATH="/usr/local/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
export GOPATH="${GOPATH:-$HOME/go}"
unset GOOS GOARCH
