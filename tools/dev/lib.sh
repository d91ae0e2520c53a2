# common to the demonstrations: a scratch project and the tool built from the
# current directory
set -u
. /opt/vp/env.sh >/dev/null 2>&1
REPO=$PWD
HERE=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'chmod -R u+w "$S"; rm -rf "$S"' EXIT
mkdir -p $S/gopath/src/github.com/teamlint $S/p/api
ln -s $REPO $S/gopath/src/github.com/teamlint/baron
export GOPATH=$S/gopath GOWORK=off
go build -ldflags "-X main.version=v0 -X main.date=d" -o $S/baron ./cmd/baron || exit 99
cd $S/p
printf 'module example.com/p\n\ngo 1.20\n' > go.mod
baron() { "$S/baron" "$@" >$S/log 2>&1; }
fail() { echo "DEMO FAILS: $*"; exit 1; }
