. /opt/vp/env.sh
export GOPATH=/tmp/w/gopath
mkdir -p $GOPATH/src/github.com/teamlint; ln -sfn /repo $GOPATH/src/github.com/teamlint/baron
