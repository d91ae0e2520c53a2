# a project with the libraries generated code needs, stood in for by the ones
# in stubs.tgz
. "$(dirname "$0")/lib.sh"
tar xzf "$HERE/stubs.tgz" -C $S
cat > go.mod <<G
module example.com/p

go 1.26.0

require (
	github.com/go-kit/kit v0.12.0
	github.com/gorilla/mux v1.8.0
	github.com/nats-io/nats.go v1.13.0
	github.com/pkg/errors v0.9.1
	google.golang.org/genproto v0.0.0-20210602131652-f16073e35f0c
	google.golang.org/grpc v1.38.0
	google.golang.org/protobuf v1.26.0
	github.com/golang/protobuf v1.5.2 // indirect
	golang.org/x/net v0.6.0 // indirect
	golang.org/x/sys v0.49.0 // indirect
	golang.org/x/text v0.43.0 // indirect
)

replace github.com/go-kit/kit => $S/stubs/kit
replace github.com/gorilla/mux => $S/stubs/mux
replace github.com/nats-io/nats.go => $S/stubs/nats
replace golang.org/x/net => golang.org/x/net v0.61.0
replace golang.org/x/sys => golang.org/x/sys v0.49.0
replace golang.org/x/text => golang.org/x/text v0.8.0
replace golang.org/x/term => golang.org/x/term v0.6.0
replace golang.org/x/crypto => golang.org/x/crypto v0.0.0-20210921155107-089bfa567519
G
export GOSUMDB=off GONOSUMDB='*' GOFLAGS=-mod=mod
# run MAIN.go: compiles and runs a program in the project
run() { mkdir -p x; cp "$1" x/main.go; go run ./x > $S/out 2>&1; }
