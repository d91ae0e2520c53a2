module github.com/go-kit/kit

go 1.16

require (
	github.com/nats-io/nats.go v1.13.0
	google.golang.org/grpc v1.38.0
)
