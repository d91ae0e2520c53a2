module github.com/nats-io/nats.go

go 1.16
