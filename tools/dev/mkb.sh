. /tmp/w/env.sh; cd /tmp/w/r && python3 /tmp/w/bindata.py /tmp/w/r; go build -ldflags '-X main.version=v -X main.date=2020-01-01T00:00:00Z' -o /tmp/w/baron ./cmd/baron
