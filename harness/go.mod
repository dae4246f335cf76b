module mcverif

go 1.24

require (
	github.com/boltdb/bolt v1.3.1
	github.com/go-redis/redis/v8 v8.8.2
	github.com/google/uuid v1.2.0
	github.com/powerpuffpenguin/sessionid v0.0.0
)

require (
	github.com/cespare/xxhash/v2 v2.1.1 // indirect
	github.com/dgryski/go-rendezvous v0.0.0-20200823014737-9f7001d12a5f // indirect
	go.opentelemetry.io/otel v0.19.0 // indirect
	go.opentelemetry.io/otel/metric v0.19.0 // indirect
	go.opentelemetry.io/otel/trace v0.19.0 // indirect
)

replace github.com/powerpuffpenguin/sessionid => /repo
