module verif

go 1.23

require (
	github.com/go-sql-driver/mysql v1.6.0
	github.com/kuznetsovin/egts-protocol v0.0.0
	github.com/sirupsen/logrus v1.8.1
	pgregory.net/rapid v1.3.0
)

require (
	github.com/cespare/xxhash/v2 v2.1.2 // indirect
	github.com/dgryski/go-rendezvous v0.0.0-20200823014737-9f7001d12a5f // indirect
	github.com/go-redis/redis/v8 v8.11.5 // indirect
	github.com/golang/protobuf v1.5.2 // indirect
	github.com/klauspost/compress v1.16.7 // indirect
	github.com/lib/pq v1.1.1 // indirect
	github.com/nats-io/nats.go v1.28.0 // indirect
	github.com/nats-io/nkeys v0.4.4 // indirect
	github.com/nats-io/nuid v1.0.1 // indirect
	github.com/streadway/amqp v0.0.0-20190404075320-75d898a42a94 // indirect
	github.com/tarantool/go-tarantool v0.0.0-20190330192518-aaa93c4bdc35 // indirect
	golang.org/x/crypto v0.12.0 // indirect
	golang.org/x/sys v0.11.0 // indirect
	google.golang.org/protobuf v1.26.0 // indirect
	gopkg.in/vmihailenco/msgpack.v2 v2.9.1 // indirect
	gopkg.in/yaml.v2 v2.4.0 // indirect
)

replace github.com/kuznetsovin/egts-protocol => /repo
