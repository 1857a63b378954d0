module verif/harness

go 1.26

require (
	github.com/goburrow/serial v0.1.0
	github.com/things-go/go-modbus v0.0.0
)

replace github.com/things-go/go-modbus => /repo
