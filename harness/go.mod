module verif/harness

go 1.27

require (
	github.com/dropmorepackets/haproxy-go v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/dropmorepackets/haproxy-go => /repo
