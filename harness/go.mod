module verifharness

go 1.26.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/cespare/xxhash v1.1.0
	github.com/hashicorp/hcl v1.0.0
	github.com/redmaner/MaguroHTTP v0.0.0
	golang.org/x/crypto v0.0.0-20200707235045-ab33eee955e0
	golang.org/x/time v0.0.0-20200630173020-3af7569d3a1e
)

require (
	golang.org/x/net v0.0.0-20190404232315-eb5bcb51f2a3 // indirect
	golang.org/x/text v0.3.0 // indirect
)

replace github.com/redmaner/MaguroHTTP => /repo
