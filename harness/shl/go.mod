module verif/shl

go 1.21

require (
	github.com/ethereum/go-ethereum v1.13.4
	github.com/google/go-cmp v0.6.0
	github.com/pkg/errors v0.9.1
	github.com/supranational/blst v0.3.12
	golang.org/x/crypto v0.14.0
	gotest.tools v2.2.0+incompatible
	gotest.tools/v3 v3.5.1
)

require (
	github.com/btcsuite/btcd v0.22.0-beta // indirect
	github.com/btcsuite/btcd/btcec/v2 v2.3.2 // indirect
	github.com/decred/dcrd/dcrec/secp256k1/v4 v4.2.0 // indirect
	github.com/holiman/uint256 v1.2.3 // indirect
	golang.org/x/sys v0.14.0 // indirect
)

require github.com/shutter-network/shutter/shlib v0.0.0

replace github.com/shutter-network/shutter/shlib => /repo/shlib
