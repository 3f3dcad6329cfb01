// The rest of this driver is harness/shut/cmd/ekgdrv/main.go, copied here (with the tree's epochkg
// package) when it is built.
package main

import "math/big"

var order, _ = new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)
