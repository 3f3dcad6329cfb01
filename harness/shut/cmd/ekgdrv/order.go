package main

import bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"

var order = bn256.Order
