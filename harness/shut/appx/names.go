// Package appx holds the shared abstraction layer of the harness: the mapping between
// concrete values (addresses, keys, curve points, 64-bit numbers, byte strings) and the names
// and small numbers that the TLA+ specifications talk about.
package appx

import (
	"crypto/ecdsa"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
)

// M is a JSON object.
type M = map[string]interface{}

const NumKeys = 12

var (
	Keys   []*ecdsa.PrivateKey // Keys[i] belongs to the name k(i+1)
	Addrs  []common.Address
	nameOf = map[common.Address]string{}
	EncKey []*ecies.PrivateKey
)

func init() {
	for i := 0; i < NumKeys; i++ {
		k, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprintf("verif-key-%d", i))))
		if err != nil {
			panic(err)
		}
		Keys = append(Keys, k)
		a := crypto.PubkeyToAddress(k.PublicKey)
		Addrs = append(Addrs, a)
		nameOf[a] = fmt.Sprintf("k%d", i+1)
		e, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprintf("verif-enc-%d", i))))
		if err != nil {
			panic(err)
		}
		EncKey = append(EncKey, ecies.ImportECDSA(e))
	}
	nameOf[common.Address{}] = "zero"
}

// AddrName names an address.
func AddrName(a common.Address) string {
	if n, ok := nameOf[a]; ok {
		return n
	}
	return "x" + hex.EncodeToString(a[:])
}

// Addr is the inverse of AddrName.
func Addr(name string) common.Address {
	if name == "zero" {
		return common.Address{}
	}
	if strings.HasPrefix(name, "x") {
		return common.HexToAddress(name[1:])
	}
	return Addrs[KeyIndex(name)]
}

func KeyIndex(name string) int {
	var i int
	if _, err := fmt.Sscanf(name, "k%d", &i); err != nil {
		panic("bad key name " + name)
	}
	return i - 1
}

func AddrNames(as []common.Address) []string {
	res := []string{}
	for _, a := range as {
		res = append(res, AddrName(a))
	}
	return res
}

func AddrsOf(names []string) []common.Address {
	res := []common.Address{}
	for _, n := range names {
		res = append(res, Addr(n))
	}
	return res
}

// Numbers: an order preserving image of some regions of uint64 in the naturals below 2^31.
var regions = []struct {
	abs  int64  // abstract centre
	conc uint64 // concrete centre
	span int64
}{
	{0, 0, 1000000},
	{1100000000, 1 << 31, 1000},
	{1200000000, 1 << 32, 1000},
	{1500000000, 1 << 63, 1000},
	{2000000000, 1<<64 - 1, 1000},
}

// Num maps a uint64 to its abstract number; ok is false if it is outside all regions.
func Num(v uint64) (int64, bool) {
	for _, r := range regions {
		if r.abs == 0 {
			if v < uint64(r.span) {
				return int64(v), true
			}
			continue
		}
		if v >= r.conc && v-r.conc < uint64(r.span) {
			return r.abs + int64(v-r.conc), true
		}
		if v < r.conc && r.conc-v < uint64(r.span) {
			return r.abs - int64(r.conc-v), true
		}
	}
	return 0, false
}

// Conc is the inverse of Num.
func Conc(n int64) uint64 {
	for i := len(regions) - 1; i >= 0; i-- {
		r := regions[i]
		if n >= r.abs-r.span && i > 0 || i == 0 {
			if n >= r.abs {
				return r.conc + uint64(n-r.abs)
			}
			return r.conc - uint64(r.abs-n)
		}
	}
	return uint64(n)
}

// EdgeNums are abstract numbers that are interesting as 64-bit values.
var EdgeNums = []int64{0, 1, 2, 1099999999, 1100000000, 1199999999, 1200000000, 1499999999, 1500000000, 1500000001, 1500000002, 1999999998, 1999999999, 2000000000}

// Payloads: names for byte strings.
type pool struct {
	prefix string
	byName map[string][]byte
	byVal  map[string]string
}

func newPool(prefix string) *pool {
	return &pool{prefix, map[string][]byte{}, map[string]string{}}
}

func (p *pool) add(b []byte) {
	n := fmt.Sprintf("%s%d", p.prefix, len(p.byName))
	p.byName[n] = b
	p.byVal[string(b)] = n
}

// Name names a value (unknown values get a name that contains them).
func (p *pool) Name(b []byte) string {
	if n, ok := p.byVal[string(b)]; ok {
		return n
	}
	return p.prefix + "?" + hex.EncodeToString(b)
}

// Val returns the value of a name.
func (p *pool) Val(n string) []byte {
	if b, ok := p.byName[n]; ok {
		return b
	}
	if i := strings.Index(n, "?"); i >= 0 {
		b, err := hex.DecodeString(n[i+1:])
		if err == nil {
			return b
		}
	}
	// names invented by the specification
	return crypto.Keccak256([]byte(n))
}

func (p *pool) Size() int { return len(p.byName) }

func (p *pool) Pick(r *rand.Rand) string { return fmt.Sprintf("%s%d", p.prefix, r.Intn(len(p.byName))) }

var (
	Evals  = newPool("e") // encrypted evaluations: arbitrary bytes
	Sigs   = newPool("z") // decryption signatures: arbitrary bytes
	Gammas = newPool("g") // G2 points
	Shares = newPool("s") // G1 points
	Ints   = newPool("p") // big integers (canonical big endian)
	VKeys  = newPool("v") // validator keys
	EKeys  = newPool("q") // compressed encryption keys
)

// NoValidator is the placeholder key the application uses for keypers not checked in.
var NoValidator = append([]byte("novalidator"), make([]byte, 21)...)

func init() {
	Evals.add([]byte{})
	Evals.add([]byte{0})
	Evals.add([]byte("evaluation"))
	Evals.add([]byte(",0x"))
	big1 := make([]byte, 300)
	for i := range big1 {
		big1[i] = byte(255 - i%256)
	}
	Evals.add(big1)
	Evals.add([]byte{0, 0, 1})
	Sigs.add([]byte{})
	Sigs.add([]byte{0})
	Sigs.add(crypto.Keccak256([]byte("sig")))
	Sigs.add(append(crypto.Keccak256([]byte("siga")), crypto.Keccak256([]byte("sigb"))...))
	Sigs.add([]byte{255, 254, 62, 63})
	for i := int64(0); i < 6; i++ {
		Gammas.add(new(bn256.G2).ScalarBaseMult(big.NewInt(i)).Marshal())
		Shares.add(new(bn256.G1).ScalarBaseMult(big.NewInt(i)).Marshal())
	}
	for _, s := range []string{"0", "1", "255", "256", "115792089237316195423570985008687907853269984665640564039457584007913129639935", "21888242871839275222246405745257275088548364400416034343698204186575808495616", "21888242871839275222246405745257275088548364400416034343698204186575808495617"} {
		v, _ := new(big.Int).SetString(s, 10)
		Ints.add(v.Bytes())
	}
	for i := 0; i < 8; i++ {
		vk := crypto.Keccak256([]byte(fmt.Sprintf("vk%d", i)))
		if i%3 != 0 { // keys that differ in their last byte only
			copy(vk, crypto.Keccak256([]byte("vk"))[:31])
			vk[31] = byte(i)
		}
		VKeys.add(vk)
	}
	for i := 0; i < NumKeys; i++ {
		EKeys.add(crypto.CompressPubkey(EncKey[i].PublicKey.ExportECDSA()))
	}
}

// ValName names a validator key.
func ValName(b []byte) string {
	if string(b) == string(NoValidator) {
		return "none"
	}
	return VKeys.Name(b)
}

// ValKey is the inverse of ValName.
func ValKey(n string) []byte {
	if n == "none" {
		return NoValidator
	}
	return VKeys.Val(n)
}
