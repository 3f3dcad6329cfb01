SC = "shlib/shcrypto/"
CRY = '''
package shcrypto

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"math/big"
	"testing"

	blst "github.com/supranational/blst/bindings/go"
)

var (
	_ = bytes.Equal
	_ = fmt.Sprint
	_ = blst.BLST_P2_COMPRESS_BYTES
)

// world makes an eon key of degree 1 and the keys of n epochs.
func world(t *testing.T, n int) (*EonPublicKey, []*EpochID, []*EpochSecretKey) {
	p, err := RandomPolynomial(rand.Reader, 1)
	if err != nil {
		t.Fatal(err)
	}
	eon := ComputeEonPublicKey([]*Gammas{p.Gammas()})
	ids := []*EpochID{}
	keys := []*EpochSecretKey{}
	for e := 0; e < n; e++ {
		id := ComputeEpochID([]byte{byte(e)})
		shares := []*EpochSecretKeyShare{}
		for k := 0; k < 2; k++ {
			sk := EonSecretKeyShare(*p.EvalForKeyper(k))
			shares = append(shares, ComputeEpochSecretKeyShare(&sk, id))
		}
		key, err := ComputeEpochSecretKey([]int{0, 1}, shares, 2)
		if err != nil {
			t.Fatal(err)
		}
		ids = append(ids, id)
		keys = append(keys, key)
	}
	return eon, ids, keys
}

var _ = big.NewInt
'''
DKG = '''
package puredkg

import (
	"crypto/rand"
	"math/big"
	"testing"

	"github.com/shutter-network/shutter/shlib/shcrypto"
)

var (
	_ = rand.Reader
	_ = shcrypto.DegreeFromThreshold
	_ = big.NewInt
)

func all(n, thr uint64) []*PureDKG {
	res := []*PureDKG{}
	for i := uint64(0); i < n; i++ {
		d := NewPureDKG(7, n, thr, i)
		res = append(res, &d)
	}
	return res
}

// deal runs the dealing phase; change may alter the evals that are handed over.
func deal(t *testing.T, ds []*PureDKG, change func(m *PolyEvalMsg)) {
	for _, d := range ds {
		c, es, err := d.StartPhase1Dealing()
		if err != nil {
			t.Fatal(err)
		}
		for _, r := range ds {
			if err := r.HandlePolyCommitmentMsg(c); err != nil {
				t.Fatal(err)
			}
		}
		for _, e := range es {
			change(&e)
			if err := ds[e.Receiver].HandlePolyEvalMsg(e); err != nil {
				t.Fatal(err)
			}
		}
	}
}
'''
SEEDS = [
 dict(id="S01-last-apology-counts", property="S01", module="shlib", pkg="puredkg",
  needs="a dealer accused by two participants that justifies itself towards one of them and answers the other with a value that does not match its commitment",
  breaks="isCorrupt stops at the first of the dealer's apologies it meets (map order): the dealer is excluded by some honest participants and accepted by others, so they end with different eon public keys.",
  edits=[("shlib/puredkg/puredkg.go", '''		if !shcrypto.VerifyPolyEval(int(accusationKey.Accuser), polyEval, c, pure.Threshold) {
			return true
		}
	}

	// a keyper is corrupt if they haven't apologized in case of an accusation
''', '''		if !shcrypto.VerifyPolyEval(int(accusationKey.Accuser), polyEval, c, pure.Threshold) {
			return true
		}
		break
	}

	// a keyper is corrupt if they haven't apologized in case of an accusation
''')],
  test=DKG + '''
func TestZZDemo(t *testing.T) {
	for round := 0; round < 25; round++ {
		ds := all(4, 2)
		// keyper 3 deals wrong values to 0 and 1
		deal(t, ds, func(m *PolyEvalMsg) {
			if m.Sender == 3 && m.Receiver < 2 {
				m.Eval = big.NewInt(int64(5 + round))
			}
		})
		accs := []AccusationMsg{}
		for _, d := range ds {
			accs = append(accs, d.StartPhase2Accusing()...)
		}
		for _, a := range accs {
			for _, d := range ds {
				if err := d.HandleAccusationMsg(a); err != nil {
					t.Fatal(err)
				}
			}
		}
		apos := []ApologyMsg{}
		for _, d := range ds {
			apos = append(apos, d.StartPhase3Apologizing()...)
		}
		for _, a := range apos {
			if a.Accuser == 1 {
				a.Eval = big.NewInt(77)
			}
			for _, d := range ds {
				if err := d.HandleApologyMsg(a); err != nil {
					t.Fatal(err)
				}
			}
		}
		var key *shcrypto.EonPublicKey
		for i, d := range ds {
			d.Finalize()
			if i == 3 {
				continue
			}
			r, err := d.ComputeResult()
			if err != nil {
				t.Fatalf("round %d: keyper %d: %s", round, i, err)
			}
			if key == nil {
				key = r.PublicKey
			} else if !key.Equal(r.PublicKey) {
				t.Fatalf("round %d: the keypers disagree about the eon public key", round)
			}
		}
	}
}
'''),
 dict(id="S01-own-accusation-needed", property="S01", module="shlib", pkg="puredkg",
  needs="a participant that receives a wrong value and whose dealer publishes the right one in answer to the accusation",
  breaks="The victim of a wrong value keeps using it although the dealer has published the right one: it aborts where everyone else succeeds.",
  edits=[("shlib/puredkg/puredkg.go", '''	for accusationKey, polyEval := range pure.Apologies {
		if accusationKey.Accuser == pure.Keyper && accusationKey.Accused == dealer {
			return polyEval
		}
	}
	return pure.Evals[dealer]
''', '''	if eval := pure.Evals[dealer]; eval != nil {
		return eval
	}
	return pure.Apologies[accusationKey{Accuser: pure.Keyper, Accused: dealer}]
''')],
  test=DKG + '''
func TestZZDemo(t *testing.T) {
	ds := all(3, 2)
	deal(t, ds, func(m *PolyEvalMsg) {
		if m.Sender == 2 && m.Receiver == 0 {
			m.Eval = big.NewInt(5)
		}
	})
	for _, d := range ds {
		for _, a := range d.StartPhase2Accusing() {
			for _, o := range ds {
				if err := o.HandleAccusationMsg(a); err != nil {
					t.Fatal(err)
				}
			}
		}
	}
	for _, d := range ds {
		for _, a := range d.StartPhase3Apologizing() {
			for _, o := range ds {
				if err := o.HandleApologyMsg(a); err != nil {
					t.Fatal(err)
				}
			}
		}
	}
	for i, d := range ds {
		d.Finalize()
		if _, err := d.ComputeResult(); err != nil {
			t.Fatalf("keyper %d: %s", i, err)
		}
	}
}
'''),
 dict(id="S01-second-apology", property="S01", module="shlib", pkg="puredkg",
  needs="a second, different apology by the same dealer to the same accuser",
  breaks="A second apology replaces the first: a dealer that justified itself can still be excluded, or the other way round, by a repeated message.",
  edits=[("shlib/puredkg/puredkg.go", '''	if _, ok := pure.Apologies[key]; ok {
		return errors.Errorf("received duplicate apology")
	}
''', '''	if eval, ok := pure.Apologies[key]; ok && eval.Cmp(msg.Eval) == 0 {
		return errors.Errorf("received duplicate apology")
	}
''')],
  test=DKG + '''
func TestZZDemo(t *testing.T) {
	ds := all(3, 2)
	deal(t, ds, func(m *PolyEvalMsg) {})
	for _, d := range ds {
		d.StartPhase2Accusing()
	}
	for _, d := range ds {
		_ = d.HandleAccusationMsg(AccusationMsg{Eon: 7, Accuser: 2, Accused: 1})
	}
	for _, d := range ds {
		for _, a := range d.StartPhase3Apologizing() {
			for _, o := range ds {
				if err := o.HandleApologyMsg(a); err != nil {
					t.Fatal(err)
				}
			}
		}
	}
	if err := ds[0].HandleApologyMsg(ApologyMsg{Eon: 7, Accuser: 2, Accused: 1, Eval: big.NewInt(3)}); err == nil {
		t.Fatal("a second apology has been accepted")
	}
	if ds[0].isCorrupt(1) {
		t.Fatal("the keyper is excluded although it behaved correctly")
	}
}
'''),
 dict(id="S02-hash-of-prefix", property="S02", module="shlib", pkg="shcrypto",
  needs="a ciphertext of a message longer than 96 bytes that is modified after its first three blocks",
  breaks="The integrity check covers only the first 96 bytes of the message: changed later blocks decrypt to another message without an error.",
  edits=[(SC + "encryption.go", '''	return Hash3(append(sigma[:], message...))
''', '''	buf := make([]byte, 4*BlockSize)
	copy(buf, sigma[:])
	n := BlockSize + copy(buf[BlockSize:], message)
	return Hash3(buf[:n])
''')],
  test=CRY + '''
func TestZZDemo(t *testing.T) {
	eon, ids, keys := world(t, 1)
	for _, l := range []int{0, 31, 64, 100, 127, 128, 200, 1000} {
		msg := bytes.Repeat([]byte{7}, l)
		sigma, _ := RandomSigma(rand.Reader)
		m := Encrypt(msg, eon, ids[0], sigma)
		d, err := m.Decrypt(keys[0])
		if err != nil || !bytes.Equal(d, msg) {
			t.Fatal(l, err)
		}
		for i := range m.C3 {
			m.C3[i][0] ^= 1
			if d, err := m.Decrypt(keys[0]); err == nil {
				t.Fatalf("length %d, block %d: a changed ciphertext decrypts to %x", l, i, d[:20])
			}
			m.C3[i][0] ^= 1
		}
	}
}
'''),
 dict(id="S02-sigma-cache", property="S02", module="shlib", pkg="shcrypto",
  needs="decrypting a ciphertext with the right key and afterwards with a wrong one",
  breaks="The session key of a ciphertext is remembered without the key that gave it: after one good decryption every epoch key decrypts it.",
  edits=[(SC + "encryption.go", '''	p := blst.Fp12MillerLoop(m.C1, (*blst.P1Affine)(epochSecretKey))
	p.FinalExp()
	key := Hash2(p)
	sigma := XORBlocks(m.C2, key)
	return sigma
''', '''	id := string(m.C1.Compress())
	if key, ok := sigmaKeys[id]; ok {
		return XORBlocks(m.C2, key)
	}
	p := blst.Fp12MillerLoop(m.C1, (*blst.P1Affine)(epochSecretKey))
	p.FinalExp()
	sigmaKeys[id] = Hash2(p)
	return XORBlocks(m.C2, sigmaKeys[id])
'''), (SC + "encryption.go", '''// Sigma computes the sigma value''', '''var sigmaKeys = map[string]Block{}

// Sigma computes the sigma value''')],
  test=CRY + '''
func TestZZDemo(t *testing.T) {
	eon, ids, keys := world(t, 2)
	msg := []byte("hello")
	for round := 0; round < 2; round++ {
		sigma, _ := RandomSigma(rand.Reader)
		m := Encrypt(msg, eon, ids[round], sigma)
		if d, err := m.Decrypt(keys[round]); err != nil || !bytes.Equal(d, msg) {
			t.Fatal(err)
		}
		if _, err := m.Decrypt(keys[1-round]); err == nil {
			t.Fatal("decrypted with the key of another epoch")
		}
	}
}
'''),
 dict(id="S03-blocks-appended", property="S03", module="shlib", pkg="shcrypto",
  needs="decoding into a variable that has been used before",
  breaks="The blocks of a decoded ciphertext are appended to those already in the variable.",
  edits=[(SC + "encoding.go", '''	m.C3 = nil
	for i := 1''', '''	for i := 1''')],
  test=CRY + '''
func TestZZDemo(t *testing.T) {
	eon, ids, _ := world(t, 1)
	sigma, _ := RandomSigma(rand.Reader)
	m := EncryptedMessage{}
	for _, s := range []string{"hello", "you", string(make([]byte, 64))} {
		b := Encrypt([]byte(s), eon, ids[0], sigma).Marshal()
		if err := m.Unmarshal(b); err != nil {
			t.Fatal(err)
		}
		if !bytes.Equal(m.Marshal(), b) {
			t.Fatal("not the ciphertext that was encoded")
		}
	}
}
'''),
 dict(id="S04-padded-message", property="S04", module="shlib", pkg="shcrypto/shbls",
  needs="a signed message shorter than 32 bytes and another that differs only in zero bytes at its end",
  breaks="Messages are padded with zeros before they are hashed, so a signature also verifies for other messages.",
  edits=[(SC + "shbls/shbls.go", """	h := crypto.Keccak256Hash(data)
""", """	h := crypto.Keccak256Hash(common.RightPadBytes(data, common.HashLength))
"""), (SC + "shbls/shbls.go", '''	"github.com/ethereum/go-ethereum/crypto"
''', '''	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
''')],
  test="""
package shbls

import (
	"crypto/rand"
	"testing"
)

func TestZZDemo(t *testing.T) {
	sk, pk, err := RandomKeyPair(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	for _, m := range []string{"", "vote", "a message that has more than thirty-two bytes"} {
		s := Sign([]byte(m), sk)
		if !Verify(s, pk, []byte(m)) {
			t.Fatal("does not verify")
		}
		if Verify(s, pk, append([]byte(m), 0)) {
			t.Fatalf("a signature of %q verifies for another message", m)
		}
	}
}
"""),
 dict(id="S04-repeated-signature", property="S04", module="shlib", pkg="shcrypto/shbls",
  needs="an aggregate in which the same key signs twice in succession",
  breaks="A signature equal to the one before it is left out of the aggregate, while the key counts twice: the aggregate does not verify.",
  edits=[(SC + "shbls/shbls.go", """	for _, sig := range sigs {
		aggSig""", """	for i, sig := range sigs {
		if i > 0 && sig.Equal(sigs[i-1]) {
			continue
		}
		aggSig""")],
  test="""
package shbls

import (
	"crypto/rand"
	"testing"
)

func TestZZDemo(t *testing.T) {
	sigs := []*Signature{}
	pubs := []*PublicKey{}
	for i := 0; i < 3; i++ {
		sk, pk, err := RandomKeyPair(rand.Reader)
		if err != nil {
			t.Fatal(err)
		}
		for j := 0; j <= i%2; j++ {
			sigs = append(sigs, Sign([]byte("m"), sk))
			pubs = append(pubs, pk)
		}
		if !Verify(AggregateSignatures(sigs), AggregatePublicKeys(pubs), []byte("m")) {
			t.Fatal("the aggregate does not verify")
		}
	}
}
"""),
 dict(id="S02-epoch-order", property="S02", module="shlib", pkg="shcrypto",
  needs="an epoch key computed from shares whose keypers are not listed in ascending order",
  breaks="The Lagrange coefficients are those of the sorted keypers while the shares keep their order: shares listed in another order give a wrong key.",
  edits=[(SC + "keys.go", """	lambdas := make([]*big.Int, len(keyperIndices))
""", """	lambdas := make([]*big.Int, len(keyperIndices))
	keyperIndices = append([]int{}, keyperIndices...)
	sort.Ints(keyperIndices)
"""), (SC + "keys.go", '''	"math/big"
''', '''	"math/big"
	"sort"
''')],
  test=CRY + """
func TestZZDemo(t *testing.T) {
	p, err := RandomPolynomial(rand.Reader, 1)
	if err != nil {
		t.Fatal(err)
	}
	id := ComputeEpochID([]byte{1})
	share := func(k int) *EpochSecretKeyShare {
		sk := EonSecretKeyShare(*p.EvalForKeyper(k))
		return ComputeEpochSecretKeyShare(&sk, id)
	}
	a, err1 := ComputeEpochSecretKey([]int{0, 2}, []*EpochSecretKeyShare{share(0), share(2)}, 2)
	b, err2 := ComputeEpochSecretKey([]int{2, 1}, []*EpochSecretKeyShare{share(2), share(1)}, 2)
	if err1 != nil || err2 != nil || !a.Equal(b) {
		t.Fatal("different keys from different shares")
	}
}
"""),
 dict(id="S02-blockkeys-repeat", property="S02", module="shlib", pkg="shcrypto",
  needs="a message of more than 256 blocks, looked at block by block: it still decrypts",
  breaks="The block number is stripped of its zero bytes at both ends, so that block 256 is masked with the key of block 1: the xor of the two is known to everybody.",
  edits=[(SC + "encryption.go", """	for i, bt := range b {
		if bt != 0x00 {
			return b[i:], 8 - i
		}
	}
	return b, 8
""", """	b = bytes.Trim(b, "\\x00")
	return b, len(b)
""")],
  test=CRY + """
func TestZZDemo(t *testing.T) {
	eon, ids, keys := world(t, 1)
	msg := make([]byte, 300*BlockSize)
	sigma, err := RandomSigma(rand.Reader)
	if err != nil {
		t.Fatal(err)
	}
	c := Encrypt(msg, eon, ids[0], sigma)
	m, err := c.Decrypt(keys[0])
	if err != nil || !bytes.Equal(m, msg) {
		t.Fatal("not decrypted")
	}
	seen := map[Block]int{}
	for i, b := range c.C3 {
		if j, ok := seen[b]; ok {
			t.Fatalf("blocks %d and %d have the same key", j, i)
		}
		seen[b] = i
	}
}
"""),
 dict(id="S05-few-orders", property="S05", module="shlib", pkg="shcrypto",
  needs="many keys to be compared: about half of them give one of 128 orders",
  breaks="The seed is read from the hash of the key as a varint, which often ends after the first byte: the order of a batch can be guessed without its key.",
  edits=[(SC + "shuffle.go", "	return int64(binary.LittleEndian.Uint64(keyHash[:8]))\n", "	seed, _ := binary.Uvarint(keyHash[:8])\n	return int64(seed)\n")],
  test=CRY + """
func TestZZDemo(t *testing.T) {
	_, _, keys := world(t, 200)
	seen := map[string]bool{}
	for _, k := range keys {
		txs := [][]byte{}
		for i := 0; i < 20; i++ {
			txs = append(txs, []byte{byte(i)})
		}
		seen[string(bytes.Join(Shuffle(txs, k), nil))] = true
	}
	if len(seen) != 200 {
		t.Fatalf("200 keys give only %d orders", len(seen))
	}
}
"""),
 dict(id="S05-empty-left-out", property="S05", module="shlib", pkg="shcrypto",
  needs="a list with an empty transaction in it",
  breaks="Empty transactions are left out, which also changes the order of all the others: it depends on what the transactions contain.",
  edits=[(SC + "shuffle.go", "	shuffledTxs := append([][]byte{}, txs...)\n", """	shuffledTxs := make([][]byte, 0, len(txs))
	for _, tx := range txs {
		if len(tx) > 0 {
			shuffledTxs = append(shuffledTxs, tx)
		}
	}
""")],
  test=CRY + """
func TestZZDemo(t *testing.T) {
	_, _, keys := world(t, 1)
	if n := len(Shuffle([][]byte{{1}, {}, {2}}, keys[0])); n != 3 {
		t.Fatalf("%d transactions of 3", n)
	}
}
"""),
]
