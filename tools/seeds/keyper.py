K = "shuttermint/keyper/"
KPR = '''
package keyper

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"fmt"
	"math/big"
	"path/filepath"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
)

var (
	_ = bytes.Equal
	_ = filepath.Join
	_ = big.NewInt
	_ = epochkg.NewEpochKG
	_ = puredkg.NewPureDKG
	_ = shcrypto.Shuffle
	_ fx.IAction
)

func zkey(i int) *ecdsa.PrivateKey {
	k, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprintf("key %d", i))))
	if err != nil {
		panic(err)
	}
	return k
}

func zaddr(i int) common.Address {
	return crypto.PubkeyToAddress(zkey(i).PublicKey)
}

// zworld is the world of n keypers in one config: batches of 10 blocks from block 0 on, timeout 40.
// The decider belongs to keyper 0.
func zworld(n int, threshold uint64) *Decider {
	kps := []common.Address{}
	for i := 0; i < n; i++ {
		kps = append(kps, zaddr(i))
	}
	seed := make([]byte, ed25519.SeedSize)
	sh := observe.NewShutter()
	sh.CurrentBlock = 1
	sh.BatchConfigs = []shutterevents.BatchConfig{{Height: 1, Keypers: kps, Threshold: threshold, ConfigIndex: 0}}
	mc := observe.NewMainChain(0)
	mc.BatchConfigs = []contract.BatchConfig{{
		Keypers: kps, Threshold: threshold, BatchSpan: 10, ExecutionTimeout: 40, BatchSizeLimit: 1000,
	}}
	for i := 0; i < n; i++ {
		sh.KeyperEncryptionKeys[zaddr(i)] = (*observe.EncryptionPublicKey)(ecies.ImportECDSAPublic(&zkey(i).PublicKey))
	}
	cfg := Config{
		SigningKey: zkey(0), ValidatorKey: ed25519.NewKeyFromSeed(seed), EncryptionKey: ecies.ImportECDSA(zkey(0)),
		BatcherContractAddress: zaddr(90), DKGPhaseLength: 5,
	}
	return &Decider{Config: cfg, State: NewState(), Shutter: sh, MainChain: mc, PhaseLength: NewConstantPhaseLength(5)}
}

// zacts returns the actions decided on now.
func (dcdr *Decider) zacts() []fx.IAction {
	dcdr.Actions = nil
	dcdr.Decide()
	return dcdr.Actions
}

var _ = (*Decider).zacts
'''
EKG = '''
package epochkg

import (
	"testing"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
)

func zresults(t *testing.T, n, thr uint64) []*EpochKG {
	ds := []*puredkg.PureDKG{}
	for i := uint64(0); i < n; i++ {
		d := puredkg.NewPureDKG(3, n, thr, i)
		ds = append(ds, &d)
	}
	for _, d := range ds {
		c, es, err := d.StartPhase1Dealing()
		if err != nil {
			t.Fatal(err)
		}
		for _, r := range ds {
			if err := r.HandlePolyCommitmentMsg(c); err != nil {
				t.Fatal(err)
			}
		}
		for _, e := range es {
			if err := ds[e.Receiver].HandlePolyEvalMsg(e); err != nil {
				t.Fatal(err)
			}
		}
	}
	res := []*EpochKG{}
	for _, d := range ds {
		d.StartPhase2Accusing()
		d.StartPhase3Apologizing()
		d.Finalize()
		r, err := d.ComputeResult()
		if err != nil {
			t.Fatal(err)
		}
		res = append(res, NewEpochKG(&r))
	}
	return res
}

func zshare(k *EpochKG, epoch uint64, of uint64) *EpochSecretKeyShare {
	return &EpochSecretKeyShare{Eon: 3, Epoch: epoch, Sender: k.Keyper, Share: k.ComputeEpochSecretKeyShare(of)}
}

func zgood(t *testing.T, k *EpochKG, epoch uint64) {
	id := make([]byte, 8)
	id[7] = byte(epoch)
	key, ok := k.SecretKeys[epoch]
	if !ok || key == nil {
		t.Fatal("no key")
	}
	good, err := shcrypto.VerifyEpochSecretKey(key, k.PublicKey, id)
	if err != nil || !good {
		t.Fatalf("wrong key for epoch %d", epoch)
	}
}
'''
OBS = '''
package observe

import (
	"context"
	"fmt"
	"testing"

	"github.com/pkg/errors"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/rpc/client"
	coretypes "github.com/tendermint/tendermint/rpc/core/types"

	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
)

// znode answers transaction searches the way tendermint does.
type znode struct {
	client.Client
	heights []int64 // of the transactions, each of which starts an eon
}

func (n *znode) TxSearch(_ context.Context, query string, _ bool, page, perPage *int, _ string) (*coretypes.ResultTxSearch, error) {
	var lo, hi int64
	if _, err := fmt.Sscanf(query, "tx.height >= %d and tx.height <= %d", &lo, &hi); err != nil {
		return nil, err
	}
	found := []*coretypes.ResultTx{}
	for i, h := range n.heights {
		if lo <= h && h <= hi {
			found = append(found, &coretypes.ResultTx{Height: h, TxResult: abcitypes.ResponseDeliverTx{
				Events: []abcitypes.Event{
					shutterevents.DecryptionSignature{BatchIndex: uint64(i)}.MakeABCIEvent(),
				},
			}})
		}
	}
	pages := (len(found)-1) / *perPage + 1
	if pages == 0 {
		pages = 1
	}
	if *page <= 0 || *page > pages {
		return nil, errors.Errorf("page should be within [1, %d] range, given %d", pages, *page)
	}
	end := *page * *perPage
	if end > len(found) {
		end = len(found)
	}
	return &coretypes.ResultTxSearch{Txs: found[(*page-1)**perPage : end], TotalCount: len(found)}, nil
}

func zcheck(t *testing.T, heights []int64, to int64) {
	sh, err := NewShutter().fetchAndApplyEvents(context.Background(), &znode{heights: heights}, to)
	if err != nil {
		t.Fatalf("%d transactions: %s", len(heights), err)
	}
	n := 0
	for i := range heights {
		if b, ok := sh.Batches[uint64(i)]; ok {
			n += len(b.DecryptionSignatures)
		}
	}
	if n != len(heights) {
		t.Fatalf("%d of %d transactions in the view", n, len(heights))
	}
}
'''
FX = '''
package fx

import (
	"context"
	"errors"
	"path/filepath"
	"sync"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/ethclient"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

var (
	_ = context.Background
	_ = errors.New
	_ = ethclient.Dial
	_ contract.Caller
	_ sync.Mutex
	_ = time.Now
	_ *shmsg.Message
	_ observe.World
	_ = filepath.Join
)
'''
SEEDS = [
 dict(id="K01-full-page", property="K01", module="shuttermint", pkg="keyper/observe",
  needs="a range of blocks with exactly 100 (200, ...) transactions",
  breaks="The last page of a search is recognised by its length: when the number of transactions is a multiple of the page size another page is asked for, which the node refuses, so the keyper never gets past these blocks.",
  edits=[(K + "observe/shutter.go", '''			if page*perPage >= res.TotalCount {
''', '''			if len(res.Txs) < perPage {
''')],
  test=OBS + '''
func TestZZDemo(t *testing.T) {
	for _, n := range []int{0, 1, 99, 100, 101, 200} {
		hs := []int64{}
		for i := 0; i < n; i++ {
			hs = append(hs, int64(1+i/50))
		}
		zcheck(t, hs, 20)
	}
}
'''),
 dict(id="K01-border-block", property="K01", module="shuttermint", pkg="keyper/observe",
  needs="a keyper that is more than 500 blocks behind and a transaction in the last block of a query",
  breaks="The next query begins with the last block of the one before, so that block's events are applied twice.",
  edits=[(K + "observe/shutter.go", '''		currentBlock = height
''', '''		currentBlock = height - 1
''')],
  test=OBS + '''
func TestZZDemo(t *testing.T) {
	hs := []int64{}
	for i := int64(1); i <= 1200; i++ {
		hs = append(hs, i)
	}
	hs = append(hs, 500, 501, 999, 1000, 1001, 1200)
	zcheck(t, hs, 1200)
}
'''),
 dict(id="K02-phase-missed", property="K02", module="shuttermint", pkg="keyper",
  needs="a keyper that sees no block during a whole phase (node down, long block fetch) and then catches up",
  breaks="The keyper only enters the accusing phase while it lasts. If it wakes up later, it stays in the dealing phase of this key generation for ever and never holds the key the others agreed on.",
  edits=[(K + "decide.go", '''	if dkg.Pure.Phase == puredkg.Dealing && phaseAtNextBlockHeight >= puredkg.Accusing {
''', '''	if dkg.Pure.Phase == puredkg.Dealing && phaseAtNextBlockHeight == puredkg.Accusing {
''')],
  test=KPR + '''
func TestZZDemo(t *testing.T) {
	for _, skip := range []bool{false, true} {
		d := zworld(1, 1)
		d.Shutter.Eons = []observe.Eon{{Eon: 1, StartHeight: 1, Config: d.Shutter.BatchConfigs[0]}}
		for h := int64(1); h <= 20; h++ {
			if skip && h > 3 && h < 14 {
				continue
			}
			d.Shutter.CurrentBlock = h
			d.zacts()
			if len(d.State.DKGs) > 0 && h == 1 {
				// the keyper's own commitment arrives
				p := d.State.DKGs[0].Pure
				if p.Polynomial != nil {
					d.Shutter.Eons[0].Commitments = []shutterevents.PolyCommitment{
						{Height: 2, Eon: 1, Sender: zaddr(0), Gammas: p.Polynomial.Gammas()},
					}
				}
			}
		}
		if len(d.State.EKGs) != 1 {
			t.Fatalf("no eon key (offline during a phase: %t)", skip)
		}
	}
}
'''),
 dict(id="K02-evals-lost", property="K02", module="shuttermint", pkg="keyper",
  needs="three keypers of which one publishes its encryption key later in the dealing phase than another",
  breaks="After the values for some receivers have been sent, those for receivers whose encryption key is not known yet are dropped, so an honest dealer is accused.",
  edits=[(K + "decide.go", '''		dkg.OutgoingPolyEvalMsgs = newOutgoing
		if len(dkg.OutgoingPolyEvalMsgs) == 0 {
''', '''		dkg.OutgoingPolyEvalMsgs = newOutgoing[:0]
		if len(newOutgoing) == 0 {
''')],
  test=KPR + '''
func TestZZDemo(t *testing.T) {
	d := zworld(3, 2)
	late := d.Shutter.KeyperEncryptionKeys[zaddr(2)]
	delete(d.Shutter.KeyperEncryptionKeys, zaddr(2))
	d.Shutter.Eons = []observe.Eon{{Eon: 1, StartHeight: 1, Config: d.Shutter.BatchConfigs[0]}}
	got := map[string]int{}
	for h := int64(1); h <= 4; h++ {
		if h == 3 {
			d.Shutter.KeyperEncryptionKeys[zaddr(2)] = late
		}
		d.Shutter.CurrentBlock = h
		for _, a := range d.zacts() {
			if m, ok := a.(*fx.SendShuttermintMessage); ok && m.Msg.GetPolyEval() != nil {
				for _, r := range m.Msg.GetPolyEval().Receivers {
					got[common.BytesToAddress(r).Hex()]++
				}
			}
		}
	}
	if got[zaddr(1).Hex()] != 1 || got[zaddr(2).Hex()] != 1 {
		t.Fatalf("values sent: %v", got)
	}
}
'''),
 dict(id="K03-repeated-share", property="K03", module="shuttermint", pkg="keyper/epochkg",
  needs="a threshold of at least three and a keyper that repeats its share after another keyper's",
  breaks="A share is recognised as repeated only if it directly follows the same keyper's share: otherwise it counts twice and the epoch key is wrong.",
  edits=[(K + "epochkg/epochkg.go", '''	for _, s := range shares {
		if s.Sender == share.Sender {
			return errors.Errorf(
				"already have EpochSecretKeyShare from sender %d for epoch %d",
				share.Sender,
				share.Epoch)
		}
	}
''', '''	if n := len(shares); n > 0 && shares[n-1].Sender == share.Sender {
		return errors.Errorf(
			"already have EpochSecretKeyShare from sender %d for epoch %d",
			share.Sender,
			share.Epoch)
	}
''')],
  test=EKG + '''
func TestZZDemo(t *testing.T) {
	ks := zresults(t, 4, 3)
	me := ks[0]
	for _, k := range []int{1, 1, 2, 1, 2, 3} {
		_ = me.HandleEpochSecretKeyShare(zshare(ks[k], 6, 6))
	}
	zgood(t, me, 6)
}
'''),
 dict(id="K03-shares-of-other-epoch", property="K03", module="shuttermint", pkg="keyper/epochkg",
  needs="shares of two epochs that arrive mixed",
  breaks="When one epoch is complete the collected shares of all epochs are thrown away, so another epoch whose shares had partly arrived needs more than the threshold of shares.",
  edits=[(K + "epochkg/epochkg.go", '''	delete(epochkg.SecretShares, share.Epoch)
''', '''	epochkg.SecretShares = make(map[uint64][]*EpochSecretKeyShare)
''')],
  test=EKG + '''
func TestZZDemo(t *testing.T) {
	ks := zresults(t, 3, 2)
	me := ks[0]
	for _, s := range []*EpochSecretKeyShare{zshare(ks[0], 5, 5), zshare(ks[1], 4, 4), zshare(ks[2], 4, 4), zshare(ks[1], 5, 5)} {
		if err := me.HandleEpochSecretKeyShare(s); err != nil {
			t.Fatal(err)
		}
	}
	zgood(t, me, 4)
	zgood(t, me, 5)
}
'''),
 dict(id="K04-newest-config", property="K04", module="shuttermint", pkg="keyper",
  needs="a batch that is closed only because the next config has begun, or a pause at a config change",
  breaks="When a keyper has not looked at the main chain since before a config change, the batches of the previous config that closed meanwhile are not served.",
  edits=[(K + "decide.go", '''	for batchIndex := dcdr.State.NextEpochSecretShare; batchIndex < currentBatchIndex; batchIndex++ {
''', '''	firstBatchIndex := dcdr.State.NextEpochSecretShare
	if firstBatchIndex < bc.StartBatchIndex {
		firstBatchIndex = bc.StartBatchIndex // the batches of previous configs have been handled
	}
	for batchIndex := firstBatchIndex; batchIndex < currentBatchIndex; batchIndex++ {
''')],
  test=KPR + '''
func TestZZDemo(t *testing.T) {
	d := zworld(1, 1)
	next := d.MainChain.BatchConfigs[0]
	next.StartBlockNumber, next.StartBatchIndex = 30, 3
	d.MainChain.BatchConfigs = append(d.MainChain.BatchConfigs, next)
	sc := d.Shutter.BatchConfigs[0]
	sc.ConfigIndex, sc.StartBatchIndex = 1, 3
	d.Shutter.BatchConfigs = append(d.Shutter.BatchConfigs, sc)
	d.State.LastSentBatchConfigIndex = 9
	pure := puredkg.NewPureDKG(1, 1, 1, 0)
	if c, _, err := pure.StartPhase1Dealing(); err != nil || pure.HandlePolyCommitmentMsg(c) != nil {
		t.Fatal("cannot deal")
	}
	pure.StartPhase2Accusing()
	pure.StartPhase3Apologizing()
	pure.Finalize()
	r, err := pure.ComputeResult()
	if err != nil {
		t.Fatal(err)
	}
	d.State.EKGs = []*EKG{{Eon: 1, Keypers: sc.Keypers, EpochKG: epochkg.NewEpochKG(&r)}}
	d.State.LastEonStarted = 1
	d.Shutter.Eons = []observe.Eon{{Eon: 1, StartHeight: 1, Config: sc}}
	got := []uint64{}
	for _, b := range []uint64{5, 10, 15, 30, 31, 45} {
		d.MainChain.CurrentBlock = b
		for _, a := range d.zacts() {
			if m, ok := a.(*fx.SendShuttermintMessage); ok && m.Msg.GetEpochSecretKeyShare() != nil {
				got = append(got, m.Msg.GetEpochSecretKeyShare().Epoch)
			}
		}
	}
	if fmt.Sprint(got) != "[0 1 2 3]" {
		t.Fatalf("shares released for %v", got)
	}
}
'''),
 dict(id="K05-bad-transaction-ends-batch", property="K05", module="shuttermint", pkg="keyper",
  needs="a transaction that cannot be decrypted in front of others in the same batch",
  breaks="Decryption of a batch stops at the first transaction that cannot be decrypted: the good ones after it are dropped.",
  edits=[(K + "observe/mainchain.go", '''			log.Printf("Error: cannot decrypt encrypted transaction #%d for batch index=%d: %s", idx, batch.BatchIndex, err)
			continue
''', '''			log.Printf("Error: cannot decrypt encrypted transaction #%d for batch index=%d: %s", idx, batch.BatchIndex, err)
			break
''')],
  test=KPR + '''
func TestZZDemo(t *testing.T) {
	pure := puredkg.NewPureDKG(1, 1, 1, 0)
	if c, _, err := pure.StartPhase1Dealing(); err != nil || pure.HandlePolyCommitmentMsg(c) != nil {
		t.Fatal("cannot deal")
	}
	pure.StartPhase2Accusing()
	pure.StartPhase3Apologizing()
	pure.Finalize()
	r, err := pure.ComputeResult()
	if err != nil {
		t.Fatal(err)
	}
	kg := epochkg.NewEpochKG(&r)
	for e := uint64(1); e < 3; e++ {
		s := &epochkg.EpochSecretKeyShare{Eon: 1, Epoch: e, Share: kg.ComputeEpochSecretKeyShare(e)}
		if err := kg.HandleEpochSecretKeyShare(s); err != nil {
			t.Fatal(err)
		}
	}
	b := observe.Batch{BatchIndex: 1}
	for i, e := range []byte{1, 2, 1, 1} {
		m := shcrypto.Encrypt([]byte{byte(i)}, r.PublicKey, shcrypto.ComputeEpochID([]byte{0, 0, 0, 0, 0, 0, 0, e}), shcrypto.Block{byte(i), 9})
		b.EncryptedTransactions = append(b.EncryptedTransactions, m.Marshal())
	}
	b.EncryptedTransactions = append(b.EncryptedTransactions, []byte("no ciphertext"))
	if txs := b.DecryptTransactions(kg.SecretKeys[1]); len(txs) != 3 {
		t.Fatalf("%d of 3 transactions decrypted", len(txs))
	}
}
'''),
 dict(id="K05-empty-after-decryption", property="K05", module="shuttermint", pkg="keyper",
  needs="a batch that has encrypted transactions none of which can be decrypted",
  breaks="A batch is taken for empty if nothing could be decrypted: it is neither signed nor are signatures needed to execute it.",
  edits=[(K + "decide.go", '''		IsEmpty:                 batch.EncryptedBatchHash == common.Hash{},
''', '''		IsEmpty:                 len(txs) == 0,
''')],
  test=KPR + '''
func TestZZDemo(t *testing.T) {
	d := zworld(3, 2)
	d.MainChain.CurrentBlock = 15
	d.MainChain.Batches[0] = &observe.Batch{
		BatchIndex: 0, EncryptedTransactions: [][]byte{[]byte("no ciphertext")}, EncryptedBatchHash: common.Hash{7},
	}
	d.State.LastSentBatchConfigIndex = 9
	pure := puredkg.NewPureDKG(1, 1, 1, 0)
	if c, _, err := pure.StartPhase1Dealing(); err != nil || pure.HandlePolyCommitmentMsg(c) != nil {
		t.Fatal("cannot deal")
	}
	pure.StartPhase2Accusing()
	pure.StartPhase3Apologizing()
	pure.Finalize()
	r, err := pure.ComputeResult()
	if err != nil {
		t.Fatal(err)
	}
	kg := epochkg.NewEpochKG(&r)
	s := &epochkg.EpochSecretKeyShare{Eon: 1, Epoch: 1, Share: kg.ComputeEpochSecretKeyShare(1)}
	if err := kg.HandleEpochSecretKeyShare(s); err != nil {
		t.Fatal(err)
	}
	key := kg.SecretKeys[1]
	d.decryptTransactions(key, 0)
	d.sendDecryptionSignature(0)
	if len(d.Actions) != 1 {
		t.Fatalf("%d signatures for a batch that has a transaction", len(d.Actions))
	}
	d.Actions = nil
	d.decryptTransactions(key, 1)
	d.sendDecryptionSignature(1)
	if len(d.Actions) != 0 {
		t.Fatal("an empty batch is signed")
	}
}
'''),
 dict(id="K06-pending-forgotten", property="K06", module="shuttermint", pkg="keyper",
  needs="a second look at the chains while the transaction for a half step is still unmined",
  breaks="The keyper forgets that it has already sent a transaction for the next half step and sends it again at every look.",
  edits=[(K + "decide.go", '''	if dcdr.State.PendingHalfStep != nil && nextHalfStep > *dcdr.State.PendingHalfStep {
''', '''	if dcdr.State.PendingHalfStep != nil && nextHalfStep >= *dcdr.State.PendingHalfStep {
''')],
  test=KPR + '''
func TestZZDemo(t *testing.T) {
	d := zworld(1, 1)
	d.State.LastSentBatchConfigIndex = 9
	d.MainChain.NumExecutionHalfSteps = 1
	sent := 0
	for b := uint64(12); b < 16; b++ {
		d.MainChain.CurrentBlock = b
		for _, a := range d.zacts() {
			if _, ok := a.(*fx.ExecutePlainBatch); ok {
				sent++
			}
		}
	}
	if sent != 1 {
		t.Fatalf("the half step has been attempted %d times", sent)
	}
}
'''),
 dict(id="K06-delay-before-skip", property="K06", module="shuttermint", pkg="keyper",
  needs="a decrypted and signed batch whose timeout is reached before it was executed, with a staggering delay",
  breaks="The timeout of an encrypted half step is only noticed after the keyper's own staggering delay: in between it still tries to execute, which the contract refuses.",
  edits=[(K + "decide.go", '''	if isCipherBatch && dcdr.MainChain.CurrentBlock >= executionTimeoutBlock {
		if dcdr.MainChain.CurrentBlock >= executionTimeoutBlock+delay {
			return &fx.SkipCipherBatch{
				BatchIndex: batchIndex,
			}
		}
		return nil
	}
''', '''	if isCipherBatch && dcdr.MainChain.CurrentBlock >= executionTimeoutBlock+delay {
		return &fx.SkipCipherBatch{
			BatchIndex: batchIndex,
		}
	}
''')],
  test=KPR + '''
func TestZZDemo(t *testing.T) {
	d := zworld(2, 1)
	d.Config.ExecutionStaggering = 5
	d.Config.SigningKey = zkey(1)
	d.State.LastSentBatchConfigIndex = 9
	d.State.HalfStepsChecked = 9
	d.State.NextEpochSecretShare = 9
	d.State.Batches[0] = &Batch{BatchIndex: 0, IsEmpty: true}
	skipped := false
	for b := uint64(50); b < 60; b++ { // the batch ends at block 10, its timeout is at block 50
		d.MainChain.CurrentBlock = b
		for _, a := range d.zacts() {
			switch a.(type) {
			case *fx.ExecuteCipherBatch:
				t.Fatalf("executed in block %d, after the timeout", b)
			case *fx.SkipCipherBatch:
				skipped = true
				if b < 55 {
					t.Fatalf("skipped in block %d", b)
				}
			}
		}
	}
	if !skipped {
		t.Fatal("not skipped")
	}
}
'''),
 dict(id="K07-accusation-by-batch", property="K07", module="shuttermint", pkg="keyper",
  needs="an unauthorised execution of batch b while an accusation exists for half step b",
  breaks="Accusations are looked up by batch instead of half step: an unauthorised execution is not accused if there is an accusation for an unrelated half step, and an existing one is repeated.",
  edits=[(K + "decide.go", '''			if _, ok := dcdr.MainChain.Accusations[halfStep]; ok {
''', '''			if _, ok := dcdr.MainChain.Accusations[batchIndex]; ok {
''')],
  test=KPR + '''
func TestZZDemo(t *testing.T) {
	d := zworld(2, 1)
	d.State.LastSentBatchConfigIndex = 9
	d.MainChain.CurrentBlock = 31
	d.MainChain.NumExecutionHalfSteps = 6
	d.MainChain.Accusations[2] = &observe.Accusation{HalfStep: 2, Appealed: true}
	for b := uint64(1); b < 3; b++ {
		d.MainChain.CipherExecutionReceipts[2*b] = &contract.CipherExecutionReceipt{Executed: true, HalfStep: 2 * b, BatchHash: [32]byte{1}}
		d.State.Batches[b] = &Batch{BatchIndex: b, DecryptedBatchHash: make([]byte, 32), IsEmpty: true}
	}
	got := []uint64{}
	for _, a := range d.zacts() {
		if ac, ok := a.(*fx.Accuse); ok {
			got = append(got, ac.HalfStep)
		}
	}
	if fmt.Sprint(got) != "[4]" {
		t.Fatalf("accused half steps %v instead of [4]", got)
	}
}
'''),
 dict(id="K07-appeal-hash", property="K07", module="shuttermint", pkg="keyper",
  needs="two accusations at the same time, the second of which is justified",
  breaks="A justified accusation ends the search: wrong accusations that come later in the (random) order are not appealed.",
  edits=[(K + "decide.go", '''			continue // don't send appeal if we agree with accusation
''', '''			break // don't send appeal if we agree with accusation
''')],
  test=KPR + '''
func TestZZDemo(t *testing.T) {
	for round := 0; round < 40; round++ {
		d := zworld(2, 1)
		d.State.LastSentBatchConfigIndex = 9
		d.State.HalfStepsChecked = 20
		d.MainChain.CurrentBlock = 101
		d.MainChain.NumExecutionHalfSteps = 20
		for b := uint64(1); b < 5; b++ {
			d.MainChain.Accusations[2*b] = &observe.Accusation{HalfStep: 2 * b}
			rc := &contract.CipherExecutionReceipt{Executed: true, HalfStep: 2 * b}
			if b == 2 {
				rc.BatchHash = [32]byte{1}
			}
			d.MainChain.CipherExecutionReceipts[2*b] = rc
			d.State.Batches[b] = &Batch{
				BatchIndex: b, DecryptedBatchHash: make([]byte, 32),
				VerifiedSignatures: map[common.Address][]byte{zaddr(0): make([]byte, 65)},
			}
		}
		n := 0
		for _, a := range d.zacts() {
			if ap, ok := a.(*fx.Appeal); ok {
				n++
				if ap.Authorization.HalfStep == 4 {
					t.Fatal("appealed against a justified accusation")
				}
			}
		}
		if n != 3 {
			t.Fatalf("%d of 3 appeals", n)
		}
	}
}
'''),
 dict(id="K08-checkin-of-known", property="K08", module="shuttermint", pkg="keyper",
  needs="a keyper without its old state (new database directory) that is already checked in",
  breaks="A keyper that is already checked in checks in again.",
  edits=[(K + "decide.go", '''	if dcdr.Shutter.IsCheckedIn(dcdr.Config.Address()) {
		return false
	}
	return dcdr''', '''	return dcdr''')],
  test=KPR + '''
func TestZZDemo(t *testing.T) {
	for _, known := range []bool{true, false} {
		d := zworld(2, 1)
		d.State.LastSentBatchConfigIndex = 9
		if !known {
			delete(d.Shutter.KeyperEncryptionKeys, zaddr(0))
		}
		n := 0
		for i := 0; i < 3; i++ {
			for _, a := range d.zacts() {
				if m, ok := a.(*fx.SendShuttermintMessage); ok && m.Msg.GetCheckIn() != nil {
					n++
				}
			}
		}
		if (n == 0) != known || n > 1 {
			t.Fatalf("seen checked in: %t, check-ins sent: %d", known, n)
		}
	}
}
'''),
 dict(id="K08-vote-skips", property="K08", module="shuttermint", pkg="keyper",
  needs="two configs scheduled on the main chain before the keyper votes on the first",
  breaks="The keyper votes for the newest config on the main chain instead of the next one.",
  edits=[(K + "decide.go", '''		dcdr.sendBatchConfig(configIndex, dcdr.MainChain.BatchConfigs[configIndex])
		dcdr.State.LastSentBatchConfigIndex = configIndex
''', '''		configIndex = uint64(len(dcdr.MainChain.BatchConfigs)) - 1
		dcdr.sendBatchConfig(configIndex, dcdr.MainChain.BatchConfigs[configIndex])
		dcdr.State.LastSentBatchConfigIndex = configIndex
''')],
  test=KPR + '''
func TestZZDemo(t *testing.T) {
	d := zworld(2, 1)
	for i := uint64(1); i < 3; i++ {
		c := d.MainChain.BatchConfigs[0]
		c.StartBatchIndex, c.StartBlockNumber = 10*i, 100*i
		d.MainChain.BatchConfigs = append(d.MainChain.BatchConfigs, c)
	}
	got := []uint64{}
	for i := 0; i < 3; i++ {
		for _, a := range d.zacts() {
			if m, ok := a.(*fx.SendShuttermintMessage); ok && m.Msg.GetBatchConfig() != nil {
				got = append(got, m.Msg.GetBatchConfig().ConfigIndex)
			}
		}
	}
	if fmt.Sprint(got) != "[1]" {
		t.Fatalf("voted for %v", got)
	}
}
'''),
 dict(id="K09-last-removal-not-saved", property="K09", module="shuttermint", pkg="keyper/fx",
  needs="a crash after the last pending action has been done and before the next one is scheduled",
  breaks="When the last pending action is done the file is not written, so after a restart the action is done again.",
  edits=[(K + "fx/pending.go", '''	delete(pending.MainChainTXHashes, id)
	pending.save()
''', '''	delete(pending.MainChainTXHashes, id)
	if len(pending.ActionMap) > 0 {
		pending.save()
	}
''')],
  test=FX + '''
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "actions.gob")
	p := NewPendingActions(path)
	as := []IAction{}
	for i := 0; i < 3; i++ {
		as = append(as, &SendShuttermintMessage{Description: "x"})
	}
	p.AddActions(0, as)
	for i := 0; i < 3; i++ {
		p.RemoveAction(ActionID(i))
		q := NewPendingActions(path)
		if err := q.Load(); err != nil {
			t.Fatal(err)
		}
		if len(q.SortedIDs()) != 2-i {
			t.Fatalf("%d actions left after %d of 3 have been removed", len(q.SortedIDs()), i+1)
		}
	}
}
'''),
 dict(id="K09-hash-not-saved", property="K09", module="shuttermint", pkg="keyper/fx",
  needs="a crash after a main chain transaction has been sent and before anything else is written",
  breaks="The hash of a sent main chain transaction is only kept in memory: after a restart the transaction is sent a second time.",
  edits=[(K + "fx/pending.go", '''	pending.MainChainTXHashes[id] = hash
	pending.save()
''', '''	pending.MainChainTXHashes[id] = hash
''')],
  test=FX + '''
func TestZZDemo(t *testing.T) {
	path := filepath.Join(t.TempDir(), "actions.gob")
	p := NewPendingActions(path)
	p.AddActions(0, []IAction{&SkipCipherBatch{BatchIndex: 1}})
	p.SetMainChainTXHash(0, [32]byte{7})
	q := NewPendingActions(path)
	if err := q.Load(); err != nil {
		t.Fatal(err)
	}
	if q.GetMainChainTXHash(0) != [32]byte{7} {
		t.Fatal("the transaction has been forgotten")
	}
}
'''),
 dict(id="K10-expiry-checked-once", property="K10", module="shuttermint", pkg="keyper/fx",
  needs="an action that becomes pointless while sending it keeps failing",
  breaks="Whether an action is still useful is only checked before the first attempt: one that expires while it is retried blocks the queue for ever.",
  edits=[(K + "fx/runenv.go", '''			var remove bool

			for {
				if a.IsExpired(runenv.CurrentWorld()) {
					log.Printf("Action expired: id=%d, %s", id, a)
					remove = true
					break
				}
				if err != nil {
''', '''			remove := a.IsExpired(runenv.CurrentWorld())
			if remove {
				log.Printf("Action expired: id=%d, %s", id, a)
			}

			for !remove {
				if err != nil {
''')],
  test=FX + '''
type zact struct {
	SendShuttermintMessage
	mux     sync.Mutex
	expired bool
}

func (a *zact) IsExpired(observe.World) bool {
	a.mux.Lock()
	defer a.mux.Unlock()
	return a.expired
}

func TestZZDemo(t *testing.T) {
	cl, err := ethclient.Dial("http://127.0.0.1:1")
	if err != nil {
		t.Fatal(err)
	}
	runenv := NewRunEnv(nil, &contract.Caller{Ethclient: cl}, func() observe.World { return observe.World{} }, filepath.Join(t.TempDir(), "actions.gob"))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	a := &zact{}
	b := &zsend{}
	runenv.PendingActions.ActionMap[0] = b
	runenv.PendingActions.CurrentID = 1
	b.a = a
	ch := make(chan ActionID)
	go runenv.handleActions(ctx, ch)
	ch <- 0
	time.Sleep(500 * time.Millisecond)
	a.mux.Lock()
	a.expired = true
	a.mux.Unlock()
	for i := 0; i < 50; i++ {
		if len(runenv.PendingActions.SortedIDs()) == 0 {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	t.Fatal("an expired action is still being tried")
}

// zsend is a main chain action that cannot be sent.
type zsend struct {
	SkipCipherBatch
	a *zact
}

func (b *zsend) IsExpired(w observe.World) bool { return b.a.IsExpired(w) }
'''),
 dict(id="M01-odd-stride", property="M01", module="shuttermint", pkg="keyper/observe",
  needs="a look at the chain between an encrypted half step and the plain one after it",
  breaks="Receipts are fetched for every second half step counted from the last known one: after an odd number of half steps no receipt is seen any more until the number is even again.",
  edits=[(K + "observe/mainchain.go", '''	for halfStep := lastNumExecutionHalfSteps; halfStep < numExecutionHalfSteps; halfStep++ {
		if halfStep%2''', '''	for halfStep := lastNumExecutionHalfSteps; halfStep < numExecutionHalfSteps; halfStep += 2 {
		if halfStep%2''')],
  test='''
package observe

import (
	"bytes"
	"context"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/contract"
)

// zexec answers the calls to an executor contract with n half steps.
type zexec struct {
	bind.ContractBackend
	n   uint64
	abi abi.ABI
}

func (z *zexec) CodeAt(context.Context, common.Address, *big.Int) ([]byte, error) {
	return []byte{1}, nil
}

func (z *zexec) CallContract(_ context.Context, call ethereum.CallMsg, _ *big.Int) ([]byte, error) {
	if bytes.Equal(call.Data[:4], z.abi.Methods["numExecutionHalfSteps"].ID) {
		return z.abi.Methods["numExecutionHalfSteps"].Outputs.Pack(z.n)
	}
	m := z.abi.Methods["getReceipt"]
	args, err := m.Inputs.Unpack(call.Data[4:])
	if err != nil {
		return nil, err
	}
	return m.Outputs.Pack(contract.CipherExecutionReceipt{Executed: true, HalfStep: args[0].(uint64)})
}

func TestZZDemo(t *testing.T) {
	parsed, err := abi.JSON(strings.NewReader(contract.ExecutorContractABI))
	if err != nil {
		t.Fatal(err)
	}
	z := &zexec{abi: parsed}
	ec, err := contract.NewExecutorContract(common.Address{1}, z)
	if err != nil {
		t.Fatal(err)
	}
	mc := NewMainChain(0)
	for _, z.n = range []uint64{1, 4, 5, 8} {
		if err := mc.syncExecutionState(&contract.Caller{ExecutorContract: ec}, &bind.CallOpts{}); err != nil {
			t.Fatal(err)
		}
	}
	for h := uint64(0); h < 8; h += 2 {
		if _, ok := mc.CipherExecutionReceipts[h]; !ok {
			t.Fatalf("no receipt for half step %d", h)
		}
	}
}
'''),
 dict(id="M02-inactive-config-skipped", property="M02", module="shuttermint", pkg="keyper/observe",
  needs="an inactive config (batch span 0) after an active one",
  breaks="Batches under an inactive config are taken to be batches of the last active config before it.",
  edits=[(K + "observe/mainchain.go", '''		if config.StartBatchIndex <= batchIndex {
			if config.IsActive() {
				return i, true
			}
			return 0, false
		}
	}
	panic("illegal values in MainChain.Configs field")
''', '''		if config.IsActive() && config.StartBatchIndex <= batchIndex {
			return i, true
		}
	}
	return 0, false
''')],
  test='''
package observe

import (
	"testing"

	"github.com/shutter-network/shutter/shuttermint/contract"
)

func TestZZDemo(t *testing.T) {
	mc := NewMainChain(0)
	mc.BatchConfigs = []contract.BatchConfig{
		{}, {BatchSpan: 5, StartBlockNumber: 10}, {StartBlockNumber: 60, StartBatchIndex: 10}, {BatchSpan: 7, StartBlockNumber: 80, StartBatchIndex: 10},
	}
	if c, ok := mc.ConfigForBatchIndex(9); !ok || c.BatchSpan != 5 {
		t.Fatal("batch 9")
	}
	if c, ok := mc.ConfigForBatchIndex(10); !ok || c.BatchSpan != 7 {
		t.Fatal("batch 10")
	}
	mc.BatchConfigs = mc.BatchConfigs[:3]
	if _, ok := mc.ConfigForBatchIndex(10); ok {
		t.Fatal("batch 10 has no active config")
	}
}
'''),
 dict(id="M03-signature-in-place", property="M03", module="shuttermint", pkg="contract",
  needs="an authorisation that is used twice (an appeal that is retried, or two appeals with the same signature)",
  breaks="Converting a signature for the contracts changes the original: the second time the recovery id is wrong and the contract refuses the appeal.",
  edits=[("shuttermint/contract/signatures.go", '''	c := make([]byte, len(sig))
	copy(c, sig)
	c[64] += 27
''', '''	c := sig
	c[64] += 27
''')],
  test='''
package contract

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	sig := make([]byte, 65)
	sig[64] = 1
	a := SignaturesToContractFormat([][]byte{sig})
	b := SignaturesToContractFormat([][]byte{sig})
	if a[0][64] != 28 || !bytes.Equal(a[0], b[0]) || sig[64] != 1 {
		t.Fatal("the signature changes")
	}
}
'''),
 dict(id="M04-order-of-keypers", property="M04", module="shuttermint", pkg="contract",
  needs="a new config with the keypers of the contract's next config in another order",
  breaks="Keyper lists are compared as sets, so a config whose keypers only change places is not written.",
  edits=[("shuttermint/contract/config.go", '''	for i := range s1 {
		if s1[i] != s2[i] {
			return false
		}
	}
	return true
''', '''	members := make(map[common.Address]int)
	for i := range s1 {
		members[s1[i]]++
		members[s2[i]]--
	}
	for _, n := range members {
		if n != 0 {
			return false
		}
	}
	return true
''')],
  test='''
package contract

import (
	"context"
	"math/big"
	"reflect"
	"testing"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/accounts/abi/bind/backends"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shuttermint/medley/txbatch"
)

func TestZZDemo(t *testing.T) {
	key, err := crypto.GenerateKey()
	if err != nil {
		t.Fatal(err)
	}
	auth, err := bind.NewKeyedTransactorWithChainID(key, big.NewInt(1337))
	if err != nil {
		t.Fatal(err)
	}
	alloc := core.GenesisAlloc{auth.From: {Balance: big.NewInt(1000000000000000000)}}
	chain := backends.NewSimulatedBackend(alloc, 8000000)
	defer chain.Close()
	_, _, cc, err := DeployConfigContract(auth, chain, 10)
	if err != nil {
		t.Fatal(err)
	}
	chain.Commit()
	auth.GasLimit = 500000
	a, b, c := common.Address{1}, common.Address{2}, common.Address{3}
	for _, kps := range [][]common.Address{{a, b}, {b, a}, {b, a, c}, {c, a, b}} {
		bc := BatchConfig{Keypers: kps, Threshold: 1, BatchSpan: 5}
		nonce, err := chain.PendingNonceAt(context.Background(), auth.From)
		if err != nil {
			t.Fatal(err)
		}
		auth.Nonce = new(big.Int).SetUint64(nonce)
		batch := &txbatch.TXBatch{TransactOpts: auth}
		if err := cc.SetNextBatchConfig(context.Background(), batch, bc); err != nil {
			t.Fatal(err)
		}
		auth.Nonce = nil
		chain.Commit()
		got, err := cc.GetNextConfig(nil)
		if err != nil {
			t.Fatal(err)
		}
		if !reflect.DeepEqual(got.Keypers, kps) {
			t.Fatalf("the keypers are %v instead of %v", got.Keypers, kps)
		}
	}
}
'''),
 dict(id="M04-json-threshold", property="M04", module="shuttermint", pkg="contract",
  needs="a config file whose threshold exceeds the number of different keypers by using one of them twice, or the like: the check compares with a keyper list that is not the file's",
  breaks="The threshold is checked before the keypers of the file are taken over, against whatever the variable held before.",
  edits=[("shuttermint/contract/config.go", '''	bc.TargetAddress = common.Address(tmp.TargetAddress)
	bc.FeeReceiver = common.Address(tmp.FeeReceiver)

	keypers := []common.Address{}
''', '''	bc.TargetAddress = common.Address(tmp.TargetAddress)
	bc.FeeReceiver = common.Address(tmp.FeeReceiver)
	known := len(bc.Keypers)
	if known < len(tmp.Keypers) {
		known = len(tmp.Keypers)
	}

	keypers := []common.Address{}
'''), ("shuttermint/contract/config.go", '''	return validateThreshold(bc.Threshold, len(bc.Keypers))
}

// ReadJSONFile''', '''	return validateThreshold(bc.Threshold, known)
}

// ReadJSONFile''')],
  test='''
package contract

import (
	"encoding/json"
	"testing"

	"github.com/ethereum/go-ethereum/common"
)

func TestZZDemo(t *testing.T) {
	bc := BatchConfig{Keypers: []common.Address{{1}, {2}, {3}}, Threshold: 3}
	d, err := json.Marshal(BatchConfig{Keypers: []common.Address{{1}}, Threshold: 2})
	if err != nil {
		t.Fatal(err)
	}
	if json.Unmarshal(d, &bc) == nil {
		t.Fatalf("threshold %d accepted for %d keypers", bc.Threshold, len(bc.Keypers))
	}
}
'''),
]
