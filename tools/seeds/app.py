PRE = '''
package app_test

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"path/filepath"
	"reflect"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

var (
	_ = big.NewInt
	_ = filepath.Join
	_ = reflect.DeepEqual
	_ = ecies.ImportECDSA
	_ = ed25519.PublicKeySize
	_ = time.Second
	_ tmcrypto.PublicKey
)

func key(i int) *ecdsa.PrivateKey {
	k, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprintf("key %d", i))))
	if err != nil {
		panic(err)
	}
	return k
}

func addr(is ...int) (res []common.Address) {
	for _, i := range is {
		res = append(res, crypto.PubkeyToAddress(key(i).PublicKey))
	}
	return
}

func initChain(a *app.ShutterApp, thr int, kp ...int) {
	l := []string{}
	for _, k := range addr(kp...) {
		l = append(l, k.Hex())
	}
	b, _ := json.Marshal(map[string]interface{}{"keypers": l, "threshold": fmt.Sprint(thr)})
	a.InitChain(abcitypes.RequestInitChain{ChainId: "c", AppStateBytes: b})
}

func enc(k int, nonce uint64, m *shmsg.Message) []byte {
	b, err := shmsg.SignMessage(&shmsg.MessageWithNonce{ChainId: []byte("c"), RandomNonce: nonce, Msg: m}, key(k))
	if err != nil {
		panic(err)
	}
	return []byte(base64.RawURLEncoding.EncodeToString(b))
}

var nonce uint64 = 1000

func send(a *app.ShutterApp, k int, m *shmsg.Message) abcitypes.ResponseDeliverTx {
	nonce++
	return a.DeliverTx(abcitypes.RequestDeliverTx{Tx: enc(k, nonce, m)})
}

func check(a *app.ShutterApp, tx []byte) bool {
	return a.CheckTx(abcitypes.RequestCheckTx{Tx: tx}).Code == 0
}

func config(start uint64, index uint64, thr uint64, kp ...int) *shmsg.Message {
	return shmsg.NewBatchConfig(start, addr(kp...), thr, common.Address{1}, index, false, false)
}

func checkin(k int) *shmsg.Message {
	return shmsg.NewCheckIn(crypto.Keccak256([]byte{byte(k)}), ecies.ImportECDSAPublic(&key(k).PublicKey))
}
'''
SEEDS = [
dict(id="A03-failed-replay", property="A03", module="shuttermint", pkg="app",
  needs="a delivered transaction that the application rejects (e.g. a vote that is premature) is delivered again in a later block, when it would succeed",
  breaks="the nonce of a rejected transaction is not remembered, so anybody can replay the transaction later and it then takes effect, e.g. a vote its sender cast once counts at another time",
  edits=[("shuttermint/app/app.go", "	app.NonceTracker.Add(signer, msg.RandomNonce)\n	return app.deliverMessage(msg.Msg, signer)",
   "	resp := app.deliverMessage(msg.Msg, signer)\n	if resp.Code == 0 {\n		app.NonceTracker.Add(signer, msg.RandomNonce)\n	}\n	return resp")],
  test=PRE + '''
func TestZZDemo(t *testing.T) {
	a := app.NewShutterApp()
	initChain(a, 1, 1, 2, 3)
	tx := enc(4, 7, shmsg.NewEonStartVote(5))
	if a.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx}).Code == 0 {
		t.Fatal("outsider's vote accepted")
	}
	if send(a, 1, config(5, 1, 1, 4, 5)).Code != 0 {
		t.Fatal("config not accepted")
	}
	if r := a.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx}); r.Code == 0 || len(r.Events) > 0 {
		t.Fatal("replayed transaction took effect")
	}
}
'''),
dict(id="A07-wrong-vote-cleared", property="A07", module="shuttermint", pkg="app",
  needs="an eon restart is voted for in a config that is not the newest one, and another single vote follows",
  breaks="the decided vote of an older config is not cleared, so each further vote of a single keyper starts yet another eon",
  edits=[("shuttermint/app/app.go", "delete(app.EonStartVotings, config.ConfigIndex)", "delete(app.EonStartVotings, app.LastConfig().ConfigIndex)")],
  test=PRE + '''
func TestZZDemo(t *testing.T) {
	a := app.NewShutterApp()
	initChain(a, 2, 1, 2, 3)
	for _, k := range []int{1, 2} {
		if send(a, k, config(100, 1, 2, 1, 2, 3)).Code != 0 {
			t.Fatal("vote rejected")
		}
	}
	started := 0
	for _, k := range []int{1, 2, 3} {
		started += len(send(a, k, shmsg.NewEonStartVote(50)).Events)
	}
	if started != 1 {
		t.Fatalf("%d eons started by three votes with threshold 2", started)
	}
}
'''),
dict(id="A02-any-checked-in", property="A02", module="shuttermint", pkg="app",
  needs="a new config whose keypers have not checked in replaces one whose keypers have",
  breaks="check-ins of keypers of other configs count, so the validator set is handed to a config none of whose keypers checked in (all power at the placeholder: the chain halts)",
  edits=[("shuttermint/app/app.go", "	for _, k := range keypers {\n		_, ok := app.Identities[k]\n		if ok {\n			numCheckedIn++\n		}\n	}\n	return numCheckedIn",
     "	for _, id := range app.Identities {\n		if id != NonExistentValidator && len(keypers) > 0 {\n			numCheckedIn++\n		}\n	}\n	return numCheckedIn")],
  test=PRE + '''
func TestZZDemo(t *testing.T) {
	a := app.NewShutterApp()
	initChain(a, 2, 1, 2, 3)
	for k := 1; k <= 3; k++ {
		if send(a, k, checkin(k)).Code != 0 {
			t.Fatal("check-in rejected")
		}
	}
	a.EndBlock(abcitypes.RequestEndBlock{Height: 1})
	for _, k := range []int{1, 2} {
		send(a, k, config(100, 1, 2, 4, 5, 6))
	}
	for _, k := range []int{1, 2} {
		if send(a, k, shmsg.NewBatchConfigStarted(1)).Code != 0 {
			t.Fatal("attestation rejected")
		}
	}
	if u := a.EndBlock(abcitypes.RequestEndBlock{Height: 2}).ValidatorUpdates; len(u) != 0 {
		t.Fatalf("validators changed though no keyper of the config checked in: %v", u)
	}
}
'''),
dict(id="A06-partial-register", property="A06", module="shuttermint", pkg="app",
  needs="a poly eval message with one good and one bad receiver is rejected, and its sender then sends a correct one",
  breaks="a rejected message leaves traces: its first receivers count as served, so the correct message is rejected",
  edits=[("shuttermint/app/dkg.go", '''receiver %s already present", sender.Hex(), receiver.Hex())
		}
	}

	for _, receiver := range msg.Receivers {
		dkg.PolyEvalsSeen''', '''receiver %s already present", sender.Hex(), receiver.Hex())
		}
		dkg.PolyEvalsSeen''')],
  test=PRE + '''
func TestZZDemo(t *testing.T) {
	a := app.NewShutterApp()
	initChain(a, 1, 1, 2, 3)
	send(a, 1, config(5, 1, 2, 1, 2, 3))
	if send(a, 1, shmsg.NewPolyEval(1, addr(2, 9), [][]byte{{1}, {2}})).Code == 0 {
		t.Fatal("bad message accepted")
	}
	if r := send(a, 1, shmsg.NewPolyEval(1, addr(2, 3), [][]byte{{1}, {2}})); r.Code != 0 {
		t.Fatal("good message rejected:", r.Log)
	}
}
'''),
dict(id="A08-config-refreshed", property="A08", module="shuttermint", pkg="app",
  needs="a config that takes over a batch is accepted after the first signature for the batch",
  breaks="the keypers allowed to sign a batch change halfway through",
  edits=[("shuttermint/app/app.go", "		bs.Config = app.getConfig(batchIndex)\n	}\n", "	}\n	bs.Config = app.getConfig(batchIndex)\n")],
  test=PRE + '''
func TestZZDemo(t *testing.T) {
	a := app.NewShutterApp()
	initChain(a, 1, 1, 2, 3)
	if send(a, 1, shmsg.NewDecryptionSignature(50, []byte{1})).Code != 0 {
		t.Fatal("rejected")
	}
	if send(a, 1, config(40, 1, 1, 4, 5)).Code != 0 {
		t.Fatal("config rejected")
	}
	if send(a, 2, shmsg.NewDecryptionSignature(50, []byte{1})).Code != 0 {
		t.Fatal("signature of a keyper of the batch's config rejected")
	}
}
'''),
dict(id="A04-duplicate-counts", property="A04", module="shuttermint", pkg="app",
  needs="the same transaction is seen several times by the mempool check (gossip) before ten different ones of that sender",
  breaks="a repeated (rejected) transaction counts towards the sender's limit, so fresh transactions are turned away",
  edits=[("shuttermint/app/checktx.go", '''	if !s.NonceTracker.Check(sender, msg.RandomNonce) {
		return false
	}

	s.TxCounts[sender]++
''', '''	s.TxCounts[sender]++
	if !s.NonceTracker.Check(sender, msg.RandomNonce) {
		return false
	}

''')],
  test=PRE + '''
func TestZZDemo(t *testing.T) {
	a := app.NewShutterApp()
	initChain(a, 1, 1, 2, 3)
	for n := uint64(1); n <= 10; n++ {
		tx := enc(1, n, shmsg.NewEonStartVote(5))
		if !check(a, tx) {
			t.Fatalf("transaction %d not admitted", n)
		}
		if check(a, tx) {
			t.Fatalf("transaction %d admitted twice", n)
		}
	}
	if check(a, enc(1, 11, shmsg.NewEonStartVote(5))) {
		t.Fatal("eleventh admitted")
	}
}
'''),
dict(id="A05-identities-order", property="A05", module="shuttermint", pkg="app",
  needs="several validators change in the same block",
  breaks="replicas report the validator updates of the same block in different orders (iteration order of a map), which splits the chain",
  edits=[("shuttermint/app/powermap.go", "return bytes.Compare(validators[i].PubKey.GetEd25519(), validators[j].PubKey.GetEd25519()) < 0",
     "a, b := validators[i], validators[j]\n		if a.Power != b.Power {\n			return a.Power > b.Power\n		}\n		return bytes.Compare(a.PubKey.GetEd25519()[:1], b.PubKey.GetEd25519()[:1]) < 0")],
  test=PRE + '''
func TestZZDemo(t *testing.T) {
	run := func() []abcitypes.ValidatorUpdate {
		a := app.NewShutterApp()
		initChain(a, 1, 1, 2, 3, 4, 5, 6)
		for k := 1; k <= 6; k++ {
			pk := crypto.Keccak256([]byte{byte(k)})
			pk[0] = 0
			if send(a, k, shmsg.NewCheckIn(pk, ecies.ImportECDSAPublic(&key(k).PublicKey))).Code != 0 {
				t.Fatal("rejected")
			}
		}
		send(a, 1, config(5, 1, 1, 1, 2, 3, 4, 5, 6))
		send(a, 1, shmsg.NewBatchConfigStarted(1))
		return a.EndBlock(abcitypes.RequestEndBlock{Height: 1}).ValidatorUpdates
	}
	first := run()
	if len(first) != 6 {
		t.Fatalf("%d updates", len(first))
	}
	for i := 0; i < 60; i++ {
		if !reflect.DeepEqual(first, run()) {
			t.Fatal("replicas disagree on the order of validator updates")
		}
	}
}
'''),
dict(id="A01-vote-changed-config", property="A01", module="shuttermint", pkg="app",
  needs="votes for two different next configs, the one reaching the threshold not being the one voted for last",
  breaks="the config added is compared only by index: a vote for the same keypers with another threshold counts, so one of two configs with a vote each is accepted",
  edits=[("shuttermint/app/configvoting.go", "reflect.DeepEqual(bc, batchConfig)", "bc.ConfigIndex == batchConfig.ConfigIndex && bc.StartBatchIndex == batchConfig.StartBatchIndex && reflect.DeepEqual(bc.Keypers, batchConfig.Keypers)")],
  test=PRE + '''
func TestZZDemo(t *testing.T) {
	a := app.NewShutterApp()
	initChain(a, 2, 1, 2, 3)
	if r := send(a, 1, config(5, 1, 1, 1, 2)); r.Code != 0 || len(r.Events) > 0 {
		t.Fatal("first vote")
	}
	if r := send(a, 2, config(5, 1, 2, 1, 2)); len(r.Events) > 0 {
		t.Fatal("one vote each for two different configs: accepted")
	}
}
'''),
]
