package appx

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	tmcrypto "github.com/tendermint/tendermint/proto/tendermint/crypto"

	"github.com/shutter-network/shutter/shuttermint/app"
)

func init() {
	log.SetOutput(io.Discard)
}

// Genesis describes a chain's first state.
type Genesis struct {
	KP    []string `json:"kp"`
	Thr   int64    `json:"thr"`
	Vals  []M      `json:"vals"`
	Dev   bool     `json:"dev"`
	Chain string   `json:"chain"`
}

// Node is one replica of the keyper chain application, living in its own directory.
type Node struct {
	App  *app.ShutterApp
	Gen  Genesis
	Dir  string
	path string
}

func NewNode(dir string, g Genesis) *Node {
	n := &Node{Gen: g, Dir: dir, path: filepath.Join(dir, "shutter.gob")}
	n.load()
	return n
}

func (n *Node) load() {
	a, err := app.LoadShutterAppFromFile(n.path)
	if err != nil {
		panic(fmt.Sprintf("cannot load state: %v", err))
	}
	n.App = &a
	if a.Info(abcitypes.RequestInfo{}).LastBlockHeight == 0 {
		n.App.DevMode = n.Gen.Dev
		n.initChain()
	}
}

func (n *Node) initChain() {
	var kp []common.Address
	for _, k := range n.Gen.KP {
		kp = append(kp, Addr(k))
	}
	st := M{"keypers": []string{}, "threshold": fmt.Sprintf("%d", Conc(n.Gen.Thr))}
	l := []string{}
	for _, a := range kp {
		l = append(l, a.Hex())
	}
	st["keypers"] = l
	b, _ := json.Marshal(st)
	var vu []abcitypes.ValidatorUpdate
	for _, v := range n.Gen.Vals {
		vu = append(vu, abcitypes.ValidatorUpdate{
			PubKey: tmcrypto.PublicKey{Sum: &tmcrypto.PublicKey_Ed25519{Ed25519: ValKey(v["pk"].(string))}},
			Power:  num(v["pw"]),
		})
	}
	n.App.InitChain(abcitypes.RequestInitChain{ChainId: n.Gen.Chain, AppStateBytes: b, Validators: vu})
}

// Crash drops the replica's memory and reloads it from its state file.
func (n *Node) Crash() (h int64, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	n.App = nil
	n.load()
	return n.App.Info(abcitypes.RequestInfo{}).LastBlockHeight, nil
}

func codeOf(c uint32) int {
	if c == 0 {
		return 0
	}
	return 1
}

func (n *Node) DeliverRaw(tx []byte) (resp abcitypes.ResponseDeliverTx, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return n.App.DeliverTx(abcitypes.RequestDeliverTx{Tx: tx}), nil
}

// Deliver executes a transaction and returns the abstract response.
func (n *Node) Deliver(tx []byte) M {
	resp, err := n.DeliverRaw(tx)
	if err != nil {
		return M{"code": 9, "ev": []M{}}
	}
	evs := []M{}
	for _, e := range resp.Events {
		evs = append(evs, DescribeEvent(e))
	}
	return M{"code": codeOf(resp.Code), "ev": evs}
}

func (n *Node) Check(tx []byte) (out M) {
	defer func() {
		if r := recover(); r != nil {
			out = M{"code": 9, "ev": []M{}}
		}
	}()
	return M{"code": codeOf(n.App.CheckTx(abcitypes.RequestCheckTx{Tx: tx}).Code), "ev": []M{}}
}

func (n *Node) Begin() { n.App.BeginBlock(abcitypes.RequestBeginBlock{}) }

func (n *Node) EndRaw(h int64) []abcitypes.ValidatorUpdate {
	return n.App.EndBlock(abcitypes.RequestEndBlock{Height: h}).ValidatorUpdates
}

func (n *Node) End(h int64) (out M) {
	defer func() {
		if r := recover(); r != nil {
			out = M{"upd": []M{{"pk": "panic", "pw": 0}}}
		}
	}()
	l := []M{}
	for _, u := range n.EndRaw(h) {
		l = append(l, M{"pk": ValName(u.PubKey.GetEd25519()), "pw": u.Power})
	}
	return M{"upd": l}
}

// Commit commits, saving to disk if save is set.
func (n *Node) Commit(save bool) {
	if save {
		app.PersistMinDuration = 0
	} else {
		app.PersistMinDuration = 1000 * time.Hour
	}
	n.App.Commit()
}

func (n *Node) Height() int64 { return n.App.Info(abcitypes.RequestInfo{}).LastBlockHeight }

// TraceWriter writes one JSON object per line.
type TraceWriter struct {
	f *os.File
	e *json.Encoder
	N int
}

func NewTraceWriter(path string) *TraceWriter {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	e := json.NewEncoder(f)
	e.SetEscapeHTML(false)
	return &TraceWriter{f: f, e: e}
}

func (t *TraceWriter) Put(m M) {
	if err := t.e.Encode(m); err != nil {
		panic(err)
	}
	t.N++
}

func (t *TraceWriter) Close() {
	if err := t.f.Close(); err != nil {
		panic(err)
	}
}

// ASCII reports whether s is plain enough to go into a trace.
func ASCII(s string) bool {
	return strings.IndexFunc(s, func(r rune) bool { return r < 32 || r > 126 }) < 0
}
