package main

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/gob"
	"errors"
	"fmt"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/shut/appx"
	"verif/shut/ethsim"
	"verif/shut/fake"
	"verif/shut/tmrpc"
	"verif/shut/tool"
)

// kpr is a keyper: a directory with its configuration and files, and at times a process
type kpr struct {
	s      *seg
	n      int // of its key
	dir    string
	db     string
	follow uint64
	cmd    *exec.Cmd
	ended  chan error
	tm     *tmrpc.Server
	eth    *httptest.Server
	enode  *ethsim.Node
	log    *bytes.Buffer
	life   *life
}

func (k *kpr) name() string { return fmt.Sprint("k", k.n+1) }
func (k *kpr) up() bool     { return k.cmd != nil }

// waiting is a message waiting to be put on the keyper chain
type waiting struct {
	ctx context.Context
	k   *kpr // nil: the operator
	tx  []byte
	ans chan *ctypes.ResultBroadcastTxCommit
}

type tmtypesTx = tmtypes.Tx

var errGone = errors.New("connection refused")

// backend is a keyper's (or, if k is nil, the operator's) node of the keyper chain
type backend struct {
	*fake.Node
	s *seg
	k *life
}

// life is a process of a keyper
type life struct { // gone (under s.mu): its requests do not reach anyone any more
	k    *kpr
	gone bool
}

func (b *backend) BlockchainInfo(ctx context.Context, min, max int64) (*ctypes.ResultBlockchainInfo, error) {
	return &ctypes.ResultBlockchainInfo{BlockMetas: []*tmtypes.BlockMeta{{Header: tmtypes.Header{ChainID: chainID}}}}, nil
}

func (b *backend) BroadcastTxCommit(ctx context.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
	s := b.s
	w := &waiting{ctx: ctx, tx: tx, ans: make(chan *ctypes.ResultBroadcastTxCommit, 1)}
	s.mu.Lock()
	if b.k != nil {
		if b.k.gone {
			s.mu.Unlock()
			return nil, errGone
		}
		s.said(b.k.k, tx)
		w.k = b.k.k
	}
	s.pool = append(s.pool, w)
	s.mu.Unlock()
	select {
	case <-ctx.Done():
		return nil, ctx.Err()
	case r := <-w.ans:
		if r == nil {
			return nil, errGone
		}
		return r, nil
	}
}

// said: a keyper has sent a message. From then on everyone may know what it says.
func (s *seg) said(k *kpr, tx []byte) {
	raw, err := base64.RawURLEncoding.DecodeString(string(tx))
	if err != nil {
		return
	}
	m, err := shmsg.GetMessage(raw)
	if err != nil {
		return
	}
	if x := m.Msg.GetEpochSecretKeyShare(); x != nil {
		s.put(M{"op": "share", "by": k.name(), "b": x.Epoch})
	}
}

const toml = `BatcherContract = "%s"
ConfigContract = "%s"
DepositContract = "%s"
ExecutorContract = "%s"
KeyBroadcastContract = "%s"
KeyperSlasher = "%s"
EthereumURL = "%s"
ShuttermintURL = "%s"
DBDir = "db"
DKGPhaseLength = %d
ExecutionStaggering = %d
MainChainFollowDistance = %d
GasPriceMultiplier = 1.5
EncryptionKey = "%x"
SigningKey = "%x"
ValidatorSeed = "%x"
`

func seed(n int) []byte { return crypto.Keccak256([]byte(fmt.Sprint("validator", n))) }

func validator(n int) []byte {
	return ed25519.NewKeyFromSeed(seed(n)).Public().(ed25519.PublicKey)
}

func (k *kpr) start() {
	s := k.s
	must(os.MkdirAll(filepath.Join(k.dir, "db"), 0o755))
	l := &life{k: k}
	k.tm = tmrpc.New(&backend{s.node, s, l})
	k.enode = s.sim.NewNode()
	k.enode.Follow = false
	k.enode.SetHead(s.sim.Head())
	k.enode.OnSend = func(tx *types.Transaction, from common.Address) error {
		s.mu.Lock()
		defer s.mu.Unlock()
		if l.gone {
			return errGone
		}
		return nil
	}
	k.eth = httptest.NewServer(k.enode.Server().WebsocketHandler([]string{"*"}))
	c := s.c
	conf := fmt.Sprintf(toml, c.Batcher.Hex(), c.Config.Hex(), c.Deposit.Hex(), c.Executor.Hex(), c.Key.Hex(), c.Slasher.Hex(),
		"ws"+strings.TrimPrefix(k.eth.URL, "http"), k.tm.URL, s.L, s.stagger, k.follow,
		crypto.FromECDSA(appx.EncKey[k.n].ExportECDSA()), crypto.FromECDSA(appx.Keys[k.n]), seed(k.n))
	must(os.WriteFile(filepath.Join(k.dir, "config.toml"), []byte(conf), 0o600))
	k.log = &bytes.Buffer{}
	k.cmd = exec.Command(tool.Bin, "keyper", "--config", filepath.Join(k.dir, "config.toml"))
	k.cmd.Dir = s.dir
	k.cmd.Env = []string{"HOME=" + s.dir, "PATH=/usr/bin:/bin", "GOMAXPROCS=2"}
	k.cmd.Stdout, k.cmd.Stderr = nil, k.log
	k.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(k.cmd.Start())
	k.ended = make(chan error, 1)
	go func(c *exec.Cmd, ch chan error) { ch <- c.Wait() }(k.cmd, k.ended)
	k.life = l
	s.put(M{"op": "up", "by": k.name()})
}

// stop ends the process at once, or asks it to end
func (k *kpr) stop(how syscall.Signal) {
	s := k.s
	if how == syscall.SIGKILL {
		s.mu.Lock()
		k.life.gone = true
		s.mu.Unlock()
	}
	_ = k.cmd.Process.Signal(how)
	select {
	case <-k.ended:
	case <-time.After(patience):
		_ = k.cmd.Process.Kill()
		<-k.ended
		s.trouble("a keyper does not stop when told to")
	}
	s.mu.Lock()
	k.life.gone = true
	s.mu.Unlock()
	k.cleanup()
	s.put(M{"op": "down", "by": k.name()})
}

func (k *kpr) cleanup() {
	k.cmd = nil
	go k.tm.CloseClientConnections()
	go k.eth.CloseClientConnections()
}

// ---- what a keyper has on disk

type storedState struct {
	State     *keyper.State
	Shutter   *observe.Shutter
	MainChain *observe.MainChain
}

type disk struct {
	ok     bool
	h, m   int64
	queued bool // something is still to be sent
}

func (k *kpr) read() disk {
	dir := k.db
	if dir == "" {
		dir = filepath.Join(k.dir, "db")
	}
	a, err := os.ReadFile(filepath.Join(dir, "state.gob"))
	if err != nil {
		return disk{}
	}
	var st storedState
	if gob.NewDecoder(bytes.NewReader(a)).Decode(&st) != nil || st.State == nil || st.Shutter == nil || st.MainChain == nil {
		return disk{}
	}
	d := disk{ok: true, h: st.Shutter.CurrentBlock, m: int64(st.MainChain.CurrentBlock)}
	b, err := os.ReadFile(filepath.Join(dir, "actions.gob"))
	if err != nil {
		d.queued = len(st.State.Actions) > 0 || st.State.ActionCounter > 0
		return d
	}
	tmp := filepath.Join(k.dir, "queue.copy")
	must(os.WriteFile(tmp, b, 0o600))
	pa := fx.NewPendingActions(tmp)
	if pa.Load() != nil {
		return disk{}
	}
	d.queued = len(pa.SortedIDs()) > 0 || uint64(pa.CurrentID) != st.State.ActionCounter+uint64(len(st.State.Actions))
	return d
}

// settled: it has seen both chains as they are, and has nothing left to send
func (k *kpr) settled() bool {
	d := k.read()
	head := int64(k.s.sim.Head()) - int64(k.follow)
	return d.ok && d.h == int64(k.s.height()) && d.m >= head && !d.queued
}
