package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/contract/erc1820"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
	"verif/shut/ethsim"
	"verif/shut/fake"
	"verif/shut/tmrpc"
	"verif/shut/tool"
)

const (
	nfiles = 2
	limit  = 60 * time.Second
)

var (
	names = []string{"Config", "KeyBroadcast", "FeeBank", "Batcher", "Executor", "Token", "Deposit", "KeyperSlasher", "TargetProxy", "Target"}
	ether = new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)
	gwei  = big.NewInt(1_000_000_000)

	proxyABI  = ethsim.ABI(contract.TargetProxyContractABI)
	targetABI = ethsim.ABI(contract.TestTargetContractABI)
)

type addrs = map[string]common.Address

// plan is the last config of a set
type plan struct{ start, block uint64 }

type seg struct {
	r     *mrand.Rand
	buf   bytes.Buffer
	sim   *ethsim.Sim
	node  *ethsim.Node
	web   *httptest.Server
	dir   string
	lazy  bool
	sets  []addrs
	who   []int // who deployed them
	plans map[int]*plan
	tm    *tmrpc.Server
	mu    sync.Mutex
	sent  []M
	ans   []string
	id    string // of the chain
}

// backend answers what the commands ask a tendermint node.
type backend struct {
	*fake.Node
	s *seg
}

func (b *backend) BlockchainInfo(ctx context.Context, min, max int64) (*ctypes.ResultBlockchainInfo, error) {
	return &ctypes.ResultBlockchainInfo{BlockMetas: []*tmtypes.BlockMeta{{Header: tmtypes.Header{ChainID: b.s.id}}}}, nil
}

func (b *backend) BroadcastTxCommit(ctx context.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
	s := b.s
	s.mu.Lock()
	defer s.mu.Unlock()
	s.sent = append(s.sent, s.describe(tx))
	a := "ok"
	if n := len(s.sent); n <= len(s.ans) {
		a = s.ans[n-1]
	}
	res := &ctypes.ResultBroadcastTxCommit{Height: 7}
	switch a {
	case "check":
		res.CheckTx = abcitypes.ResponseCheckTx{Code: 1 + uint32(s.r.Intn(3)), Log: "no"}
	case "deliver":
		res.DeliverTx = abcitypes.ResponseDeliverTx{Code: 1 + uint32(s.r.Intn(3)), Log: "no"}
	case "down":
		return nil, errors.New("timed out waiting for tx to be included in a block")
	}
	return res, nil
}

// describe tells what a transaction says.
func (s *seg) describe(tx []byte) M {
	raw, err := base64.RawURLEncoding.DecodeString(string(tx))
	if err != nil {
		return M{"k": "undecodable"}
	}
	from, err := shmsg.GetSigner(raw)
	if err != nil {
		return M{"k": "unsigned"}
	}
	mn, err := shmsg.GetMessage(raw)
	if err != nil {
		return M{"k": "undecodable"}
	}
	m := M{"from": who(from), "chain": string(mn.ChainId) == s.id, "k": "other"}
	if c := mn.Msg.GetBatchConfig(); c != nil {
		kp := []int{}
		for _, k := range c.Keypers {
			kp = append(kp, who(common.BytesToAddress(k)))
		}
		set := 0
		for i, x := range s.sets {
			if x["Config"] == common.BytesToAddress(c.ConfigContractAddress) {
				set = i + 1
			}
		}
		m["k"], m["start"], m["kp"], m["thr"], m["set"] = "config", fmt.Sprint(c.StartBatchIndex), kp, fmt.Sprint(c.Threshold), set
		m["i"], m["started"], m["updated"] = fmt.Sprint(c.ConfigIndex), c.Started, c.ValidatorsUpdated
	} else if c := mn.Msg.GetBatchConfigStarted(); c != nil {
		m["k"], m["i"] = "started", fmt.Sprint(c.BatchConfigIndex)
	}
	return m
}

func who(a common.Address) int {
	for i := 0; i < 16; i++ {
		if ethsim.Addr(i) == a {
			return i
		}
	}
	return -1
}

func newSeg(r *mrand.Rand) *seg {
	s := &seg{r: r, sim: ethsim.New(), lazy: r.Intn(3) == 0, plans: map[int]*plan{}, id: fmt.Sprint("shutter-", r.Intn(1000))}
	s.sim.Fees = true
	s.sim.Price = new(big.Int).Mul(big.NewInt(2+8*int64(r.Intn(2))), gwei)
	s.sim.Unseal()
	s.sim.Mine()
	s.node = s.sim.NewNode()
	s.node.OnSent = func(_ *types.Transaction, _ common.Address) {
		if !s.lazy {
			s.sim.Mine()
		}
	}
	s.web = httptest.NewServer(s.node.Server())
	s.tm = tmrpc.New(&backend{&fake.Node{}, s})
	var err error
	s.dir, err = os.MkdirTemp(base, "launchdrv")
	must(err)
	s.logm(M{"op": "reset", "files": nfiles, "reg": s.reg()})
	return s
}

func (s *seg) close() {
	s.web.Close()
	s.tm.Close()
	_ = os.RemoveAll(s.dir)
}

func (s *seg) logm(m M) {
	b, err := json.Marshal(m)
	must(err)
	s.buf.Write(b)
	s.buf.WriteByte('\n')
}

func (s *seg) reg() bool { return s.sim.Code(erc1820.ContractAddress) > 0 }

func (s *seg) path(i int) string { return filepath.Join(s.dir, fmt.Sprintf("contracts%d.json", i)) }

// file tells which set of contracts a file names: 0: there is none, -1: it is something else
func (s *seg) file(i int) int {
	b, err := os.ReadFile(s.path(i))
	if err != nil {
		return 0
	}
	x := map[string]string{}
	if json.Unmarshal(b, &x) != nil || len(x) != len(names) {
		return -1
	}
	for k, c := range s.sets {
		same := true
		for _, n := range names {
			same = same && x[n+"Contract"] == c[n].Hex() // checksummed
		}
		if same {
			return k + 1
		}
	}
	return -1
}

func (s *seg) files() []int {
	l := []int{}
	for i := 1; i <= nfiles; i++ {
		l = append(l, s.file(i))
	}
	return l
}

// get asks a contract; "?" stands for no answer
func (s *seg) get(a common.Address, ab *abi.ABI, method string, args ...interface{}) interface{} {
	ok, ret := s.sim.Ask(a, ethsim.Pack(ab, method, args...))
	if !ok {
		return "?"
	}
	l, err := ab.Unpack(method, ret)
	if err != nil || len(l) != 1 {
		return "?"
	}
	return l[0]
}

// wiring tells how the contracts of a set refer to each other and to their owner
func (s *seg) wiring(c addrs) M {
	name := func(x interface{}) string {
		a, ok := x.(common.Address)
		if !ok {
			return fmt.Sprint(x)
		}
		for _, n := range names {
			if c[n] == a {
				return n
			}
		}
		if i := who(a); i >= 0 {
			return fmt.Sprint("key", i)
		}
		return "0x"
	}
	g := func(n string, ab *abi.ABI, method string, args ...interface{}) string {
		return name(s.get(c[n], ab, method, args...))
	}
	return M{
		"Config":        M{"owner": g("Config", ethsim.ConfigABI, "owner"), "headsup": g("Config", ethsim.ConfigABI, "configChangeHeadsUpBlocks"), "n": g("Config", ethsim.ConfigABI, "numConfigs")},
		"KeyBroadcast":  M{"config": g("KeyBroadcast", ethsim.KeyABI, "configContract")},
		"FeeBank":       M{"zero": g("FeeBank", ethsim.FeeBankABI, "deposits", ethsim.Addr(3))},
		"Batcher":       M{"owner": g("Batcher", ethsim.BatcherABI, "owner"), "config": g("Batcher", ethsim.BatcherABI, "configContract"), "bank": g("Batcher", ethsim.BatcherABI, "feeBankContract"), "fee": g("Batcher", ethsim.BatcherABI, "minFee")},
		"Token":         M{"symbol": g("Token", ethsim.TokenABI, "decimals"), "owned": g("Token", ethsim.TokenABI, "totalSupply") == g("Token", ethsim.TokenABI, "balanceOf", c["deployer"])},
		"Deposit":       M{"token": g("Deposit", ethsim.DepositABI, "token"), "slasher": g("Deposit", ethsim.DepositABI, "slasher")},
		"Executor":      M{"config": g("Executor", ethsim.ExecutorABI, "configContract"), "batcher": g("Executor", ethsim.ExecutorABI, "batcherContract"), "deposit": g("Executor", ethsim.ExecutorABI, "depositContract"), "done": g("Executor", ethsim.ExecutorABI, "numExecutionHalfSteps")},
		"KeyperSlasher": M{"appeal": g("KeyperSlasher", ethsim.SlasherABI, "appealBlocks"), "config": g("KeyperSlasher", ethsim.SlasherABI, "configContract"), "executor": g("KeyperSlasher", ethsim.SlasherABI, "executorContract"), "deposit": g("KeyperSlasher", ethsim.SlasherABI, "depositContract")},
		"TargetProxy":   M{"executor": g("TargetProxy", proxyABI, "executor")},
		"Target":        M{"executor": g("Target", targetABI, "executor")},
	}
}

func (s *seg) run(args ...string) tool.Result {
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		t := time.NewTicker(150 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stop:
				return
			case <-t.C:
				if s.lazy {
					s.sim.Mine()
				}
			}
		}
	}()
	r := tool.Run(s.dir, nil, limit, args...)
	close(stop)
	<-done
	s.sim.Mine()
	if r.Crash {
		s.logm(M{"op": "trouble", "what": args[0] + " panics", "err": clip(r.Err)})
	} else if r.Hangs {
		s.logm(M{"op": "trouble", "what": args[0] + " does not end", "err": clip(r.Err)})
	}
	return r
}

func clip(x string) string {
	if len(x) > 200 {
		return x[len(x)-200:]
	}
	return x
}

var printed = regexp.MustCompile(`(?m)^ *([A-Za-z]+): (0x[0-9a-fA-F]{40})$`)

// deploy executes the command. money: what the deployer has, in thousandths of an ether
func (s *seg) deploy(from, file int, noerc bool, price string, bad string, fail int, money int64) {
	if money >= 0 {
		s.sim.SetBalance(ethsim.Addr(from), new(big.Int).Mul(big.NewInt(money), new(big.Int).Quo(ether, big.NewInt(1000))))
		s.sim.Mine()
	}
	key := hex.EncodeToString(crypto.FromECDSA(ethsim.Key(from)))
	if s.r.Intn(2) == 0 {
		key = "0x" + key
	}
	url := s.web.URL
	switch bad {
	case "key":
		key = []string{key[:len(key)-1], key + "00", "key", "0x"}[s.r.Intn(4)]
	case "price":
		price = []string{"-1", "x", "1.5", "0x10"}[s.r.Intn(4)]
	case "url":
		url = []string{"http://127.0.0.1:1", "gopher://x"}[s.r.Intn(2)]
	}
	args := []string{"deploy", "-k", key, "-e", url}
	if noerc {
		args = append(args, "--no-erc1820")
	}
	if price != "" {
		args = append(args, "--gas-price", price)
	}
	unwritable := false
	if file > 0 {
		p := s.path(file)
		if bad == "" && s.r.Intn(12) == 0 {
			p, unwritable = filepath.Join(s.dir, "nowhere", "contracts.json"), true
		} else if s.r.Intn(2) == 0 {
			p = filepath.Base(p)
		}
		args = append(args, "--output", p)
	}
	switch bad {
	case "flag":
		args = append(args, "--no-such-flag")
	case "arg":
		args = append(args, "extra")
	case "nokey":
		args = append([]string{"deploy"}, args[3:]...)
	}
	before := len(s.sim.Sent())
	has := s.sim.Balance(ethsim.Addr(from))
	reg := s.reg()
	s.node.FailAt(fail)
	r := s.run(args...)
	fault := fail > 0 && s.node.Failed() > 0
	s.node.FailAt(0)
	p := new(big.Int).Set(s.sim.Price)
	if x, ok := new(big.Int).SetString(price, 10); ok && price != "" {
		p.Mul(x, gwei)
	}
	txs := s.sim.Sent()[before:]
	prices, mine := map[string]bool{}, 0
	for _, t := range txs {
		if t.From == ethsim.Addr(from) && t.Tx.To() == nil {
			mine++
			prices[t.Tx.GasPrice().String()] = true
		}
	}
	m := M{"op": "deploy", "from": from, "file": file, "noerc": noerc, "bad": bad != "", "fault": fault, "unwritable": unwritable, "ok": r.OK, "sent": len(txs), "made": mine,
		"price": len(prices) == 0 || len(prices) == 1 && prices[p.String()],
		// enough for twice what it takes; not even enough for the config contract
		"rich": has.Cmp(new(big.Int).Add(new(big.Int).Mul(p, big.NewInt(60_000_000)), new(big.Int).Quo(ether, big.NewInt(5)))) > 0,
		"poor": has.Cmp(new(big.Int).Mul(p, big.NewInt(1_000_000))) < 0,
		"reg":  s.reg(), "wasreg": reg}
	c := addrs{"deployer": ethsim.Addr(from)}
	for _, x := range printed.FindAllStringSubmatch(r.Out, -1) {
		c[strings.TrimSuffix(x[1], "Contract")] = common.HexToAddress(x[2])
	}
	full := true
	for _, n := range names {
		_, ok := c[n]
		full = full && ok && s.sim.Code(c[n]) > 0
	}
	for _, o := range s.sets {
		for _, n := range names {
			full = full && o[n] != c[n]
		}
	}
	m["set"] = 0
	if full {
		s.sets = append(s.sets, c)
		s.who = append(s.who, from)
		m["set"], m["wiring"] = len(s.sets), s.wiring(c)
	}
	m["files"] = s.files()
	if !r.OK && os.Getenv("VERBOSE") != "" {
		m["err"] = clip(r.Err)
	}
	s.logm(m)
}

// own makes a set of contracts without the command.
func (s *seg) own(file int) {
	c := ethsim.DeployAll(s.sim, ethsim.Addr(0), 20, 20)
	s.sim.Mine()
	x := addrs{"Config": c.Config, "KeyBroadcast": c.Key, "FeeBank": c.FeeBank, "Batcher": c.Batcher, "Executor": c.Executor, "Token": c.Token, "Deposit": c.Deposit, "KeyperSlasher": c.Slasher,
		"TargetProxy": crypto.CreateAddress(c.Config, 77), "Target": crypto.CreateAddress(c.Config, 78)}
	s.sets, s.who = append(s.sets, x), append(s.who, 0)
	m := M{}
	for n, a := range x {
		m[n+"Contract"] = a.Hex()
	}
	b, err := json.Marshal(m)
	must(err)
	must(os.WriteFile(s.path(file), b, 0o600))
	s.logm(M{"op": "own", "set": len(s.sets), "files": s.files(), "reg": s.reg()})
}

// config schedules a config in a set.
func (s *seg) config(set int) {
	r := s.r
	o, a := ethsim.Addr(s.who[set-1]), s.sets[set-1]["Config"]
	call := func(method string, args ...interface{}) bool {
		ok, _ := s.sim.Apply(o, &a, nil, ethsim.Pack(ethsim.ConfigABI, method, args...))
		return ok
	}
	kp, l := []int{}, []common.Address{}
	for i := 0; i < r.Intn(6); i++ {
		k := r.Intn(16)
		kp = append(kp, k)
		l = append(l, ethsim.Addr(k))
	}
	thr := uint64(r.Intn(1 + len(kp)))
	p := s.plans[set-1]
	if p == nil {
		p = &plan{block: s.sim.Head() + 5000}
		s.plans[set-1] = p
	} else {
		d := uint64(50 + r.Intn(100))
		if r.Intn(6) == 0 {
			d += 1 << uint(20+r.Intn(30))
		}
		p.start, p.block = p.start+d, p.block+10*d
	}
	start := p.start
	ok := call("nextConfigSetStartBatchIndex", start)
	ok = ok && call("nextConfigSetStartBlockNumber", p.block)
	ok = ok && call("nextConfigSetThreshold", thr)
	ok = ok && call("nextConfigSetBatchSpan", uint64(10))
	ok = ok && call("nextConfigSetExecutionTimeout", uint64(50))
	if len(l) > 0 {
		ok = ok && call("nextConfigAddKeypers", l)
	}
	if !ok || !call("scheduleNextConfig") {
		panic("config refused")
	}
	s.sim.Mine()
	s.logm(M{"op": "cfg", "set": set, "cfg": M{"start": fmt.Sprint(start), "thr": fmt.Sprint(thr), "kp": kp}})
}

// bootstrap executes the command.
func (s *seg) bootstrap(file int, i int, from int, ans []string, bad string, fail int) {
	key := hex.EncodeToString(crypto.FromECDSA(ethsim.Key(from)))
	url, shm, p := s.web.URL, s.tm.URL, s.path(file)
	set := s.file(file)
	if s.r.Intn(2) == 0 {
		p = filepath.Base(p)
	}
	switch bad {
	case "key":
		key = []string{key[:63], key + "00", "key"}[s.r.Intn(3)]
	case "url":
		url = "http://127.0.0.1:1"
	case "shm":
		shm = "http://127.0.0.1:1"
	case "file":
		p = filepath.Join(s.dir, "nothing.json")
	case "spoilt":
		b, _ := os.ReadFile(s.path(file))
		p = filepath.Join(s.dir, "spoilt.json")
		b = []byte(strings.Replace(string(b), "0x", []string{"1x", "0x00", ""}[s.r.Intn(3)], 1))
		if s.r.Intn(2) == 0 && len(b) > 20 {
			b = b[:len(b)-20]
		}
		must(os.WriteFile(p, b, 0o600))
	}
	args := []string{"bootstrap", "-c", p, "-e", url, "-s", shm, "-k", key}
	if i >= 0 || s.r.Intn(3) == 0 {
		args = append(args, "--index", strconv.Itoa(i))
	}
	switch bad {
	case "flag":
		args = append(args, "--no-such-flag")
	case "arg":
		args = append(args, "extra")
	case "nofile":
		args = append([]string{"bootstrap"}, args[3:]...)
	}
	s.mu.Lock()
	s.sent, s.ans = []M{}, ans
	s.mu.Unlock()
	before := len(s.sim.Sent())
	s.node.FailAt(fail)
	r := s.run(args...)
	fault := fail > 0 && s.node.Failed() > 0
	s.node.FailAt(0)
	s.mu.Lock()
	defer s.mu.Unlock()
	l := []bool{}
	for j := 0; j < 2; j++ {
		l = append(l, j >= len(ans) || ans[j] == "ok")
	}
	m := M{"op": "bootstrap", "set": set, "i": i, "from": from, "taken": l, "bad": bad != "" || set <= 0, "fault": fault, "ok": r.OK, "sent": s.sent, "txs": len(s.sim.Sent()) - before, "files": s.files()}
	s.logm(m)
}

func runScript(r *mrand.Rand, l []op) []byte {
	s := newSeg(r)
	defer s.close()
	bad := ""
	for _, o := range l {
		switch o.K {
		case "deploy":
			bad = ""
			if o.Bad {
				bad = []string{"key", "price", "url", "flag", "arg", "nokey"}[r.Intn(6)]
			}
			fail := 0
			if o.Fail > 0 {
				fail = 3*o.Fail + r.Intn(12)
			}
			s.deploy(0, o.File, o.Noerc, "", bad, fail, -1)
		case "cfg":
			if len(s.sets) > 0 {
				s.config(len(s.sets))
			}
		case "bootstrap":
			bad = ""
			if o.Bad {
				bad = []string{"key", "url", "shm", "file", "spoilt", "flag", "arg", "nofile"}[r.Intn(8)]
			}
			ans := []string{}
			for _, a := range o.Ans {
				if a == "no" {
					a = []string{"check", "deliver", "down"}[r.Intn(3)]
				}
				ans = append(ans, a)
			}
			s.bootstrap(o.File, o.I, r.Intn(4), ans, bad, 0)
		}
	}
	return s.buf.Bytes()
}

func runRandom(r *mrand.Rand, ops int) []byte {
	s := newSeg(r)
	defer s.close()
	for n := 0; n < ops; n++ {
		bad := ""
		switch x := r.Intn(20); {
		case x < 4 || len(s.sets) == 0 && x < 10:
			if r.Intn(4) == 0 {
				bad = []string{"key", "price", "url", "flag", "arg", "nokey"}[r.Intn(6)]
			}
			fail, money := 0, int64(1_000_000)
			if r.Intn(4) == 0 {
				fail = 1 + r.Intn(60)
			}
			if r.Intn(6) == 0 {
				money = []int64{0, 1, 20, 90, 500}[r.Intn(5)]
			}
			price := []string{"", "", "1", "7", "0", "30"}[r.Intn(6)]
			s.deploy(r.Intn(2), r.Intn(1+nfiles), r.Intn(4) == 0, price, bad, fail, money)
		case x < 6 && len(s.sets) < 4:
			s.own(1 + r.Intn(nfiles))
		case x < 11 && len(s.sets) > 0:
			s.config(1 + r.Intn(len(s.sets)))
		default:
			if r.Intn(4) == 0 {
				bad = []string{"key", "url", "shm", "file", "spoilt", "flag", "arg", "nofile"}[r.Intn(8)]
			}
			ans := []string{}
			for j := 0; j < 2; j++ {
				ans = append(ans, []string{"ok", "ok", "ok", "ok", "check", "deliver", "down"}[r.Intn(7)])
			}
			fail := 0
			if r.Intn(5) == 0 {
				fail = 1 + r.Intn(6)
			}
			s.bootstrap(1+r.Intn(nfiles), r.Intn(6)-2, r.Intn(6), ans, bad, fail)
		}
	}
	return s.buf.Bytes()
}
