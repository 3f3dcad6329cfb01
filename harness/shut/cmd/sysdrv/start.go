package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/fs"
	"math/big"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"

	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/shut/appx"
	"verif/shut/ethsim"
	"verif/shut/tmrpc"
	"verif/shut/tool"
)

// start is one start of the keyper command
type start struct {
	File string            `json:"file"` // config, home: where the file is; nothing: no file; missing: one that is not there; syntax: not TOML
	F    map[string]string `json:"f"`    // what the file says of each field
	E    map[string]string `json:"e"`    // what the environment says
	How  string            `json:"how"`  // how it is stopped
	Gas  bool              `json:"gas"`  // have it send a transaction
	Usr1 bool              `json:"usr1"`
	Addr int               `json:"addr"` // the contract that the class of "addr" is for
}

var (
	fields    = []string{"SigningKey", "EncryptionKey", "ValidatorSeed", "EthereumURL", "ShuttermintURL", "Addr", "GasPriceMultiplier", "DBDir", "DKGPhaseLength"}
	contracts = []string{"BatcherContract", "ConfigContract", "DepositContract", "ExecutorContract", "KeyBroadcastContract", "KeyperSlasher"}
	dbs       = []string{"cfg/db", "home/.config/shutter/db", "abs", "cfg", "home/.config/shutter", "cwd"}
)

// keys of the classes: a keyper, another keyper, none
var whose = map[string]int{"good": 0, "other": 1, "stranger": 2}

func nameOf(f func(n int) bool) string {
	for c, n := range whose {
		if f(n) {
			return c
		}
	}
	return "?"
}

// starts is an instance whose keypers are started and stopped
type starts struct {
	*seg
	root string
	tms  map[string]*tmrpc.Server
	eths map[string]*httptest.Server
	ens  map[string]*ethsim.Node
	u    *usage
}

// usage is what a process did
type usage struct {
	mu   sync.Mutex
	gone bool
	tm   map[string]bool
	sent []M
	gas  []int
	busy func() bool // whether other messages than check-ins are let through
}

type spy struct {
	backend
	t    *starts
	name string
	u    *usage
}

func (b *spy) Status(ctx context.Context) (*ctypes.ResultStatus, error) {
	b.u.mu.Lock()
	b.u.tm[b.name] = true
	b.u.mu.Unlock()
	return b.backend.Status(ctx)
}

func (b *spy) BroadcastTxCommit(ctx context.Context, tx tmtypesTx) (*ctypes.ResultBroadcastTxCommit, error) {
	b.u.mu.Lock()
	gone := b.u.gone
	b.u.tm[b.name] = true
	refuse := false
	if !gone {
		refuse = b.u.said(tx) == "other" && !b.u.busy()
	}
	b.u.mu.Unlock()
	if gone {
		return nil, errGone
	}
	if refuse { // refused for good: key generation would go on for ever if it fails
		return &ctypes.ResultBroadcastTxCommit{DeliverTx: abcitypes.ResponseDeliverTx{Code: 1}, Height: 1}, nil
	}
	return b.backend.BroadcastTxCommit(ctx, tx)
}

func (u *usage) said(tx []byte) string {
	m := M{"k": "?", "by": "?", "val": "", "enc": ""}
	u.sent = append(u.sent, m)
	raw, err := base64.RawURLEncoding.DecodeString(string(tx))
	if err != nil {
		return "?"
	}
	if a, err := shmsg.GetSigner(raw); err == nil {
		m["by"] = nameOf(func(n int) bool { return appx.Addrs[n] == a })
	}
	x, err := shmsg.GetMessage(raw)
	if err != nil {
		return "?"
	}
	m["k"] = "other"
	if c := x.Msg.GetCheckIn(); c != nil {
		m["k"] = "checkin"
		m["val"] = nameOf(func(n int) bool { return bytes.Equal(c.ValidatorPublicKey, validator(n)) })
		m["enc"] = nameOf(func(n int) bool {
			return bytes.Equal(c.EncryptionPublicKey, crypto.CompressPubkey(appx.EncKey[n].PublicKey.ExportECDSA()))
		})
	}
	return m["k"].(string)
}

func (t *starts) value(s *start, field, class string) (string, bool) {
	r := t.r
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	n, mine := whose[class]
	q := func(x string) string { return `"` + x + `"` }
	switch field {
	case "SigningKey", "EncryptionKey":
		good := fmt.Sprintf("%x", crypto.FromECDSA(appx.Keys[n]))
		if field == "EncryptionKey" {
			good = fmt.Sprintf("%x", crypto.FromECDSA(appx.EncKey[n].ExportECDSA()))
		}
		if mine {
			return q(good), true
		}
		return q(pick(good[:62], good+"00", "zz"+good[2:], good[1:], strings.Repeat("0", 64), strings.Repeat("f", 64))), true
	case "ValidatorSeed":
		good := fmt.Sprintf("%x", seed(n))
		if mine {
			return q(good), true
		}
		return q(pick(good[:62], good+"00", "zz"+good[2:], good[1:])), true
	case "EthereumURL":
		if mine {
			return q("ws" + strings.TrimPrefix(t.eths[class].URL, "http")), true
		}
		return q(pick(t.eths["good"].URL, "localhost:8545", "ipc.file")), true
	case "ShuttermintURL":
		if mine {
			return q(t.tms[class].URL), true
		}
		return q("http://[nowhere"), true
	case "GasPriceMultiplier":
		switch class {
		case "good":
			return "1.5", true
		case "other":
			return "2.0", true
		}
		return pick("-1.0", "nan", "nan", "-inf", "inf", `"x"`), true
	case "DBDir":
		switch class {
		case "good":
			return q("db"), true
		case "other":
			return q(filepath.Join(t.root, "abs")), true
		}
		return q("gone"), true
	case "DKGPhaseLength":
		if mine {
			return fmt.Sprint(t.L), true
		}
		return pick(`"abc"`, "-1", `"12x"`), true
	}
	return "", false
}

func (t *starts) address(i int) common.Address {
	c := t.c
	return []common.Address{c.Batcher, c.Config, c.Deposit, c.Executor, c.Key, c.Slasher}[i]
}

func (t *starts) toml(s *start) string {
	var b strings.Builder
	for _, f := range fields {
		c := s.F[f]
		if c == "none" || c == "" || f == "Addr" {
			continue
		}
		if v, ok := t.value(s, f, c); ok {
			fmt.Fprintf(&b, "%s = %s\n", f, v)
		}
	}
	for i, name := range contracts {
		v := t.address(i).Hex()
		if s.F["Addr"] == "bad" && i == s.Addr%len(contracts) {
			v = []string{strings.ToLower(v), v[2:], v[:40]}[t.r.Intn(3)]
		}
		fmt.Fprintf(&b, "%s = %q\n", name, v)
	}
	b.WriteString("ExecutionStaggering = 0\nMainChainFollowDistance = 0\n")
	if s.File == "syntax" {
		return b.String() + "= 7 [\n"
	}
	return b.String()
}

func (t *starts) env(s *start) []string {
	var l []string
	for _, f := range fields {
		c := s.E[f]
		if c == "" || c == "none" {
			continue
		}
		name := f
		if f == "Addr" {
			name = contracts[s.Addr%len(contracts)]
			v := t.address(s.Addr % len(contracts)).Hex()
			if c == "bad" {
				v = strings.ToLower(v)
			}
			l = append(l, "KEYPER_"+strings.ToUpper(name)+"="+v)
			continue
		}
		v, _ := t.value(s, f, c)
		l = append(l, "KEYPER_"+strings.ToUpper(name)+"="+strings.Trim(v, `"`))
	}
	if s.File == "nothing" || s.File == "missing" {
		for i, name := range contracts {
			if c := s.E["Addr"]; c == "" || c == "none" || i != s.Addr%len(contracts) {
				l = append(l, "KEYPER_"+strings.ToUpper(name)+"="+t.address(i).Hex())
			}
		}
	}
	return l
}

// tree is what is below the root
func (t *starts) tree() map[string]string {
	m := map[string]string{}
	must(filepath.WalkDir(t.root, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		r, err := filepath.Rel(t.root, p)
		must(err)
		m[r] = string(b)
		return nil
	}))
	return m
}

func newStarts(s *seg) *starts {
	r := s.r
	t := &starts{seg: s, root: filepath.Join(s.dir, "root")}
	for _, d := range append([]string{"cfg", "home", "cwd"}, dbs...) {
		must(os.MkdirAll(filepath.Join(t.root, d), 0o755))
	}
	s.stagger = 0
	s.core[0] = true
	c := &config{kp: []int{0, 1}, thr: 1, span: 8, timeout: 20, block: int(s.sim.Head()) + 100 + r.Intn(10)}
	s.put(M{"op": "reset"})
	bufLen := s.buf.Len()
	s.schedule(c)
	s.sim.Mine()
	s.block()
	s.block()
	s.bootstrap()
	if !s.broken {
		s.buf.Truncate(bufLen) // what whole instances record
	}
	return t
}

func (t *starts) servers() {
	t.u = &usage{tm: map[string]bool{}}
	t.tms, t.eths, t.ens = map[string]*tmrpc.Server{}, map[string]*httptest.Server{}, map[string]*ethsim.Node{}
	u := t.u
	for _, n := range []string{"good", "other"} {
		t.tms[n] = tmrpc.New(&spy{backend: backend{t.node, t.seg, nil}, t: t, name: n, u: u})
		en := t.sim.NewNode()
		en.OnSend = func(tx *types.Transaction, from common.Address) error {
			u.mu.Lock()
			defer u.mu.Unlock()
			if u.gone {
				return errGone
			}
			g := new(big.Int).Mul(tx.GasPrice(), big.NewInt(10))
			u.gas = append(u.gas, int(g.Div(g, big.NewInt(ethsim.GasPrice)).Int64()))
			return nil
		}
		t.ens[n] = en
		t.eths[n] = httptest.NewServer(en.Server().WebsocketHandler([]string{"*"}))
	}
}

func (t *starts) start(s *start) {
	if t.broken {
		return
	}
	t.servers()
	u, begun := t.u, t.height()
	u.busy = func() bool { return s.Gas && len(u.gas) == 0 && t.height() < begun+8*t.L }
	args := []string{"keyper"}
	var file string
	switch s.File {
	case "config", "syntax":
		file = filepath.Join(t.root, "cfg", "keyper.toml")
		args = append(args, "--config", file)
	case "missing":
		args = append(args, "--config", filepath.Join(t.root, "cfg", "there-is-no.toml"))
	case "home":
		file = filepath.Join(t.root, "home/.config/shutter/keyper.toml")
	}
	if s.File == "config" && t.r.Intn(2) == 0 { // from where it is run
		args[2] = "../cfg/keyper.toml"
	}
	_ = os.Remove(filepath.Join(t.root, "home/.config/shutter/keyper.toml"))
	if file != "" {
		must(os.WriteFile(file, []byte(t.toml(s)), 0o600))
	}
	before := t.tree()
	k := &kpr{s: t.seg, n: 0, dir: t.dir, log: &bytes.Buffer{}, life: &life{}}
	k.cmd = exec.Command(tool.Bin, args...)
	k.cmd.Dir = filepath.Join(t.root, "cwd")
	k.cmd.Env = append([]string{"HOME=" + filepath.Join(t.root, "home"), "PATH=/usr/bin:/bin", "GOMAXPROCS=2"}, t.env(s)...)
	k.cmd.Stderr = k.log
	k.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(k.cmd.Start())
	ended := make(chan error, 1)
	go func() { ended <- k.cmd.Wait() }()
	e := M{"op": "start", "file": s.File, "f": s.F, "e": s.E, "bye": true, "gas": 0}
	out := t.watch(s, k, ended, e)
	u.mu.Lock()
	u.gone = true
	sent, tm := append([]M{}, u.sent...), []string{}
	for n := range u.tm {
		tm = append(tm, n)
	}
	u.mu.Unlock()
	sort.Strings(tm)
	eth := []string{}
	for _, n := range []string{"good", "other"} {
		if t.ens[n].Calls() > 0 {
			eth = append(eth, n)
		}
		go t.tms[n].Close()
		go t.eths[n].Close()
	}
	if bytes.Contains(k.log.Bytes(), []byte("panic: ")) && bytes.Contains(k.log.Bytes(), []byte("goroutine ")) {
		out = "crash"
		if os.Getenv("VERBOSE") != "" {
			println(k.log.String())
		}
	}
	if out == "hangs" {
		e["log"] = tail(k.log.String(), 3000)
	}
	e["out"], e["sent"], e["tm"], e["eth"] = out, sent, tm, eth
	e["db"], e["extra"] = t.changes(before)
	t.put(e)
}

// changes names the directory whose database changed, and what else did
func (t *starts) changes(before map[string]string) (db []string, extra []string) {
	db, extra = []string{}, []string{}
	after := t.tree()
	seen := map[string]bool{}
	look := func(p string) {
		if before[p] == after[p] {
			_, a := before[p]
			_, b := after[p]
			if a == b {
				return
			}
		}
		d, f := filepath.Split(p)
		d = strings.TrimSuffix(d, "/")
		if (strings.HasPrefix(f, "state.gob") || strings.HasPrefix(f, "actions.gob")) && !seen[d] {
			seen[d] = true
			db = append(db, d)
		} else if !seen[d] || !strings.Contains(f, ".gob") {
			extra = append(extra, p)
		}
	}
	for p := range after {
		look(p)
	}
	for p := range before {
		if _, ok := after[p]; !ok {
			look(p)
		}
	}
	sort.Strings(db)
	sort.Strings(extra)
	return db, extra
}

func (t *starts) pushAll() {
	for n := range t.tms {
		t.ens[n].SetHead(t.sim.Head())
		t.tms[n].NewBlock(int64(t.height()) + 1)
	}
}

// watch waits until the keyper has ended, or has done all there is to do and been stopped
func (t *starts) watch(s *start, k *kpr, ended chan error, e M) string {
	deadline := time.Now().Add(patience)
	began, begun := time.Now(), t.height()
	pushed, blocks, told := began, 0, false
	for {
		select {
		case err := <-ended:
			if err == nil {
				return "ended"
			}
			return "refused"
		default:
		}
		t.mu.Lock()
		msgs := len(t.pool)
		t.mu.Unlock()
		done := false
		for _, d := range dbs {
			k.db = filepath.Join(t.root, d)
			done = done || fileTime(k.db).After(began) && k.settled()
		}
		switch {
		case msgs > 0:
			t.block()
			t.pushAll()
			deadline = time.Now().Add(patience)
		case t.sim.Pending() > 0:
			t.sim.Mine()
			t.pushAll()
			deadline = time.Now().Add(patience)
		case done && s.Usr1 && !told:
			told = true
			_ = k.cmd.Process.Signal(syscall.SIGUSR1)
			time.Sleep(20 * time.Millisecond)
		case done && s.Gas && blocks < 5*t.L && len(t.u.prices()) == 0:
			blocks++
			t.block()
			t.pushAll()
			deadline = time.Now().Add(patience)
		case done:
			if g := t.u.prices(); len(g) > 0 {
				e["gas"] = g[0]
			}
			sig := map[string]syscall.Signal{"term": syscall.SIGTERM, "int": syscall.SIGINT}[s.How]
			if sig == 0 {
				_ = k.cmd.Process.Kill()
				<-ended
				return "runs"
			}
			_ = k.cmd.Process.Signal(sig)
			select {
			case err := <-ended:
				e["bye"] = err == nil
			case <-time.After(patience):
				_ = k.cmd.Process.Kill()
				<-ended
				e["bye"] = false
			}
			return "runs"
		}
		if time.Since(pushed) > 200*time.Millisecond {
			pushed = time.Now()
			t.pushAll()
		}
		if time.Now().After(deadline) || t.height() > 500+begun {
			_ = k.cmd.Process.Kill()
			<-ended
			return "hangs"
		}
		time.Sleep(3 * time.Millisecond)
	}
}

func fileTime(dir string) time.Time {
	st, err := os.Stat(filepath.Join(dir, "state.gob"))
	if err != nil {
		return time.Time{}
	}
	return st.ModTime()
}

func (u *usage) prices() []int {
	u.mu.Lock()
	defer u.mu.Unlock()
	return append([]int{}, u.gas...)
}

// spoil damages what keypers stored
func (t *starts) spoil(d, how string) {
	p := filepath.Join(t.root, d, "state.gob")
	b, err := os.ReadFile(p)
	if err != nil {
		return
	}
	switch how {
	case "remove":
		must(os.Remove(p))
		_ = os.Remove(filepath.Join(t.root, d, "actions.gob"))
	case "empty":
		must(os.WriteFile(p, nil, 0o644))
	case "cut":
		must(os.WriteFile(p, b[:len(b)/2], 0o644))
	default:
		must(os.WriteFile(p, []byte("something else"), 0o644))
		how = "junk"
	}
	t.put(M{"op": "spoil", "db": d, "how": how})
}

func (s *seg) starts(n int) {
	r := s.r
	t := newStarts(s)
	pick := func(l ...string) string { return l[r.Intn(len(l))] }
	for i := 0; i < n && !s.broken; i++ {
		if r.Intn(6) == 0 {
			t.spoil(dbs[r.Intn(3)], pick("remove", "remove", "remove", "empty", "cut", "junk"))
			continue
		}
		x := &start{File: pick("config", "config", "config", "config", "home", "home", "home", "nothing", "nothing", "missing", "syntax"), F: map[string]string{}, E: map[string]string{},
			How: pick("term", "int", "kill"), Gas: r.Intn(4) == 0, Usr1: r.Intn(3) == 0, Addr: r.Intn(6)}
		for _, f := range fields {
			x.F[f], x.E[f] = "good", "none"
		}
		odd := func(f string) {
			switch f {
			case "SigningKey":
				x.F[f] = pick("other", "stranger", "none", "bad")
			case "Addr":
				x.F[f] = "bad"
			case "DKGPhaseLength":
				x.F[f] = "bad"
			case "GasPriceMultiplier", "DBDir":
				x.F[f] = pick("other", "none", "bad")
			case "ShuttermintURL":
				x.F[f] = pick("other", "bad")
			default:
				x.F[f] = pick("other", "none", "bad")
			}
		}
		for j := r.Intn(4) - 1; j > 0; j-- {
			odd(fields[r.Intn(len(fields))])
		}
		env := func(f string) {
			switch f {
			case "GasPriceMultiplier", "DBDir":
			case "Addr", "DKGPhaseLength":
				x.E[f] = pick("good", "bad")
			default:
				x.E[f] = pick("good", "other", "bad")
			}
		}
		for j := r.Intn(4) - 1; j > 0; j-- {
			env(fields[r.Intn(len(fields))])
		}
		if x.File == "nothing" {
			for _, f := range fields {
				if f != "GasPriceMultiplier" && f != "DBDir" && x.E[f] == "none" && r.Intn(12) > 0 {
					x.E[f] = "good"
				}
			}
			for _, f := range []string{"ShuttermintURL", "DKGPhaseLength"} {
				if x.E[f] == "none" {
					x.E[f] = "good"
				}
			}
		}
		t.start(x)
	}
}

// startOps performs a script of starts
func (s *seg) startOps(raw []json.RawMessage) {
	t := newStarts(s)
	for _, l := range raw {
		var o struct {
			K, DB, How string
		}
		must(json.Unmarshal(l, &o))
		if o.K == "spoil" {
			t.spoil(o.DB, o.How)
			continue
		}
		x := &start{}
		must(json.Unmarshal(l, x))
		x.How, x.Usr1, x.Addr = []string{"term", "int", "kill"}[s.r.Intn(3)], s.r.Intn(3) == 0, s.r.Intn(6)
		t.start(x)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
