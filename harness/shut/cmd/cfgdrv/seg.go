package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"verif/shut/ethsim"
	"verif/shut/tool"
)

const (
	margin = 20
	nacc   = 7
	getter = 15 // the account that reads
	limit  = 60 * time.Second
)

// large numbers, by their place in this list
var large = []uint64{0, 1, 10, 1000, 100_000, 1<<53 + 1, 1 << 63, 1<<64 - 1}

type seg struct {
	r    *mrand.Rand
	buf  bytes.Buffer
	sim  *ethsim.Sim
	conf common.Address
	up   int
	node *ethsim.Node
	web  *httptest.Server
	dir  string
	n    int // files made
	cfgs []cfg
	nx   cfg
}

func newSeg(r *mrand.Rand, up int) *seg {
	s := &seg{r: r, sim: ethsim.New(), up: up, cfgs: []cfg{}}
	s.sim.Unseal()
	s.conf = s.sim.Deploy(ethsim.Addr(0), append(common.FromHex(contract.ConfigContractBin), ethsim.Pack(ethsim.ConfigABI, "", uint64(up))...))
	s.sim.Mine()
	s.sim.Mine()
	s.node = s.sim.NewNode()
	s.node.OnSent = func(_ *types.Transaction, _ common.Address) { s.sim.Mine() }
	s.web = httptest.NewServer(s.node.Server())
	var err error
	s.dir, err = os.MkdirTemp(base, "cfgdrv")
	must(err)
	m := M{}
	for _, n := range []string{"KeyBroadcast", "FeeBank", "Batcher", "Executor", "Token", "Deposit", "KeyperSlasher", "TargetProxy", "Target"} {
		m[n+"Contract"] = common.BytesToAddress(crypto.Keccak256([]byte(n))[12:]).Hex()
	}
	m["ConfigContract"] = s.conf.Hex()
	s.file("contracts.json", m)
	s.read()
	s.logm(M{"op": "reset", "par": M{"headsup": up, "margin": margin}, "n": s.open()})
	return s
}

func (s *seg) close() {
	s.web.Close()
	_ = os.RemoveAll(s.dir)
}

func (s *seg) logm(m M) {
	b, err := json.Marshal(m)
	must(err)
	s.buf.Write(b)
	s.buf.WriteByte('\n')
}

func (s *seg) open() int { return int(s.sim.Head()) + 1 }

func (s *seg) file(name string, v interface{}) string {
	p := filepath.Join(s.dir, name)
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(p, b, 0o600))
	return p
}

func addr(i int) common.Address {
	if i < 0 {
		return common.Address{}
	}
	return ethsim.Addr(i)
}

func id(a common.Address) int {
	if a == (common.Address{}) {
		return -1
	}
	for i := 0; i < 16; i++ {
		if ethsim.Addr(i) == a {
			return i
		}
	}
	return -9
}

func num(x uint64) int {
	if x > 1<<30 {
		return -9
	}
	return int(x)
}

func big1(x uint64) int {
	for i, y := range large {
		if x == y {
			return i
		}
	}
	return -9
}

func (s *seg) call(name string, args ...interface{}) []byte {
	ok, ret := s.sim.Apply(ethsim.Addr(getter), &s.conf, nil, ethsim.Pack(ethsim.ConfigABI, name, args...))
	if !ok {
		panic("reading " + name)
	}
	return ret
}

func (s *seg) readCfg(name string, args ...interface{}) cfg {
	l, err := ethsim.ConfigABI.Unpack(name, s.call(name, args...))
	must(err)
	var x struct{ Arg contract.BatchConfig }
	must(ethsim.ConfigABI.Methods[name].Outputs.Copy(&x.Arg, l))
	b := x.Arg
	kp := []int{}
	for _, k := range b.Keypers {
		kp = append(kp, id(k))
	}
	return cfg{
		SBI: num(b.StartBatchIndex), SB: num(b.StartBlockNumber), KP: kp, T: num(b.Threshold), Span: num(b.BatchSpan), BSL: big1(b.BatchSizeLimit), TSL: big1(b.TransactionSizeLimit),
		Gas: big1(b.TransactionGasLimit), FR: id(b.FeeReceiver), TA: id(b.TargetAddress), Sel: int(binary.BigEndian.Uint32(b.TargetFunctionSelector[:])), TO: big1(b.ExecutionTimeout),
	}
}

// read asks the contract for everything it holds.
func (s *seg) read() {
	n := new(big.Int).SetBytes(s.call("numConfigs")).Uint64()
	s.cfgs = []cfg{}
	for i := uint64(0); i < n; i++ {
		s.cfgs = append(s.cfgs, s.readCfg("configForConfigIndex", i))
	}
	s.nx = s.readCfg("nextConfig")
}

func (s *seg) json(c cfg) M {
	kp := []string{}
	for _, k := range c.KP {
		kp = append(kp, addr(k).Hex())
	}
	return M{
		"StartBatchIndex": c.SBI, "StartBlockNumber": c.SB, "Keypers": kp, "Threshold": c.T, "BatchSpan": c.Span, "BatchSizeLimit": large[c.BSL], "TransactionSizeLimit": large[c.TSL],
		"TransactionGasLimit": large[c.Gas], "FeeReceiver": addr(c.FR).Hex(), "TargetAddress": addr(c.TA).Hex(), "TargetFunctionSelector": fmt.Sprintf("0x%08x", c.Sel),
		"ExecutionTimeout": large[c.TO],
	}
}

// unjson reads a config printed by the command, without the repository's help.
func unjson(m map[string]interface{}) cfg {
	n := func(k string) uint64 {
		x, ok := m[k].(json.Number)
		if !ok {
			return 1 << 40
		}
		v, err := strconv.ParseUint(x.String(), 10, 64)
		if err != nil {
			return 1 << 40
		}
		return v
	}
	a := func(v interface{}) int {
		x, _ := v.(string)
		for i := -1; i < 16; i++ {
			if addr(i).Hex() == x { // with the right checksum
				return i
			}
		}
		return -9
	}
	kp := []int{}
	l, _ := m["Keypers"].([]interface{})
	for _, k := range l {
		kp = append(kp, a(k))
	}
	x, _ := m["TargetFunctionSelector"].(string)
	sel, err := strconv.ParseUint(strings.TrimPrefix(x, "0x"), 16, 32)
	if err != nil {
		sel = 1 << 30
	}
	return cfg{
		SBI: num(n("StartBatchIndex")), SB: num(n("StartBlockNumber")), KP: kp, T: num(n("Threshold")), Span: num(n("BatchSpan")), BSL: big1(n("BatchSizeLimit")), TSL: big1(n("TransactionSizeLimit")),
		Gas: big1(n("TransactionGasLimit")), FR: a(m["FeeReceiver"]), TA: a(m["TargetAddress"]), Sel: int(sel), TO: big1(n("ExecutionTimeout")),
	}
}

func (s *seg) notice() int {
	if sp := s.cfgs[len(s.cfgs)-1].Span; sp > s.up {
		return sp
	}
	return s.up
}

// boundary is the first batch of the last config to start at least d blocks after the head, and its start.
func (s *seg) boundary(d int) (int, int) {
	a := s.cfgs[len(s.cfgs)-1]
	at := s.open() - 1 + d
	if a.Span == 0 {
		return at, a.SBI
	}
	k := 1
	if at > a.SB {
		k = (at - a.SB + a.Span - 1) / a.Span
	}
	if k < 1 {
		k = 1
	}
	return a.SB + k*a.Span, a.SBI + k
}

// make writes a config file of the given kind; it returns its contents and what is wrong with it.
func (s *seg) make(kind string, span int) (string, cfg, bool) {
	kp := []int{}
	for i, n := 0, 1+s.r.Intn(4); i < n; i++ {
		kp = append(kp, 1+s.r.Intn(5))
	}
	b := func() int { return s.r.Intn(len(large)) }
	c := cfg{KP: kp, T: 1 + s.r.Intn(len(kp)), Span: span, BSL: b(), TSL: b(), Gas: b(), FR: s.r.Intn(8) - 1, TA: s.r.Intn(8) - 1, Sel: s.r.Intn(1 << 30), TO: b()}
	if s.r.Intn(3) == 0 { // as it is, mostly
		o := c
		c = s.nx
		c.Span = span
		if c.T == 0 || c.T > len(c.KP) {
			c.KP, c.T = o.KP, o.T
		}
		if s.r.Intn(3) == 0 {
			c.KP, c.T = o.KP, o.T
		}
	}
	c.SB, c.SBI = 0, 0
	sp := s.cfgs[len(s.cfgs)-1].Span
	switch kind {
	case "auto":
		if s.r.Intn(2) == 0 { // to be ignored
			c.SBI = s.r.Intn(30)
		}
	case "later":
		c.SB, c.SBI = s.boundary(s.notice() + 15 + s.r.Intn(2*sp+1))
	case "edge": // about the earliest possible
		c.SB, c.SBI = s.boundary(s.notice() + s.r.Intn(16))
	case "early":
		c.SB, c.SBI = s.boundary(1 + s.r.Intn(s.notice()+1))
	case "skew":
		c.SB, c.SBI = s.boundary(s.notice() + 15)
		if s.r.Intn(2) == 0 {
			c.SB++
			if sp == 1 {
				c.SBI += 2
			}
		} else {
			c.SBI++
		}
	}
	m := s.json(c)
	s.n++
	name := fmt.Sprintf("config%d.json", s.n)
	bad := kind == "bad"
	if !bad {
		return s.file(name, m), c, false
	}
	switch s.r.Intn(8) {
	case 0:
		m["Threshold"] = 0
	case 1:
		m["Threshold"] = len(kp) + 5
	case 2:
		m["Keypers"] = []string{}
	case 3:
		m["Keypers"] = []string{strings.ToLower(addr(1).Hex())}
	case 4:
		m["TargetFunctionSelector"] = []string{"0x123456", "0x1234567890", "12345678", ""}[s.r.Intn(4)]
	case 5:
		m["FeeReceiver"] = []string{"0x1234", strings.ToUpper(addr(2).Hex()), ""}[s.r.Intn(3)]
	case 6:
		p := s.file(name, m)
		d, err := os.ReadFile(p)
		must(err)
		must(os.WriteFile(p, d[:len(d)-1-s.r.Intn(len(d)-1)], 0o600))
		return p, c, true
	case 7:
		return filepath.Join(s.dir, "missing.json"), c, true
	}
	return s.file(name, m), c, true
}

func (s *seg) key(from int) string {
	k := fmt.Sprintf("%x", crypto.FromECDSA(ethsim.Key(from)))
	if s.r.Intn(2) == 0 {
		k = "0x" + k
	}
	return k
}

// run executes a command of "shuttermint config" and logs trouble.
func (s *seg) run(args ...string) tool.Result {
	a := append([]string{"config"}, args...)
	a = append(a, "-e", s.web.URL, "-c", filepath.Join(s.dir, "contracts.json"))
	if s.r.Intn(4) == 0 {
		a = append(a, "--gas-price", strconv.Itoa(s.r.Intn(3)))
	}
	r := tool.Run(s.dir, nil, limit, a...)
	if r.Crash {
		s.logm(M{"op": "trouble", "what": args[0] + " panics", "err": r.Err})
	} else if r.Hangs {
		s.logm(M{"op": "trouble", "what": args[0] + " does not end", "err": r.Err})
	}
	return r
}

func (s *seg) fault() {
	s.node.FailAt(0)
	if s.r.Intn(8) == 0 {
		s.node.FailAt(1 + s.r.Intn(45))
	}
}

// change executes set-next, schedule or schedule --config.
func (s *seg) change(k, kind string, span, from int) {
	m := M{"op": k, "from": from, "bad": false}
	args := []string{"schedule"}
	if k == "set" {
		args[0] = "set-next"
	}
	if k != "schedule" {
		p, c, bad := s.make(kind, span)
		m["file"], m["bad"] = c, bad
		args = append(args, "--config", p)
	}
	if s.r.Intn(25) == 0 {
		m["bad"] = true
		args = append(args, "-k", []string{"", "12", "0x" + strings.Repeat("f", 64), "key", strings.Repeat("ab", 33)}[s.r.Intn(5)])
	} else {
		args = append(args, "-k", s.key(from))
	}
	s.fault()
	r := s.run(args...)
	m["fault"] = s.node.Failed() > 0
	s.node.FailAt(0)
	s.read()
	m["ok"], m["cfgs"], m["nx"], m["n"] = r.OK, s.cfgs, s.nx, s.open()
	if !r.OK {
		m["err"] = clip(r.Err)
	}
	s.logm(m)
}

func clip(x string) string {
	if len(x) > 200 {
		return x[len(x)-200:]
	}
	return x
}

func (s *seg) query() {
	i := []string{"all", "next", "last", "number", "number", "other"}[s.r.Intn(6)]
	m := M{"op": "query", "i": i, "x": 0}
	arg := i
	if i == "number" {
		x := s.r.Intn(len(s.cfgs) + 2)
		m["x"] = x
		arg = strconv.Itoa(x)
	} else if i == "other" {
		arg = []string{"-1", "first", "1.5", "18446744073709551616"}[s.r.Intn(4)]
	}
	args := []string{"query", "--index=" + arg}
	if i == "all" && s.r.Intn(2) == 0 {
		args = args[:1]
	}
	s.fault()
	r := s.run(args...)
	m["fault"] = s.node.Failed() > 0
	s.node.FailAt(0)
	res := []cfg{}
	if r.OK {
		d := json.NewDecoder(strings.NewReader(r.Out))
		d.UseNumber()
		var l []map[string]interface{}
		if i == "all" {
			_ = d.Decode(&l)
		} else {
			var x map[string]interface{}
			_ = d.Decode(&x)
			l = append(l, x)
		}
		for _, x := range l {
			res = append(res, unjson(x))
		}
	}
	m["ok"], m["res"] = r.OK, res
	s.logm(m)
}

func (s *seg) list() {
	s.fault()
	r := s.run("list")
	m := M{"op": "list", "ok": r.OK, "fault": s.node.Failed() > 0}
	s.node.FailAt(0)
	rows := []M{}
	next := M{"sbi": -9, "sb": -9}
	for n, l := range strings.Split(r.Out, "\n") {
		f := strings.Fields(l)
		if n == 0 || len(f) != 3 {
			continue
		}
		a, _ := strconv.ParseUint(f[1], 10, 64)
		b, _ := strconv.ParseUint(f[2], 10, 64)
		row := M{"sbi": num(a), "sb": num(b)}
		if f[0] == "Next" {
			next = row
		} else {
			if f[0] != strconv.Itoa(len(rows)) {
				row["sbi"] = -9
			}
			rows = append(rows, row)
		}
	}
	m["rows"], m["next"] = rows, next
	s.logm(m)
}

func (s *seg) unschedule(from int) {
	s.sim.Apply(ethsim.Addr(0), &s.conf, nil, ethsim.Pack(ethsim.ConfigABI, "unscheduleConfigs", uint64(from)))
	s.sim.Mine()
	s.read()
	s.logm(M{"op": "unschedule", "cfgs": s.cfgs, "nx": s.nx, "n": s.open()})
}

func (s *seg) mine(d int) {
	for i := 0; i < d; i++ {
		s.sim.Mine()
	}
	s.logm(M{"op": "mine", "n": s.open()})
}

func (s *seg) show() {
	if s.r.Intn(2) == 0 {
		s.query()
	} else {
		s.list()
	}
}

func runScript(r *mrand.Rand, l []op) []byte {
	s := newSeg(r, []int{1, 5, 20}[r.Intn(3)])
	defer s.close()
	f := []int{1, 1, 7, 23}[r.Intn(4)] // scales the spans and the blocks between
	for _, o := range l {
		switch o.K {
		case "set", "both":
			s.change(o.K, o.Kind, o.Span*f, o.From)
		case "schedule":
			s.change("schedule", "", 0, o.From)
		case "unschedule":
			s.unschedule(s.open() + s.up + 1)
		case "mine":
			s.mine(o.D * f)
		}
	}
	s.show()
	return s.buf.Bytes()
}

func runRandom(r *mrand.Rand, n int) []byte {
	s := newSeg(r, []int{0, 1, 5, 20, 40}[r.Intn(5)])
	defer s.close()
	spans := [][]int{{1, 2, 3}, {0, 5, 30}, {7, 60, 100}, {0, 1, 250}}[r.Intn(4)]
	for i := 0; i < n; i++ {
		from := 0
		if r.Intn(10) == 0 {
			from = 1
		}
		kind := []string{"auto", "auto", "auto", "later", "edge", "early", "skew", "bad"}[r.Intn(8)]
		span := spans[r.Intn(len(spans))]
		switch x := r.Intn(20); {
		case x < 6:
			s.change("set", kind, span, from)
			if r.Intn(3) != 0 { // what was set is mostly scheduled, perhaps a little later
				if r.Intn(3) == 0 {
					s.mine(1 + r.Intn(20))
				}
				s.change("schedule", "", 0, from)
			}
		case x < 7:
			s.change("schedule", "", 0, from)
		case x < 11:
			s.change("both", kind, span, from)
		case x < 15:
			s.mine(1 + r.Intn(30))
		case x < 16:
			s.mine(100 + r.Intn(200))
		case x < 17:
			s.unschedule(s.open() + s.up + 1 + r.Intn(50))
		default:
			s.show()
		}
	}
	return s.buf.Bytes()
}
