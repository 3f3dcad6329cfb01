package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/spf13/viper"

	"github.com/shutter-network/shutter/shuttermint/app"
	"github.com/shutter-network/shutter/shuttermint/keyper"
	"verif/shut/ethsim"
	"verif/shut/tool"
)

const (
	nroots, ndirs, nkp, ncs = 2, 2, 5, 2
	limit                   = 60 * time.Second
	owner, sink             = 0, 1
	dflt                    = 29 // the default account of a genesis document
)

var (
	urls  = []string{"", "ws://localhost:8546", "wss://main.example.org/v3/key?a=1&b=2", "http://localhost:26657", "tcp://10.0.0.7:26657"}
	micro = big.NewInt(1_000_000_000_000) // a millionth of an ether
)

type seg struct {
	r     *mrand.Rand
	buf   bytes.Buffer
	sim   *ethsim.Sim
	node  *ethsim.Node
	web   *httptest.Server
	dir   string
	n     int
	ids   map[string]int
	accs  map[common.Address]int // accounts of keys made by the commands
	cs    [ncs + 1]map[string]common.Address
	whose map[string]int // the validators' keys
	lazy  bool           // blocks take their time
}

func newSeg(r *mrand.Rand) *seg {
	s := &seg{r: r, sim: ethsim.New(), ids: map[string]int{}, whose: map[string]int{}, accs: map[common.Address]int{}, lazy: r.Intn(3) == 0}
	s.sim.Fees = true
	s.sim.Price = new(big.Int).Mul(big.NewInt(2+8*int64(r.Intn(2))), big.NewInt(1_000_000_000))
	s.sim.Unseal()
	for i := 0; i < 16; i++ {
		s.sim.SetBalance(ethsim.Addr(i), big.NewInt(0))
	}
	s.sim.SetBalance(ethsim.Addr(owner), new(big.Int).Mul(big.NewInt(int64([]int{9, 9, 300, 2}[r.Intn(4)])*1_000_000), micro))
	s.sim.Mine()
	s.node = s.sim.NewNode()
	s.node.OnSent = func(_ *types.Transaction, _ common.Address) {
		if !s.lazy {
			s.sim.Mine()
		}
	}
	s.web = httptest.NewServer(s.node.Server())
	var err error
	s.dir, err = os.MkdirTemp(base, "setupdrv")
	must(err)
	for i := 1; i <= ncs; i++ {
		m := M{}
		s.cs[i] = map[string]common.Address{}
		for _, n := range []string{"Config", "KeyBroadcast", "FeeBank", "Batcher", "Executor", "Token", "Deposit", "KeyperSlasher", "TargetProxy", "Target"} {
			a := common.BytesToAddress(crypto.Keccak256([]byte(fmt.Sprint(n, i, r.Int63())))[12:])
			s.cs[i][n] = a
			m[n+"Contract"] = a.Hex()
		}
		s.file(fmt.Sprintf("contracts%d.json", i), m)
	}
	s.logm(M{"op": "reset", "par": M{"roots": nroots, "dirs": ndirs, "kps": nkp}, "bal": s.bal()})
	return s
}

func (s *seg) close() {
	s.web.Close()
	_ = os.RemoveAll(s.dir)
}

func (s *seg) logm(m M) {
	m["ids"] = len(s.ids)
	b, err := json.Marshal(m)
	must(err)
	s.buf.Write(b)
	s.buf.WriteByte('\n')
}

func (s *seg) path(l ...string) string { return filepath.Join(append([]string{s.dir}, l...)...) }

func (s *seg) file(name string, v interface{}) string {
	p := s.path(name)
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(p, b, 0o600))
	return p
}

// id numbers contents.
func (s *seg) id(content []byte) int {
	if len(content) == 0 {
		return 0
	}
	k := string(content)
	if s.ids[k] == 0 {
		s.ids[k] = len(s.ids) + 1
	}
	return s.ids[k]
}

func (s *seg) acc(a common.Address) int {
	if x, ok := s.accs[a]; ok {
		return x
	}
	for i := 0; i < 16; i++ {
		if ethsim.Addr(i) == a {
			return 2000 + i
		}
	}
	if a == ganache {
		return 2000 + dflt
	}
	return -9
}

// the tenth of the accounts that ganache -d makes
var ganache = func() common.Address {
	k, err := crypto.HexToECDSA("b0057716d5917badaf911b193b12b910811c1497b5bada8d7711f758981c3773")
	must(err)
	return crypto.PubkeyToAddress(k.PublicKey)
}()

func (s *seg) bal() [][2]int {
	res := [][2]int{}
	add := func(a common.Address, id int) {
		q, rest := new(big.Int).QuoRem(s.sim.Balance(a), micro, new(big.Int))
		x := int(q.Int64())
		if rest.Sign() != 0 {
			x = -9
		}
		res = append(res, [2]int{id, x})
	}
	for i := 0; i < 16; i++ {
		add(ethsim.Addr(i), 2000+i)
	}
	for a, id := range s.accs {
		add(a, id)
	}
	sort.Slice(res, func(i, j int) bool { return res[i][0] < res[j][0] })
	return res
}

func read(p string) []byte {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	return b
}

func (s *seg) root(i int) string { return s.path(fmt.Sprintf("node%d", i)) }

func port(x string) int {
	l := strings.Split(x, ":")
	n, _ := strconv.Atoi(l[len(l)-1])
	return n
}

func millis(x string) int {
	d, err := time.ParseDuration(x)
	if err != nil || d%time.Millisecond != 0 {
		return -9
	}
	return int(d / time.Millisecond)
}

// look reads the files of a tendermint node.
func (s *seg) look(i int) M {
	r := s.root(i)
	pv, st, val := 0, -1, ""
	if b := read(filepath.Join(r, "config", "priv_validator_key.json")); b != nil {
		var x struct {
			Pub  struct{ Value string } `json:"pub_key"`
			Priv struct{ Value string } `json:"priv_key"`
		}
		if json.Unmarshal(b, &x) != nil || x.Priv.Value == "" {
			pv, st = s.id(b), -2
		} else {
			pv, val = s.id([]byte(x.Priv.Value)), x.Pub.Value
		}
	}
	if b := read(filepath.Join(r, "data", "priv_validator_state.json")); b != nil && st == -1 && pv != 0 {
		var x struct{ Height string }
		must(json.Unmarshal(b, &x))
		st, _ = strconv.Atoi(x.Height)
	}
	nk := 0
	if b := read(filepath.Join(r, "config", "node_key.json")); b != nil {
		var x struct {
			Priv struct{ Value string } `json:"priv_key"`
		}
		_ = json.Unmarshal(b, &x)
		nk = s.id([]byte("nk" + x.Priv.Value))
	}
	gen := M{"id": 0, "kp": []int{}, "thr": 0, "val": 0, "power": 0}
	if b := read(filepath.Join(r, "config", "genesis.json")); b != nil {
		var x struct {
			ChainID    string `json:"chain_id"`
			Validators []struct {
				Pub   struct{ Value string } `json:"pub_key"`
				Power string
			}
			App struct {
				Keypers   []string
				Threshold json.Number
			} `json:"app_state"`
		}
		must(json.Unmarshal(b, &x))
		kp := []int{}
		for _, k := range x.App.Keypers {
			kp = append(kp, s.acc(common.HexToAddress(k)))
		}
		thr, _ := strconv.Atoi(x.App.Threshold.String())
		// the private key ends in the public one
		v, power := -9, 0
		if len(x.Validators) == 1 {
			power, _ = strconv.Atoi(x.Validators[0].Power)
			if x.Validators[0].Pub.Value == val {
				v = pv
			} else {
				v = s.whose[x.Validators[0].Pub.Value]
			}
		}
		gen = M{"id": s.id(b), "kp": kp, "thr": thr, "val": v, "power": power}
	}
	if val != "" {
		s.whose[val] = pv
	}
	m := M{"pv": pv, "st": st, "nkey": nk, "gen": gen, "rpc": 0, "p2p": 0, "commit": 0, "bcast": 0, "dev": false, "app": false}
	if v := viper.New(); read(filepath.Join(r, "config", "config.toml")) != nil {
		v.SetConfigFile(filepath.Join(r, "config", "config.toml"))
		must(v.ReadInConfig())
		m["rpc"], m["p2p"] = port(v.GetString("rpc.laddr")), port(v.GetString("p2p.laddr"))
		m["commit"], m["bcast"] = millis(v.GetString("consensus.timeout_commit")), millis(v.GetString("rpc.timeout_broadcast_tx_commit"))
	}
	gob := filepath.Join(r, "data", "shutter.gob")
	if read(gob) != nil {
		if a, err := app.LoadShutterAppFromFile(gob); err == nil {
			m["app"], m["dev"] = true, a.DevMode
		}
	}
	return m
}

// initNode executes init.
func (s *seg) initNode(i, index int, dev bool, gk []int, bad string) {
	before := s.look(i)
	bt := []int{1000, 1000, 500, 100, 2500}[s.r.Intn(5)]
	args := []string{"init", "--root", s.root(i), "--index", strconv.Itoa(index)}
	if s.r.Intn(2) == 0 && bt == 1000 {
	} else {
		args = append(args, "--blocktime", strconv.FormatFloat(float64(bt)/1000, 'f', -1, 64))
	}
	if dev {
		args = append(args, "--dev")
	}
	l := []string{}
	for _, g := range gk {
		x := ethsim.Addr(g).Hex()
		if s.r.Intn(3) == 0 {
			x = strings.ToLower(x)
		}
		l = append(l, x)
	}
	switch bad {
	case "address":
		l = append(l, []string{"0x1234", "keyper", ethsim.Addr(3).Hex() + "0"}[s.r.Intn(3)])
	case "time":
		args = append(args, "--blocktime", "-1")
	case "flag":
		args = append(args, "--no-such-flag")
	case "root":
		args = append([]string{"init"}, args[3:]...)
	}
	if s.r.Intn(2) == 0 && len(l) > 0 {
		args = append(args, "--genesis-keyper", strings.Join(l, ","))
	} else {
		for _, x := range l {
			args = append(args, "--genesis-keyper", x)
		}
	}
	r := s.run(args...)
	kp := []int{}
	for _, g := range gk {
		kp = append(kp, 2000+g)
	}
	pv, st := before["pv"].(int), before["st"].(int)
	m := M{"op": "init", "root": i + 1, "index": index, "dev": dev, "gk": kp, "bt": bt, "bad": bad != "", "broken": pv != 0 && st < 0, "ok": r.OK, "node": s.look(i)}
	s.logm(m)
}

func (s *seg) run(args ...string) tool.Result {
	stop := make(chan struct{})
	done := make(chan struct{})
	go func() {
		defer close(done)
		t := time.NewTicker(150 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stop:
				return
			case <-t.C:
				if s.lazy {
					s.sim.Mine()
				}
			}
		}
	}()
	r := tool.Run(s.dir, nil, limit, args...)
	close(stop)
	<-done
	if r.Crash {
		s.logm(M{"op": "trouble", "what": args[0] + " panics", "err": clip(r.Err)})
	} else if r.Hangs {
		s.logm(M{"op": "trouble", "what": args[0] + " does not end", "err": clip(r.Err)})
	}
	return r
}

func clip(x string) string {
	if len(x) > 200 {
		return x[len(x)-200:]
	}
	return x
}

// lose removes some of a node's files, or makes them what they should not be.
func (s *seg) lose(i int, what string) {
	c := filepath.Join(s.root(i), "config")
	pv := filepath.Join(c, "priv_validator_key.json")
	st := filepath.Join(s.root(i), "data", "priv_validator_state.json")
	switch what {
	case "pv":
		_ = os.Remove(pv)
		_ = os.Remove(st)
	case "st":
		_ = os.Remove(st)
	case "nkey":
		_ = os.Remove(filepath.Join(c, "node_key.json"))
	case "gen":
		_ = os.Remove(filepath.Join(c, "genesis.json"))
	case "cfg":
		_ = os.Remove(filepath.Join(c, "config.toml"))
	case "app":
		_ = os.Remove(filepath.Join(s.root(i), "data", "shutter.gob"))
	case "spoil":
		if b := read(pv); b != nil {
			must(os.WriteFile(pv, b[:len(b)/2+s.r.Intn(len(b)/3)], 0o600))
		}
	case "sign":
		if b := read(st); b != nil {
			must(os.WriteFile(st, regexp.MustCompile(`"height": "\d+"`).ReplaceAll(b, []byte(fmt.Sprintf(`"height": "%d"`, 1+s.r.Intn(1000)))), 0o600))
		}
	}
	s.logm(M{"op": "files", "root": i + 1, "node": s.look(i)})
}

func (s *seg) kdir(d int) string { return s.path(fmt.Sprintf("dir%d", d)) }
func (s *seg) kfile(d, k int) string {
	return filepath.Join(s.kdir(d), fmt.Sprintf("keyper%d", k), "config.toml")
}
func (s *seg) jfile(d int) string { return filepath.Join(s.kdir(d), "config.json") }
func index(l []string, x string) int {
	for i, y := range l {
		if x == y {
			return i
		}
	}
	return -9
}

// keypers reads the files of a directory of keypers.
func (s *seg) keypers(d int) M {
	res := []M{}
	for k := 0; k < nkp; k++ {
		m := M{"f": 0, "sk": 0, "ek": 0, "vs": 0, "eth": 0, "shm": 0, "cs": 0, "rest": false, "priv": false}
		p := s.kfile(d, k)
		if b := read(p); b != nil {
			m["f"] = s.id(b)
			st, err := os.Stat(p)
			must(err)
			m["priv"] = st.Mode()&0o077 == 0
			v := viper.New()
			v.SetConfigFile(p)
			c := keyper.Config{}
			if v.ReadInConfig() == nil && c.Unmarshal(v) == nil && c.SigningKey != nil && c.EncryptionKey != nil && len(c.ValidatorKey) == 64 {
				h := func(n string, x []byte) int { // as written, and as read
					if v.GetString(n) != hex.EncodeToString(x) {
						return -9
					}
					return s.id(x)
				}
				m["sk"] = h("SigningKey", crypto.FromECDSA(c.SigningKey))
				m["ek"] = h("EncryptionKey", crypto.FromECDSA(c.EncryptionKey.ExportECDSA()))
				m["vs"] = h("ValidatorSeed", c.ValidatorKey.Seed())
				s.accs[crypto.PubkeyToAddress(c.SigningKey.PublicKey)] = m["sk"].(int)
				m["eth"], m["shm"] = index(urls, c.EthereumURL), index(urls, c.ShuttermintURL)
				m["cs"] = -9
				for i := 1; i <= ncs; i++ {
					x := s.cs[i]
					if c.ConfigContractAddress == x["Config"] && c.BatcherContractAddress == x["Batcher"] && c.KeyBroadcastContractAddress == x["KeyBroadcast"] &&
						c.ExecutorContractAddress == x["Executor"] && c.DepositContractAddress == x["Deposit"] && c.KeyperSlasherAddress == x["KeyperSlasher"] {
						m["cs"] = i
					}
				}
				m["rest"] = c.DBDir == "" && c.MainChainFollowDistance == 0 && c.ExecutionStaggering == 5 && c.DKGPhaseLength == 30 && c.GasPriceMultiplier == 1.5
			}
		}
		res = append(res, m)
	}
	j := M{"f": 0, "kp": []int{}, "thr": 0, "cs": 0, "rest": false}
	if b := read(s.jfile(d)); b != nil {
		var x struct {
			Keypers                                                                                                            []string
			Threshold, StartBatchIndex, StartBlockNumber, BatchSpan, BatchSizeLimit, TransactionSizeLimit, TransactionGasLimit int
			ExecutionTimeout                                                                                                   int
			FeeReceiver, TargetAddress, TargetFunctionSelector                                                                 string
		}
		must(json.Unmarshal(b, &x))
		kp := []int{}
		for _, k := range x.Keypers {
			a := common.HexToAddress(k)
			if a.Hex() != k {
				kp = append(kp, -8)
				continue
			}
			kp = append(kp, s.acc(a))
		}
		cs := -9
		for i := 1; i <= ncs; i++ {
			if s.cs[i]["Target"].Hex() == x.TargetAddress {
				cs = i
			}
		}
		rest := x.StartBatchIndex == 0 && x.StartBlockNumber == 0 && x.BatchSpan == 10 && x.BatchSizeLimit == 100000 && x.TransactionSizeLimit == 1000 && x.TransactionGasLimit == 10000 &&
			x.ExecutionTimeout == 15 && x.FeeReceiver == "0x1111111111111111111111111111111111111111" && x.TargetFunctionSelector == "0x943d7209"
		j = M{"f": s.id(append([]byte(fmt.Sprint(d)), b...)), "kp": kp, "thr": x.Threshold, "cs": cs, "rest": rest}
	}
	return M{"keypers": res, "json": j}
}

// prepare executes "prepare configs".
func (s *seg) prepare(d, n int, bad string) {
	eth, shm, cs := 1+s.r.Intn(2), 3+s.r.Intn(2), 1+s.r.Intn(ncs)
	c := s.path(fmt.Sprintf("contracts%d.json", cs))
	switch bad {
	case "missing":
		c = s.path("none.json")
	case "cut":
		b := read(c)
		c = s.path("cut.json")
		must(os.WriteFile(c, b[:s.r.Intn(len(b))], 0o600))
	case "checksum":
		b := read(c)
		c = s.path("sum.json")
		must(os.WriteFile(c, bytes.ReplaceAll(b, []byte(s.cs[cs]["Deposit"].Hex()), []byte(strings.ToLower(s.cs[cs]["Deposit"].Hex()))), 0o600))
	}
	args := []string{"prepare", "configs", "-c", c, "-e", urls[eth], "-d", s.kdir(d)}
	if shm != 3 || s.r.Intn(2) == 0 {
		args = append(args, "-s", urls[shm])
	}
	if n != 3 || s.r.Intn(2) == 0 {
		args = append(args, "-n", strconv.Itoa(n))
	}
	r := s.run(args...)
	s.logm(M{"op": "prepare", "dir": d + 1, "n": n, "eth": eth, "shm": shm, "cs": cs, "bad": bad != "" || n < 1, "ok": r.OK, "after": s.keypers(d)})
}

func (s *seg) drop(d, k int) {
	_ = os.Remove(s.kfile(d, k))
	s.logm(M{"op": "dropped", "dir": d + 1, "after": s.keypers(d)})
}

func (s *seg) money(a common.Address, x int64) {
	s.sim.SetBalance(a, new(big.Int).Mul(big.NewInt(x), micro))
	s.sim.Mine()
	s.logm(M{"op": "money", "bal": s.bal()})
}

func (s *seg) fault(p int) {
	s.node.FailAt(0)
	if s.r.Intn(p) == 0 {
		s.node.FailAt(1 + s.r.Intn(11))
	}
}

func (s *seg) settle(r tool.Result) bool {
	f := s.node.Failed() > 0
	s.node.FailAt(0)
	if f || !r.OK { // some may have been sent without anybody waiting for it
		s.sim.Mine()
	}
	return f
}

func (s *seg) paid(before *big.Int) int {
	x := new(big.Int).Sub(s.sim.Paid(), before)
	return int(x.Quo(x, micro).Int64())
}

// config picks a list of keypers in a file, and tells who they are.
func (s *seg) config(d int, own bool) (string, []int, bool) {
	if own {
		j := s.keypers(d)["json"].(M)
		return s.jfile(d), j["kp"].([]int), j["f"].(int) == 0
	}
	as := []common.Address{}
	for a := range s.accs {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return s.accs[as[i]] < s.accs[as[j]] })
	for i := 2; i < 8; i++ {
		as = append(as, ethsim.Addr(i))
	}
	s.r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	as = as[:1+s.r.Intn(5)]
	kp, l := []int{}, []string{}
	for _, a := range as {
		kp, l = append(kp, s.acc(a)), append(l, a.Hex())
	}
	s.n++
	m := M{
		"StartBatchIndex": 0, "StartBlockNumber": 0, "Keypers": l, "Threshold": 1, "BatchSpan": 1, "BatchSizeLimit": 1, "TransactionSizeLimit": 1, "TransactionGasLimit": 1,
		"FeeReceiver": as[0].Hex(), "TargetAddress": as[0].Hex(), "TargetFunctionSelector": "0x00000000", "ExecutionTimeout": 1,
	}
	name := fmt.Sprintf("config%d.json", s.n)
	if s.r.Intn(10) == 0 {
		m["Keypers"] = append(l, strings.ToUpper(as[0].Hex()))
		return s.file(name, m), kp, true
	}
	return s.file(name, m), kp, false
}

// fund executes "prepare fund".
func (s *seg) fund(d int, own bool, p int) {
	c, kp, bad := s.config(d, own)
	from := owner
	if s.r.Intn(6) == 0 {
		from = 9 // who has nothing
	}
	k := fmt.Sprintf("%x", crypto.FromECDSA(ethsim.Key(from)))
	if s.r.Intn(20) == 0 {
		bad = true
		k = []string{"", "12", "0x" + k, "key"}[s.r.Intn(4)]
	}
	before := s.sim.Paid()
	s.fault(p)
	r := s.run("prepare", "fund", "-e", s.web.URL, "--config", c, "-k", k)
	f := s.settle(r)
	s.logm(M{"op": "fund", "kp": kp, "from": 2000 + from, "bad": bad, "fault": f, "ok": r.OK, "fees": s.paid(before), "bal": s.bal()})
}

// unfund executes "prepare unfund".
func (s *seg) unfund(d int, ks []int, p int) {
	args := []string{"prepare", "unfund", "-e", s.web.URL}
	bad := false
	to := ethsim.Addr(sink)
	l := s.keypers(d)["keypers"].([]M)
	if s.r.Intn(6) == 0 && !s.lazy && l[0]["f"] != 0 {
		b := read(s.kfile(d, 0))
		v := viper.New()
		v.SetConfigType("toml")
		must(v.ReadConfig(bytes.NewReader(b)))
		key, err := crypto.HexToECDSA(v.GetString("SigningKey"))
		must(err)
		to = crypto.PubkeyToAddress(key.PublicKey)
	}
	x := to.Hex()
	if s.r.Intn(12) == 0 {
		x = []string{strings.ToLower(x), x[2:], "0x1234", ""}[s.r.Intn(4)]
		bad = true
	}
	args = append(args, "--to", x)
	keys := []int{}
	for _, k := range ks {
		args = append(args, s.kfile(d, k))
		if l[k]["f"] == 0 {
			bad = true
			continue
		}
		keys = append(keys, l[k]["sk"].(int))
	}
	s.fault(p)
	r := s.run(args...)
	f := s.settle(r)
	fee := new(big.Int).Mul(s.sim.Price, big.NewInt(21000))
	s.logm(M{"op": "unfund", "keys": keys, "to": s.acc(to), "bad": bad, "fault": f, "ok": r.OK, "fee": int(fee.Quo(fee, micro).Int64()), "bal": s.bal()})
}

func ether(x string) int {
	f, ok := new(big.Float).SetPrec(200).SetString(x)
	if !ok {
		return -9
	}
	f.Mul(f, big.NewFloat(1_000_000)).Add(f, big.NewFloat(0.000001))
	i, _ := f.Int64()
	return int(i)
}

// balances executes "prepare fund query".
func (s *seg) balances(d int, own bool) {
	c, kp, bad := s.config(d, own)
	r := s.run("prepare", "fund", "query", "-e", s.web.URL, "--config", c)
	rows := [][3]int{}
	sum := -9
	for _, l := range strings.Split(r.Out, "\n") {
		f := strings.Fields(l)
		switch {
		case len(f) == 3 && strings.HasPrefix(f[1], "0x"):
			n, _ := strconv.Atoi(f[0])
			rows = append(rows, [3]int{n, s.acc(common.HexToAddress(f[1])), ether(f[2])})
		case len(f) == 1:
			sum = ether(f[0])
		}
	}
	s.logm(M{"op": "balances", "kp": kp, "bad": bad, "ok": r.OK, "rows": rows, "sum": sum})
}

func (s *seg) gks(n int) []int {
	l := s.r.Perm(8)[:n]
	for i := range l {
		l[i] += 2
	}
	return l
}

func (s *seg) keyper(d, k int) (common.Address, bool) {
	l := s.keypers(d)["keypers"].([]M)
	for a, id := range s.accs {
		if id == l[k]["sk"] && id != 0 {
			return a, true
		}
	}
	return common.Address{}, false
}

func runScript(r *mrand.Rand, l []op) []byte {
	s := newSeg(r)
	defer s.close()
	bad := func(x ...string) string { return x[r.Intn(len(x))] }
	for _, o := range l {
		switch o.K {
		case "init":
			if o.GK == 9 {
				s.initNode(0, o.Index, o.Dev, nil, bad("address", "time", "flag"))
			} else {
				s.initNode(0, o.Index, o.Dev, s.gks(o.GK), "")
			}
		case "lose":
			s.lose(0, o.What)
		case "sign", "spoil":
			s.lose(0, o.K)
		case "prepare":
			s.prepare(0, o.N, "")
		case "drop":
			s.drop(0, o.I)
		case "money":
			if o.I == -1 {
				s.money(ethsim.Addr(owner), o.X)
			} else if a, ok := s.keyper(0, o.I); ok {
				x := o.X
				if x == 21 {
					x = 42 * int64(1+4*r.Intn(2))
				}
				s.money(a, x)
			}
		case "fund":
			s.fund(0, true, 8)
			if r.Intn(4) == 0 {
				s.balances(0, true)
			}
		case "unfund":
			ks := []int{}
			l := s.keypers(0)["keypers"].([]M)
			for k := 0; k < o.N; k++ {
				if l[k]["f"] != 0 {
					ks = append(ks, k)
				}
			}
			s.unfund(0, ks, 8)
		}
	}
	return s.buf.Bytes()
}

func runRandom(r *mrand.Rand, n int) []byte {
	s := newSeg(r)
	defer s.close()
	for i := 0; i < n; i++ {
		d, root := r.Intn(ndirs), r.Intn(nroots)
		switch x := r.Intn(20); {
		case x < 4:
			bad := ""
			if r.Intn(5) == 0 {
				bad = []string{"address", "time", "flag", "root"}[r.Intn(4)]
			}
			s.initNode(root, r.Intn(20), r.Intn(2) == 0, s.gks(r.Intn(6)), bad)
		case x < 6:
			s.lose(root, []string{"pv", "st", "nkey", "gen", "cfg", "app", "spoil", "sign", "sign"}[r.Intn(9)])
		case x < 10:
			bad := ""
			if r.Intn(5) == 0 {
				bad = []string{"missing", "cut", "checksum"}[r.Intn(3)]
			}
			s.prepare(d, r.Intn(nkp+1), bad)
		case x < 11:
			s.drop(d, r.Intn(nkp))
		case x < 14:
			a := ethsim.Addr(r.Intn(8))
			if y, ok := s.keyper(d, r.Intn(nkp)); ok {
				a = y
			}
			s.money(a, []int64{0, 1, 42, 43, 210, 211, 499_999, 500_000, 500_001, 999_999, 1_000_000, 3_000_000, 20_000_000}[r.Intn(13)])
		case x < 17:
			s.fund(d, r.Intn(3) > 0, 4)
		case x < 19:
			ks := []int{}
			for k := 0; k < nkp; k++ {
				if _, ok := s.keyper(d, k); (ok && r.Intn(2) == 0) || r.Intn(20) == 0 {
					ks = append(ks, k)
				}
			}
			r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
			if len(ks) > 1 && r.Intn(6) == 0 {
				ks[1] = ks[0]
			}
			s.unfund(d, ks, 4)
		default:
			s.balances(d, r.Intn(2) == 0)
		}
	}
	return s.buf.Bytes()
}
