C = "shuttermint/cmd/config/"
HELP = '''
package config

import (
	"bytes"
	"context"
	"encoding/json"
	"io/ioutil"
	"math/big"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/accounts/abi/bind/backends"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/shutter-network/shutter/shuttermint/contract"
)

var (
	_ = bytes.Equal
	_ = ioutil.ReadAll
	_ = strings.Fields
	_ = os.Remove
	_ = time.Second
)

// zeth serves a simulated chain; every transaction is mined at once.
type zeth struct{ c *backends.SimulatedBackend }

type zcall struct {
	From common.Address
	To   *common.Address
	Data hexutil.Bytes
}

func (c zcall) msg() ethereum.CallMsg { return ethereum.CallMsg{From: c.From, To: c.To, Data: c.Data} }

func (z zeth) ChainId() hexutil.Uint64                              { return 1337 }
func (z zeth) GasPrice() *hexutil.Big                               { p, _ := z.c.SuggestGasPrice(context.Background()); return (*hexutil.Big)(p) }
func (z zeth) MaxPriorityFeePerGas() *hexutil.Big                   { return (*hexutil.Big)(big.NewInt(1)) }
func (z zeth) BlockNumber() hexutil.Uint64                          { return hexutil.Uint64(z.c.Blockchain().CurrentBlock().NumberU64()) }
func (z zeth) GetBlockByNumber(n string, full bool) *types.Header   { return z.c.Blockchain().CurrentHeader() }
func (z zeth) GetCode(a common.Address, n string) (hexutil.Bytes, error) {
	return z.c.CodeAt(context.Background(), a, nil)
}
func (z zeth) Call(c zcall, n string) (hexutil.Bytes, error) {
	return z.c.CallContract(context.Background(), c.msg(), nil)
}
func (z zeth) EstimateGas(c zcall) (hexutil.Uint64, error) {
	g, err := z.c.EstimateGas(context.Background(), c.msg())
	return hexutil.Uint64(g), err
}
func (z zeth) GetTransactionCount(a common.Address, n string) (hexutil.Uint64, error) {
	x, err := z.c.PendingNonceAt(context.Background(), a)
	return hexutil.Uint64(x), err
}
func (z zeth) SendRawTransaction(b hexutil.Bytes) (common.Hash, error) {
	tx := new(types.Transaction)
	if err := tx.UnmarshalBinary(b); err != nil {
		return common.Hash{}, err
	}
	err := z.c.SendTransaction(context.Background(), tx)
	z.c.Commit()
	return tx.Hash(), err
}
func (z zeth) GetTransactionReceipt(h common.Hash) (*types.Receipt, error) {
	return z.c.TransactionReceipt(context.Background(), h)
}

// zstart deploys a config contract and points the commands at it.
func zstart(t *testing.T, headsUp uint64) *backends.SimulatedBackend {
	key, err := crypto.GenerateKey()
	if err != nil {
		t.Fatal(err)
	}
	auth, err := bind.NewKeyedTransactorWithChainID(key, big.NewInt(1337))
	if err != nil {
		t.Fatal(err)
	}
	alloc := core.GenesisAlloc{auth.From: {Balance: new(big.Int).Lsh(big.NewInt(1), 90)}}
	chain := backends.NewSimulatedBackend(alloc, 8000000)
	addr, _, _, err := contract.DeployConfigContract(auth, chain, headsUp)
	if err != nil {
		t.Fatal(err)
	}
	chain.Commit()
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", zeth{chain}); err != nil {
		t.Fatal(err)
	}
	web := httptest.NewServer(srv)
	t.Cleanup(func() { web.Close(); chain.Close() })
	client, err = ethclient.Dial(web.URL)
	if err != nil {
		t.Fatal(err)
	}
	configContract, err = contract.NewConfigContract(addr, client)
	if err != nil {
		t.Fatal(err)
	}
	ownerKey = key
	gasPrice = new(big.Int).Lsh(big.NewInt(1), 33)
	return chain
}

// zset sets the next config from a file with the given start and batch span.
func zset(t *testing.T, startBlock, startBatch, span uint64) contract.BatchConfig {
	d, err := json.Marshal(contract.BatchConfig{
		Keypers: []common.Address{{1}, {2}}, Threshold: 2, BatchSpan: span, StartBlockNumber: startBlock, StartBatchIndex: startBatch,
	})
	if err != nil {
		t.Fatal(err)
	}
	p := filepath.Join(t.TempDir(), "config.json")
	if err := ioutil.WriteFile(p, d, 0o600); err != nil {
		t.Fatal(err)
	}
	setNextFlags.ConfigPath = p
	if err := setNext(context.Background()); err != nil {
		t.Fatal(err)
	}
	bc, err := configContract.GetNextConfig(nil)
	if err != nil {
		t.Fatal(err)
	}
	return bc
}

func zschedule(t *testing.T) {
	if err := schedule(context.Background()); err != nil {
		t.Fatal(err)
	}
}

var _ = zschedule
'''
SEEDS = [
 dict(id="O01-open-start-keeps-batch", property="O01",
  needs="a config file that leaves the start block open but carries a start batch index, as a copy of an earlier config does",
  breaks="The start batch index of the file is kept next to the chosen start block, so that the next config does not continue the last one and cannot be scheduled.",
  edits=[(C+"setnext.go", '''		batchConfig.StartBatchIndex = startBatch
''', '''		if batchConfig.StartBatchIndex == 0 {
			batchConfig.StartBatchIndex = startBatch
		}
''')], module="shuttermint", pkg="cmd/config", test=HELP + '''
func TestZZDemo(t *testing.T) {
	zstart(t, 10)
	zset(t, 0, 0, 5)
	zschedule(t)
	zset(t, 0, 4, 7)
	zschedule(t)
}
'''),
 dict(id="O01-start-after-config-in-force", property="O01",
  needs="a start block is chosen while a config already scheduled has not started yet",
  breaks="The start is aligned with the config in force at the head instead of the last scheduled one, so that the next config does not continue the latter and cannot be scheduled.",
  edits=[(C+"setnext.go", '''		config, err := cc.GetConfigByIndex(callOpts, numConfigs-1)
		if err != nil {
			return 0, 0, errors.Wrapf(err, "failed to query config %d", numConfigs-1)
		}
''', '''		head, err := client.BlockNumber(ctx)
		if err != nil {
			return 0, 0, errors.Wrap(err, "failed to query block number")
		}
		configs, err := cc.CurrentAndFutureConfigs(callOpts, head)
		if err != nil {
			return 0, 0, errors.Wrapf(err, "failed to query config at block %d", head)
		}
		config := configs[0]
''')], module="shuttermint", pkg="cmd/config", test=HELP + '''
func TestZZDemo(t *testing.T) {
	chain := zstart(t, 10)
	zset(t, 0, 0, 5)
	zschedule(t)
	for i := 0; i < 50; i++ {
		chain.Commit()
	}
	zset(t, 0, 0, 7)
	zschedule(t)
	zset(t, 0, 0, 3)
	zschedule(t)
}
'''),
 dict(id="O01-list-repeats-last", property="O01",
  needs="several configs have been scheduled",
  breaks="config list shows the start of the last scheduled config in every row.",
  edits=[(C+"list.go", '''	configs := []*contract.BatchConfig{}
	for i := uint64(0); i < numConfigs; i++ {
		c, err := configContract.GetConfigByIndex(opts, i)
		if err != nil {
''', '''	configs := []*contract.BatchConfig{}
	var c contract.BatchConfig
	for i := uint64(0); i < numConfigs; i++ {
		c, err = configContract.GetConfigByIndex(opts, i)
		if err != nil {
''')], module="shuttermint", pkg="cmd/config", test=HELP + '''
func TestZZDemo(t *testing.T) {
	zstart(t, 10)
	zset(t, 0, 0, 5)
	zschedule(t)
	zset(t, 0, 0, 7)
	zschedule(t)
	rows, err := configContract.CurrentAndFutureConfigs(nil, 0)
	if err != nil || len(rows) == 0 {
		t.Fatal(err)
	}
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	os.Stdout = w
	err = list(context.Background())
	os.Stdout = old
	w.Close()
	if err != nil {
		t.Fatal(err)
	}
	d, err := ioutil.ReadAll(r)
	if err != nil {
		t.Fatal(err)
	}
	f := strings.Fields(strings.SplitN(string(d), "\\n", 2)[1])
	if strings.Join(f[:3], " ") != "0 0 0" {
		t.Fatalf("the first config is shown as %v", f[:3])
	}
}
'''),

 dict(id="O02-key-without-state", property="O02",
  needs="init runs again in a directory that has the validator key but lost the file with its signing state",
  breaks="The validator key is replaced by a new one.",
  edits=[("shuttermint/cmd/init.go", '''	if tmos.FileExists(privValKeyFile) {
''', '''	if tmos.FileExists(privValKeyFile) && tmos.FileExists(privValStateFile) {
''')], module="shuttermint", pkg="cmd", test='''
package cmd

import (
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)

func TestZZChild(t *testing.T) {
	if os.Getenv("ZZROOT") == "" {
		t.Skip()
	}
	rootDir = os.Getenv("ZZROOT")
	if err := initFiles(nil, nil); err != nil {
		t.Fatal(err)
	}
}

func TestZZDemo(t *testing.T) {
	root := t.TempDir()
	run := func() {
		c := exec.Command(os.Args[0], "-test.run=^TestZZChild$")
		c.Env = append(os.Environ(), "ZZROOT="+root)
		_ = c.Run()
	}
	run()
	p := filepath.Join(root, "config", "priv_validator_key.json")
	a, err := ioutil.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	if err := os.Remove(filepath.Join(root, "data", "priv_validator_state.json")); err != nil {
		t.Fatal(err)
	}
	run()
	b, err := ioutil.ReadFile(p)
	if err != nil || string(a) != string(b) {
		t.Fatalf("the key has changed (%v)", err)
	}
}
'''),
 dict(id="O02-default-threshold", property="O02",
  needs="init without --genesis-keyper",
  breaks="The genesis document's threshold is computed from the keypers on the command line, and is 0 when the default keyper is used.",
  edits=[("shuttermint/cmd/init.go", "(2*len(keypers)+2)/3)", "(2*len(genesisKeypers)+2)/3)")], module="shuttermint", pkg="cmd", test='''
package cmd

import (
	"encoding/json"
	"io/ioutil"
	"path/filepath"
	"testing"
)

func TestZZDemo(t *testing.T) {
	rootDir = t.TempDir()
	if err := initFiles(nil, nil); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(filepath.Join(rootDir, "config", "genesis.json"))
	if err != nil {
		t.Fatal(err)
	}
	var x struct {
		App map[string]interface{} `json:"app_state"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		t.Fatal(err)
	}
	if v := x.App["threshold"]; v != "1" && v != 1.0 {
		t.Fatalf("threshold %v", v)
	}
}
'''),
 dict(id="O02-existing-keypers-left-out", property="O02",
  needs="prepare configs runs again in a directory that holds some of the keyper configs",
  breaks="Existing configs are skipped and missing from config.json, which is overwritten.",
  edits=[("shuttermint/cmd/prepare/configs.go", '''		err = saveConfig(config, dir)
		if err != nil {
''', '''		err = saveConfig(config, dir)
		if os.IsExist(errors.Cause(err)) {
			continue
		}
		if err != nil {
''')], module="shuttermint", pkg="cmd/prepare", test='''
package prepare

import (
	"testing"

	"github.com/shutter-network/shutter/shuttermint/contract"
)

func TestZZDemo(t *testing.T) {
	configFlags.Dir = t.TempDir()
	configFlags.NumKeypers = 1
	if err := configs(); err != nil {
		t.Fatal(err)
	}
	read := func() contract.BatchConfig {
		bc := contract.BatchConfig{}
		if err := bc.ReadJSONFile(configFlags.Dir + "/config.json"); err != nil {
			t.Fatal(err)
		}
		return bc
	}
	a := read()
	configFlags.NumKeypers = 2
	err := configs()
	b := read()
	if err == nil && len(b.Keypers) != 2 {
		t.Fatalf("%d keypers of 2", len(b.Keypers))
	}
	if err != nil && (len(b.Keypers) != 1 || b.Keypers[0] != a.Keypers[0]) {
		t.Fatal("config.json has changed")
	}
}
'''),
 dict(id="O02-half-is-too-little", property="O02",
  needs="a keyper has exactly half an ether",
  breaks="It is given another half.",
  edits=[("shuttermint/cmd/prepare/fund.go", "if lowAmount.Cmp(balance) > 0 {", "if lowAmount.Cmp(balance) >= 0 {")], module="shuttermint", pkg="cmd/prepare", test='''
package prepare

import (
	"context"
	"math/big"
	"net/http/httptest"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/rpc"
)

type zeth struct{}

func (zeth) GetBalance(a common.Address, n string) *hexutil.Big { return (*hexutil.Big)(big.NewInt(params.Ether / 2)) }

func TestZZDemo(t *testing.T) {
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", zeth{}); err != nil {
		t.Fatal(err)
	}
	web := httptest.NewServer(srv)
	defer web.Close()
	cl, err := ethclient.Dial(web.URL)
	if err != nil {
		t.Fatal(err)
	}
	l, err := determineFundings(context.Background(), cl, []common.Address{{1}}, big.NewInt(params.Ether/2), big.NewInt(params.Ether))
	if err != nil || len(l) != 1 || l[0].amount.Sign() != 0 {
		t.Fatalf("%v %v", l, err)
	}
}
'''),
 dict(id="O02-unfund-stops-early", property="O02",
  needs="one of the keypers to be drained has nothing to give, and others follow it",
  breaks="The keypers named after it keep their money.",
  edits=[("shuttermint/cmd/prepare/unfund.go", '''				log.Printf("Cannot drain keyper: %s", err)
				continue
''', '''				log.Printf("Cannot drain keyper: %s", err)
				break
''')], module="shuttermint", pkg="cmd/prepare", test='''
package prepare

import (
	"math/big"
	"net/http/httptest"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/rpc"
)

type zeth struct {
	rich common.Address
	txs  []*types.Transaction
}

func (*zeth) ChainId() hexutil.Uint64  { return 7 }
func (*zeth) GasPrice() hexutil.Uint64 { return 1000 }
func (z *zeth) GetBalance(a common.Address, n string) *hexutil.Big {
	if a == z.rich {
		return (*hexutil.Big)(big.NewInt(params.Ether))
	}
	return (*hexutil.Big)(new(big.Int))
}
func (*zeth) GetTransactionCount(a common.Address, n string) hexutil.Uint64 { return 0 }
func (z *zeth) SendRawTransaction(b hexutil.Bytes) (common.Hash, error) {
	tx := new(types.Transaction)
	err := tx.UnmarshalBinary(b)
	z.txs = append(z.txs, tx)
	return tx.Hash(), err
}
func (z *zeth) GetTransactionReceipt(h common.Hash) *types.Receipt {
	return &types.Receipt{Status: 1, TxHash: h, Logs: []*types.Log{}, BlockNumber: new(big.Int)}
}

func TestZZDemo(t *testing.T) {
	configFlags.Dir = t.TempDir()
	configFlags.NumKeypers = 2
	if err := configs(); err != nil {
		t.Fatal(err)
	}
	files := []string{configFlags.Dir + "/keyper0/config.toml", configFlags.Dir + "/keyper1/config.toml"}
	keys, err := readKeys(files)
	if err != nil {
		t.Fatal(err)
	}
	z := &zeth{rich: crypto.PubkeyToAddress(keys[1].PublicKey)}
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", z); err != nil {
		t.Fatal(err)
	}
	web := httptest.NewServer(srv)
	defer web.Close()
	unfundFlags.EthereumURL = web.URL
	unfundFlags.Receiver = common.Address{7}.Hex()
	if err := unfundCmd.RunE(unfundCmd, files); err != nil {
		t.Fatal(err)
	}
	if len(z.txs) != 1 {
		t.Fatalf("%d transactions", len(z.txs))
	}
}
'''),
]
