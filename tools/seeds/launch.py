import re, runpy, os
T = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "tool.py"))
ETH = re.search(r"// zeth serves.*?\n(?=// zstart)", T["HELP"], re.S).group(0)

# the bootstrap command, run in a process of its own against a simulated main chain with two scheduled configs
BOOT = '''
package cmd

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/ethereum/go-ethereum/accounts/abi/bind/backends"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/rpc"

	"github.com/shutter-network/shutter/shuttermint/cmd/deploy"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

''' + ETH + '''
// zboot runs bootstrap with the given index; code is the answer to every message. It returns what was sent.
func zboot(t *testing.T, index int, code int) (sent []string, err error) {
	key, err := crypto.GenerateKey()
	if err != nil {
		t.Fatal(err)
	}
	auth, err := bind.NewKeyedTransactorWithChainID(key, big.NewInt(1337))
	if err != nil {
		t.Fatal(err)
	}
	chain := backends.NewSimulatedBackend(core.GenesisAlloc{auth.From: {Balance: new(big.Int).Lsh(big.NewInt(1), 90)}}, 8000000)
	defer chain.Close()
	do := func(_ *types.Transaction, err error) {
		if err != nil {
			t.Fatal(err)
		}
		chain.Commit()
	}
	addr, tx, cc, err := contract.DeployConfigContract(auth, chain, 0)
	do(tx, err)
	for i := int64(1); i < 3; i++ {
		do(cc.NextConfigAddKeypers(auth, []common.Address{common.BigToAddress(big.NewInt(i))}))
		do(cc.NextConfigSetThreshold(auth, 1))
		do(cc.NextConfigSetStartBlockNumber(auth, uint64(100*i)))
		do(cc.ScheduleNextConfig(auth))
	}
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", zeth{chain}); err != nil {
		t.Fatal(err)
	}
	web := httptest.NewServer(srv)
	defer web.Close()
	shm := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q struct {
			ID     json.RawMessage
			Method string
			Params struct{ Tx []byte }
		}
		d, _ := ioutil.ReadAll(r.Body)
		_ = json.Unmarshal(d, &q)
		res := `{"last_height":"1","block_metas":[{"header":{"chain_id":"zz"}}]}`
		if q.Method == "broadcast_tx_commit" {
			b, err := base64.RawURLEncoding.DecodeString(string(q.Params.Tx))
			if err != nil {
				t.Error(err)
			}
			m, err := shmsg.GetMessage(b)
			if err != nil {
				t.Error(err)
				return
			}
			if c := m.Msg.GetBatchConfig(); c != nil {
				sent = append(sent, fmt.Sprint("config ", c.ConfigIndex))
			} else {
				sent = append(sent, fmt.Sprint("started ", m.Msg.GetBatchConfigStarted().GetBatchConfigIndex()))
			}
			res = fmt.Sprintf(`{"check_tx":{"code":0},"deliver_tx":{"code":%d},"hash":"","height":"1"}`, code)
		}
		fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"result":%s}`, q.ID, res)
	}))
	defer shm.Close()
	file := filepath.Join(t.TempDir(), "contracts.json")
	if err := (&deploy.Contracts{ConfigContract: addr}).SaveJSON(file); err != nil {
		t.Fatal(err)
	}
	c := exec.Command(os.Args[0], "-test.run", "^TestZZChild$")
	c.Env = append(os.Environ(), fmt.Sprintf("ZZBOOT=%s %s %s %x %d", web.URL, shm.URL, file, crypto.FromECDSA(key), index))
	out, err := c.CombinedOutput()
	t.Logf("%s", out)
	return sent, err
}

func TestZZChild(t *testing.T) {
	a := strings.Fields(os.Getenv("ZZBOOT"))
	if len(a) == 0 {
		return
	}
	bootstrapFlags.EthereumURL, bootstrapFlags.ShuttermintURL, bootstrapFlags.ContractsPath, bootstrapFlags.SigningKey = a[0], a[1], a[2], a[3]
	_, _ = fmt.Sscan(a[4], &bootstrapFlags.BatchConfigIndex)
	bootstrap()
}
'''
SEEDS = [
 dict(id="O03-first-config-is-default", property="O03",
  needs="bootstrap is asked for config 0 and later configs have been scheduled",
  breaks="Index 0 is taken for no index: the latest config is announced and started.",
  edits=[("shuttermint/cmd/bootstrap.go", "	if bootstrapFlags.BatchConfigIndex < 0 {", "	if bootstrapFlags.BatchConfigIndex <= 0 {")],
  module="shuttermint", pkg="cmd", test=BOOT.replace('"context"', '"context"', 1) + '''
func TestZZDemo(t *testing.T) {
	sent, err := zboot(t, 0, 0)
	if err != nil || strings.Join(sent, ", ") != "config 0, started 0" {
		t.Fatal(sent, err)
	}
}
'''),
 dict(id="O03-refusal-ignored", property="O03",
  needs="the chain refuses the config (it has been bootstrapped before, or the key is not the one it expects)",
  breaks="The start of a config that was refused is announced all the same, and success depends on that alone.",
  edits=[("shuttermint/cmd/bootstrap.go", '''	err = ms.SendMessage(context.Background(), batchConfigMsg)
	if err != nil {
''', '''	err = ms.SendMessage(context.Background(), batchConfigMsg)
	if _, ok := err.(*fx.RemoteError); ok {
		log.Printf("Batch config message: %v", err)
	} else if err != nil {
''')], module="shuttermint", pkg="cmd", test=BOOT + '''
func TestZZDemo(t *testing.T) {
	sent, err := zboot(t, -1, 1)
	if err == nil || strings.Join(sent, ", ") != "config 2" {
		t.Fatal(sent, err)
	}
}
'''),
]
DEPLOY = '''
package deploy

import (
	"context"
	"io/ioutil"
	"math/big"
	"net/http/httptest"
	"path/filepath"
	"testing"

	"github.com/ethereum/go-ethereum"
	"github.com/ethereum/go-ethereum/accounts/abi/bind/backends"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"
	"github.com/pkg/errors"

	"github.com/shutter-network/shutter/shuttermint/contract/erc1820"
)

''' + ETH
SEEDS += [
 dict(id="O03-named-before-there", property="O03",
  needs="the main chain node fails while deploy waits for its transactions",
  breaks="The output file already names contracts that are not known to be there, in place of those it named before.",
  edits=[("shuttermint/cmd/deploy/deploy.go", '''	receipts, err := batch.WaitMined(ctx)
	if err != nil {
		return err
	}
	totalGasUsed''', '''	if deployFlags.OutputFile != "" {
		err := contracts.SaveJSON(deployFlags.OutputFile)
		if err != nil {
			return err
		}
	}
	receipts, err := batch.WaitMined(ctx)
	if err != nil {
		return err
	}
	totalGasUsed'''), ("shuttermint/cmd/deploy/deploy.go", '''		err := contracts.SaveJSON(deployFlags.OutputFile)
		if err != nil {
			return err
		}
		fmt.Println("addr''', '''		fmt.Println("addr''')], module="shuttermint", pkg="cmd/deploy", test=DEPLOY.replace('''func (z zeth) GetTransactionReceipt(h common.Hash) (*types.Receipt, error) {
''', '''func (z zeth) GetTransactionReceipt(h common.Hash) (*types.Receipt, error) {
	if broken {
		return nil, errors.New("broken")
	}
''') + '''
var broken bool

func TestZZDemo(t *testing.T) {
	var err error
	key, err = crypto.GenerateKey()
	if err != nil {
		t.Fatal(err)
	}
	chain := backends.NewSimulatedBackend(core.GenesisAlloc{crypto.PubkeyToAddress(key.PublicKey): {Balance: new(big.Int).Lsh(big.NewInt(1), 90)}, erc1820.ContractAddress: {Balance: new(big.Int), Code: common.FromHex("60206000f3")}}, 80000000)
	defer chain.Close()
	srv := rpc.NewServer()
	if err := srv.RegisterName("eth", zeth{chain}); err != nil {
		t.Fatal(err)
	}
	web := httptest.NewServer(srv)
	defer web.Close()
	client, err := ethclient.Dial(web.URL)
	if err != nil {
		t.Fatal(err)
	}
	ctx := context.Background()
	gasPrice = new(big.Int).Lsh(big.NewInt(1), 33)
	deployFlags.OutputFile = filepath.Join(t.TempDir(), "contracts.json")
	if err := deploy(ctx, client); err != nil {
		t.Fatal(err)
	}
	a, err := ioutil.ReadFile(deployFlags.OutputFile)
	if err != nil {
		t.Fatal(err)
	}
	broken = true
	if err := deploy(ctx, client); err == nil {
		t.Fatal("no error")
	}
	b, err := ioutil.ReadFile(deployFlags.OutputFile)
	if err != nil || string(a) != string(b) {
		t.Fatalf("the file has changed (%v)", err)
	}
}
'''),
]
