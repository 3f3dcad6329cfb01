package ethsim

import (
	"crypto/ecdsa"
	"encoding/json"
	"math/big"
	"strings"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/ethclient"

	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/contract/erc1820"
)

func txJSON(tx *types.Transaction, m map[string]interface{}) (interface{}, error) {
	b, err := json.Marshal(tx)
	if err != nil {
		return nil, err
	}
	res := map[string]interface{}{}
	if err := json.Unmarshal(b, &res); err != nil {
		return nil, err
	}
	for k, v := range m {
		res[k] = v
	}
	return res, nil
}

// Pack encodes a call.
func Pack(a *abi.ABI, method string, args ...interface{}) []byte {
	b, err := a.Pack(method, args...)
	must(err)
	return b
}

func ABI(s string) *abi.ABI {
	a, err := abi.JSON(strings.NewReader(s))
	must(err)
	return &a
}

// The contracts' interfaces.
var (
	ConfigABI   = ABI(contract.ConfigContractABI)
	KeyABI      = ABI(contract.KeyBroadcastContractABI)
	FeeBankABI  = ABI(contract.FeeBankContractABI)
	BatcherABI  = ABI(contract.BatcherContractABI)
	ExecutorABI = ABI(contract.ExecutorContractABI)
	TokenABI    = ABI(contract.TestDepositTokenContractABI)
	DepositABI  = ABI(contract.DepositContractABI)
	SlasherABI  = ABI(contract.KeyperSlasherABI)
)

// Contracts holds the addresses of a deployment.
type Contracts struct {
	Config, Key, FeeBank, Batcher, Executor, Token, Deposit, Slasher common.Address
}

func create(s *Sim, from common.Address, a *abi.ABI, bin string, args ...interface{}) common.Address {
	return s.Deploy(from, append(common.FromHex(bin), Pack(a, "", args...)...))
}

// DeployAll deploys the contracts in the open block.
func DeployAll(s *Sim, owner common.Address, headsUp, appealBlocks uint64) Contracts {
	c := Contracts{}
	if !s.hasCode(erc1820.ContractAddress) {
		tx := erc1820.DeploymentTransaction
		from, err := types.Sender(types.HomesteadSigner{}, tx)
		must(err)
		if a := s.Deploy(from, tx.Data()); a != erc1820.ContractAddress {
			panic("registry at the wrong place")
		}
	}
	c.Config = create(s, owner, ConfigABI, contract.ConfigContractBin, headsUp)
	c.Key = create(s, owner, KeyABI, contract.KeyBroadcastContractBin, c.Config)
	c.FeeBank = create(s, owner, FeeBankABI, contract.FeeBankContractBin)
	c.Batcher = create(s, owner, BatcherABI, contract.BatcherContractBin, c.Config, c.FeeBank)
	c.Token = create(s, owner, TokenABI, contract.TestDepositTokenContractBin)
	c.Deposit = create(s, owner, DepositABI, contract.DepositContractBin, c.Token)
	c.Executor = create(s, owner, ExecutorABI, contract.ExecutorContractBin, c.Config, c.Batcher, c.Deposit)
	c.Slasher = create(s, owner, SlasherABI, contract.KeyperSlasherBin, new(big.Int).SetUint64(appealBlocks), c.Config, c.Executor, c.Deposit)
	return c
}

func (s *Sim) hasCode(a common.Address) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.st.GetCode(a)) > 0
}

// Caller makes the keyper's interface to the contracts through the given client.
func (c Contracts) Caller(ec *ethclient.Client, key *ecdsa.PrivateKey) *contract.Caller {
	cc, err := contract.NewConfigContract(c.Config, ec)
	must(err)
	kb, err := contract.NewKeyBroadcastContract(c.Key, ec)
	must(err)
	ba, err := contract.NewBatcherContract(c.Batcher, ec)
	must(err)
	ex, err := contract.NewExecutorContract(c.Executor, ec)
	must(err)
	de, err := contract.NewDepositContract(c.Deposit, ec)
	must(err)
	sl, err := contract.NewKeyperSlasher(c.Slasher, ec)
	must(err)
	r := contract.NewCaller(ec, key, cc, kb, ba, ex, de, sl)
	return &r
}
