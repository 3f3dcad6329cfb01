// Package ethsim is a small main chain: the EVM and the state database of go-ethereum, blocks that
// are made on demand, and the JSON-RPC interface a keyper uses, with as many nodes as one likes,
// each of which can lag behind, fail, or be out of reach.
package ethsim

import (
	"context"
	"crypto/ecdsa"
	"errors"
	"fmt"
	"math/big"
	"sync"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core"
	"github.com/ethereum/go-ethereum/core/rawdb"
	"github.com/ethereum/go-ethereum/core/state"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/params"
	"github.com/ethereum/go-ethereum/rpc"
)

const (
	GasLimit = 30_000_000
	GasPrice = 1_000_000_000
)

var ChainID = params.AllEthashProtocolChanges.ChainID

// Key returns the n-th of a fixed list of keys.
func Key(n int) *ecdsa.PrivateKey {
	k, err := crypto.ToECDSA(crypto.Keccak256([]byte(fmt.Sprintf("ethsim key %d", n))))
	must(err)
	return k
}

func Addr(n int) common.Address { return crypto.PubkeyToAddress(Key(n).PublicKey) }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

type mined struct {
	tx    *types.Transaction
	from  common.Address
	block uint64
	idx   int
	res   *types.Receipt
}

type block struct {
	header *types.Header
	hash   common.Hash
	root   common.Hash
	logs   []*types.Log
	txs    []*mined
}

type Sim struct {
	mu     sync.Mutex
	db     state.Database
	blocks []*block
	// the block being made
	st   *state.StateDB
	logs []*types.Log
	txs  []*mined
	pool []*types.Transaction // waiting to be included
	Auto bool                 // transactions sent to a node are executed at once (in the open block)
	// Fees makes senders of transactions pay for gas, and nodes refuse transactions that cannot be paid for.
	Fees  bool
	Burnt *big.Int // what has been paid
	Price *big.Int // suggested gas price, if not the usual one
	fork  uint64
	n     uint64

	subMu sync.Mutex
	nodes []*Node
}

func New() *Sim {
	s := &Sim{db: state.NewDatabase(rawdb.NewMemoryDatabase())}
	var err error
	s.st, err = state.New(common.Hash{}, s.db, nil)
	must(err)
	for i := 0; i < 16; i++ {
		s.st.AddBalance(Addr(i), new(big.Int).Mul(big.NewInt(1000), big.NewInt(params.Ether)))
	}
	s.seal()
	return s
}

func (s *Sim) Fund(a common.Address, wei *big.Int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.st.AddBalance(a, wei)
}

func (s *Sim) seal() {
	n := len(s.blocks)
	root, err := s.st.Commit(true)
	must(err)
	must(s.db.TrieDB().Commit(root, false, nil))
	h := &types.Header{
		Number: big.NewInt(int64(n)), Root: root, Difficulty: big.NewInt(1), GasLimit: GasLimit, Time: 1_600_000_000 + uint64(n),
		BaseFee: big.NewInt(7), Extra: []byte(fmt.Sprint("fork ", s.fork)), TxHash: types.EmptyRootHash, UncleHash: types.EmptyUncleHash, ReceiptHash: types.EmptyRootHash,
	}
	if n > 0 {
		h.ParentHash = s.blocks[n-1].hash
	}
	b := &block{header: h, hash: h.Hash(), root: root, logs: s.logs, txs: s.txs}
	for i, l := range b.logs {
		l.BlockHash, l.BlockNumber, l.Index = b.hash, uint64(n), uint(i)
	}
	for _, t := range b.txs {
		t.block, t.res.BlockHash, t.res.BlockNumber = uint64(n), b.hash, big.NewInt(int64(n))
	}
	s.blocks = append(s.blocks, b)
	s.logs, s.txs = nil, nil
	s.st, err = state.New(root, s.db, nil)
	must(err)
}

func (s *Sim) Head() uint64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return uint64(len(s.blocks) - 1)
}

// Mine closes the open block.
func (s *Sim) Mine() uint64 {
	s.mu.Lock()
	var rest []*types.Transaction
	for again := true; again; {
		again, rest = false, nil
		for _, tx := range s.pool {
			if ok, later := s.include(tx); later {
				rest = append(rest, tx)
			} else if ok {
				again = true
			}
		}
		s.pool = rest
		if len(rest) == 0 {
			break
		}
	}
	s.seal()
	h := uint64(len(s.blocks) - 1)
	s.mu.Unlock()
	s.subMu.Lock()
	ns := append([]*Node{}, s.nodes...)
	s.subMu.Unlock()
	for _, n := range ns {
		if n.Follow {
			n.SetHead(h)
		}
	}
	return h
}

// Reorg drops the last n blocks and everything in the open one.
func (s *Sim) Reorg(n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.blocks = s.blocks[:len(s.blocks)-n]
	s.fork++
	s.logs, s.txs = nil, nil
	var err error
	s.st, err = state.New(s.blocks[len(s.blocks)-1].root, s.db, nil)
	must(err)
}

func (s *Sim) evm(st *state.StateDB, number uint64, msg types.Message) *vm.EVM {
	bc := vm.BlockContext{
		CanTransfer: core.CanTransfer, Transfer: core.Transfer,
		GetHash:     func(n uint64) common.Hash { return common.BigToHash(big.NewInt(int64(n))) },
		BlockNumber: new(big.Int).SetUint64(number), Time: big.NewInt(1_600_000_000 + int64(number)), Difficulty: big.NewInt(1), GasLimit: GasLimit, BaseFee: big.NewInt(0),
	}
	return vm.NewEVM(bc, core.NewEVMTxContext(msg), st, params.AllEthashProtocolChanges, vm.Config{NoBaseFee: true})
}

var zero = new(big.Int)

func (s *Sim) run(st *state.StateDB, number uint64, from common.Address, to *common.Address, value *big.Int, gas uint64, data []byte) (*core.ExecutionResult, error) {
	msg := types.NewMessage(from, to, st.GetNonce(from), value, gas, zero, zero, zero, data, nil, true)
	return core.ApplyMessage(s.evm(st, number, msg), msg, new(core.GasPool).AddGas(gas))
}

// Apply executes a call in the open block, without a signature.
func (s *Sim) Apply(from common.Address, to *common.Address, value *big.Int, data []byte) (ok bool, ret []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	h := crypto.Keccak256Hash([]byte(fmt.Sprintf("call %d", s.n)))
	s.st.Prepare(h, len(s.txs))
	if value == nil {
		value = zero
	}
	res, err := s.run(s.st, uint64(len(s.blocks)), from, to, value, GasLimit, data)
	must(err)
	s.st.Finalise(true)
	s.logs = append(s.logs, s.st.GetLogs(h, common.Hash{})...)
	return !res.Failed(), res.ReturnData
}

// Deploy creates a contract in the open block.
func (s *Sim) Deploy(from common.Address, code []byte) common.Address {
	a := crypto.CreateAddress(from, s.nonce(from))
	ok, ret := s.Apply(from, nil, nil, code)
	if !ok {
		panic("deployment failed: " + string(ret))
	}
	return a
}

func (s *Sim) nonce(a common.Address) uint64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.st.GetNonce(a)
}

// include executes a signed transaction in the open block.
func (s *Sim) include(tx *types.Transaction) (done, later bool) {
	from, err := types.Sender(types.LatestSignerForChainID(ChainID), tx)
	if err != nil {
		return false, false
	}
	n := s.st.GetNonce(from)
	if tx.Nonce() > n {
		return false, true
	}
	if tx.Nonce() < n {
		return false, false
	}
	s.st.Prepare(tx.Hash(), len(s.txs))
	res, err := s.run(s.st, uint64(len(s.blocks)), from, tx.To(), tx.Value(), tx.Gas(), tx.Data())
	if err != nil {
		return false, false
	}
	s.st.Finalise(true)
	if s.Fees {
		fee := new(big.Int).Mul(tx.GasPrice(), new(big.Int).SetUint64(res.UsedGas))
		s.st.SubBalance(from, fee)
		s.st.Finalise(true)
		s.Burnt = new(big.Int).Add(fee, s.paid())
	}
	logs := s.st.GetLogs(tx.Hash(), common.Hash{})
	s.logs = append(s.logs, logs...)
	if logs == nil {
		logs = []*types.Log{}
	}
	r := &types.Receipt{Type: tx.Type(), TxHash: tx.Hash(), GasUsed: res.UsedGas, CumulativeGasUsed: res.UsedGas, Logs: logs, TransactionIndex: uint(len(s.txs))}
	if !res.Failed() {
		r.Status = 1
	}
	if tx.To() == nil {
		r.ContractAddress = crypto.CreateAddress(from, tx.Nonce())
	}
	s.txs = append(s.txs, &mined{tx: tx, from: from, idx: len(s.txs), res: r})
	return true, false
}

func (s *Sim) paid() *big.Int {
	if s.Burnt == nil {
		return new(big.Int)
	}
	return s.Burnt
}

// Paid is what all transactions cost so far.
func (s *Sim) Paid() *big.Int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.paid()
}

// Balance is what an account has in the last block.
func (s *Sim) Balance(a common.Address) *big.Int {
	s.mu.Lock()
	defer s.mu.Unlock()
	st, err := state.New(s.blocks[len(s.blocks)-1].root, s.db, nil)
	must(err)
	return st.GetBalance(a)
}

// Code is the length of the code at an address in the last block.
func (s *Sim) Code(a common.Address) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	st, err := state.New(s.blocks[len(s.blocks)-1].root, s.db, nil)
	must(err)
	return len(st.GetCode(a))
}

// Ask calls a contract in the last block.
func (s *Sim) Ask(to common.Address, data []byte) (bool, []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	st, err := state.New(s.blocks[len(s.blocks)-1].root, s.db, nil)
	must(err)
	res, err := s.run(st, uint64(len(s.blocks)-1), common.Address{}, &to, zero, GasLimit, data)
	if err != nil || res.Failed() {
		return false, nil
	}
	return true, res.ReturnData
}

// Mined is a transaction with its sender.
type Mined struct {
	Tx   *types.Transaction
	From common.Address
}

// Sent lists the transactions that have been mined.
func (s *Sim) Sent() []Mined {
	s.mu.Lock()
	defer s.mu.Unlock()
	l := []Mined{}
	for _, b := range s.blocks {
		for _, t := range b.txs {
			l = append(l, Mined{t.tx, t.from})
		}
	}
	return l
}

// SetBalance gives an account what it has in the open block.
func (s *Sim) SetBalance(a common.Address, wei *big.Int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.st.SetBalance(a, wei)
}

// Receipt tells whether a transaction has been mined and whether it succeeded.
func (s *Sim) Receipt(h common.Hash) *types.Receipt {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, b := range s.blocks {
		for _, t := range b.txs {
			if t.tx.Hash() == h {
				return t.res
			}
		}
	}
	return nil
}

// ---- nodes

// Node is one node's view of the chain.
type Node struct {
	S       *Sim
	Follow  bool // the head follows the chain's
	mu      sync.Mutex
	head    uint64
	syncing bool
	down    bool
	calls   int
	failAt  int // the call that fails, counted from 1; 0: none
	failed  int
	subs    map[rpc.ID]*sub
	// OnSend sees every transaction sent to this node; what it returns is the answer.
	OnSend func(tx *types.Transaction, from common.Address) error
	// OnSent is told of every transaction that has been taken.
	OnSent func(tx *types.Transaction, from common.Address)
}

type sub struct {
	n  *rpc.Notifier
	id rpc.ID
}

func (s *Sim) NewNode() *Node {
	n := &Node{S: s, head: s.Head(), subs: map[rpc.ID]*sub{}, Follow: true}
	s.subMu.Lock()
	s.nodes = append(s.nodes, n)
	s.subMu.Unlock()
	return n
}

// Server returns an RPC server for the node.
func (n *Node) Server() *rpc.Server {
	srv := rpc.NewServer()
	must(srv.RegisterName("eth", &API{n}))
	must(srv.RegisterName("net", &NetAPI{}))
	return srv
}

func (n *Node) Client() *ethclient.Client { return ethclient.NewClient(rpc.DialInProc(n.Server())) }

func (n *Node) SetHead(h uint64) {
	n.mu.Lock()
	n.head = h
	subs := []*sub{}
	for _, x := range n.subs {
		subs = append(subs, x)
	}
	n.mu.Unlock()
	n.S.mu.Lock()
	var hd *types.Header
	if h < uint64(len(n.S.blocks)) {
		hd = n.S.blocks[h].header
	}
	n.S.mu.Unlock()
	if hd != nil {
		for _, x := range subs {
			_ = x.n.Notify(x.id, hd)
		}
	}
}

func (n *Node) Head() uint64 {
	n.mu.Lock()
	defer n.mu.Unlock()
	return n.head
}

func (n *Node) SetSyncing(b bool) { n.mu.Lock(); n.syncing = b; n.mu.Unlock() }
func (n *Node) SetDown(b bool)    { n.mu.Lock(); n.down = b; n.mu.Unlock() }

// FailAt makes the k-th call from now fail (0: none); Failed tells how many calls failed so far.
func (n *Node) FailAt(k int) { n.mu.Lock(); n.calls, n.failAt, n.failed = 0, k, 0; n.mu.Unlock() }
func (n *Node) Failed() int  { n.mu.Lock(); defer n.mu.Unlock(); return n.failed }
func (n *Node) Calls() int   { n.mu.Lock(); defer n.mu.Unlock(); return n.calls }

var errDown = errors.New("node unavailable")

func (n *Node) enter() error {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.calls++
	if n.down || n.calls == n.failAt {
		n.failed++
		return errDown
	}
	return nil
}

// NetAPI is the net namespace.
type NetAPI struct{}

func (*NetAPI) Version() string { return ChainID.String() }

// API is the eth namespace.
type API struct{ n *Node }

func (a *API) ChainId() (*hexutil.Big, error) { //nolint:stylecheck,revive
	return (*hexutil.Big)(ChainID), a.n.enter()
}

func (a *API) Syncing() (interface{}, error) {
	if err := a.n.enter(); err != nil {
		return nil, err
	}
	a.n.mu.Lock()
	defer a.n.mu.Unlock()
	if !a.n.syncing {
		return false, nil
	}
	return map[string]hexutil.Uint64{"startingBlock": 0, "currentBlock": hexutil.Uint64(a.n.head), "highestBlock": hexutil.Uint64(a.n.head + 100), "pulledStates": 0, "knownStates": 0}, nil
}

func (a *API) BlockNumber() (hexutil.Uint64, error) {
	return hexutil.Uint64(a.n.Head()), a.n.enter()
}

var errHeader = errors.New("header not found")

// at returns a block as this node sees it; nil is the open one.
func (a *API) at(nr string) (*block, error) {
	h := a.n.Head()
	switch nr {
	case "latest":
	case "pending":
		return nil, nil
	case "earliest":
		h = 0
	default:
		x, err := hexutil.DecodeUint64(nr)
		if err != nil || x > h {
			return nil, errHeader
		}
		h = x
	}
	if h >= uint64(len(a.n.S.blocks)) {
		h = uint64(len(a.n.S.blocks) - 1)
	}
	return a.n.S.blocks[h], nil
}

func (a *API) state(nr string) (*state.StateDB, uint64, error) {
	b, err := a.at(nr)
	if err != nil {
		return nil, 0, err
	}
	if b == nil {
		return a.n.S.st.Copy(), uint64(len(a.n.S.blocks)), nil
	}
	st, err := state.New(b.root, a.n.S.db, nil)
	return st, b.header.Number.Uint64(), err
}

func (a *API) GetBlockByNumber(nr string, full bool) (*types.Header, error) {
	if err := a.n.enter(); err != nil {
		return nil, err
	}
	a.n.S.mu.Lock()
	defer a.n.S.mu.Unlock()
	b, err := a.at(nr)
	if err != nil || b == nil {
		return nil, nil
	}
	return b.header, nil
}

type callArgs struct {
	From  common.Address  `json:"from"`
	To    *common.Address `json:"to"`
	Gas   hexutil.Uint64  `json:"gas"`
	Value *hexutil.Big    `json:"value"`
	Data  hexutil.Bytes   `json:"data"`
}

func (c *callArgs) val() *big.Int {
	if c.Value == nil {
		return zero
	}
	return (*big.Int)(c.Value)
}

type revertError struct {
	error
	data []byte
}

func (e *revertError) ErrorCode() int         { return 3 }
func (e *revertError) ErrorData() interface{} { return hexutil.Encode(e.data) }

func (a *API) call(c callArgs, nr string) (*core.ExecutionResult, error) {
	a.n.S.mu.Lock()
	defer a.n.S.mu.Unlock()
	st, h, err := a.state(nr)
	if err != nil {
		return nil, err
	}
	gas := uint64(c.Gas)
	if gas == 0 {
		gas = GasLimit
	}
	res, err := a.n.S.run(st, h, c.From, c.To, c.val(), gas, c.Data)
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (a *API) Call(c callArgs, nr string) (hexutil.Bytes, error) {
	if err := a.n.enter(); err != nil {
		return nil, err
	}
	res, err := a.call(c, nr)
	if err != nil {
		return nil, err
	}
	if res.Failed() {
		return nil, reverted(res)
	}
	return res.ReturnData, nil
}

func reverted(res *core.ExecutionResult) error {
	if len(res.Revert()) > 0 {
		reason := "execution reverted"
		if d := res.Revert(); len(d) > 68 {
			n := new(big.Int).SetBytes(d[36:68]).Int64()
			if int64(len(d)) >= 68+n {
				reason += ": " + string(d[68:68+n])
			}
		}
		return &revertError{errors.New(reason), res.Revert()}
	}
	return res.Err
}

func (a *API) EstimateGas(c callArgs) (hexutil.Uint64, error) {
	if err := a.n.enter(); err != nil {
		return 0, err
	}
	res, err := a.call(c, "pending")
	if err != nil {
		return 0, err
	}
	if res.Failed() {
		return 0, reverted(res)
	}
	return hexutil.Uint64(res.UsedGas*2 + 100_000), nil
}

func (a *API) GasPrice() (*hexutil.Big, error) {
	if p := a.n.S.Price; p != nil {
		return (*hexutil.Big)(p), a.n.enter()
	}
	return (*hexutil.Big)(big.NewInt(GasPrice)), a.n.enter()
}

func (a *API) MaxPriorityFeePerGas() (*hexutil.Big, error) {
	return (*hexutil.Big)(big.NewInt(1)), a.n.enter()
}

func (a *API) GetCode(ad common.Address, nr string) (hexutil.Bytes, error) {
	if err := a.n.enter(); err != nil {
		return nil, err
	}
	a.n.S.mu.Lock()
	defer a.n.S.mu.Unlock()
	st, _, err := a.state(nr)
	if err != nil {
		return nil, err
	}
	return st.GetCode(ad), nil
}

func (a *API) GetBalance(ad common.Address, nr string) (*hexutil.Big, error) {
	if err := a.n.enter(); err != nil {
		return nil, err
	}
	a.n.S.mu.Lock()
	defer a.n.S.mu.Unlock()
	st, _, err := a.state(nr)
	if err != nil {
		return nil, err
	}
	return (*hexutil.Big)(st.GetBalance(ad)), nil
}

func (a *API) GetTransactionCount(ad common.Address, nr string) (hexutil.Uint64, error) {
	if err := a.n.enter(); err != nil {
		return 0, err
	}
	a.n.S.mu.Lock()
	defer a.n.S.mu.Unlock()
	st, _, err := a.state(nr)
	if err != nil {
		return 0, err
	}
	n := st.GetNonce(ad)
	if nr == "pending" {
		for again := true; again; {
			again = false
			for _, tx := range a.n.S.pool {
				if f, err := types.Sender(types.LatestSignerForChainID(ChainID), tx); err == nil && f == ad && tx.Nonce() == n {
					n++
					again = true
				}
			}
		}
	}
	return hexutil.Uint64(n), nil
}

type filterArgs struct {
	From    *string          `json:"fromBlock"`
	To      *string          `json:"toBlock"`
	Address []common.Address `json:"address"`
	Topics  [][]common.Hash  `json:"topics"`
}

func (a *API) GetLogs(f filterArgs) ([]*types.Log, error) {
	if err := a.n.enter(); err != nil {
		return nil, err
	}
	a.n.S.mu.Lock()
	defer a.n.S.mu.Unlock()
	head := a.n.Head()
	nr := func(s *string) uint64 {
		if s == nil || *s == "latest" || *s == "pending" {
			return head
		}
		x, err := hexutil.DecodeUint64(*s)
		must(err)
		return x
	}
	res := []*types.Log{}
	for h := nr(f.From); h <= nr(f.To) && h <= head && h < uint64(len(a.n.S.blocks)); h++ {
		for _, l := range a.n.S.blocks[h].logs {
			if match(l, &f) {
				res = append(res, l)
			}
		}
	}
	return res, nil
}

func match(l *types.Log, f *filterArgs) bool {
	ok := len(f.Address) == 0
	for _, x := range f.Address {
		ok = ok || x == l.Address
	}
	for i, t := range f.Topics {
		if len(t) == 0 {
			continue
		}
		if i >= len(l.Topics) {
			return false
		}
		hit := false
		for _, x := range t {
			hit = hit || x == l.Topics[i]
		}
		ok = ok && hit
	}
	return ok
}

func (a *API) SendRawTransaction(raw hexutil.Bytes) (common.Hash, error) {
	if err := a.n.enter(); err != nil {
		return common.Hash{}, err
	}
	tx := new(types.Transaction)
	if err := tx.UnmarshalBinary(raw); err != nil {
		return common.Hash{}, err
	}
	from, err := types.Sender(types.LatestSignerForChainID(ChainID), tx)
	if err != nil {
		return common.Hash{}, err
	}
	if a.n.OnSend != nil {
		if err := a.n.OnSend(tx, from); err != nil {
			return common.Hash{}, err
		}
	}
	if err := a.n.S.take(tx, from); err != nil {
		return common.Hash{}, err
	}
	if a.n.OnSent != nil {
		a.n.OnSent(tx, from)
	}
	return tx.Hash(), nil
}

// Pending is how many transactions wait to be mined.
func (s *Sim) Pending() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.pool)
}

func (s *Sim) take(tx *types.Transaction, from common.Address) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if tx.Nonce() < s.st.GetNonce(from) {
		return errors.New("nonce too low")
	}
	for _, p := range s.pool {
		if f, _ := types.Sender(types.LatestSignerForChainID(ChainID), p); f == from && p.Nonce() == tx.Nonce() {
			return errors.New("replacement transaction underpriced")
		}
	}
	if s.Fees {
		need := tx.Cost()
		for _, p := range s.pool {
			if f, _ := types.Sender(types.LatestSignerForChainID(ChainID), p); f == from {
				need = new(big.Int).Add(need, p.Cost())
			}
		}
		if s.st.GetBalance(from).Cmp(need) < 0 {
			return errors.New("insufficient funds for gas * price + value")
		}
	}
	if s.Auto {
		s.include(tx)
	} else {
		s.pool = append(s.pool, tx)
	}
	return nil
}

func (a *API) find(h common.Hash) *mined {
	for i, b := range a.n.S.blocks {
		if uint64(i) > a.n.Head() {
			break
		}
		for _, t := range b.txs {
			if t.tx.Hash() == h {
				return t
			}
		}
	}
	return nil
}

func (a *API) GetTransactionReceipt(h common.Hash) (*types.Receipt, error) {
	if err := a.n.enter(); err != nil {
		return nil, err
	}
	a.n.S.mu.Lock()
	defer a.n.S.mu.Unlock()
	if t := a.find(h); t != nil {
		return t.res, nil
	}
	return nil, nil
}

func (a *API) GetTransactionByHash(h common.Hash) (interface{}, error) {
	if err := a.n.enter(); err != nil {
		return nil, err
	}
	a.n.S.mu.Lock()
	defer a.n.S.mu.Unlock()
	var tx *types.Transaction
	m := map[string]interface{}{}
	if t := a.find(h); t != nil {
		tx = t.tx
		m["blockNumber"], m["blockHash"], m["from"] = (*hexutil.Big)(t.res.BlockNumber), t.res.BlockHash, t.from
	}
	for _, p := range a.n.S.pool {
		if p.Hash() == h {
			tx = p
		}
	}
	if tx == nil {
		return nil, nil
	}
	return txJSON(tx, m)
}

// NewHeads is the subscription to new blocks.
func (a *API) NewHeads(ctx context.Context) (*rpc.Subscription, error) {
	if err := a.n.enter(); err != nil {
		return nil, err
	}
	nt, ok := rpc.NotifierFromContext(ctx)
	if !ok {
		return nil, rpc.ErrNotificationsUnsupported
	}
	rs := nt.CreateSubscription()
	a.n.mu.Lock()
	a.n.subs[rs.ID] = &sub{nt, rs.ID}
	a.n.mu.Unlock()
	go func() {
		select {
		case <-rs.Err():
		case <-nt.Closed():
		}
		a.n.mu.Lock()
		delete(a.n.subs, rs.ID)
		a.n.mu.Unlock()
	}()
	return rs, nil
}

// Subscribers counts the subscriptions to new blocks.
func (n *Node) Subscribers() int {
	n.mu.Lock()
	defer n.mu.Unlock()
	return len(n.subs)
}

// Unseal reopens block 0, to deploy contracts in it.
func (s *Sim) Unseal() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.blocks) != 1 {
		panic("too late")
	}
	s.blocks = nil
}
