package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/common/hexutil"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/ethclient"
	"github.com/ethereum/go-ethereum/rpc"
	"github.com/golang/protobuf/proto"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/rpc/client"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	tmtypes "github.com/tendermint/tendermint/types"

	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/contract"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
)

const (
	chainName = "verif-chain"
	gasPrice  = 20_000_000_000
)

var ethChain = big.NewInt(4711)

func addr(n byte) common.Address { return common.BytesToAddress([]byte{0xc0, n}) }

var (
	aConfig, aKeyBroadcast, aBatcher, aExecutor, aDeposit, aSlasher = addr(1), addr(2), addr(3), addr(4), addr(5), addr(6)
)

func newEnv(in *inst) *fx.RunEnv {
	srv := rpc.NewServer()
	must(srv.RegisterName("eth", &ethAPI{in}))
	ec := ethclient.NewClient(rpc.DialInProc(srv))
	cc, err := contract.NewConfigContract(aConfig, ec)
	must(err)
	kb, err := contract.NewKeyBroadcastContract(aKeyBroadcast, ec)
	must(err)
	ba, err := contract.NewBatcherContract(aBatcher, ec)
	must(err)
	ex, err := contract.NewExecutorContract(aExecutor, ec)
	must(err)
	de, err := contract.NewDepositContract(aDeposit, ec)
	must(err)
	sl, err := contract.NewKeyperSlasher(aSlasher, ec)
	must(err)
	caller := contract.NewCaller(ec, in.s.key, cc, kb, ba, ex, de, sl)
	ms := fx.NewRPCMessageSender(&shnode{in: in}, in.s.key)
	return fx.NewRunEnv(&ms, &caller, func() observe.World { return in.s.world.Load().(observe.World) }, in.dir+"/actions.gob")
}

// wanted is what an action has to look like when it reaches a node
type wanted struct {
	msg  []byte // serialised message
	to   common.Address
	data []byte
	gas  uint64
}

func pack(md, method string, args ...interface{}) []byte {
	a, err := abi.JSON(strings.NewReader(md))
	must(err)
	b, err := a.Pack(method, args...)
	must(err)
	return b
}

func (s *seg) txs(id int) [][]byte {
	res := [][]byte{[]byte(fmt.Sprintf("tx of %d", id))}
	for i := s.r.Intn(3); i > 0; i-- {
		res = append(res, []byte(fmt.Sprintf("more %d %d", id, i)))
	}
	return res
}

// action makes up an action of the given kind; its contents tell its number
func (s *seg) action(id int, a act) (fx.IAction, wanted) {
	var h [32]byte
	copy(h[:], crypto.Keccak256([]byte(fmt.Sprint(id))))
	b := uint64(a.HS / 2)
	gas := uint64(100_000 + s.r.Intn(1000))
	switch a.K {
	case "msg":
		msg := shmsg.NewDecryptionSignature(uint64(id), crypto.Keccak256([]byte(fmt.Sprint("sig", id))))
		p, err := proto.Marshal(msg)
		must(err)
		s.msgs[string(p)] = id
		return &fx.SendShuttermintMessage{Description: fmt.Sprint("message ", id), Msg: msg}, wanted{msg: p}
	case "cipher":
		t := s.txs(id)
		return &fx.ExecuteCipherBatch{BatchIndex: b, CipherBatchHash: h, Transactions: t, KeyperIndex: uint64(id), TransactionGasLimit: gas},
			wanted{to: aExecutor, data: pack(contract.ExecutorContractABI, "executeCipherBatch", b, h, t, uint64(id)), gas: uint64(len(t)) * gas}
	case "plain":
		t := s.txs(id)
		return &fx.ExecutePlainBatch{BatchIndex: b, Transactions: t, TransactionGasLimit: gas},
			wanted{to: aExecutor, data: pack(contract.ExecutorContractABI, "executePlainBatch", b, t), gas: uint64(len(t)) * gas}
	case "skip":
		return &fx.SkipCipherBatch{BatchIndex: b}, wanted{to: aExecutor, data: pack(contract.ExecutorContractABI, "skipCipherExecution", b)}
	case "accuse":
		return &fx.Accuse{HalfStep: uint64(a.HS), KeyperIndex: uint64(id)},
			wanted{to: aSlasher, data: pack(contract.KeyperSlasherABI, "accuse", uint64(a.HS), uint64(id))}
	case "appeal":
		au := contract.Authorization{HalfStep: uint64(a.HS), BatchHash: h, SignerIndices: []uint64{0, 2}, Signatures: [][]byte{h[:5], h[5:]}}
		return &fx.Appeal{Authorization: au}, wanted{to: aSlasher, data: pack(contract.KeyperSlasherABI, "appeal", au)}
	case "eonkey":
		pk := (*shcrypto.EonPublicKey)(new(bn256.G2).ScalarBaseMult(big.NewInt(int64(id + 1))))
		return &fx.EonKeyBroadcast{KeyperIndex: uint64(id), StartBatchIndex: uint64(id + 3), EonPublicKey: pk},
			wanted{to: aKeyBroadcast, data: pack(contract.KeyBroadcastContractABI, "vote", uint64(id), uint64(id+3), pk.Marshal())}
	}
	panic("unknown kind " + a.K)
}

// onDisk: the action is in the queue file before anything is done about it
func (s *seg) onDisk(in *inst, id int) bool {
	p, _, _, _ := s.disk(in.dir)
	return has(p, id)
}

// ---- the keyper chain's node

type shnode struct {
	client.Client
	in *inst
}

var errNode = errors.New("node unavailable")

func (n *shnode) BlockchainInfo(ctx context.Context, min, max int64) (*ctypes.ResultBlockchainInfo, error) {
	s := n.in.s
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.badinfo > 0 {
		s.badinfo--
		if s.badinfo == 0 && s.r.Intn(2) == 0 {
			return &ctypes.ResultBlockchainInfo{}, nil
		}
		return nil, errNode
	}
	return &ctypes.ResultBlockchainInfo{BlockMetas: []*tmtypes.BlockMeta{{Header: tmtypes.Header{ChainID: chainName}}}}, nil
}

func (n *shnode) BroadcastTxCommit(ctx context.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
	s := n.in.s
	s.mu.Lock()
	if n.in.dead || s.broken {
		s.mu.Unlock()
		<-ctx.Done()
		return nil, ctx.Err()
	}
	id, bad := s.readMsg(n.in, tx)
	s.logm(M{"op": "send", "id": id, "bad": bad})
	q := &req{id: id, ans: make(chan string, 1)}
	if s.om != nil || id < 0 {
		s.broken = true
	}
	s.om = q
	s.mu.Unlock()
	select {
	case <-ctx.Done():
		return nil, ctx.Err()
	case res := <-q.ans:
		switch res {
		case "err":
			return nil, errNode
		case "mempool":
			return &ctypes.ResultBroadcastTxCommit{CheckTx: abcitypes.ResponseCheckTx{Code: 1}}, nil
		case "final":
			return &ctypes.ResultBroadcastTxCommit{DeliverTx: abcitypes.ResponseDeliverTx{Code: 1, Log: "no"}}, nil
		}
		return &ctypes.ResultBroadcastTxCommit{}, nil
	}
}

func (s *seg) readMsg(in *inst, tx []byte) (int, string) {
	raw, err := base64.RawURLEncoding.DecodeString(string(tx))
	if err != nil {
		return -1, "encoding"
	}
	signer, err := shmsg.GetSigner(raw)
	if err != nil {
		return -1, "signature"
	}
	mn, err := shmsg.GetMessage(raw)
	if err != nil || mn.Msg == nil {
		return -1, "contents"
	}
	p, err := proto.Marshal(mn.Msg)
	must(err)
	id, ok := s.msgs[string(p)]
	if !ok {
		return -1, "contents"
	}
	bad := ""
	if signer != crypto.PubkeyToAddress(s.key.PublicKey) {
		bad = "signer"
	} else if string(mn.ChainId) != chainName {
		bad = "chain id"
	} else if s.nonces[mn.RandomNonce] {
		bad = "nonce used before"
	} else if !s.onDisk(in, id) {
		bad = "sent before it is queued on disk"
	}
	s.nonces[mn.RandomNonce] = true
	return id, bad
}

// ---- the main chain's node

type ethAPI struct{ in *inst }

func (e *ethAPI) auth() error {
	s := e.in.s
	s.mu.Lock()
	defer s.mu.Unlock()
	if e.in.dead {
		return errNode
	}
	if s.badauth > 0 && s.r.Intn(2) == 0 {
		s.badauth--
		return errNode
	}
	return nil
}

func (e *ethAPI) ChainId() (*hexutil.Big, error) { //nolint:stylecheck,revive
	return (*hexutil.Big)(ethChain), e.auth()
}

func (e *ethAPI) GetTransactionCount(a common.Address, block string) (hexutil.Uint64, error) {
	err := e.auth()
	e.in.s.mu.Lock()
	defer e.in.s.mu.Unlock()
	return hexutil.Uint64(e.in.s.nonce), err
}

func (e *ethAPI) GasPrice() (*hexutil.Big, error) {
	return (*hexutil.Big)(big.NewInt(gasPrice)), e.auth()
}

func (e *ethAPI) GetBlockByNumber(block string, full bool) (*types.Header, error) {
	return &types.Header{Number: big.NewInt(10), Difficulty: big.NewInt(0), GasLimit: 30_000_000, BaseFee: big.NewInt(7)}, nil
}

func (e *ethAPI) GetCode(a common.Address, block string) (hexutil.Bytes, error) {
	return []byte{1, 2, 3}, nil
}

func (e *ethAPI) EstimateGas(m map[string]interface{}) (hexutil.Uint64, error) {
	return 100_000, nil
}

func (e *ethAPI) Call(m map[string]interface{}, block string) (hexutil.Bytes, error) {
	s := e.in.s
	s.mu.Lock()
	defer s.mu.Unlock()
	switch s.revertrq {
	case 0:
		return nil, errNode
	case 1:
		return pack(`[{"name":"Error","type":"function","inputs":[{"name":"x","type":"string"}]}]`, "Error", "why not"), nil
	}
	return []byte{}, nil
}

func (e *ethAPI) SendRawTransaction(ctx context.Context, raw hexutil.Bytes) (common.Hash, error) {
	s := e.in.s
	s.mu.Lock()
	if e.in.dead || s.broken {
		s.mu.Unlock()
		<-ctx.Done()
		return common.Hash{}, ctx.Err()
	}
	tx := new(types.Transaction)
	id, bad := -1, "encoding"
	if err := tx.UnmarshalBinary(raw); err == nil {
		id, bad = s.readTx(e.in, tx)
	}
	s.logm(M{"op": "submit", "id": id, "bad": bad})
	q := &req{id: id, tx: tx, ans: make(chan string, 1)}
	if s.ot != nil || id < 0 {
		s.broken = true
	}
	s.ot = q
	s.mu.Unlock()
	select {
	case <-ctx.Done():
		return common.Hash{}, ctx.Err()
	case res := <-q.ans:
		switch res {
		case "err":
			return common.Hash{}, []error{errNode, errors.New("nonce too low"), errors.New("replacement transaction underpriced")}[int(tx.Nonce())%3]
		case "final":
			s.mu.Lock()
			defer s.mu.Unlock()
			if s.p.k[id].K == "appeal" {
				return common.Hash{}, errors.New("execution reverted: KeyperSlasher: wrong signer")
			}
			return common.Hash{}, errors.New("execution reverted: KeyperSlasher: " + []string{"cannot accuse empty batch", "already accused"}[s.r.Intn(2)])
		}
		return tx.Hash(), nil
	}
}

func (s *seg) readTx(in *inst, tx *types.Transaction) (int, string) {
	from, err := types.Sender(types.LatestSignerForChainID(ethChain), tx)
	id := -1
	for i := range s.want {
		if tx.To() != nil && s.want[i].msg == nil && s.want[i].to == *tx.To() && string(s.want[i].data) == string(tx.Data()) {
			id = i
		}
	}
	switch {
	case id < 0:
		return id, "contents"
	case err != nil || from != crypto.PubkeyToAddress(s.key.PublicKey):
		return id, "signer"
	case tx.Nonce() != s.nonce:
		return id, "nonce"
	case tx.Gas() < s.want[id].gas:
		return id, "too little gas"
	case tx.Value().Sign() != 0:
		return id, "value"
	case tx.GasPrice().Cmp(big.NewInt(gasPrice)) < 0:
		return id, "gas price"
	case !s.onDisk(in, id):
		return id, "sent before it is queued on disk"
	}
	return id, ""
}

func (e *ethAPI) GetTransactionReceipt(h common.Hash) (map[string]interface{}, error) {
	s := e.in.s
	s.mu.Lock()
	defer s.mu.Unlock()
	if e.in.dead {
		return nil, errNode
	}
	id, ok := s.ids[h]
	if !ok {
		if !s.broken {
			s.logm(M{"op": "trouble", "what": "asks for an unknown transaction"})
			s.broken = true
		}
		return nil, nil
	}
	res := s.mined[h]
	if res == "" {
		return nil, nil
	}
	if res == "err" {
		s.mined[h] = ""
		return nil, errNode
	}
	if !s.broken && s.p.fl[id] {
		s.logm(M{"op": "mined", "id": id, "ok": res == "ok"})
		s.p.done(id)
	}
	status := hexutil.Uint64(1)
	if res == "revert" {
		status = 0
	}
	return map[string]interface{}{
		"transactionHash": h, "status": status, "cumulativeGasUsed": hexutil.Uint64(21000), "gasUsed": hexutil.Uint64(21000),
		"logs": []interface{}{}, "logsBloom": types.Bloom{}, "blockNumber": (*hexutil.Big)(big.NewInt(10)), "blockHash": common.Hash{1}, "transactionIndex": hexutil.Uint64(0),
	}, nil
}

func (e *ethAPI) GetTransactionByHash(h common.Hash) (map[string]interface{}, error) {
	s := e.in.s
	s.mu.Lock()
	defer s.mu.Unlock()
	tx := s.tx[h]
	if s.revertrq == 2 || tx == nil {
		return nil, nil
	}
	b, err := json.Marshal(tx)
	must(err)
	m := map[string]interface{}{}
	must(json.Unmarshal(b, &m))
	m["blockNumber"], m["blockHash"], m["from"] = "0xa", common.Hash{1}, crypto.PubkeyToAddress(s.key.PublicKey)
	return m, nil
}
