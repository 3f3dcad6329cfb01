// Package fake is a stand-in for a tendermint node, speaking its client interface.
package fake

import (
	"context"
	"errors"
	"sync"

	abcitypes "github.com/tendermint/tendermint/abci/types"
	"github.com/tendermint/tendermint/libs/pubsub/query"
	"github.com/tendermint/tendermint/rpc/client"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	"github.com/tendermint/tendermint/types"
)

var ErrDown = errors.New("node is down")

type Tx struct {
	Code   uint32
	Events []abcitypes.Event
}

// Node serves the blocks up to Head.
type Node struct {
	client.Client
	mu        sync.Mutex
	Blocks    [][]Tx // Blocks[h-1]
	Head      int64
	FailIn    int // fail the n-th call from now (0: never)
	Failed    bool
	Calls     int
	Catching  bool
	Events    chan ctypes.ResultEvent
	Subs      int
	Broadcast func(tx types.Tx) (*ctypes.ResultBroadcastTxCommit, error)
}

func (n *Node) call(ctx context.Context) error {
	n.Calls++
	if n.FailIn > 0 {
		n.FailIn--
		if n.FailIn == 0 {
			n.Failed = true
			return ErrDown
		}
	}
	return ctx.Err()
}

func (n *Node) Status(ctx context.Context) (*ctypes.ResultStatus, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if err := n.call(ctx); err != nil {
		return nil, err
	}
	return &ctypes.ResultStatus{SyncInfo: ctypes.SyncInfo{LatestBlockHeight: n.Head, CatchingUp: n.Catching}}, nil
}

func (n *Node) Block(ctx context.Context, h *int64) (*ctypes.ResultBlock, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if err := n.call(ctx); err != nil {
		return nil, err
	}
	height := n.Head
	if h != nil {
		height = *h
	}
	if height == 0 {
		return &ctypes.ResultBlock{}, nil
	}
	return &ctypes.ResultBlock{Block: &types.Block{Header: types.Header{Height: height}, LastCommit: &types.Commit{Height: height - 1}}}, nil
}

func (n *Node) BlockResults(ctx context.Context, h *int64) (*ctypes.ResultBlockResults, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if err := n.call(ctx); err != nil {
		return nil, err
	}
	height := n.Head
	if h != nil {
		height = *h
	}
	if height < 1 || height > n.Head {
		return nil, errors.New("no such block")
	}
	res := &ctypes.ResultBlockResults{Height: height}
	for _, tx := range n.Blocks[height-1] {
		res.TxsResults = append(res.TxsResults, &abcitypes.ResponseDeliverTx{Code: tx.Code, Events: tx.Events})
	}
	return res, nil
}

// TxSearch understands conditions on tx.height.
func (n *Node) TxSearch(ctx context.Context, q string, prove bool, page, perPage *int, orderBy string) (*ctypes.ResultTxSearch, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if err := n.call(ctx); err != nil {
		return nil, err
	}
	qq, err := query.New(q)
	if err != nil {
		return nil, err
	}
	conds, err := qq.Conditions()
	if err != nil {
		return nil, err
	}
	var all []*ctypes.ResultTx
	for h := int64(1); h <= n.Head && h <= int64(len(n.Blocks)); h++ {
		ok := true
		for _, c := range conds {
			if c.CompositeKey != types.TxHeightKey {
				return nil, errors.New("unsupported condition " + c.CompositeKey)
			}
			v, isInt := c.Operand.(int64)
			if !isInt {
				return nil, errors.New("bad operand")
			}
			switch c.Op {
			case query.OpEqual:
				ok = ok && h == v
			case query.OpLess:
				ok = ok && h < v
			case query.OpLessEqual:
				ok = ok && h <= v
			case query.OpGreater:
				ok = ok && h > v
			case query.OpGreaterEqual:
				ok = ok && h >= v
			default:
				return nil, errors.New("unsupported operator")
			}
		}
		if !ok {
			continue
		}
		for i, tx := range n.Blocks[h-1] {
			all = append(all, &ctypes.ResultTx{Height: h, Index: uint32(i), TxResult: abcitypes.ResponseDeliverTx{Code: tx.Code, Events: tx.Events}})
		}
	}
	switch orderBy {
	case "desc":
		for i, j := 0, len(all)-1; i < j; i, j = i+1, j-1 {
			all[i], all[j] = all[j], all[i]
		}
	case "asc", "":
	default:
		return nil, errors.New("expected order_by to be either `asc` or `desc` or empty")
	}
	pp := 30
	if perPage != nil && *perPage >= 1 {
		pp = *perPage
		if pp > 100 {
			pp = 100
		}
	}
	p := 1
	if page != nil {
		pages := (len(all)-1)/pp + 1
		if pages <= 0 {
			pages = 1
		}
		p = *page
		if p <= 0 || p > pages {
			return nil, errors.New("page out of range")
		}
	}
	lo := (p - 1) * pp
	hi := lo + pp
	if hi > len(all) {
		hi = len(all)
	}
	return &ctypes.ResultTxSearch{Txs: all[lo:hi], TotalCount: len(all)}, nil
}

func (n *Node) Subscribe(ctx context.Context, subscriber, q string, outCapacity ...int) (<-chan ctypes.ResultEvent, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.Subs++
	return n.Events, ctx.Err()
}

func (n *Node) BroadcastTxCommit(ctx context.Context, tx types.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
	n.mu.Lock()
	b := n.Broadcast
	n.mu.Unlock()
	return b(tx)
}

// With changes the node's state.
func (n *Node) With(f func(n *Node)) {
	n.mu.Lock()
	defer n.mu.Unlock()
	f(n)
}
