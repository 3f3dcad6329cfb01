// Package tmrpc serves a stand-in for a tendermint node over HTTP and websocket, as a real node does.
package tmrpc

import (
	"context"
	"net/http"
	"net/http/httptest"
	"sync"
	"time"

	tmlog "github.com/tendermint/tendermint/libs/log"
	"github.com/tendermint/tendermint/rpc/client"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"
	server "github.com/tendermint/tendermint/rpc/jsonrpc/server"
	rpctypes "github.com/tendermint/tendermint/rpc/jsonrpc/types"
	tmtypes "github.com/tendermint/tendermint/types"
)

// Backend answers the requests.
type Backend interface {
	client.StatusClient
	Block(ctx context.Context, height *int64) (*ctypes.ResultBlock, error)
	BlockResults(ctx context.Context, height *int64) (*ctypes.ResultBlockResults, error)
	BlockchainInfo(ctx context.Context, min, max int64) (*ctypes.ResultBlockchainInfo, error)
	TxSearch(ctx context.Context, query string, prove bool, page, perPage *int, orderBy string) (*ctypes.ResultTxSearch, error)
	BroadcastTxCommit(ctx context.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error)
}

type subscription struct {
	conn  rpctypes.WSRPCConnection
	query string
	req   *rpctypes.Context
}

type Server struct {
	*httptest.Server
	mu   sync.Mutex
	subs []subscription
}

func New(b Backend) *Server {
	s := &Server{}
	routes := map[string]*server.RPCFunc{
		"status": server.NewRPCFunc(func(c *rpctypes.Context) (*ctypes.ResultStatus, error) { return b.Status(c.Context()) }, ""),
		"block": server.NewRPCFunc(func(c *rpctypes.Context, height *int64) (*ctypes.ResultBlock, error) {
			return b.Block(c.Context(), height)
		}, "height"),
		"block_results": server.NewRPCFunc(func(c *rpctypes.Context, height *int64) (*ctypes.ResultBlockResults, error) {
			return b.BlockResults(c.Context(), height)
		}, "height"),
		"blockchain": server.NewRPCFunc(func(c *rpctypes.Context, minHeight, maxHeight int64) (*ctypes.ResultBlockchainInfo, error) {
			return b.BlockchainInfo(c.Context(), minHeight, maxHeight)
		}, "minHeight,maxHeight"),
		"tx_search": server.NewRPCFunc(func(c *rpctypes.Context, query string, prove bool, page, perPage *int, orderBy string) (*ctypes.ResultTxSearch, error) {
			return b.TxSearch(c.Context(), query, prove, page, perPage, orderBy)
		}, "query,prove,page,per_page,order_by"),
		"broadcast_tx_commit": server.NewRPCFunc(func(c *rpctypes.Context, tx tmtypes.Tx) (*ctypes.ResultBroadcastTxCommit, error) {
			return b.BroadcastTxCommit(c.Context(), tx)
		}, "tx"),
		"subscribe": server.NewWSRPCFunc(func(c *rpctypes.Context, query string) (*ctypes.ResultSubscribe, error) {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.subs = append(s.subs, subscription{conn: c.WSConn, query: query, req: c})
			return &ctypes.ResultSubscribe{}, nil
		}, "query"),
		"unsubscribe_all": server.NewWSRPCFunc(func(c *rpctypes.Context) (*ctypes.ResultUnsubscribe, error) {
			return &ctypes.ResultUnsubscribe{}, nil
		}, ""),
	}
	mux := http.NewServeMux()
	wm := server.NewWebsocketManager(routes)
	wm.SetLogger(tmlog.NewNopLogger())
	mux.HandleFunc("/websocket", wm.WebsocketHandler)
	server.RegisterRPCFuncs(mux, routes, tmlog.NewNopLogger())
	s.Server = httptest.NewServer(mux)
	return s
}

// Subscribers counts the subscriptions made.
func (s *Server) Subscribers() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.subs)
}

// NewBlock tells the subscribers of a new block.
func (s *Server) NewBlock(h int64) {
	s.mu.Lock()
	l := append([]subscription{}, s.subs...)
	s.mu.Unlock()
	for _, x := range l {
		ev := &ctypes.ResultEvent{Query: x.query, Data: tmtypes.EventDataNewBlock{Block: &tmtypes.Block{Header: tmtypes.Header{Height: h}, LastCommit: &tmtypes.Commit{Height: h - 1}}}}
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		_ = x.conn.WriteRPCResponse(ctx, rpctypes.NewRPCSuccessResponse(x.req.JSONReq.ID, ev))
		cancel()
	}
}
