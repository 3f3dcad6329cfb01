// viewdrv lets the real observe.Shutter follow a keyper chain served by a fake node and records
// the view after every step.
package main

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	ctypes "github.com/tendermint/tendermint/rpc/core/types"

	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"

	"verif/shut/appx"
	"verif/shut/fake"
)

type M = appx.M

func ev(x shutterevents.IEvent, h int64) M { return M{"ev": appx.Describe(x, h), "h": h} }

func height(x shutterevents.IEvent) int64 {
	switch e := x.(type) {
	case *shutterevents.BatchConfig:
		return e.Height
	case *shutterevents.DecryptionSignature:
		return e.Height
	case *shutterevents.PolyEval:
		return e.Height
	case *shutterevents.PolyCommitment:
		return e.Height
	case *shutterevents.Accusation:
		return e.Height
	case *shutterevents.Apology:
		return e.Height
	case *shutterevents.EpochSecretKeyShare:
		return e.Height
	}
	return -1
}

func one(x shutterevents.IEvent) M { return ev(x, height(x)) }

// view describes what a keyper sees.
func view(s *observe.Shutter) M {
	cur := s.CurrentBlock
	if cur < 0 {
		cur = 0
	}
	keys := [][]string{}
	for a, k := range s.KeyperEncryptionKeys {
		keys = append(keys, []string{appx.AddrName(a), appx.EKeys.Name(crypto.CompressPubkey((*ecies.PublicKey)(k).ExportECDSA()))})
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i][0] < keys[j][0] })
	cfgs, eons, batches := []M{}, []M{}, [][]interface{}{}
	for i := range s.BatchConfigs {
		cfgs = append(cfgs, one(&s.BatchConfigs[i]))
	}
	for i := range s.Eons {
		e := &s.Eons[i]
		m := appx.Describe(&e.StartEvent, e.StartHeight)
		r := M{"eon": m["eon"], "start": m["start"], "h": e.StartHeight}
		if n, ok := appx.Num(e.Eon); !ok || n != m["eon"] {
			r["eon"] = -1
		}
		l := []M{}
		for i := range e.Commitments {
			l = append(l, one(&e.Commitments[i]))
		}
		r["pc"] = l
		l = []M{}
		for i := range e.PolyEvals {
			l = append(l, one(&e.PolyEvals[i]))
		}
		r["pe"] = l
		l = []M{}
		for i := range e.Accusations {
			l = append(l, one(&e.Accusations[i]))
		}
		r["ac"] = l
		l = []M{}
		for i := range e.Apologies {
			l = append(l, one(&e.Apologies[i]))
		}
		r["ap"] = l
		l = []M{}
		for i := range e.EpochSecretKeyShares {
			l = append(l, one(&e.EpochSecretKeyShares[i]))
		}
		r["sh"] = l
		eons = append(eons, r)
	}
	idx := []uint64{}
	for b := range s.Batches {
		idx = append(idx, b)
	}
	sort.Slice(idx, func(i, j int) bool { return idx[i] < idx[j] })
	for _, b := range idx {
		l := []M{}
		for i := range s.Batches[b].DecryptionSignatures {
			l = append(l, one(&s.Batches[b].DecryptionSignatures[i]))
		}
		n, ok := appx.Num(b)
		if !ok || s.Batches[b].BatchIndex != b {
			n = -1
		}
		batches = append(batches, []interface{}{n, l})
	}
	return M{"cur": cur, "keys": keys, "cfgs": cfgs, "eons": eons, "batches": batches}
}

func dump(s *observe.Shutter) string {
	b, err := json.Marshal([]interface{}{view(s), s.Filter, s.LastCommittedHeight})
	if err != nil {
		panic(err)
	}
	return string(b)
}

type old struct {
	s *observe.Shutter
	d string
}

type sim struct {
	tw    *appx.TraceWriter
	r     *rand.Rand
	node  *fake.Node
	v     *observe.Shutter
	seen  []old
	loop  bool
	in    chan ctypes.ResultEvent
	out   chan *observe.Shutter
	flt   chan observe.ShutterFilter
	stop  func()
	done  chan struct{}
	dead  bool
	eons  int
	cfgs  int
	nev   int
	filtH int64
	filtB int64
}

func (s *sim) handOut() M {
	s.seen = append(s.seen, old{s.v, dump(s.v)})
	return view(s.v)
}

func (s *sim) reset() {
	s.endLoop()
	s.tw.Put(M{"op": "reset"})
	s.node = &fake.Node{Events: make(chan ctypes.ResultEvent)}
	s.v = observe.NewShutter()
	s.seen, s.dead = nil, false
	s.eons, s.cfgs, s.nev, s.filtH, s.filtB = 0, 0, 0, 0, 0
}

func (s *sim) block(evs []M) {
	s.tw.Put(M{"op": "block", "evs": evs})
	txs := []fake.Tx{}
	for i := 0; i < len(evs); {
		// several events of one transaction, and rejected transactions in between
		n := 1 + s.r.Intn(2)
		if i+n > len(evs) {
			n = len(evs) - i
		}
		tx := fake.Tx{}
		for _, e := range evs[i : i+n] {
			tx.Events = append(tx.Events, appx.EventOf(e))
		}
		i += n
		if s.r.Intn(6) == 0 {
			txs = append(txs, fake.Tx{Code: 1})
		}
		txs = append(txs, tx)
	}
	if s.r.Intn(5) == 0 {
		txs = append(txs, fake.Tx{Code: 1})
	}
	s.node.With(func(n *fake.Node) { n.Blocks = append(n.Blocks, txs) })
	s.nev += len(evs)
}

func (s *sim) empty(n int) {
	s.tw.Put(M{"op": "blocks", "n": n})
	s.node.With(func(x *fake.Node) {
		for i := 0; i < n; i++ {
			x.Blocks = append(x.Blocks, nil)
		}
	})
}

func (s *sim) len() int64 { return int64(len(s.node.Blocks)) }

// sync makes the node's committed height h and syncs; failIn>0 injects an error
func (s *sim) sync(h int64, failIn int) {
	s.node.With(func(n *fake.Node) {
		n.Head, n.FailIn, n.Failed = h+1, failIn, false
		n.Catching = s.r.Intn(4) == 0
	})
	var nv *observe.Shutter
	var err error
	if s.loop {
		if s.dead {
			return
		}
		if !s.notify() {
			s.tw.Put(M{"op": "sync", "h": h, "out": M{"err": "the synchronisation stopped"}})
			s.dead = true
			return
		}
		// the loop answers with a view, or not at all after an error
		for t := 0; nv == nil && err == nil; t++ {
			select {
			case nv = <-s.out:
			case <-s.done:
				s.tw.Put(M{"op": "sync", "h": h, "out": M{"err": "the synchronisation stopped"}})
				s.dead = true
				return
			case <-time.After(3 * time.Millisecond):
				failed := false
				s.node.With(func(n *fake.Node) { failed = n.Failed })
				if failed {
					select {
					case nv = <-s.out: // tried again by itself
					case <-time.After(3 * time.Millisecond):
						err = fake.ErrDown
					}
				} else if t > 5000 {
					s.tw.Put(M{"op": "sync", "h": h, "out": M{"err": "no view after a new block"}})
					s.dead = true
					return
				}
			}
		}
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					s.tw.Put(M{"op": "sync", "h": h, "out": M{"err": fmt.Sprintf("panic: %v", r)}})
					nv, err = nil, fmt.Errorf("panic: %v", r)
				}
			}()
			nv, err = s.v.SyncToHead(context.Background(), s.node)
		}()
	}
	failed := false
	s.node.With(func(n *fake.Node) { failed, n.FailIn = n.Failed, 0 })
	if err != nil {
		if !failed {
			s.tw.Put(M{"op": "sync", "h": h, "out": M{"err": "error although the node answered: " + short(err)}})
			return
		}
		s.tw.Put(M{"op": "fail", "out": view(s.v)})
		return
	}
	s.v = nv
	s.tw.Put(M{"op": "sync", "h": h, "out": s.handOut()})
}

func short(err error) string {
	t := strings.SplitN(err.Error(), "\n", 2)[0]
	if !appx.ASCII(t) {
		t = "?"
	}
	return t
}

func (s *sim) filter(sh, bi int64) {
	f := observe.ShutterFilter{SyncHeight: sh, BatchIndex: appx.Conc(bi)}
	if s.loop {
		// the next view sent shows the effect
		select {
		case s.flt <- f:
		case <-s.done:
			s.dead = true
			return
		}
		s.v = s.v.ApplyFilter(f)
		s.tw.Put(M{"op": "filter", "sh": sh, "bi": bi, "out": view(s.v)})
		return
	}
	s.v = s.v.ApplyFilter(f)
	s.tw.Put(M{"op": "filter", "sh": sh, "bi": bi, "out": s.handOut()})
}

func (s *sim) restart() {
	loop := s.loop
	s.endLoop()
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(s.v); err != nil {
		s.tw.Put(M{"op": "restart", "out": M{"err": "cannot save: " + short(err)}})
		return
	}
	n := new(observe.Shutter)
	if err := gob.NewDecoder(&b).Decode(n); err != nil {
		s.tw.Put(M{"op": "restart", "out": M{"err": "cannot load: " + short(err)}})
		return
	}
	s.v = n
	s.tw.Put(M{"op": "restart", "out": s.handOut()})
	if loop {
		s.startLoop()
	}
}

func (s *sim) recheck() {
	same := true
	for _, o := range s.seen {
		same = same && dump(o.s) == o.d
	}
	s.tw.Put(M{"op": "recheck", "out": M{"same": same}})
}

func (s *sim) startLoop() {
	ctx, cancel := context.WithCancel(context.Background())
	s.out = make(chan *observe.Shutter)
	s.flt = make(chan observe.ShutterFilter)
	s.in = make(chan ctypes.ResultEvent)
	s.node.With(func(n *fake.Node) { n.Events = s.in })
	done := make(chan struct{})
	s.done = done
	v := s.v
	go func() {
		defer close(done)
		defer func() { _ = recover() }()
		_ = observe.SyncShutter(ctx, s.node, v, s.out, s.flt)
	}()
	s.loop = true
	s.stop = func() {
		cancel()
		<-done
	}
}

func (s *sim) notify() bool {
	for {
		select {
		case s.in <- ctypes.ResultEvent{}:
			return true
		case <-s.done:
			return false
		case <-s.out:
		case <-time.After(20 * time.Second):
			return false
		}
	}
}

func (s *sim) endLoop() {
	if s.loop {
		s.stop()
		s.loop = false
	}
}

func (s *sim) randEvent() M {
	r := s.r
	k := func() string { return fmt.Sprintf("k%d", 1+r.Intn(5)) }
	ks := func() []string { return appx.Subset(r, 5, r.Intn(5)) }
	eon := 1 + r.Intn(s.eons+1)
	if s.eons > 0 && r.Intn(8) > 0 {
		eon = 1 + r.Intn(s.eons)
	}
	picks := func(n int, p func(*rand.Rand) string) []string {
		l := []string{}
		for i := 0; i < n; i++ {
			l = append(l, p(r))
		}
		return l
	}
	b := r.Intn(8)
	switch x := r.Intn(24); {
	case x < 2 || s.cfgs == 0:
		s.cfgs++
		return M{"t": "bc", "start": s.cfgs * 3, "kp": ks(), "thr": 1 + r.Intn(3), "idx": s.cfgs}
	case x < 4 || s.eons == 0:
		s.eons++
		return M{"t": "eon", "eon": s.eons, "start": r.Intn(20)}
	case x < 6:
		return M{"t": "ci", "snd": k(), "ek": appx.EKeys.Pick(r)}
	case x < 11:
		return M{"t": "ds", "b": b, "snd": k(), "sig": appx.Sigs.Pick(r)}
	case x < 14:
		rc := ks()
		return M{"t": "pe", "eon": eon, "snd": k(), "rc": rc, "ev": picks(len(rc), appx.Evals.Pick)}
	case x < 16:
		return M{"t": "pc", "eon": eon, "snd": k(), "g": picks(r.Intn(4), appx.Gammas.Pick)}
	case x < 18:
		return M{"t": "ac", "eon": eon, "snd": k(), "acc": ks()}
	case x < 20:
		rc := ks()
		return M{"t": "ap", "eon": eon, "snd": k(), "acc": rc, "ev": picks(len(rc), appx.Ints.Pick)}
	case x < 23:
		return M{"t": "sh", "eon": eon, "snd": k(), "epoch": b, "share": appx.Shares.Pick(r)}
	}
	return M{"t": "foreign"}
}

func (s *sim) randBlock(max int) {
	evs := []M{}
	for n := s.r.Intn(max + 1); n > 0; n-- {
		evs = append(evs, s.randEvent())
	}
	s.block(evs)
}

// border makes blocks with events around the ends of the ranges the keyper asks for when it
// is far behind (500 blocks each), and lets it catch up, perhaps with errors in between
func (s *sim) border() {
	k := s.v.CurrentBlock
	for n := 1 + s.r.Intn(2); n > 0; n-- {
		k += 500
		for s.len() < k-1 {
			s.empty(int(k - 1 - s.len()))
		}
		for s.len() < k+4 {
			s.randBlock(2)
		}
	}
	for f := s.r.Intn(3); f > 0 && !s.dead; f-- {
		s.sync(s.len(), 1+s.r.Intn(4))
	}
	if !s.dead {
		s.sync(s.len()-s.r.Int63n(3), 0)
	}
}

func (s *sim) random(ops int) {
	s.reset()
	r := s.r
	big := r.Intn(6) == 0
	if r.Intn(2) == 0 {
		s.startLoop()
	}
	for i := 0; i < ops && !s.dead; i++ {
		if big && i == ops/4 && s.len() <= s.v.CurrentBlock+400 {
			s.border()
			continue
		}
		switch x := r.Intn(20); {
		case x < 7:
			s.randBlock(3)
		case x == 7 && big && s.nev < 300:
			for j := 0; j < 3; j++ {
				s.randBlock(90)
			}
		case x == 8 && big && s.len() < 3000:
			if s.len() <= s.v.CurrentBlock+400 && r.Intn(2) == 0 {
				s.border()
			} else {
				s.empty(400 + r.Intn(400))
			}
		case x < 14:
			if s.len() == 0 {
				continue
			}
			h := s.len()
			switch r.Intn(6) {
			case 0:
				h = 1 + r.Int63n(s.len())
			case 1:
				if h > 1 {
					h--
				}
			}
			f := 0
			if r.Intn(4) == 0 {
				f = 1 + r.Intn(6)
			}
			s.sync(h, f)
		case x < 17:
			cur := s.v.CurrentBlock
			if r.Intn(2) == 0 {
				s.filtH += int64(r.Intn(3))
			}
			if cur >= 0 && s.filtH > cur+1 {
				s.filtH = cur + 1
			}
			if cur < 0 {
				s.filtH = 0
			}
			if r.Intn(2) == 0 && s.filtB < 8 {
				s.filtB += int64(r.Intn(3))
			}
			s.filter(s.filtH, s.filtB)
		case x == 17:
			s.restart()
		default:
			s.recheck()
		}
	}
	if s.len() > 0 {
		s.sync(s.len(), 0)
	}
	s.recheck()
	s.endLoop()
}

func main() {
	out := flag.String("out", "", "trace file")
	seed := flag.Int64("seed", 1, "")
	segs := flag.Int("segments", 10, "")
	ops := flag.Int("ops", 40, "")
	scripts := flag.String("scripts", "", "replay these behaviours")
	flag.Parse()
	s := &sim{tw: appx.NewTraceWriter(*out), r: rand.New(rand.NewSource(*seed))}
	if *scripts != "" {
		b, err := os.ReadFile(*scripts)
		if err != nil {
			panic(err)
		}
		for _, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var l []M
			if err := json.Unmarshal([]byte(line), &l); err != nil {
				panic(err)
			}
			s.reset()
			for _, o := range l {
				n := func(k string) int64 { return int64(o[k].(float64)) }
				switch o["op"] {
				case "block":
					evs := []M{}
					for _, e := range o["evs"].([]interface{}) {
						evs = append(evs, e.(M))
					}
					s.block(evs)
				case "sync":
					s.sync(n("h"), 0)
				case "filter":
					s.filter(n("sh"), n("bi"))
				case "fail":
					s.sync(s.len(), 1+s.r.Intn(3))
				case "restart":
					s.restart()
				}
			}
			s.recheck()
		}
	} else {
		for i := 0; i < *segs; i++ {
			s.random(*ops)
		}
	}
	s.endLoop()
	s.tw.Close()
}
