package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"encoding/gob"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"golang.org/x/sync/errgroup"

	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
)

const patience = 15 * time.Second

// inst is one life of the keyper
type inst struct {
	s      *seg
	dir    string
	dead   bool // abandoned; its requests are not noticed any more
	ctx    context.Context
	cancel context.CancelFunc
	g      *errgroup.Group
	env    *fx.RunEnv
	jobs   chan func() error
	busy   int
}

// req is a request waiting for its answer
type req struct {
	id  int
	tx  *types.Transaction
	ans chan string
}

type seg struct {
	mu     sync.Mutex
	r      *mrand.Rand
	buf    bytes.Buffer
	dir    string
	lives  int
	key    *ecdsa.PrivateKey
	cur    *inst
	world  atomic.Value
	broken bool // something went wrong; the trace ends here

	acts  []fx.IAction
	want  []wanted
	msgs  map[string]int // message payload -> id
	saved []byte         // the state file: actions just decided ...
	sctr  int            // ... and the number of the first one

	om, ot *req
	nonces map[uint64]bool
	// the main chain
	nonce    uint64
	mined    map[common.Hash]string // receipt to be given: "ok", "revert", "err"
	tx       map[common.Hash]*types.Transaction
	ids      map[common.Hash]int
	badauth  int
	badinfo  int
	revertrq int

	p pred
}

// pred mirrors the specification, to know what to wait for and what can be done next
type pred struct {
	k       []act
	sn, cur int
	pend    map[int]bool
	fl      map[int]bool
	w       wld
	up      bool
}

func newSeg(r *mrand.Rand, dir string) *seg {
	must(os.MkdirAll(dir, 0o755))
	key, err := crypto.ToECDSA(crypto.Keccak256([]byte(dir), []byte{byte(r.Int())}))
	must(err)
	s := &seg{
		r: r, dir: dir, key: key, msgs: map[string]int{}, nonces: map[uint64]bool{}, mined: map[common.Hash]string{},
		tx: map[common.Hash]*types.Transaction{}, ids: map[common.Hash]int{}, nonce: uint64(r.Intn(5)),
		p: pred{pend: map[int]bool{}, fl: map[int]bool{}, up: true, w: wld{Acc: []int{}, App: []int{}}},
	}
	s.setWorld(s.p.w)
	s.logm(M{"op": "reset"})
	s.life(s.path(0))
	s.settle()
	return s
}

func (s *seg) path(n int) string { return filepath.Join(s.dir, fmt.Sprint(n)) }

func (s *seg) logm(m M) {
	b, err := json.Marshal(m)
	must(err)
	s.buf.Write(append(b, '\n'))
}

func (s *seg) trouble(what string) {
	if !s.broken {
		s.logm(M{"op": "trouble", "what": what})
		s.broken = true
	}
}

func (s *seg) setWorld(w wld) {
	mc := observe.NewMainChain(0)
	mc.NumExecutionHalfSteps = uint64(w.NX)
	for _, h := range w.Acc {
		mc.Accusations[uint64(h)] = &observe.Accusation{HalfStep: uint64(h)}
	}
	for _, h := range w.App {
		mc.Accusations[uint64(h)] = &observe.Accusation{HalfStep: uint64(h), Appealed: true}
	}
	s.world.Store(observe.World{MainChain: mc, Shutter: observe.NewShutter()})
}

func (s *seg) life(dir string) {
	must(os.MkdirAll(dir, 0o755))
	if s.r.Intn(3) == 0 { // a crash while writing
		must(os.WriteFile(filepath.Join(dir, "actions.gob.tmp"), []byte("half written"), 0o600))
	}
	in := &inst{s: s, dir: dir, jobs: make(chan func() error, 100)}
	ctx, cancel := context.WithCancel(context.Background())
	in.cancel = cancel
	in.g, in.ctx = errgroup.WithContext(ctx)
	s.mu.Lock()
	s.cur = in
	s.badinfo = []int{0, 0, 1}[s.r.Intn(3)]
	s.mu.Unlock()
	in.env = newEnv(in)
	in.env.StartBackgroundTasks(in.ctx, in.g)
	go in.mainLoop()
	in.do(func() error {
		_, err := in.env.Load(in.ctx)
		return err
	})
}

// mainLoop stands for the goroutine of the keyper's main loop
func (in *inst) mainLoop() {
	for f := range in.jobs {
		func() {
			defer func() {
				if p := recover(); p != nil {
					in.s.mu.Lock()
					defer in.s.mu.Unlock()
					in.busy--
					if !in.dead {
						in.s.trouble(fmt.Sprintf("panic: %v", p))
					}
				}
			}()
			err := f()
			in.s.mu.Lock()
			defer in.s.mu.Unlock()
			in.busy--
			if err != nil && !in.dead {
				in.s.trouble("queue: " + err.Error())
			}
		}()
	}
}

func (in *inst) do(f func() error) {
	in.s.mu.Lock()
	in.busy++
	in.s.mu.Unlock()
	in.jobs <- f
}

// ---- prediction

func (p *pred) expired(id int) bool {
	a := p.k[id]
	switch a.K {
	case "cipher", "skip", "plain":
		return p.w.NX > a.HS
	case "accuse":
		return has(p.w.Acc, a.HS)
	case "appeal":
		return !has(p.w.Acc, a.HS) || has(p.w.App, a.HS)
	}
	return false
}

func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (p *pred) msg(id int) bool { return p.k[id].K == "msg" }

func (p *pred) nextMsg() int {
	for i := range p.k {
		if p.pend[i] && p.msg(i) {
			return i
		}
	}
	return -1
}

// handed: the main loop hands over one message at a time and blocks
func (p *pred) handed(id int) bool {
	return p.count(func(i int) bool { return i < id && p.msg(i) }) <= 1
}

func (p *pred) nextTx() int {
	for i := range p.k {
		if p.pend[i] && !p.msg(i) && !p.fl[i] && !p.expired(i) && p.handed(i) {
			return i
		}
	}
	return -1
}

func (p *pred) count(f func(i int) bool) (n int) {
	for i := range p.pend {
		if f(i) {
			n++
		}
	}
	return n
}

func (p *pred) done(id int) {
	delete(p.pend, id)
	delete(p.fl, id)
}

// ---- the disk

func (s *seg) disk(dir string) (p, f []int, cur int, bad string) {
	pa := fx.NewPendingActions(filepath.Join(dir, "actions.gob"))
	p, f = []int{}, []int{}
	if err := pa.Load(); err != nil {
		return p, f, 0, "unreadable: " + err.Error()
	}
	for _, id := range pa.SortedIDs() {
		p = append(p, int(id))
		if h := pa.GetMainChainTXHash(id); h != (common.Hash{}) {
			f = append(f, int(id))
			if n, ok := s.ids[h]; !ok || n != int(id) {
				bad = "wrong transaction hash"
			}
		}
		if int(id) >= len(s.acts) || !s.same(pa.GetAction(id), int(id)) {
			bad = "changed action"
		}
	}
	sort.Ints(p)
	return p, f, int(pa.CurrentID), bad
}

func enc(a fx.IAction) []byte {
	var b bytes.Buffer
	must(gob.NewEncoder(&b).Encode(&a))
	return b.Bytes()
}

func (s *seg) same(a fx.IAction, id int) bool {
	return a != nil && bytes.Equal(enc(a), enc(s.acts[id]))
}

// asExpected: the disk shows what the prediction says; caller holds mu
func (s *seg) asExpected() bool {
	p, f, cur, bad := s.disk(s.cur.dir)
	if bad != "" || cur != s.p.cur || len(f) != len(s.p.fl) {
		return false
	}
	m := map[int]bool{}
	for _, i := range p {
		if !s.p.pend[i] {
			return false
		}
		m[i] = true
	}
	for i := range s.p.pend {
		if !m[i] && (s.p.msg(i) || s.p.fl[i] || !s.p.expired(i)) {
			return false
		}
	}
	return true
}

// settle waits until the keyper has done whatever it can, and records the disk
func (s *seg) settle() {
	deadline := time.Now().Add(patience)
	for {
		s.mu.Lock()
		ok := s.broken
		if !ok && s.p.up {
			ok = s.asExpected() && (s.om != nil || s.p.nextMsg() < 0) && (s.ot != nil || s.p.nextTx() < 0) &&
				(s.cur.busy == 0 || s.p.count(s.p.msg) > 1)
		} else if !ok {
			ok = s.asExpected()
		}
		if ok || time.Now().After(deadline) {
			if !s.broken {
				s.logDisk()
				if !ok {
					if s.p.up && s.cur.busy > 0 && s.p.count(s.p.msg) <= 1 {
						s.trouble("main loop does not go on")
					} else if s.p.up && s.om == nil && s.p.nextMsg() >= 0 {
						s.trouble("message not sent")
					} else if s.p.up && s.ot == nil && s.p.nextTx() >= 0 {
						s.trouble("transaction not submitted")
					}
					s.broken = true
				}
			}
			s.mu.Unlock()
			return
		}
		s.mu.Unlock()
		time.Sleep(5 * time.Millisecond)
	}
}

func (s *seg) logDisk() {
	p, f, cur, bad := s.disk(s.cur.dir)
	s.logm(M{"op": "disk", "pend": p, "fl": f, "cur": cur, "bad": bad})
}

// ---- operations; each returns false if it is not possible now

func (s *seg) decide(l []act) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.broken || !s.p.up || s.p.cur != len(s.p.k) || s.cur.busy > 0 || len(l) == 0 {
		return false
	}
	for _, a := range l {
		if a.K == "appeal" && !has(s.p.w.Acc, a.HS) {
			return false // nothing to appeal
		}
	}
	var as []fx.IAction
	for _, a := range l {
		id := len(s.p.k)
		s.p.k = append(s.p.k, a)
		x, w := s.action(id, a)
		as = append(as, x)
		s.acts = append(s.acts, x)
		s.want = append(s.want, w)
	}
	var b bytes.Buffer
	must(gob.NewEncoder(&b).Encode(as))
	s.saved, s.sctr, s.p.sn = b.Bytes(), len(s.p.k)-len(l), len(l)
	s.logm(M{"op": "decide", "acts": l})
	return true
}

func (s *seg) run() bool {
	s.mu.Lock()
	if s.broken || !s.p.up || s.p.cur >= len(s.p.k) || s.cur.busy > 0 {
		s.mu.Unlock()
		return false
	}
	var as []fx.IAction
	must(gob.NewDecoder(bytes.NewReader(s.saved)).Decode(&as))
	in, ctr := s.cur, s.sctr
	s.logm(M{"op": "run"})
	for i := s.p.cur; i < len(s.p.k); i++ {
		s.p.pend[i] = true
	}
	s.p.cur = len(s.p.k)
	if n := s.r.Intn(5); n == 1 || n == 2 {
		// handed over together with actions that are in the queue already, which changes nothing
		if n > ctr {
			n = ctr
		}
		var b bytes.Buffer
		must(gob.NewEncoder(&b).Encode(s.acts[ctr-n : ctr]))
		var old []fx.IAction
		must(gob.NewDecoder(&b).Decode(&old))
		as, ctr = append(old, as...), ctr-n
	}
	s.mu.Unlock()
	in.do(func() error { return in.env.RunActions(in.ctx, uint64(ctr), as) })
	return true
}

// rerun: after a restart the keyper hands over the state file's actions whether it did before or not
func (s *seg) rerun() {
	s.mu.Lock()
	if s.broken || s.saved == nil || s.cur.busy > 0 || s.p.cur != len(s.p.k) || s.sctr+s.p.sn != len(s.p.k) {
		s.mu.Unlock()
		return
	}
	var as []fx.IAction
	must(gob.NewDecoder(bytes.NewReader(s.saved)).Decode(&as))
	in, ctr := s.cur, s.sctr
	s.logm(M{"op": "run"})
	s.mu.Unlock()
	in.do(func() error { return in.env.RunActions(in.ctx, uint64(ctr), as) })
	s.settle()
}

func (s *seg) answerMsg(res string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	q := s.om
	if s.broken || q == nil {
		return false
	}
	s.om = nil
	s.logm(M{"op": "sent", "id": q.id, "res": res})
	if res == "ok" || res == "final" {
		s.p.done(q.id)
	}
	q.ans <- res
	return true
}

func (s *seg) answerTx(res string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	q := s.ot
	if s.broken || q == nil {
		return false
	}
	if res == "final" && s.p.k[q.id].K != "accuse" && s.p.k[q.id].K != "appeal" {
		return false
	}
	s.ot = nil
	switch res {
	case "ok":
		s.accept(q)
		s.p.fl[q.id] = true
	case "final":
		s.p.done(q.id)
	case "auth":
		s.badauth = 1 + s.r.Intn(2)
		res = "err"
	}
	s.logm(M{"op": "submitted", "id": q.id, "res": res})
	q.ans <- res
	return true
}

// accept: the node takes the transaction
func (s *seg) accept(q *req) {
	h := q.tx.Hash()
	s.nonce++
	s.tx[h], s.ids[h] = q.tx, q.id
}

func (s *seg) mine(id int, res string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.broken || !s.p.fl[id] {
		return false
	}
	for h, n := range s.ids {
		if n == id {
			s.mined[h] = res
		}
	}
	s.revertrq = s.r.Intn(3)
	return true
}

// polled: the keyper has asked for every receipt that was changed
func (s *seg) polled() {
	deadline := time.Now().Add(patience)
	for {
		s.mu.Lock()
		n := 0
		for h, r := range s.mined {
			if s.p.fl[s.ids[h]] && r != "" && s.p.handed(s.ids[h]) {
				n++
			}
		}
		stop := n == 0 || s.broken || !s.p.up
		s.mu.Unlock()
		if stop || time.Now().After(deadline) {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (s *seg) setw(w wld) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.broken {
		return
	}
	if w.Acc == nil {
		w.Acc = []int{}
	}
	if w.App == nil {
		w.App = []int{}
	}
	s.p.w = w
	s.setWorld(w)
	s.logm(M{"op": "world", "nx": w.NX, "acc": w.Acc, "app": w.App})
}

// crash abandons the running keyper; the next one starts from a copy of its files
func (s *seg) crash(lostMsg, lostTx bool) bool {
	s.mu.Lock()
	if s.broken || !s.p.up {
		s.mu.Unlock()
		return false
	}
	in := s.cur
	if lostTx && s.ot != nil {
		s.accept(s.ot)
	}
	s.logm(M{"op": "down", "crash": true})
	in.dead = true
	s.om, s.ot = nil, nil
	s.p.up = false
	s.lives++
	next := s.path(s.lives)
	must(os.MkdirAll(next, 0o755))
	if b, err := os.ReadFile(filepath.Join(in.dir, "actions.gob")); err == nil {
		must(os.WriteFile(filepath.Join(next, "actions.gob"), b, 0o600))
	}
	s.cur = &inst{s: s, dir: next, dead: true}
	s.mu.Unlock()
	in.cancel()
	close(in.jobs)
	return true
}

// stop ends the keyper in an orderly way
func (s *seg) stop() bool {
	s.mu.Lock()
	if s.broken || !s.p.up {
		s.mu.Unlock()
		return false
	}
	in := s.cur
	s.logm(M{"op": "down", "crash": false})
	in.dead = true
	s.om, s.ot = nil, nil
	s.p.up = false
	s.mu.Unlock()
	in.cancel()
	close(in.jobs)
	done := make(chan bool)
	go func() { _ = in.g.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(patience):
		s.mu.Lock()
		s.trouble("does not stop")
		s.mu.Unlock()
	}
	return true
}

func (s *seg) start() bool {
	s.mu.Lock()
	if s.broken || s.p.up {
		s.mu.Unlock()
		return false
	}
	dir := s.cur.dir
	s.p.up = true
	s.logm(M{"op": "up"})
	s.mu.Unlock()
	s.life(dir)
	return true
}

// ---- scripts

func (s *seg) script(l []op) {
	for _, o := range l {
		if s.isBroken() {
			return
		}
		switch o.Op {
		case "decide":
			s.decide(o.Acts)
		case "run":
			s.run()
		case "msg":
			if o.Res == "lost" {
				s.crash(true, false)
			} else {
				s.answerMsg(o.Res)
			}
		case "tx":
			if o.Res == "lost" {
				s.crash(false, true)
			} else {
				s.answerTx(o.Res)
			}
		case "mine":
			s.mine(o.ID, map[bool]string{true: "ok", false: "revert"}[o.OK])
			s.polled()
		case "pollerr":
			s.mine(o.ID, "err")
			s.polled()
		case "world":
			s.setw(*o.W)
		case "crash":
			s.crash(false, false)
		case "stop":
			s.stop()
		case "start":
			s.start()
			s.settle()
			s.rerun()
		}
		s.settle()
	}
}

func (s *seg) isBroken() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.broken
}

func (s *seg) chance(p float64) bool { return s.r.Float64() < p }

func (s *seg) random(n int) {
	r := s.r
	batch := 0
	for i := 0; i < n && !s.isBroken(); i++ {
		s.mu.Lock()
		up, om, ot := s.p.up, s.om != nil, s.ot != nil
		var fl []int
		for id := range s.p.fl {
			fl = append(fl, id)
		}
		sort.Ints(fl)
		w := s.p.w
		idle := s.cur.busy == 0 && s.p.cur == len(s.p.k)
		unrun := s.p.cur < len(s.p.k)
		load := len(s.p.pend)
		s.mu.Unlock()
		quick := false // do not wait for the keyper before the next operation
		switch x := r.Intn(100); {
		case !up && x < 60:
			s.start()
			s.settle()
			if s.chance(0.5) {
				s.rerun()
			}
		case x < 25 && idle && load < 12:
			var l []act
			for k := 1 + r.Intn(4); k > 0; k-- {
				switch r.Intn(9) {
				case 0, 1, 2, 3:
					l = append(l, act{"msg", 0})
				case 4:
					batch++
					l = append(l, act{"skip", 2 * batch})
				case 5:
					l = append(l, act{"cipher", 2 * (w.NX/2 + r.Intn(3))})
				case 6:
					l = append(l, act{"plain", 2*(w.NX/2+r.Intn(3)) + 1})
				case 7:
					if w.NX > 0 && r.Intn(2) == 0 {
						l = append(l, act{"accuse", r.Intn(w.NX) / 2 * 2})
					} else {
						l = append(l, act{"eonkey", 0})
					}
				case 8:
					if len(w.Acc) > 0 {
						l = append(l, act{"appeal", w.Acc[r.Intn(len(w.Acc))]})
					} else {
						l = append(l, act{"msg", 0})
					}
				}
			}
			if !s.decide(l) {
				continue
			}
			if s.chance(0.85) {
				s.run()
			}
		case x < 35 && unrun:
			s.run()
		case x < 50 && om:
			res := []string{"ok", "ok", "ok", "ok", "err", "mempool", "final"}[r.Intn(7)]
			s.answerMsg(res)
			quick = (res == "err" || res == "mempool") && s.chance(0.5)
		case x < 65 && ot:
			res := []string{"ok", "ok", "ok", "ok", "err", "auth", "final"}[r.Intn(7)]
			if s.answerTx(res) {
				quick = (res == "err" || res == "auth") && s.chance(0.5)
			}
		case x < 80 && len(fl) > 0:
			s.mine(fl[r.Intn(len(fl))], []string{"ok", "ok", "revert", "err"}[r.Intn(4)])
			s.polled()
		case x < 88:
			switch r.Intn(4) {
			case 0, 1:
				w.NX += 1 + r.Intn(2)
			case 2:
				if w.NX > 0 {
					h := r.Intn(w.NX) / 2 * 2
					if !has(w.Acc, h) {
						w.Acc = append(append([]int{}, w.Acc...), h)
					}
				}
			case 3:
				if len(w.Acc) > 0 {
					h := w.Acc[r.Intn(len(w.Acc))]
					if !has(w.App, h) {
						w.App = append(append([]int{}, w.App...), h)
					}
				}
			}
			s.setw(w)
		case x < 93:
			s.crash(s.chance(0.3), s.chance(0.3))
		case x < 97:
			s.stop()
		}
		if quick { // wait for the disk only, then go down during the pause before the next attempt
			time.Sleep(time.Duration(20+r.Intn(300)) * time.Millisecond)
			if s.chance(0.5) {
				s.crash(false, false)
			} else {
				s.stop()
			}
		}
		s.settle()
	}
}

// finish gives the keyper all the time and good answers it needs
func (s *seg) finish() {
	if s.start() {
		s.settle()
	}
	for i := 0; i < 400 && !s.isBroken(); i++ {
		s.mu.Lock()
		unrun := s.p.cur < len(s.p.k) && s.cur.busy == 0
		var fl []int
		for id := range s.p.fl {
			fl = append(fl, id)
		}
		om, ot := s.om != nil, s.ot != nil
		none := len(s.p.pend) == s.p.count(func(i int) bool { return !s.p.msg(i) && !s.p.fl[i] && s.p.expired(i) }) && s.p.cur == len(s.p.k) && !om && !ot
		s.mu.Unlock()
		if none {
			break
		}
		if unrun {
			s.run()
		}
		if om {
			s.answerMsg("ok")
		}
		if ot {
			s.answerTx("ok")
		}
		for _, id := range fl {
			s.mine(id, "ok")
		}
		s.polled()
		s.settle()
	}
	// expired transactions leave the queue as well
	deadline := time.Now().Add(patience)
	for !s.isBroken() && time.Now().Before(deadline) {
		p, _, _, _ := s.disk(s.cur.dir)
		if len(p) == 0 {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	s.mu.Lock()
	if !s.broken {
		s.logDisk()
		s.logm(M{"op": "end", "idle": s.om == nil && s.ot == nil})
	}
	in := s.cur
	in.dead = true
	s.broken = true
	s.mu.Unlock()
	if in.cancel != nil {
		in.cancel()
	}
}
