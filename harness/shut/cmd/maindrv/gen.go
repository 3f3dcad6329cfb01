package main

import (
	"context"
	"encoding/json"
	"math/big"
	mrand "math/rand"

	"github.com/ethereum/go-ethereum/accounts/abi/bind"
	"github.com/shutter-network/shutter/shuttermint/contract"
)

func runScript(r *mrand.Rand, x *script) []byte {
	s := newSeg(r, x.Par, x.Follow)
	for i := range x.Setup {
		s.call(x.Setup[i])
	}
	s.mine()
	for i := range x.Prefix {
		s.mine()
		s.call(x.Prefix[i])
	}
	if len(x.Prefix) > 0 {
		s.mine()
	}
	if r.Intn(4) == 0 {
		s.startLoop()
	}
	for i := range x.Ops {
		o := x.Ops[i]
		switch o.K {
		case "mine":
			s.mine()
		case "sync":
			s.sync(s.tip-o.Lag, false, 0)
		case "reorg":
			s.reorg(o.D)
		default:
			s.call(o)
		}
	}
	s.stopLoop()
	s.sync(s.tip, false, 0)
	if s.v.CurrentBlock > 0 {
		s.calendar()
	}
	s.peek()
	return s.buf.Bytes()
}

func (s *seg) chance(p float64) bool { return s.r.Float64() < p }

// pickCfg makes up a config, usually one that can be scheduled.
func (s *seg) pickCfg() cfg {
	last := s.cfgs[len(s.cfgs)-1]
	n := s.tip + 1
	up := s.par.HeadsUp
	if last.Span > up {
		up = last.Span
	}
	c := cfg{
		Span: s.r.Intn(4) + 1, BSL: s.r.Intn(12) + 3, TSL: s.r.Intn(5) + 2, Gas: s.r.Intn(3) * 50000, FR: s.r.Intn(nacc+1) - 1, TA: s.r.Intn(nacc+1) - 1, Sel: s.r.Intn(1 << 30), TO: s.r.Intn(6),
		KP: []int{},
	}
	if s.chance(.2) {
		c.Span = 0
	}
	for _, i := range s.r.Perm(5)[:s.r.Intn(4)+1] {
		c.KP = append(c.KP, i+1)
	}
	for s.chance(.15) {
		c.KP = append(c.KP, c.KP[s.r.Intn(len(c.KP))])
	}
	c.T = s.r.Intn(len(c.KP) + 1)
	if s.chance(.05) {
		c.T = len(c.KP) + 1
	}
	if last.Span > 0 {
		k := (n+up+1-last.SB+last.Span-1)/last.Span + s.r.Intn(3)
		if k < 1 {
			k = 1
		}
		if s.chance(.1) {
			k--
		}
		if k < 0 {
			k = 0
		}
		c.SBI = last.SBI + k
		c.SB = last.SB + last.Span*k
		if s.chance(.1) {
			c.SB += s.r.Intn(2)
		}
	} else {
		c.SBI = last.SBI
		c.SB = n + up + 1 + s.r.Intn(4)
		if s.chance(.1) {
			c.SB--
		}
		if s.chance(.1) {
			c.SBI++
		}
	}
	return c
}

func (s *seg) cfgFor(b int) cfg {
	for i := len(s.cfgs) - 1; i > 0; i-- {
		if s.cfgs[i].SBI <= b {
			return s.cfgs[i]
		}
	}
	return s.cfgs[0]
}

// someKeyper picks a keyper of the config of a batch, and its index
func (s *seg) someKeyper(b int) (int, int) {
	c := s.cfgFor(b)
	if len(c.KP) == 0 || s.chance(.1) {
		return s.r.Intn(nacc), s.r.Intn(4)
	}
	i := s.r.Intn(len(c.KP))
	if s.chance(.05) {
		return c.KP[i], s.r.Intn(len(c.KP) + 1)
	}
	return c.KP[i], i
}

func (s *seg) openBatch() int {
	n := s.tip + 1
	for i := len(s.cfgs) - 1; i > 0; i-- {
		c := s.cfgs[i]
		if c.SB <= n && c.Span > 0 {
			return c.SBI + (n-c.SB)/c.Span + s.r.Intn(4) - 1
		}
	}
	return s.r.Intn(4)
}

func (s *seg) batchTxs(b, t int) []int {
	if x := s.txs[b]; x != nil {
		return append([]int{}, x[t]...)
	}
	return []int{}
}

func (s *seg) owner() int {
	if s.chance(.05) {
		return s.r.Intn(nacc)
	}
	return 0
}

func (s *seg) admin() {
	switch s.r.Intn(12) {
	case 0, 1, 2, 3:
		c := s.pickCfg()
		s.jsonTrip(c)
		if s.call(op{K: "setcfg", Cfg: &c}) && s.chance(.9) {
			s.logm(M{"op": "nx", "nx": s.pendingNext()})
			if s.chance(.8) {
				s.call(op{K: "schedule", From: s.owner()})
			}
		}
	case 4:
		f := []string{"sbi", "sb", "t", "span", "bsl", "tsl", "gas", "fr", "ta", "sel", "to"}[s.r.Intn(11)]
		v := s.r.Intn(6)
		if f == "fr" || f == "ta" {
			v = s.r.Intn(nacc+1) - 1
		}
		s.call(op{K: "set", From: s.owner(), F: f, V: v})
	case 5:
		l := []int{}
		for i := s.r.Intn(4); i > 0; i-- {
			l = append(l, s.r.Intn(nacc))
		}
		s.call(op{K: "addkp", From: s.owner(), KP: l})
	case 6:
		s.call(op{K: "rmkp", From: s.owner(), N: s.r.Intn(4)})
	case 7, 8:
		s.call(op{K: "schedule", From: s.owner()})
	case 9, 10:
		n := s.tip + 1 + s.par.HeadsUp + s.r.Intn(8)
		if k := len(s.cfgs); k > 1 && s.chance(.7) {
			n = s.cfgs[k-1-s.r.Intn(min(k, 2))].SB
			if s.chance(.2) {
				n++
			}
		}
		s.call(op{K: "unschedule", From: s.owner(), N: n})
	case 11:
		s.call(op{K: "minfee", From: s.owner(), N: s.r.Intn(3)})
	}
}

func (s *seg) add() {
	s.nid++
	id := s.nid
	n := s.r.Intn(5) + 1
	if s.chance(.03) {
		n = 0
	}
	if s.chance(.1) && id > 1 { // the same once more
		id = s.r.Intn(s.nid-1) + 1
		if x, ok := s.lens[id]; ok {
			n = x
		}
	}
	s.call(op{K: "add", From: s.r.Intn(nacc), B: max(0, s.openBatch()), T: s.r.Intn(2), ID: id, Len: n, Val: s.r.Intn(3)})
}

func (s *seg) execute() {
	b := s.half / 2
	if s.chance(.05) {
		b = max(0, b+s.r.Intn(3)-1)
	}
	k := s.r.Intn(10)
	switch {
	case k < 6 && s.half%2 == 0 || k == 9:
		from, ki := s.someKeyper(b)
		h := s.batchTxs(b, 0)
		txs := []int{}
		if len(h) > 0 {
			for i := s.r.Intn(3); i > 0; i-- {
				s.nid++
				txs = append(txs, s.nid)
			}
		}
		if s.chance(.05) {
			h = s.batchTxs(b+1, 0)
		}
		if s.chance(.03) {
			txs = append(txs, 1)
		}
		s.call(op{K: "cipher", From: from, B: b, Hash: h, Txs: txs, KI: ki})
	case k < 6:
		txs := s.batchTxs(b, 1)
		if s.chance(.07) && len(txs) > 0 {
			txs = txs[1:]
		}
		if s.chance(.05) {
			txs = append(txs, 1)
			if _, ok := s.lens[1]; !ok {
				s.lens[1] = 5
			}
		}
		s.call(op{K: "plain", From: s.r.Intn(nacc), B: b, Txs: txs})
	case k == 6:
		s.call(op{K: "skip", From: s.r.Intn(nacc), B: b})
	case k == 7:
		s.call(op{K: "skipmany", From: s.r.Intn(nacc), N: s.r.Intn(4)})
	case k == 8:
		if s.chance(.3) {
			s.call(op{K: "sethalf", From: s.owner(), N: s.half + s.r.Intn(4)})
		}
	}
}

func (s *seg) someStep() int {
	l := []int{}
	for h := range s.exec {
		l = append(l, h)
	}
	if len(l) == 0 || s.chance(.1) {
		return s.r.Intn(s.half + 2)
	}
	m := l[0]
	for _, h := range l {
		if h > m {
			m = h
		}
	}
	if s.chance(.5) {
		return m
	}
	x := s.r.Intn(m + 1)
	return x - x%2
}

func (s *seg) slasher() {
	h := s.someStep()
	for a := range s.accd {
		if s.chance(.5) || h < a {
			h = max(h, a)
		}
	}
	switch s.r.Intn(5) {
	case 0, 1:
		h = s.someStep()
		from, ki := s.someKeyper(h / 2)
		s.call(op{K: "accuse", From: from, H: h, KI: ki})
	case 2, 3:
		c := s.cfgFor(h / 2)
		sigs := []sigd{}
		for i, k := range c.KP {
			if len(sigs) < c.T || s.chance(.2) {
				by := k
				if s.chance(.05) {
					by = []int{-2, s.r.Intn(nacc)}[s.r.Intn(2)]
				}
				sigs = append(sigs, sigd{i, by})
			}
		}
		if s.chance(.1) && len(sigs) > 1 {
			sigs[0], sigs[1] = sigs[1], sigs[0]
		}
		if s.chance(.1) && len(sigs) > 0 {
			sigs = sigs[1:]
		}
		if s.chance(.05) && len(sigs) > 0 {
			sigs[len(sigs)-1].I += s.r.Intn(2)
		}
		s.call(op{K: "appeal", From: s.r.Intn(nacc), H: h, Sigs: sigs})
	case 4:
		s.call(op{K: "slash", From: s.r.Intn(nacc), H: h})
	}
}

func (s *seg) money() {
	a := s.r.Intn(5) + 1
	switch s.r.Intn(8) {
	case 0, 1, 2:
		s.call(op{K: "deposit", From: a, Amt: s.r.Intn(20), Delay: s.r.Intn(4)})
	case 3, 4:
		s.call(op{K: "request", From: a})
	case 5, 6:
		s.call(op{K: "withdraw", From: a})
	case 7:
		s.call(op{K: "bankout", From: s.r.Intn(nacc), Amt: s.r.Intn(3)})
	}
}

func (s *seg) vote() {
	b := s.r.Intn(6)
	from, ki := s.someKeyper(b)
	key := []int{}
	for i := s.r.Intn(3); i > 0; i-- {
		key = append(key, 1+s.r.Intn(2))
	}
	s.call(op{K: "vote", From: from, B: b, KI: ki, Key: key})
}

func (s *seg) syncSome() {
	h := s.tip
	switch s.r.Intn(10) {
	case 0, 1:
		h -= s.r.Intn(3)
	case 2:
		h -= s.r.Intn(12)
	}
	f := 0
	if s.chance(.2) {
		f = s.r.Intn(14) + 1
		if s.chance(.5) && h > 0 { // where more is read, more can fail
			f = s.r.Intn(60) + 1
		}
	}
	s.sync(max(0, h), s.chance(.15), f)
}

func runRandom(r *mrand.Rand, n int) []byte {
	s := newSeg(r, params{r.Intn(4), r.Intn(5)}, []int{0, 0, 1, 2, 3, 5}[r.Intn(6)])
	if r.Intn(3) > 0 {
		c := s.pickCfg()
		c.Span = r.Intn(3) + 1
		if c.T > len(c.KP) {
			c.T = 1
		}
		s.call(op{K: "setcfg", Cfg: &c})
		s.call(op{K: "schedule"})
	}
	s.mine()
	if r.Intn(3) == 0 {
		s.startLoop()
	}
	for i := 0; i < n && !s.broke; i++ {
		switch x := s.r.Intn(100); {
		case x < 22:
			s.mine()
			for s.chance(.15) {
				s.mine()
			}
		case x < 37:
			s.syncSome()
		case x < 52:
			s.add()
		case x < 66:
			s.execute()
		case x < 73:
			s.slasher()
		case x < 79:
			s.money()
		case x < 87:
			s.admin()
		case x < 90:
			s.vote()
		case x < 92:
			s.restart()
		case x < 94:
			if s.follow > 0 {
				s.reorg(s.r.Intn(s.follow) + 1)
			}
		case x < 95:
			s.peek()
		case x < 96:
			s.getDeposit(s.r.Intn(nacc))
		case x < 98:
			if len(s.v.BatchConfigs) > 0 {
				s.calendar()
			}
		case x < 99:
			s.math()
		default:
			s.getNext()
		}
	}
	s.stopLoop()
	if !s.broke {
		for i := 0; i <= s.follow; i++ {
			s.mine()
		}
		s.sync(s.tip, false, 0)
		s.calendar()
		s.peek()
	}
	return s.buf.Bytes()
}

// ---- the calendar

// got runs f and turns a panic into -1
func got(f func() int) (r int) {
	defer func() {
		if recover() != nil {
			r = -1
		}
	}()
	return f()
}

func (s *seg) calendar() {
	if s.broke || len(s.v.BatchConfigs) == 0 {
		return
	}
	v := s.v
	top := int(v.CurrentBlock) + 10
	for _, c := range v.BatchConfigs {
		top = max(top, small(c.StartBlockNumber)+5)
	}
	blk := func() int { return s.r.Intn(top + 1) }
	bat := func() int { return s.r.Intn(top/2 + 6) }
	opts := &bind.CallOpts{Context: context.Background(), BlockNumber: new(big.Int).SetUint64(v.CurrentBlock)}
	l := []M{}
	for i := 0; i < 6; i++ {
		x, b, n := blk(), bat(), s.r.Intn(len(v.BatchConfigs))
		a := s.r.Intn(nacc)
		if s.r.Intn(2) == 0 { // right at a boundary
			c := v.BatchConfigs[n]
			x = max(0, small(c.StartBlockNumber)+s.r.Intn(3)-1)
			b = max(0, small(c.StartBatchIndex)+s.r.Intn(3)-1)
		}
		c := v.BatchConfigs[n]
		l = append(l,
			M{"f": "active", "x": x, "r": got(func() int { return v.ActiveConfigIndex(uint64(x)) })},
			M{"f": "cfgof", "b": b, "r": got(func() int {
				i, ok := v.ConfigIndexForBatchIndex(uint64(b))
				if !ok {
					return -1
				}
				return i
			})},
			M{"f": "start", "i": n, "b": b, "r": got(func() int { return small(c.BatchStartBlock(uint64(b))) })},
			M{"f": "end", "i": n, "b": b, "r": got(func() int { return small(c.BatchEndBlock(uint64(b))) })},
			M{"f": "batch", "i": n, "x": x, "r": got(func() int { return small(c.BatchIndex(uint64(x))) })},
			M{"f": "isactive", "i": n, "r": c.IsActive()},
			M{"f": "keyper", "i": n, "a": a, "r": got(func() int {
				j, ok := c.KeyperIndex(addr(a))
				if ok != c.IsKeyper(addr(a)) {
					return -9
				}
				if !ok {
					return -1
				}
				return int(j)
			})},
			M{"f": "anykeyper", "a": a, "x": int(v.CurrentBlock), "r": v.IsActiveKeyper(addr(a))},
		)
		j, err := s.dir.ConfigContract.ConfigIndexForBatchIndex(opts, uint64(b))
		must(err)
		l = append(l, M{"f": "cidx", "b": b, "r": int(j)}, s.bounds(opts, n, b))
	}
	s.logm(M{"op": "cal", "on": "view", "list": l})
	l = []M{}
	for i := 0; i < 2; i++ {
		x := blk()
		nb, err := s.dir.ConfigContract.NextBatchIndex(uint64(x))
		must(err)
		fut, err := s.dir.ConfigContract.CurrentAndFutureConfigs(bg, uint64(x))
		must(err)
		cs := []cfg{}
		for i := range fut {
			cs = append(cs, s.unreal(fut[i]))
		}
		l = append(l, M{"f": "next", "x": x, "r": small(nb)}, M{"f": "future", "x": x, "r": cs})
	}
	s.logm(M{"op": "cal", "on": "head", "h": s.tip, "list": l})
}

func (s *seg) bounds(opts *bind.CallOpts, n, b int) M {
	r := []int{}
	from, to, out, err := s.dir.ConfigContract.BatchBoundaryBlocks(opts, uint64(n), uint64(b))
	if err == nil {
		r = []int{small(from), small(to), small(out)}
	}
	return M{"f": "bounds", "i": n, "b": b, "r": r}
}

// math tries the arithmetic far away from zero.
func (s *seg) math() {
	bases := []uint64{0, 1 << 31, 1<<32 - 3, 1<<53 + 1, 1 << 62}
	B, I := bases[s.r.Intn(len(bases))], bases[s.r.Intn(len(bases))]
	c := zcfg()
	c.SB, c.SBI, c.Span, c.TO = s.r.Intn(5), s.r.Intn(5), s.r.Intn(1<<uint(s.r.Intn(12))), s.r.Intn(5)
	bc := s.real(c)
	bc.StartBlockNumber += B
	bc.StartBatchIndex += I
	if s.r.Intn(3) == 0 { // time-outs and limits have no part in it
		bc.ExecutionTimeout, bc.BatchSizeLimit = 1<<63, 1<<63
	}
	l := []M{}
	for i := 0; i < 8; i++ {
		x, b := s.r.Intn(10), s.r.Intn(10)
		if s.r.Intn(2) == 0 {
			x, b = s.r.Intn(1<<20), s.r.Intn(1<<16)
		}
		sub := func(a, b uint64) int {
			if a < b {
				return -8
			}
			return small(a - b)
		}
		l = append(l,
			M{"f": "start", "i": 0, "b": b, "r": got(func() int { return sub(bc.BatchStartBlock(I+uint64(b)), B) })},
			M{"f": "end", "i": 0, "b": b, "r": got(func() int { return sub(bc.BatchEndBlock(I+uint64(b)), B) })},
			M{"f": "batch", "i": 0, "x": x, "r": got(func() int { return sub(bc.BatchIndex(B+uint64(x)), I) })},
		)
	}
	s.logm(M{"op": "math", "c": c, "list": l})
}

func (s *seg) jsonTrip(c cfg) {
	b, err := json.Marshal(s.real(c))
	must(err)
	back := contract.BatchConfig{}
	err = json.Unmarshal(b, &back)
	m := M{"op": "json", "c": c, "ok": err == nil}
	if err == nil {
		m["back"] = s.unreal(back)
	}
	s.logm(m)
}

func (s *seg) getNext() {
	bc, err := s.dir.ConfigContract.GetNextConfig(bg)
	must(err)
	s.logm(M{"op": "getnx", "h": s.tip, "nx": s.unreal(bc)})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}
