// repdrv runs several real replicas of the keyper chain application on the same blocks, with
// different mempool traffic, save policies, failing saves and crashes, and records what each
// answers.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	"github.com/gogo/protobuf/proto"
	abcitypes "github.com/tendermint/tendermint/abci/types"

	"verif/shut/appx"
)

type M = appx.M

func digest(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:6])
}

func txDigest(r abcitypes.ResponseDeliverTx) string {
	r.Log, r.Info = "", "" // explicitly non-deterministic in ABCI
	b, err := proto.Marshal(&r)
	if err != nil {
		return "unmarshalable"
	}
	return digest(b)
}

type replica struct {
	*appx.Node
	h, pos  int64
	ph      string
	checked bool
}

type sim struct {
	tw     *appx.TraceWriter
	reps   []*replica
	blocks [][][]byte
	gen    *appx.Gen
	rng    *rand.Rand
	dead   bool
}

func (s *sim) exec(r int) {
	x := s.reps[r]
	i := int64(1)
	if x.ph == "block" {
		i = x.pos + 1
	} else {
		x.Begin()
	}
	h := x.h + 1
	resp, err := x.DeliverRaw(s.blocks[h-1][i-1])
	d := "panic"
	if err == nil {
		d = txDigest(resp)
	}
	if r == 0 {
		evs := []M{}
		for _, e := range resp.Events {
			evs = append(evs, appx.DescribeEvent(e))
		}
		s.gen.Observe(evs)
	}
	s.tw.Put(M{"op": "exec", "r": r + 1, "h": h, "i": i, "out": M{"d": d}})
	x.ph, x.pos = "block", i
}

func (s *sim) end(r int) {
	x := s.reps[r]
	h := x.h + 1
	if x.ph != "block" {
		x.Begin()
	}
	d := func() (d string) {
		defer func() {
			if e := recover(); e != nil {
				d = "panic"
			}
		}()
		b, err := proto.Marshal(&abcitypes.ResponseEndBlock{ValidatorUpdates: x.EndRaw(h)})
		if err != nil {
			return "unmarshalable"
		}
		return digest(b)
	}()
	s.tw.Put(M{"op": "end", "r": r + 1, "h": h, "out": M{"d": d}})
	x.h, x.ph, x.pos = h, "ended", 0
}

func (s *sim) commit(r int, save string) {
	x := s.reps[r]
	if save == "fail" {
		var old syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
		lim := old
		lim.Cur = uint64(1 + s.rng.Intn(600))
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			panic(err)
		}
		x.Commit(true)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
	} else {
		x.Commit(save == "ok")
	}
	s.tw.Put(M{"op": "commit", "r": r + 1, "save": save, "out": M{"ok": true}})
	x.ph, x.checked = "commit", false
}

// probe runs the mempool check for the same transactions right after a commit on every replica.
func (s *sim) probe(r int) {
	x := s.reps[r]
	codes := ""
	for k := int64(0); k < 2; k++ {
		if x.h-k < 0 || int(x.h-k) >= len(s.blocks) {
			codes += "-"
			if x.h-k < 0 {
				continue
			}
			return // the next block is not known yet: nothing comparable
		}
		for _, tx := range s.blocks[x.h-k] {
			codes += fmt.Sprint(x.Check(tx)["code"])
		}
	}
	x.checked = true
	s.tw.Put(M{"op": "probe", "r": r + 1, "out": M{"d": digest([]byte(codes))}})
}

func (s *sim) crash(r int) {
	x := s.reps[r]
	h, err := x.Crash()
	if err != nil {
		s.tw.Put(M{"op": "crash", "r": r + 1, "out": M{"h": 999999}})
		s.dead = true
		return
	}
	s.tw.Put(M{"op": "crash", "r": r + 1, "out": M{"h": h}})
	x.h, x.ph, x.pos, x.checked = h, "commit", 0, false
	if h > int64(len(s.blocks)) {
		s.dead = true
	}
}

func main() {
	out := flag.String("out", "trace.ndjson", "")
	seed := flag.Int64("seed", 1, "")
	segs := flag.Int("segments", 20, "")
	nblocks := flag.Int("blocks", 20, "")
	nreps := flag.Int("replicas", 4, "")
	weights := flag.String("weights", "bc=8,bcs=8,ci=6,esv=4,ds=3,pe=3,pc=2,ac=2,ap=2,sh=1", "")
	scratch := flag.String("scratch", "", "")
	flag.Parse()
	signal.Ignore(syscall.SIGXFSZ)
	tw := appx.NewTraceWriter(*out)
	defer tw.Close()
	w := appx.ParseWeights(*weights)
	for i := 0; i < *segs; i++ {
		rng := rand.New(rand.NewSource(*seed*7919 + int64(i)))
		runSegment(tw, rng, w, filepath.Join(*scratch, fmt.Sprintf("seg%d", i)), *nblocks, *nreps)
	}
}

func runSegment(tw *appx.TraceWriter, rng *rand.Rand, w appx.Weights, dir string, nblocks, nreps int) {
	defer os.RemoveAll(dir)
	g := appx.RandGenesis(rng)
	s := &sim{tw: tw, rng: rng, gen: appx.NewGen(rng, w, g, 10)}
	tw.Put(M{"op": "reset", "n": nreps, "out": M{"d": "none"}})
	for r := 0; r < nreps; r++ {
		d := filepath.Join(dir, fmt.Sprint(r))
		if err := os.MkdirAll(d, 0o755); err != nil {
			panic(err)
		}
		s.reps = append(s.reps, &replica{Node: appx.NewNode(d, g), ph: "commit"})
	}
	var nextBlock [][]byte
	for len(s.blocks) < nblocks {
		// the reference replica produces a block
		nextBlock = nil
		s.blocks = append(s.blocks, nil)
		for n := rng.Intn(9); n > 0; n-- {
			nextBlock = append(nextBlock, s.gen.Tx())
			s.blocks[len(s.blocks)-1] = nextBlock
			s.exec(0)
		}
		s.end(0)
		s.commit(0, "none")
		for k := rng.Intn(12 * nreps); k > 0 && !s.dead; k-- {
			s.step(1 + rng.Intn(nreps-1))
		}
		if s.dead {
			return
		}
	}
	for r := 1; r < nreps; r++ {
		for !s.dead && s.reps[r].h < int64(len(s.blocks)) {
			s.step(r)
		}
	}
}

func (s *sim) step(r int) {
	x := s.reps[r]
	switch p := s.rng.Intn(100); {
	case p < 5:
		s.crash(r)
		return
	case p < 8:
		s.tw.Put(M{"op": "info", "r": r + 1, "out": M{"h": x.Height()}})
		return
	case p < 25:
		if x.ph == "commit" && !x.checked {
			s.probe(r)
			return
		}
		for k := s.rng.Intn(4); k > 0; k-- {
			if len(s.blocks) > 0 && s.rng.Intn(2) == 0 {
				b := s.blocks[s.rng.Intn(len(s.blocks))]
				if len(b) > 0 {
					x.Check(b[s.rng.Intn(len(b))])
				}
			} else {
				x.Check(s.gen.Tx())
			}
			x.checked = true
		}
		return
	}
	if x.ph == "ended" {
		s.commit(r, []string{"ok", "none", "fail"}[s.rng.Intn(3)])
		return
	}
	if x.h >= int64(len(s.blocks)) {
		return
	}
	pos := int64(0)
	if x.ph == "block" {
		pos = x.pos
	}
	if pos < int64(len(s.blocks[x.h])) {
		s.exec(r)
	} else {
		s.end(r)
	}
}
