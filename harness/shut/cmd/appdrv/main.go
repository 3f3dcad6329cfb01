// appdrv drives the real keyper chain application and records its behaviour as a trace.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"verif/shut/appx"
)

type M = appx.M

func main() {
	out := flag.String("out", "trace.ndjson", "")
	seed := flag.Int64("seed", 1, "")
	segs := flag.Int("segments", 50, "")
	ops := flag.Int("ops", 80, "")
	weights := flag.String("weights", "bc=10", "")
	wild := flag.Int("wild", 15, "percent of damaged/replayed transactions")
	checks := flag.Int("checks", 10, "percent of mempool checks")
	crash := flag.Int("crash", 2, "percent of crashes")
	twin := flag.Bool("twin", false, "compare with a replica without mempool checks (implies no crashes)")
	scripts := flag.String("scripts", "", "file with one JSON list of operations per line")
	scratch := flag.String("scratch", "", "")
	flag.Parse()
	tw := appx.NewTraceWriter(*out)
	defer tw.Close()
	if *scripts != "" {
		b, err := os.ReadFile(*scripts)
		if err != nil {
			panic(err)
		}
		for i, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			if line == "" {
				continue
			}
			var ops []M
			if err := json.Unmarshal([]byte(line), &ops); err != nil {
				panic(err)
			}
			runScript(tw, filepath.Join(*scratch, fmt.Sprintf("s%d", i)), ops)
		}
		return
	}
	w := appx.ParseWeights(*weights)
	for i := 0; i < *segs; i++ {
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		runRandom(tw, r, filepath.Join(*scratch, fmt.Sprintf("r%d", i)), w, *ops, *wild, *checks, *crash, *twin)
	}
}

func mkdir(dir string) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
}

func runRandom(tw *appx.TraceWriter, r *rand.Rand, dir string, w appx.Weights, ops, wild, checks, crash int, twin bool) {
	mkdir(dir)
	g := appx.RandGenesis(r)
	n := appx.NewNode(dir, g)
	tw.Put(M{"op": "reset", "g": g, "out": M{"ok": true}})
	var n2 *appx.Node
	if twin {
		mkdir(dir + "t")
		defer os.RemoveAll(dir + "t")
		n2 = appx.NewNode(dir+"t", g)
		crash = 0
	}
	same := func(o, o2 M) M {
		if !reflect.DeepEqual(o, o2) {
			o["twin"] = o2
		}
		return o
	}
	gen := appx.NewGen(r, w, g, wild)
	var admitted [][]byte
	blockLen := 1 + r.Intn(12)
	for i := 0; i < ops; i++ {
		p := r.Intn(100)
		switch {
		case p < crash:
			h, err := n.Crash()
			if err != nil {
				h = 999999
			}
			tw.Put(M{"op": "crash", "out": M{"h": h}})
			if err != nil {
				return
			}
		case p < crash+2:
			tw.Put(M{"op": "info", "out": M{"h": n.Height()}})
		case p < crash+2+checks:
			tx := gen.Tx()
			d, ok := appx.DescribeTx(tx)
			if !ok || !appx.ASCII(d["chain"].(string)) {
				continue
			}
			// bursts reach the per-block limit
			burst := 1
			if r.Intn(6) == 0 {
				burst = 12
			}
			for j := 0; j < burst; j++ {
				o := n.Check(tx)
				tw.Put(M{"op": "check", "tx": d, "out": o})
				if o["code"] == 0 {
					admitted = append(admitted, tx)
				}
				if burst > 1 {
					if tx, d = next(r, gen, d); d == nil {
						break
					}
				}
			}
		case r.Intn(blockLen) == 0:
			h := n.Height() + 1
			o := n.End(h)
			if twin {
				o = same(o, n2.End(h))
				n2.Commit(false)
			}
			tw.Put(M{"op": "end", "h": h, "out": o})
			save := r.Intn(2) == 0
			n.Commit(save)
			tw.Put(M{"op": "commit", "save": save, "out": M{"ok": true}})
		default:
			var tx []byte
			if len(admitted) > 0 && r.Intn(3) == 0 {
				tx = admitted[r.Intn(len(admitted))]
			} else {
				tx = gen.Tx()
			}
			d, ok := appx.DescribeTx(tx)
			if !ok || !appx.ASCII(d["chain"].(string)) {
				continue
			}
			o := n.Deliver(tx)
			if twin {
				o = same(o, n2.Deliver(tx))
			}
			gen.Observe(o["ev"].([]M))
			tw.Put(M{"op": "tx", "tx": d, "out": o})
		}
	}
	os.RemoveAll(dir)
}

// next makes another check transaction by the same sender.
func next(r *rand.Rand, gen *appx.Gen, d M) ([]byte, M) {
	if d["ok"] != true || !strings.HasPrefix(d["snd"].(string), "k") {
		return nil, nil
	}
	tx := appx.MakeTx(appx.Build(M{"t": "esv", "start": int64(1)}), gen.G.Chain, uint64(5000+r.Intn(30)), appx.Keys[appx.KeyIndex(d["snd"].(string))])
	d2, _ := appx.DescribeTx(tx)
	return tx, d2
}

func runScript(tw *appx.TraceWriter, dir string, ops []M) {
	mkdir(dir)
	defer os.RemoveAll(dir)
	var n *appx.Node
	nonce := uint64(0)
	for _, op := range ops {
		switch op["op"] {
		case "reset":
			b, _ := json.Marshal(op["g"])
			var g appx.Genesis
			if err := json.Unmarshal(b, &g); err != nil {
				panic(err)
			}
			n = appx.NewNode(dir, g)
			tw.Put(M{"op": "reset", "g": g, "out": M{"ok": true}})
		case "tx", "check":
			t := op["tx"].(M)
			nn := uint64(t["nonce"].(float64))
			if nn == 0 {
				nonce++
				nn = 100 + nonce
			}
			tx := appx.MakeTx(appx.Build(t["msg"].(M)), t["chain"].(string), nn, appx.Keys[appx.KeyIndex(t["snd"].(string))])
			d, ok := appx.DescribeTx(tx)
			if !ok {
				panic("unmapped script transaction")
			}
			if op["op"] == "tx" {
				tw.Put(M{"op": "tx", "tx": d, "out": n.Deliver(tx)})
			} else {
				tw.Put(M{"op": "check", "tx": d, "out": n.Check(tx)})
			}
		case "end":
			h := n.Height() + 1
			tw.Put(M{"op": "end", "h": h, "out": n.End(h)})
		case "commit":
			save := op["save"].(bool)
			n.Commit(save)
			tw.Put(M{"op": "commit", "save": save, "out": M{"ok": true}})
		case "crash":
			h, err := n.Crash()
			if err != nil {
				h = 999999
			}
			tw.Put(M{"op": "crash", "out": M{"h": h}})
			if err != nil {
				return
			}
		}
	}
}
