// maindrv runs the real contracts on a small chain, lets the real keyper code read from nodes of that
// chain, and records both.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"io"
	"log"
	mrand "math/rand"
	"os"
	"sync"
)

type M = map[string]interface{}

type cfg struct {
	SBI  int   `json:"sbi"`
	SB   int   `json:"sb"`
	KP   []int `json:"kp"`
	T    int   `json:"t"`
	Span int   `json:"span"`
	BSL  int   `json:"bsl"`
	TSL  int   `json:"tsl"`
	Gas  int   `json:"gas"`
	FR   int   `json:"fr"`
	TA   int   `json:"ta"`
	Sel  int   `json:"sel"`
	TO   int   `json:"to"`
}

type sigd struct {
	I  int `json:"i"`
	By int `json:"by"`
}

// op is a call, or another step of a script
type op struct {
	K     string `json:"k"`
	From  int    `json:"from"`
	Cfg   *cfg   `json:"cfg"`
	N     int    `json:"n"`
	B     int    `json:"b"`
	T     int    `json:"t"`
	ID    int    `json:"id"`
	Len   int    `json:"len"`
	Val   int    `json:"val"`
	H     int    `json:"-"`
	Hash  []int  `json:"-"`
	Txs   []int  `json:"txs"`
	KI    int    `json:"ki"`
	Sigs  []sigd `json:"sigs"`
	Amt   int    `json:"amt"`
	Delay int    `json:"delay"`
	KP    []int  `json:"kp"`
	F     string `json:"f"`
	V     int    `json:"v"`
	Key   []int  `json:"key"`
	Lag   int    `json:"lag"`
	D     int    `json:"d"`
	// "h" is a half step or the transactions a hash commits to
	RawH json.RawMessage `json:"h"`
}

func (o *op) UnmarshalJSON(d []byte) error {
	type plain op
	if err := json.Unmarshal(d, (*plain)(o)); err != nil {
		return err
	}
	if len(o.RawH) > 0 {
		if o.RawH[0] == '[' {
			return json.Unmarshal(o.RawH, &o.Hash)
		}
		return json.Unmarshal(o.RawH, &o.H)
	}
	return nil
}

type params struct {
	HeadsUp int `json:"headsup"`
	Appeal  int `json:"appeal"`
}

type script struct {
	Par    params `json:"par"`
	Follow int    `json:"follow"`
	Setup  []op   `json:"setup"`
	Prefix []op   `json:"prefix"`
	Ops    []op   `json:"ops"`
}

func main() {
	out := flag.String("out", "", "trace file")
	scripts := flag.String("scripts", "", "scripts, one per line")
	seed := flag.Int64("seed", 1, "seed")
	segments := flag.Int("segments", 0, "random segments")
	ops := flag.Int("ops", 60, "operations per random segment")
	flag.Parse()
	if os.Getenv("VERBOSE") == "" {
		log.SetOutput(io.Discard)
	}
	f, err := os.Create(*out)
	must(err)
	w := bufio.NewWriterSize(f, 1<<20)
	var jobs []func() []byte
	if *scripts != "" {
		fh, err := os.Open(*scripts)
		must(err)
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for i := 0; sc.Scan(); i++ {
			x := script{}
			must(json.Unmarshal(sc.Bytes(), &x))
			i := i
			jobs = append(jobs, func() []byte { return runScript(mrand.New(mrand.NewSource(*seed*31+int64(i))), &x) })
		}
		fh.Close()
	}
	for i := 0; i < *segments; i++ {
		i := i
		jobs = append(jobs, func() []byte { return runRandom(mrand.New(mrand.NewSource(*seed*1000003+int64(i))), *ops) })
	}
	res := make([]chan []byte, len(jobs))
	sem := make(chan bool, 4)
	var mu sync.Mutex
	_ = &mu
	for i := range jobs {
		res[i] = make(chan []byte, 1)
	}
	go func() {
		for i := range jobs {
			i := i
			sem <- true
			go func() {
				defer func() { <-sem }()
				res[i] <- jobs[i]()
			}()
		}
	}()
	for i := range jobs {
		_, err := w.Write(<-res[i])
		must(err)
	}
	must(w.Flush())
	must(f.Close())
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
