// rundrv runs whole keypers (keyper.Keyper.Run) against a keyper chain node and a main chain node
// served over HTTP and websocket, stops and crashes them at chosen points, starts them again from
// what was on disk at that moment, and records the files, what is sent, and the chain.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	mrand "math/rand"
	"os"
	"strings"
	"sync"

	"verif/shut/appx"
)

type M = appx.M

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// only what goes along with the end of the process is of interest
type filter struct{ w io.Writer }

func (f filter) Write(p []byte) (int, error) {
	if strings.Contains(string(p), "internal error") || strings.Contains(string(p), "cannot") {
		return f.w.Write(p)
	}
	return len(p), nil
}

func main() {
	out := flag.String("out", "", "trace file")
	seed := flag.Int64("seed", 1, "seed")
	segments := flag.Int("segments", 0, "random segments")
	ops := flag.Int("ops", 25, "operations per random segment")
	par := flag.Int("par", 12, "segments at a time")
	dir := flag.String("dir", "", "scratch directory, removed by the caller")
	scripts := flag.String("scripts", "", "plans, one per line")
	flag.Parse()
	log.SetOutput(filter{os.Stderr})
	if os.Getenv("VERBOSE") != "" {
		log.SetOutput(os.Stderr)
	}
	scratch, err := os.MkdirTemp(*dir, "run")
	must(err)
	var plans [][]M
	if *scripts != "" {
		b, err := os.ReadFile(*scripts)
		must(err)
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var p []M
			must(json.Unmarshal([]byte(l), &p))
			plans = append(plans, p)
		}
	}
	n := len(plans)
	res := make([][]byte, n+*segments)
	sem := make(chan bool, *par)
	var wg sync.WaitGroup
	for i := range res {
		i := i
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			s := newSeg(mrand.New(mrand.NewSource(*seed*1000003+int64(i))), fmt.Sprintf("%s/%d", scratch, i))
			if i < n {
				s.plan(plans[i])
			} else {
				s.random(*ops)
			}
			res[i] = s.buf.Bytes()
		}()
	}
	wg.Wait()
	f, err := os.Create(*out)
	must(err)
	for _, b := range res {
		_, err = f.Write(b)
		must(err)
	}
	must(f.Close())
}
