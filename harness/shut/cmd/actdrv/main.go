// actdrv runs the keyper's action queue (package fx) against stand-ins for both nodes and records
// what reaches the nodes and what is on disk.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	mrand "math/rand"
	"os"
	"strings"
	"sync"
)

type M = map[string]interface{}

type act struct {
	K  string `json:"k"`
	HS int    `json:"hs"`
}

type wld struct {
	NX  int   `json:"nx"`
	Acc []int `json:"acc"`
	App []int `json:"app"`
}

type op struct {
	Op   string `json:"op"`
	Acts []act  `json:"acts"`
	Res  string `json:"res"`
	ID   int    `json:"id"`
	OK   bool   `json:"ok"`
	W    *wld   `json:"w"`
}

// only what goes along with the end of the process is of interest
type filter struct{ w io.Writer }

func (f filter) Write(p []byte) (int, error) {
	if strings.Contains(string(p), "internal error") || strings.Contains(string(p), "cannot") {
		return f.w.Write(p)
	}
	return len(p), nil
}

func main() {
	out := flag.String("out", "", "trace file")
	scripts := flag.String("scripts", "", "scripts, one per line")
	seed := flag.Int64("seed", 1, "seed")
	segments := flag.Int("segments", 0, "random segments")
	ops := flag.Int("ops", 25, "operations per random segment")
	par := flag.Int("par", 40, "segments at a time")
	dir := flag.String("dir", "", "scratch directory, removed by the caller")
	flag.Parse()
	if os.Getenv("VERBOSE") == "" {
		log.SetOutput(filter{os.Stderr})
	}
	scratch, err := os.MkdirTemp(*dir, "act")
	must(err)

	var todo [][]op
	if *scripts != "" {
		f, err := os.Open(*scripts)
		must(err)
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var l []op
			must(json.Unmarshal(sc.Bytes(), &l))
			todo = append(todo, l)
		}
		f.Close()
	}
	n := len(todo)
	for i := 0; i < *segments; i++ {
		todo = append(todo, nil)
	}
	res := make([][]byte, len(todo))
	sem := make(chan bool, *par)
	var wg sync.WaitGroup
	for i := range todo {
		i := i
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			s := newSeg(mrand.New(mrand.NewSource(*seed*1000003+int64(i))), fmt.Sprintf("%s/%d", scratch, i))
			if i < n {
				s.script(todo[i])
			} else {
				s.random(*ops)
			}
			s.finish()
			res[i] = s.buf.Bytes()
		}()
	}
	wg.Wait()
	f, err := os.Create(*out)
	must(err)
	for _, b := range res {
		_, err = f.Write(b)
		must(err)
	}
	must(f.Close())
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}
