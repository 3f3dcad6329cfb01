// sysdrv runs whole instances of the system: keypers as processes of the real shuttermint command, the
// keyper chain's application, the contracts on an EVM, and users who encrypt transactions. It records what
// users submitted and what was executed, and when keypers gave up their secrets.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"io"
	"log"
	mrand "math/rand"
	"os"

	"verif/shut/tool"
)

type M = map[string]interface{}

// op is a step of a script
type op struct {
	K string `json:"k"`
	N int    `json:"n"`
	T string `json:"t"`
}

var base string

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	out := flag.String("out", "", "trace file")
	scripts := flag.String("scripts", "", "scripts, one per line")
	seed := flag.Int64("seed", 1, "seed")
	segments := flag.Int("segments", 0, "random segments")
	ops := flag.Int("ops", 60, "operations per random segment")
	flag.StringVar(&base, "dir", "", "where to work")
	flag.StringVar(&tool.Bin, "bin", "", "the shuttermint command")
	justStarts := flag.Bool("starts", false, "start keypers with all kinds of configurations instead")
	flag.Parse()
	if os.Getenv("VERBOSE") == "" {
		log.SetOutput(io.Discard)
	}
	f, err := os.Create(*out)
	must(err)
	w := bufio.NewWriterSize(f, 1<<20)
	do := func(seed int64, run func(*seg)) {
		s := newSeg(mrand.New(mrand.NewSource(seed)))
		defer func() {
			s.close()
			_, err := w.Write(s.buf.Bytes())
			must(err)
			must(w.Flush())
		}()
		run(s)
	}
	if *scripts != "" {
		fh, err := os.Open(*scripts)
		must(err)
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for i := 0; sc.Scan(); i++ {
			if *justStarts {
				x := []json.RawMessage{}
				must(json.Unmarshal(sc.Bytes(), &x))
				do(*seed*31+int64(i), func(s *seg) { s.startOps(x) })
				continue
			}
			x := []op{}
			must(json.Unmarshal(sc.Bytes(), &x))
			do(*seed*31+int64(i), func(s *seg) { s.plan(x) })
		}
		fh.Close()
	}
	for i := 0; i < *segments; i++ {
		do(*seed*1000003+int64(i), func(s *seg) {
			if *justStarts {
				s.starts(*ops)
			} else {
				s.random(*ops)
			}
		})
	}
	must(f.Close())
}
