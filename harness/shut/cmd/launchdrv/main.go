// launchdrv deploys contracts and bootstraps chains with the real shuttermint command, and records what
// is on the main chain, in files and sent to a stand-in for a tendermint node afterwards.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"io"
	"log"
	mrand "math/rand"
	"os"

	"verif/shut/tool"
)

type M = map[string]interface{}

// op is a step of a script
type op struct {
	K     string   `json:"k"`
	Noerc bool     `json:"noerc"`
	Fail  int      `json:"fail"`
	File  int      `json:"file"`
	Bad   bool     `json:"bad"`
	I     int      `json:"i"`
	Ans   []string `json:"ans"`
}

var base string

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func main() {
	out := flag.String("out", "", "trace file")
	scripts := flag.String("scripts", "", "scripts, one per line")
	seed := flag.Int64("seed", 1, "seed")
	segments := flag.Int("segments", 0, "random segments")
	ops := flag.Int("ops", 14, "operations per random segment")
	flag.StringVar(&base, "dir", "", "where to work")
	flag.StringVar(&tool.Bin, "bin", "", "the shuttermint command")
	flag.Parse()
	if os.Getenv("VERBOSE") == "" {
		log.SetOutput(io.Discard)
	}
	f, err := os.Create(*out)
	must(err)
	w := bufio.NewWriterSize(f, 1<<20)
	if *scripts != "" {
		fh, err := os.Open(*scripts)
		must(err)
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for i := 0; sc.Scan(); i++ {
			x := []op{}
			must(json.Unmarshal(sc.Bytes(), &x))
			_, err := w.Write(runScript(mrand.New(mrand.NewSource(*seed*31+int64(i))), x))
			must(err)
		}
		fh.Close()
	}
	for i := 0; i < *segments; i++ {
		_, err := w.Write(runRandom(mrand.New(mrand.NewSource(*seed*1000003+int64(i))), *ops))
		must(err)
	}
	must(w.Flush())
	must(f.Close())
}
