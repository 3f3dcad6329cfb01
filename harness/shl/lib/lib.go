// Package lib: trace writing and shared helpers of the shlib drivers.
package lib

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"os"
	"strings"
)

type M = map[string]interface{}

type TraceWriter struct {
	f *os.File
	e *json.Encoder
}

func NewTraceWriter(path string) *TraceWriter {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	e := json.NewEncoder(f)
	e.SetEscapeHTML(false)
	return &TraceWriter{f: f, e: e}
}

func (t *TraceWriter) Put(m M) {
	if err := t.e.Encode(m); err != nil {
		panic(err)
	}
}

func (t *TraceWriter) Close() {
	if err := t.f.Close(); err != nil {
		panic(err)
	}
}

// Digest names a byte string.
func Digest(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:6])
}

// Scripts reads behaviours: one JSON list of operations per line.
func Scripts(path string) [][]M {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var res [][]M
	for _, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var l []M
		if err := json.Unmarshal([]byte(line), &l); err != nil {
			panic(err)
		}
		res = append(res, l)
	}
	return res
}
