// ekgdrv hands epoch secret key shares of all kinds to real epochkg.EpochKGs and records which epoch
// keys they put together.  The same source is built with the shuttermint module (and the shlib release
// it uses) and with the shlib of the tree.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"sort"

	"github.com/shutter-network/shutter/shlib/puredkg"
	"github.com/shutter-network/shutter/shlib/shcrypto"
	"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"
)

type M = map[string]interface{}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// group: the outcome of a key generation and its secret
type group struct {
	n, t   int
	res    []puredkg.Result
	secret *big.Int
}

var groups = map[string]*group{}

func getGroup(n, t, i int) *group {
	id := fmt.Sprintf("%d/%d/%d", n, t, i)
	if g, ok := groups[id]; ok {
		return g
	}
	g := &group{n: n, t: t, secret: big.NewInt(0)}
	var ds []puredkg.PureDKG
	for k := 0; k < n; k++ {
		ds = append(ds, puredkg.NewPureDKG(5, uint64(n), uint64(t), uint64(k)))
	}
	var cs []puredkg.PolyCommitmentMsg
	var es []puredkg.PolyEvalMsg
	for k := range ds {
		c, evs, err := ds[k].StartPhase1Dealing()
		must(err)
		cs, es = append(cs, c), append(es, evs...)
		g.secret.Add(g.secret, (*ds[k].Polynomial)[0])
	}
	g.secret.Mod(g.secret, order)
	for j := range ds {
		for _, c := range cs {
			must(ds[j].HandlePolyCommitmentMsg(c))
		}
	}
	for _, e := range es {
		must(ds[e.Receiver].HandlePolyEvalMsg(e))
	}
	for k := range ds {
		ds[k].StartPhase2Accusing()
		ds[k].StartPhase3Apologizing()
		ds[k].Finalize()
		r, err := ds[k].ComputeResult()
		must(err)
		g.res = append(g.res, r)
	}
	groups[id] = g
	return g
}

func epochID(e int) *shcrypto.EpochID {
	var buf [8]byte
	binary.BigEndian.PutUint64(buf[:], uint64(e))
	return shcrypto.ComputeEpochID(buf[:])
}

type sim struct {
	out   *json.Encoder
	r     *mrand.Rand
	g, g2 *group
	who   int
	kg    *epochkg.EpochKG
	n, t  int
	dead  bool
	want  map[int][]byte
}

func (s *sim) put(m M) { must(s.out.Encode(m)) }

func (s *sim) reset(n, t int) {
	i := s.r.Intn(2)
	s.g, s.g2, s.n, s.t = getGroup(n, t, i), getGroup(n, t, 1-i), n, t
	s.who = s.r.Intn(n)
	s.kg = epochkg.NewEpochKG(&s.g.res[s.who])
	s.dead, s.want = false, map[int][]byte{}
	s.put(M{"op": "reset", "n": n, "t": t})
}

func enc(x interface{ GobEncode() ([]byte, error) }) []byte {
	b, err := x.GobEncode()
	must(err)
	return b
}

// right tells whether k is the key of epoch e
func (s *sim) right(e int, k *shcrypto.EpochSecretKey) bool {
	if k == nil {
		return false
	}
	if s.want[e] == nil {
		share := shcrypto.EonSecretKeyShare(*s.g.secret)
		s.want[e] = enc(shcrypto.ComputeEpochSecretKeyShare(&share, epochID(e)))
	}
	if !bytes.Equal(s.want[e], enc(k)) {
		return false
	}
	id := string(s.want[e])
	if r, ok := opens[id]; ok {
		return r
	}
	m := shcrypto.Encrypt([]byte("hello"), s.g.res[0].PublicKey, epochID(e), shcrypto.Block{1, 2, 3})
	d, err := m.Decrypt(k)
	opens[id] = err == nil && string(d) == "hello"
	return opens[id]
}

var opens = map[string]bool{}

func (s *sim) keys() []M {
	l := []M{}
	for e, k := range s.kg.SecretKeys {
		l = append(l, M{"e": e, "ok": s.right(int(e), k)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i]["e"].(uint64) < l[j]["e"].(uint64) })
	return l
}

func (s *sim) mk(e, snd int, kind string) *shcrypto.EpochSecretKeyShare {
	get := func(g *group, k, e int) *shcrypto.EpochSecretKeyShare {
		return shcrypto.ComputeEpochSecretKeyShare(g.res[k].SecretKeyShare, epochID(e))
	}
	scaled := func(x *big.Int, e int) *shcrypto.EpochSecretKeyShare {
		sh := shcrypto.EonSecretKeyShare(*new(big.Int).Mod(x, order))
		return shcrypto.ComputeEpochSecretKeyShare(&sh, epochID(e))
	}
	mine := (*big.Int)(s.g.res[snd].SecretKeyShare)
	switch kind {
	case "valid":
		return get(s.g, snd, e)
	case "otherepoch":
		return get(s.g, snd, e+1)
	case "othersender":
		return get(s.g, (snd+1)%s.n, e)
	case "othereon":
		return get(s.g2, snd, e)
	case "negated":
		return scaled(new(big.Int).Neg(mine), e)
	case "doubled":
		return scaled(new(big.Int).Lsh(mine, 1), e)
	case "infinity":
		return scaled(big.NewInt(0), e)
	case "master":
		return scaled(s.g.secret, e)
	case "base":
		return scaled(big.NewInt(1), e)
	}
	panic("unknown kind " + kind)
}

func guard(f func() M) (out M) {
	defer func() {
		if r := recover(); r != nil {
			out = M{"panic": fmt.Sprintf("%.80v", r), "keys": []M{}}
		}
	}()
	return f()
}

// a different kind of share than the valid one?
func (s *sim) bad(e, snd int, kind string) bool {
	return kind != "valid" && !bytes.Equal(enc(s.mk(e, snd, kind)), enc(s.mk(e, snd, "valid")))
}

func (s *sim) share(e, snd int, kind string) {
	if s.dead {
		return
	}
	if kind != "valid" && !s.bad(e, snd, kind) {
		kind = "infinity" // (threshold 1: all shares are the same)
	}
	sh := s.mk(e, snd, kind)
	out := guard(func() M {
		_ = s.kg.HandleEpochSecretKeyShare(&epochkg.EpochSecretKeyShare{Eon: s.kg.Eon, Epoch: uint64(e), Sender: uint64(snd), Share: sh})
		return M{"keys": s.keys()}
	})
	s.dead = out["panic"] != nil
	s.put(M{"op": "share", "e": e, "snd": snd, "kind": kind, "out": out})
}

func (s *sim) restart() {
	if s.dead {
		return
	}
	out := guard(func() M {
		var buf bytes.Buffer
		must(gob.NewEncoder(&buf).Encode(s.kg))
		kg := &epochkg.EpochKG{}
		must(gob.NewDecoder(&buf).Decode(kg))
		if kg.SecretShares == nil {
			kg.SecretShares = map[uint64][]*epochkg.EpochSecretKeyShare{}
		}
		if kg.SecretKeys == nil {
			kg.SecretKeys = map[uint64]*shcrypto.EpochSecretKey{}
		}
		s.kg = kg
		return M{"keys": s.keys()}
	})
	s.dead = out["panic"] != nil
	s.put(M{"op": "restart", "out": out})
}

func num(x interface{}) int { return int(x.(float64)) }

var kinds = []string{"otherepoch", "othersender", "othereon", "negated", "doubled", "infinity", "master", "base"}

func main() {
	out := flag.String("out", "trace.ndjson", "")
	seed := flag.Int64("seed", 1, "")
	segments := flag.Int("segments", 0, "")
	ops := flag.Int("ops", 30, "")
	scripts := flag.String("scripts", "", "")
	flag.Parse()
	f, err := os.Create(*out)
	must(err)
	s := &sim{out: json.NewEncoder(f), r: mrand.New(mrand.NewSource(*seed))}
	if *scripts != "" {
		sf, err := os.Open(*scripts)
		must(err)
		dec := json.NewDecoder(sf)
		for {
			var l []M
			if dec.Decode(&l) != nil {
				break
			}
			s.reset(num(l[0]["n"]), num(l[0]["t"]))
			for _, o := range l[1:] {
				switch o["op"] {
				case "restart":
					s.restart()
				case "share":
					kind := "valid"
					if !o["ok"].(bool) {
						kind = kinds[s.r.Intn(len(kinds))]
					}
					s.share(num(o["e"]), num(o["snd"]), kind)
				}
			}
		}
	}
	for i := 0; i < *segments; i++ {
		nt := [][2]int{{1, 1}, {2, 1}, {2, 2}, {3, 1}, {3, 2}, {3, 3}, {4, 3}, {5, 3}, {5, 4}, {7, 5}}[s.r.Intn(10)]
		s.reset(nt[0], nt[1])
		base := []int{0, 1, 255, 1 << 20, 1 << 30}[s.r.Intn(5)]
		es := 1 + s.r.Intn(3)
		pb := []float64{0.1, 0.4, 0.7}[s.r.Intn(3)]
		for j := 0; j < *ops && !s.dead; j++ {
			kind := "valid"
			if s.r.Float64() < pb {
				kind = kinds[s.r.Intn(len(kinds))]
			}
			s.share(base+s.r.Intn(es), s.r.Intn(s.n), kind)
			if s.r.Float64() < 0.05 {
				s.restart()
			}
		}
	}
	must(f.Close())
}
