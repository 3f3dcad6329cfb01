package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/gob"
	"os"
	"path/filepath"
	"sort"
	"syscall"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	"github.com/shutter-network/shutter/shuttermint/keyper"
	"github.com/shutter-network/shutter/shuttermint/keyper/fx"
	"github.com/shutter-network/shutter/shuttermint/keyper/observe"
	"github.com/shutter-network/shutter/shuttermint/shmsg"

	"verif/shut/appx"
	"verif/shut/ethsim"
)

// the gob file a keyper keeps
type storedState struct {
	State     *keyper.State
	Shutter   *observe.Shutter
	MainChain *observe.MainChain
}

type sig struct {
	ino  uint64
	size int64
	sec  int64
	nsec int64
}

func sigOf(path string) sig {
	var st syscall.Stat_t
	if err := syscall.Stat(path, &st); err != nil {
		return sig{}
	}
	return sig{st.Ino, st.Size, st.Mtim.Sec, st.Mtim.Nsec}
}

// files is what is on disk at one moment
type files struct {
	state, queue       []byte
	hasState, hasQueue bool
}

func (l *life) sigs() [2]sig {
	return [2]sig{sigOf(filepath.Join(l.dir, "state.gob")), sigOf(filepath.Join(l.dir, "actions.gob"))}
}

// read both files as they are at one moment
func (l *life) read() (files, [2]sig) {
	for {
		before := l.sigs()
		var f files
		var err error
		f.state, err = os.ReadFile(filepath.Join(l.dir, "state.gob"))
		f.hasState = err == nil
		f.queue, err = os.ReadFile(filepath.Join(l.dir, "actions.gob"))
		f.hasQueue = err == nil
		if before == l.sigs() {
			return f, before
		}
	}
}

func (f files) write(dir string) {
	if f.hasState {
		must(os.WriteFile(filepath.Join(dir, "state.gob"), f.state, 0o600))
	}
	if f.hasQueue {
		must(os.WriteFile(filepath.Join(dir, "actions.gob"), f.queue, 0o600))
	}
}

// what the files say
type disk struct {
	h, mc, ctr, cur int
	acts            []M
	pend            []int
	labels          []M
	fl              []int
	bad             string
}

func (d *disk) m() M {
	p := []M{}
	for i, id := range d.pend {
		p = append(p, M{"id": id, "a": d.labels[i]})
	}
	return M{"op": "disk", "h": d.h, "mc": d.mc, "ctr": d.ctr, "acts": d.acts, "cur": d.cur, "pend": p, "fl": d.fl, "bad": d.bad}
}

func (s *seg) parse(f files) *disk {
	d := &disk{acts: []M{}, pend: []int{}, fl: []int{}, mc: 0, h: -1}
	if f.hasState {
		var st storedState
		if err := gob.NewDecoder(bytes.NewReader(f.state)).Decode(&st); err != nil || st.State == nil || st.Shutter == nil || st.MainChain == nil {
			d.bad = "state unreadable"
			return d
		}
		d.h, d.mc, d.ctr = int(st.Shutter.CurrentBlock), len(st.MainChain.BatchConfigs), int(st.State.ActionCounter)
		for _, e := range st.State.EKGs {
			s.ekgs[string(e.EpochKG.PublicKey.Marshal())] = int(e.Eon)
		}
		for _, a := range st.State.Actions {
			d.acts = append(d.acts, s.label(a))
		}
	}
	if f.hasQueue {
		tmp := filepath.Join(s.dir, "queue.copy")
		must(os.WriteFile(tmp, f.queue, 0o600))
		pa := fx.NewPendingActions(tmp)
		if err := pa.Load(); err != nil {
			d.bad = "queue unreadable"
			return d
		}
		d.cur = int(pa.CurrentID)
		ids := pa.SortedIDs()
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for _, id := range ids {
			d.pend = append(d.pend, int(id))
			d.labels = append(d.labels, s.label(pa.GetAction(id)))
			if pa.GetMainChainTXHash(id) != (common.Hash{}) {
				d.fl = append(d.fl, int(id))
			}
		}
	}
	return d
}

func names(bs [][]byte) []string {
	r := []string{}
	for _, b := range bs {
		r = append(r, appx.AddrName(common.BytesToAddress(b)))
	}
	return r
}

// label says what an action is about
func (s *seg) label(a fx.IAction) M {
	switch x := a.(type) {
	case *fx.EonKeyBroadcast:
		return s.keyLabel(x.KeyperIndex, x.StartBatchIndex, x.EonPublicKey.Marshal())
	case *fx.SendShuttermintMessage:
		return msgLabel(x.Msg)
	}
	return M{"a": "other"}
}

func (s *seg) keyLabel(me, start uint64, key []byte) M {
	eon, ok := s.ekgs[string(key)]
	if !ok {
		eon = -1
	}
	return M{"a": "key", "eon": eon, "start": start, "me": me}
}

func msgLabel(msg *shmsg.Message) M {
	switch p := msg.GetPayload().(type) {
	case *shmsg.Message_CheckIn:
		if !bytes.Equal(p.CheckIn.ValidatorPublicKey, valKey.Public().(ed25519.PublicKey)) ||
			!bytes.Equal(p.CheckIn.EncryptionPublicKey, crypto.CompressPubkey(appx.EncKey[0].PublicKey.ExportECDSA())) {
			return M{"a": "wrong check-in"}
		}
		return M{"a": "ci"}
	case *shmsg.Message_BatchConfig:
		c := p.BatchConfig
		if c.Started || c.ValidatorsUpdated {
			return M{"a": "wrong config"}
		}
		return M{"a": "bc", "idx": c.ConfigIndex, "start": c.StartBatchIndex, "kp": names(c.Keypers), "thr": c.Threshold}
	case *shmsg.Message_EonStartVote:
		return M{"a": "esv", "start": p.EonStartVote.StartBatchIndex}
	case *shmsg.Message_PolyCommitment:
		return M{"a": "pc", "eon": p.PolyCommitment.Eon}
	case *shmsg.Message_PolyEval:
		return M{"a": "pe", "eon": p.PolyEval.Eon, "who": names(p.PolyEval.Receivers)}
	case *shmsg.Message_Accusation:
		return M{"a": "ac", "eon": p.Accusation.Eon, "who": names(p.Accusation.Accused)}
	case *shmsg.Message_Apology:
		return M{"a": "ap", "eon": p.Apology.Eon, "who": names(p.Apology.Accusers)}
	}
	return M{"a": "other"}
}

// txLabel says what a main chain transaction is about
func (s *seg) txLabel(to *common.Address, data []byte) M {
	m := ethsim.KeyABI.Methods["vote"]
	if to == nil || *to != s.c.Key || len(data) < 4 || !bytes.Equal(data[:4], m.ID) {
		return M{"a": "other"}
	}
	l, err := m.Inputs.Unpack(data[4:])
	if err != nil {
		return M{"a": "other"}
	}
	return s.keyLabel(l[0].(uint64), l[1].(uint64), l[2].([]byte))
}

// ---- holding the keyper just before it writes a file

// gate makes whoever opens the file for writing wait
type gate struct{ f *os.File }

func newGate(path string) *gate {
	for i := 0; i < 50; i++ {
		f, err := os.OpenFile(path, os.O_RDONLY|os.O_CREATE, 0o600)
		must(err)
		if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, f.Fd(), 1024, syscall.F_RDLCK); e == 0 { // F_SETLEASE
			return &gate{f}
		}
		f.Close()
	}
	return nil
}

func (g *gate) waiting() bool {
	if g == nil {
		return false
	}
	r, _, e := syscall.Syscall(syscall.SYS_FCNTL, g.f.Fd(), 1025, 0) // F_GETLEASE
	return e == 0 && r == syscall.F_UNLCK
}

func (g *gate) release() {
	if g != nil {
		g.f.Close()
	}
}
