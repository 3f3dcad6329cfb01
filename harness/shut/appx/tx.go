package appx

import (
	"crypto/ecdsa"
	"encoding/base64"
	"math/big"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	bn256 "github.com/ethereum/go-ethereum/crypto/bn256/cloudflare"
	"github.com/ethereum/go-ethereum/crypto/ecies"
	abcitypes "github.com/tendermint/tendermint/abci/types"
	"golang.org/x/crypto/sha3"
	"google.golang.org/protobuf/proto"

	"github.com/shutter-network/shutter/shlib/shcrypto"

	"github.com/shutter-network/shutter/shuttermint/keyper/shutterevents"
	"github.com/shutter-network/shutter/shuttermint/shmsg"
)

// SignRaw signs a marshaled message as documented (signature over sha3-256 of prefix+message).
func SignRaw(marshaled []byte, key *ecdsa.PrivateKey) []byte {
	h := sha3.New256()
	h.Write([]byte{0x19, 's', 'h', 'm', 's', 'g'})
	h.Write(marshaled)
	sig, err := crypto.Sign(h.Sum(nil), key)
	if err != nil {
		panic(err)
	}
	return append(sig, marshaled...)
}

// Encode turns a signed message into transaction bytes.
func Encode(signed []byte) []byte { return []byte(base64.RawURLEncoding.EncodeToString(signed)) }

// MakeTx builds a transaction.
func MakeTx(msg *shmsg.Message, chain string, nonce uint64, key *ecdsa.PrivateKey) []byte {
	b, err := proto.Marshal(&shmsg.MessageWithNonce{Msg: msg, ChainId: []byte(chain), RandomNonce: nonce})
	if err != nil {
		panic(err)
	}
	return Encode(SignRaw(b, key))
}

func strs(x interface{}) []string {
	switch v := x.(type) {
	case []string:
		return v
	case []interface{}:
		res := []string{}
		for _, s := range v {
			res = append(res, s.(string))
		}
		return res
	case nil:
		return nil
	}
	panic("not a list of strings")
}

func num(x interface{}) int64 {
	switch v := x.(type) {
	case int64:
		return v
	case int:
		return int64(v)
	case float64:
		return int64(v)
	}
	panic("not a number")
}

func vals(p *pool, names []string) [][]byte {
	res := [][]byte{}
	for _, n := range names {
		res = append(res, p.Val(n))
	}
	return res
}

func addrBytes(names []string) [][]byte {
	res := [][]byte{}
	for _, n := range names {
		a := Addr(n)
		res = append(res, a.Bytes())
	}
	return res
}

// Build makes the concrete message of an abstract one. wf values other than "ok" damage it.
func Build(m M) *shmsg.Message {
	wf, _ := m["wf"].(string)
	bad := wf != "" && wf != "ok"
	badAddr := func(l [][]byte) [][]byte {
		if bad && len(l) > 0 {
			l[len(l)-1] = l[len(l)-1][:19]
		} else if bad {
			l = append(l, make([]byte, 21))
		}
		return l
	}
	switch m["t"].(string) {
	case "bc":
		kp := badAddr(addrBytes(strs(m["kp"])))
		return &shmsg.Message{Payload: &shmsg.Message_BatchConfig{BatchConfig: &shmsg.BatchConfig{
			StartBatchIndex: Conc(num(m["start"])), Keypers: kp, Threshold: Conc(num(m["thr"])),
			ConfigContractAddress: Addr(m["addr"].(string)).Bytes(), ConfigIndex: Conc(num(m["idx"])),
			Started: m["st"].(bool), ValidatorsUpdated: m["vu"].(bool),
		}}}
	case "bcs":
		return &shmsg.Message{Payload: &shmsg.Message_BatchConfigStarted{BatchConfigStarted: &shmsg.BatchConfigStarted{BatchConfigIndex: Conc(num(m["idx"]))}}}
	case "ci":
		vk, ek := ValKey(m["vk"].(string)), EKeys.Val(m["ek"].(string))
		if bad {
			vk = vk[:31]
		}
		return &shmsg.Message{Payload: &shmsg.Message_CheckIn{CheckIn: &shmsg.CheckIn{ValidatorPublicKey: vk, EncryptionPublicKey: ek}}}
	case "esv":
		return &shmsg.Message{Payload: &shmsg.Message_EonStartVote{EonStartVote: &shmsg.EonStartVote{StartBatchIndex: Conc(num(m["start"]))}}}
	case "ds":
		return &shmsg.Message{Payload: &shmsg.Message_DecryptionSignature{DecryptionSignature: &shmsg.DecryptionSignature{BatchIndex: Conc(num(m["b"])), Signature: Sigs.Val(m["sig"].(string))}}}
	case "pe":
		return &shmsg.Message{Payload: &shmsg.Message_PolyEval{PolyEval: &shmsg.PolyEval{Eon: Conc(num(m["eon"])), Receivers: badAddr(addrBytes(strs(m["rc"]))), EncryptedEvals: vals(Evals, strs(m["ev"]))}}}
	case "pc":
		g := vals(Gammas, strs(m["g"]))
		if bad {
			g = append(g, make([]byte, 100))
		}
		return &shmsg.Message{Payload: &shmsg.Message_PolyCommitment{PolyCommitment: &shmsg.PolyCommitment{Eon: Conc(num(m["eon"])), Gammas: g}}}
	case "ac":
		return &shmsg.Message{Payload: &shmsg.Message_Accusation{Accusation: &shmsg.Accusation{Eon: Conc(num(m["eon"])), Accused: badAddr(addrBytes(strs(m["acc"])))}}}
	case "ap":
		return &shmsg.Message{Payload: &shmsg.Message_Apology{Apology: &shmsg.Apology{Eon: Conc(num(m["eon"])), Accusers: badAddr(addrBytes(strs(m["acc"]))), PolyEvals: vals(Ints, strs(m["ev"]))}}}
	case "sh":
		s := Shares.Val(m["share"].(string))
		if bad {
			s = s[:40]
		}
		return &shmsg.Message{Payload: &shmsg.Message_EpochSecretKeyShare{EpochSecretKeyShare: &shmsg.EpochSecretKeyShare{Eon: Conc(num(m["eon"])), Epoch: Conc(num(m["epoch"])), Share: s}}}
	}
	return nil
}

func addrList(l [][]byte) (names []string, ok bool) {
	names, ok = []string{}, true
	for _, b := range l {
		if len(b) != 20 {
			return []string{}, false
		}
		names = append(names, AddrName(common.BytesToAddress(b)))
	}
	return
}

// nums converts numbers, reporting failure if one has no abstract image.
func nums(m M, kv ...interface{}) bool {
	for i := 0; i < len(kv); i += 2 {
		n, ok := Num(kv[i+1].(uint64))
		if !ok {
			return false
		}
		m[kv[i].(string)] = n
	}
	return true
}

func wf(ok bool) string {
	if ok {
		return "ok"
	}
	return "bad"
}

// DescribeMsg is the abstraction of a message: independent of the code under test except for the
// generated protobuf types. mapped is false if some number has no abstract image.
func DescribeMsg(msg *shmsg.Message) (m M, mapped bool) {
	switch p := msg.GetPayload().(type) {
	case *shmsg.Message_BatchConfig:
		c := p.BatchConfig
		kp, ok := addrList(c.Keypers)
		m = M{"t": "bc", "kp": kp, "wf": wf(ok && len(c.ConfigContractAddress) == 20), "addr": AddrName(common.BytesToAddress(c.ConfigContractAddress)), "st": c.Started, "vu": c.ValidatorsUpdated}
		return m, nums(m, "start", c.StartBatchIndex, "thr", c.Threshold, "idx", c.ConfigIndex)
	case *shmsg.Message_BatchConfigStarted:
		m = M{"t": "bcs"}
		return m, nums(m, "idx", p.BatchConfigStarted.BatchConfigIndex)
	case *shmsg.Message_CheckIn:
		c := p.CheckIn
		_, err := crypto.DecompressPubkey(c.EncryptionPublicKey)
		return M{"t": "ci", "vk": ValName(c.ValidatorPublicKey), "ek": EKeys.Name(c.EncryptionPublicKey), "wf": wf(err == nil && len(c.ValidatorPublicKey) == 32)}, true
	case *shmsg.Message_EonStartVote:
		m = M{"t": "esv"}
		return m, nums(m, "start", p.EonStartVote.StartBatchIndex)
	case *shmsg.Message_DecryptionSignature:
		m = M{"t": "ds", "sig": Sigs.Name(p.DecryptionSignature.Signature)}
		return m, nums(m, "b", p.DecryptionSignature.BatchIndex)
	case *shmsg.Message_PolyEval:
		rc, ok := addrList(p.PolyEval.Receivers)
		ev := []string{}
		for _, e := range p.PolyEval.EncryptedEvals {
			ev = append(ev, Evals.Name(e))
		}
		m = M{"t": "pe", "rc": rc, "ev": ev, "wf": wf(ok)}
		return m, nums(m, "eon", p.PolyEval.Eon)
	case *shmsg.Message_PolyCommitment:
		g, ok := []string{}, true
		for _, b := range p.PolyCommitment.Gammas {
			pt := new(bn256.G2)
			if _, err := pt.Unmarshal(b); err != nil {
				ok = false
				break
			}
			g = append(g, Gammas.Name(pt.Marshal()))
		}
		m = M{"t": "pc", "g": g, "wf": wf(ok)}
		return m, nums(m, "eon", p.PolyCommitment.Eon)
	case *shmsg.Message_Accusation:
		a, ok := addrList(p.Accusation.Accused)
		m = M{"t": "ac", "acc": a, "wf": wf(ok)}
		return m, nums(m, "eon", p.Accusation.Eon)
	case *shmsg.Message_Apology:
		a, ok := addrList(p.Apology.Accusers)
		ev := []string{}
		for _, e := range p.Apology.PolyEvals {
			ev = append(ev, Ints.Name(new(big.Int).SetBytes(e).Bytes()))
		}
		m = M{"t": "ap", "acc": a, "ev": ev, "wf": wf(ok)}
		return m, nums(m, "eon", p.Apology.Eon)
	case *shmsg.Message_EpochSecretKeyShare:
		pt := new(bn256.G1)
		_, err := pt.Unmarshal(p.EpochSecretKeyShare.Share)
		name := ""
		if err == nil {
			name = Shares.Name(pt.Marshal())
		}
		m = M{"t": "sh", "share": name, "wf": wf(err == nil)}
		return m, nums(m, "eon", p.EpochSecretKeyShare.Eon, "epoch", p.EpochSecretKeyShare.Epoch)
	}
	return M{"t": "none"}, true
}

// DescribeTx is the abstraction of transaction bytes.
func DescribeTx(tx []byte) (m M, mapped bool) {
	none := M{"ok": false, "snd": "", "chain": "", "nonce": 0, "msg": M{"t": "none"}}
	signed, err := base64.RawURLEncoding.DecodeString(string(tx))
	if err != nil || len(signed) < 65 {
		return none, true
	}
	h := sha3.New256()
	h.Write([]byte{0x19, 's', 'h', 'm', 's', 'g'})
	h.Write(signed[65:])
	pub, err := crypto.SigToPub(h.Sum(nil), signed[:65])
	if err != nil {
		return none, true
	}
	var mn shmsg.MessageWithNonce
	if err := proto.Unmarshal(signed[65:], &mn); err != nil {
		return none, true
	}
	msg, ok := DescribeMsg(mn.Msg)
	n, ok2 := Num(mn.RandomNonce)
	return M{"ok": true, "snd": AddrName(crypto.PubkeyToAddress(*pub)), "chain": string(mn.ChainId), "nonce": n, "msg": msg}, ok && ok2
}

// DescribeEvent decodes an event the way keypers do.
func DescribeEvent(ev abcitypes.Event) (m M) {
	defer func() {
		if r := recover(); r != nil {
			m = M{"t": "panic"}
		}
	}()
	x, err := shutterevents.MakeEvent(ev, 7)
	if err != nil {
		return M{"t": "undecodable", "type": ev.Type}
	}
	return Describe(x, 7)
}

// Describe describes a decoded event that must carry the given height.
func Describe(x shutterevents.IEvent, h int64) (m M) {
	bad := M{"t": "unmapped"}
	switch e := x.(type) {
	case *shutterevents.BatchConfig:
		m = M{"t": "bc", "kp": AddrNames(e.Keypers)}
		if !nums(m, "start", e.StartBatchIndex, "thr", e.Threshold, "idx", e.ConfigIndex) || e.Height != h {
			return bad
		}
	case *shutterevents.EonStarted:
		m = M{"t": "eon"}
		if !nums(m, "eon", e.Eon, "start", e.BatchIndex) || e.Height != h {
			return bad
		}
	case *shutterevents.CheckIn:
		m = M{"t": "ci", "snd": AddrName(e.Sender), "ek": EKeys.Name(crypto.CompressPubkey(e.EncryptionPublicKey.ExportECDSA()))}
		if e.Height != h {
			return bad
		}
	case *shutterevents.DecryptionSignature:
		m = M{"t": "ds", "snd": AddrName(e.Sender), "sig": Sigs.Name(e.Signature)}
		if !nums(m, "b", e.BatchIndex) || e.Height != h {
			return bad
		}
	case *shutterevents.PolyEval:
		evs := []string{}
		for _, b := range e.EncryptedEvals {
			evs = append(evs, Evals.Name(b))
		}
		m = M{"t": "pe", "snd": AddrName(e.Sender), "rc": AddrNames(e.Receivers), "ev": evs}
		if !nums(m, "eon", e.Eon) || e.Height != h {
			return bad
		}
	case *shutterevents.PolyCommitment:
		g := []string{}
		for _, p := range *e.Gammas {
			g = append(g, Gammas.Name(p.Marshal()))
		}
		m = M{"t": "pc", "snd": AddrName(e.Sender), "g": g}
		if !nums(m, "eon", e.Eon) || e.Height != h {
			return bad
		}
	case *shutterevents.Accusation:
		m = M{"t": "ac", "snd": AddrName(e.Sender), "acc": AddrNames(e.Accused)}
		if !nums(m, "eon", e.Eon) || e.Height != h {
			return bad
		}
	case *shutterevents.Apology:
		evs := []string{}
		for _, b := range e.PolyEval {
			evs = append(evs, Ints.Name(b.Bytes()))
		}
		m = M{"t": "ap", "snd": AddrName(e.Sender), "acc": AddrNames(e.Accusers), "ev": evs}
		if !nums(m, "eon", e.Eon) || e.Height != h {
			return bad
		}
	case *shutterevents.EpochSecretKeyShare:
		m = M{"t": "sh", "snd": AddrName(e.Sender), "share": Shares.Name((*bn256.G1)(e.Share).Marshal())}
		if !nums(m, "eon", e.Eon, "epoch", e.Epoch) || e.Height != h {
			return bad
		}
	default:
		return M{"t": "unknown"}
	}
	return m
}

// EventOf is the inverse of DescribeEvent: the event the application would publish.
func EventOf(m M) abcitypes.Event {
	u := func(k string) uint64 { return Conc(num(m[k])) }
	snd := func() common.Address { return Addr(m["snd"].(string)) }
	switch m["t"] {
	case "bc":
		return shutterevents.BatchConfig{Keypers: AddrsOf(strs(m["kp"])), StartBatchIndex: u("start"), Threshold: u("thr"), ConfigIndex: u("idx")}.MakeABCIEvent()
	case "eon":
		return shutterevents.EonStarted{Eon: u("eon"), BatchIndex: u("start")}.MakeABCIEvent()
	case "ci":
		pk, err := crypto.DecompressPubkey(EKeys.Val(m["ek"].(string)))
		if err != nil {
			panic(err)
		}
		return shutterevents.CheckIn{Sender: snd(), EncryptionPublicKey: ecies.ImportECDSAPublic(pk)}.MakeABCIEvent()
	case "ds":
		return shutterevents.DecryptionSignature{Sender: snd(), BatchIndex: u("b"), Signature: Sigs.Val(m["sig"].(string))}.MakeABCIEvent()
	case "pe":
		return shutterevents.PolyEval{Sender: snd(), Eon: u("eon"), Receivers: AddrsOf(strs(m["rc"])), EncryptedEvals: vals(Evals, strs(m["ev"]))}.MakeABCIEvent()
	case "pc":
		gs := shcrypto.Gammas{}
		for _, n := range strs(m["g"]) {
			g := new(bn256.G2)
			if _, err := g.Unmarshal(Gammas.Val(n)); err != nil {
				panic(err)
			}
			gs = append(gs, g)
		}
		return shutterevents.PolyCommitment{Sender: snd(), Eon: u("eon"), Gammas: &gs}.MakeABCIEvent()
	case "ac":
		return shutterevents.Accusation{Sender: snd(), Eon: u("eon"), Accused: AddrsOf(strs(m["acc"]))}.MakeABCIEvent()
	case "ap":
		ev := []*big.Int{}
		for _, b := range vals(Ints, strs(m["ev"])) {
			ev = append(ev, new(big.Int).SetBytes(b))
		}
		return shutterevents.Apology{Sender: snd(), Eon: u("eon"), Accusers: AddrsOf(strs(m["acc"])), PolyEval: ev}.MakeABCIEvent()
	case "sh":
		g := new(bn256.G1)
		if _, err := g.Unmarshal(Shares.Val(m["share"].(string))); err != nil {
			panic(err)
		}
		return shutterevents.EpochSecretKeyShare{Sender: snd(), Eon: u("eon"), Epoch: u("epoch"), Share: (*shcrypto.EpochSecretKeyShare)(g)}.MakeABCIEvent()
	}
	return abcitypes.Event{Type: "shutter.foreign"}
}
