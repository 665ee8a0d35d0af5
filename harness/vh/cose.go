package vh

import (
	"github.com/fxamacker/cbor/v2"
)

var cborEnc = func() cbor.EncMode {
	m, err := cbor.EncOptions{Sort: cbor.SortCoreDeterministic}.EncMode()
	if err != nil {
		fixtureFail("cbor", err)
	}

	return m
}()

// CB encodes as deterministic CBOR or dies.
func CB(v interface{}) []byte {
	b, err := cborEnc.Marshal(v)
	if err != nil {
		fixtureFail("cbor", err)
	}

	return b
}

// UnCB decodes CBOR.
func UnCB(b []byte, v interface{}) error { return cbor.Unmarshal(b, v) }

// Cose is a COSE_Sign1 message taken apart.
type Cose struct {
	Prot    []byte // serialized protected header
	Unprot  interface{}
	Payload interface{} // []byte, or nil
	Sig     []byte
}

// ToSign is RFC 9052's Sig_structure.
func (m *Cose) ToSign(external []byte) []byte {
	if external == nil {
		external = []byte{}
	}

	return CB([]interface{}{"Signature1", m.Prot, external, m.Payload})
}

// SignWith signs the message in place.
func (m *Cose) SignWith(k *Key) *Cose {
	s, err := k.Sign(m.ToSign(nil))
	if err != nil {
		fixtureFail("cose sign", err)
	}

	m.Sig = s

	return m
}

// Bytes encodes with the COSE_Sign1 tag.
func (m *Cose) Bytes() []byte {
	u := m.Unprot
	if u == nil {
		u = map[interface{}]interface{}{}
	}

	return CB(cbor.Tag{Number: 18, Content: []interface{}{m.Prot, u, m.Payload, m.Sig}})
}

// Clone copies.
func (m *Cose) Clone() *Cose {
	c := *m
	return &c
}

// PL is the payload as bytes.
func (m *Cose) PL() []byte { b, _ := m.Payload.([]byte); return b }

// ParseCose takes a message apart.
func ParseCose(b []byte) *Cose {
	var t cbor.Tag
	if err := cbor.Unmarshal(b, &t); err != nil {
		fixtureFail("cose parse", err)
	}

	a := t.Content.([]interface{})

	return &Cose{Prot: a[0].([]byte), Unprot: a[1], Payload: a[2], Sig: a[3].([]byte)}
}

// CoseHdr is a protected header with algorithm and key id.
func CoseHdr(k *Key) map[interface{}]interface{} {
	return map[interface{}]interface{}{1: int64(k.COSEAlg()), 4: []byte(k.ID)}
}

// MakeCose signs a payload.
func MakeCose(hdr map[interface{}]interface{}, payload []byte, k *Key) *Cose {
	return (&Cose{Prot: CB(hdr), Payload: payload}).SignWith(k)
}
