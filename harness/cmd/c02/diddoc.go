package main

import (
	"fmt"
	"math/rand"

	"github.com/trustbloc/did-go/doc/did"
	ldprocessor "github.com/trustbloc/did-go/doc/ld/processor"

	"github.com/trustbloc/vc-go/verifharness/vh"
	"github.com/trustbloc/vc-go/verifiable"
)

type M = map[string]interface{}
type L = []interface{}

// didJSON makes a DID document of a party, every term of which has a meaning.
func didJSON(r *rand.Rand, id string) M {
	doc := M{"@context": L{"https://www.w3.org/ns/did/v1", vh.CtxVerif}, "id": id}

	var vms L

	for i := 0; i < 2+r.Intn(2); i++ {
		k := vh.NewKey(vh.Pick(r, "EdDSA", "ES256"), fmt.Sprint("diddoc", r.Intn(6)))

		j, err := k.JWK.MarshalJSON()
		if err != nil {
			panic("vh-fixture: " + err.Error())
		}

		vms = append(vms, M{"id": fmt.Sprintf("%s#m%d", id, i), "type": "JsonWebKey2020", "controller": vh.Pick(r, id, "did:verif:controller"), "publicKeyJwk": vh.M(j)})
	}

	doc["verificationMethod"] = vms

	for _, rel := range []string{"authentication", "assertionMethod", "capabilityInvocation", "capabilityDelegation"} {
		var l L

		for _, vm := range vms {
			if r.Intn(2) == 0 {
				l = append(l, vm.(M)["id"])
			}
		}

		if len(l) > 0 {
			doc[rel] = l
		}
	}

	if r.Intn(2) == 0 {
		doc["alsoKnownAs"] = L{"did:verif:aka" + vh.SafeStr(r), "https://aka.example/" + vh.SafeStr(r)}[:1+r.Intn(2)]
	}

	if r.Intn(3) != 0 {
		var l L
		for i := 0; i < 1+r.Intn(2); i++ {
			l = append(l, M{"id": fmt.Sprintf("%s#s%d", id, i), "type": vh.Pick(r, "LinkedDomains", "Messaging"), "serviceEndpoint": "https://" + vh.SafeStr(r) + ".example/"})
		}

		doc["service"] = l
	}

	if r.Intn(3) == 0 {
		doc["created"] = "2020-03-04T05:06:07Z"
	}

	return doc
}

func parseDID(d M) *did.Doc {
	x, err := did.ParseDocument(vh.J(d))
	if err != nil {
		panic("vh-fixture: DID document: " + err.Error() + string(vh.J(d)))
	}

	return x
}

func didBytes(d *did.Doc) string {
	b, err := d.JSONBytes()
	if err != nil {
		panic("vh-fixture: DID document: " + err.Error())
	}

	return string(vh.J(vh.M(b)))
}

type didTamper struct {
	name string
	f    func(r *rand.Rand, d M) bool
}

func listOf(d M, k string) L {
	l, _ := d[k].(L)

	return l
}

func didTampers() []didTamper {
	proof := func(r *rand.Rand, d M) M {
		ps := vh.Proofs(d)

		return ps[r.Intn(len(ps))]
	}

	rels := []string{"authentication", "assertionMethod", "capabilityInvocation", "capabilityDelegation"}

	return []didTamper{
		{"method-key", func(r *rand.Rand, d M) bool {
			k := vh.NewKey("EdDSA", "intruder")
			j, _ := k.JWK.MarshalJSON() //nolint:errcheck
			l := listOf(d, "verificationMethod")
			l[r.Intn(len(l))].(M)["publicKeyJwk"] = vh.M(j)

			return true
		}},
		{"method-controller", func(r *rand.Rand, d M) bool {
			l := listOf(d, "verificationMethod")
			l[r.Intn(len(l))].(M)["controller"] = "did:verif:intruder"

			return true
		}},
		{"method-added", func(r *rand.Rand, d M) bool {
			l := listOf(d, "verificationMethod")
			m := vh.CloneM(l[0].(M))
			m["id"] = vh.AsStr(d["id"]) + "#added"
			d["verificationMethod"] = append(l, m)

			return true
		}},
		{"relationship-added", func(r *rand.Rand, d M) bool {
			rel := rels[r.Intn(len(rels))]
			have := vh.J(d[rel])

			for _, m := range listOf(d, "verificationMethod") {
				if id := m.(M)["id"]; !contains(listOf(d, rel), id) {
					d[rel] = append(append(L{}, listOf(d, rel)...), id)

					return string(have) != string(vh.J(d[rel]))
				}
			}

			return false
		}},
		{"relationship-removed", func(r *rand.Rand, d M) bool {
			rel := rels[r.Intn(len(rels))]
			if len(listOf(d, rel)) == 0 {
				return false
			}

			if d[rel] = listOf(d, rel)[1:]; len(listOf(d, rel)) == 0 {
				delete(d, rel)
			}

			return true
		}},
		{"endpoint", func(r *rand.Rand, d M) bool {
			l := listOf(d, "service")
			if len(l) == 0 {
				return false
			}

			l[r.Intn(len(l))].(M)["serviceEndpoint"] = "https://intruder.example/"

			return true
		}},
		{"service-type", func(r *rand.Rand, d M) bool {
			l := listOf(d, "service")
			if len(l) == 0 {
				return false
			}

			l[r.Intn(len(l))].(M)["type"] = "Intruder"

			return true
		}},
		{"service-added", func(r *rand.Rand, d M) bool {
			d["service"] = append(append(L{}, listOf(d, "service")...), M{"id": vh.AsStr(d["id"]) + "#added", "type": "Added", "serviceEndpoint": "https://added.example"})

			return true
		}},
		{"service-removed", func(r *rand.Rand, d M) bool {
			l := listOf(d, "service")
			if len(l) == 0 {
				return false
			}

			if d["service"] = l[1:]; len(l) == 1 {
				delete(d, "service")
			}

			return true
		}},
		{"also-known-as", func(r *rand.Rand, d M) bool {
			d["alsoKnownAs"] = append(append(L{}, listOf(d, "alsoKnownAs")...), "did:verif:intruder")

			return true
		}},
		{"created", func(r *rand.Rand, d M) bool {
			d["created"] = "2021-03-04T05:06:07Z"

			return true
		}},
		{"updated", func(r *rand.Rand, d M) bool {
			d["updated"] = "2021-03-04T05:06:07Z"

			return true
		}},
		{"proof-created", func(r *rand.Rand, d M) bool {
			proof(r, d)["created"] = "2031-01-01T00:00:00Z"

			return true
		}},
		{"proof-purpose", func(r *rand.Rand, d M) bool {
			p := proof(r, d)
			if p["proofPurpose"] == "capabilityInvocation" {
				return false
			}

			p["proofPurpose"] = "capabilityInvocation"

			return true
		}},
		{"proof-domain", func(r *rand.Rand, d M) bool {
			proof(r, d)["domain"] = "https://intruder.example"

			return true
		}},
		{"proof-challenge", func(r *rand.Rand, d M) bool {
			proof(r, d)["challenge"] = "intruder"

			return true
		}},
		{"proof-method", func(r *rand.Rand, d M) bool {
			proof(r, d)["verificationMethod"] = w.Ents["mallory"].Keys["EdDSA"].ID

			return true
		}},
		{"signature-bit", func(r *rand.Rand, d M) bool {
			editSig(proof(r, d), func(b []byte) []byte { b[r.Intn(len(b))] ^= 1 << r.Intn(8); return b })

			return true
		}},
		{"signature-short", func(r *rand.Rand, d M) bool {
			editSig(proof(r, d), func(b []byte) []byte { return b[:len(b)-1] })

			return true
		}},
		{"proof-removed", func(r *rand.Rand, d M) bool {
			delete(d, "proof")

			return true
		}},
	}
}

func contains(l L, x interface{}) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}

	return false
}

// didDocCases: the linked-data proofs of DID documents bind them in the same way.
func didDocCases(c *vh.Check) {
	ts := didTampers()

	vo := []verifiable.VerifyDIDOpt{verifiable.WithDIDProofChecker(w.Checker), verifiable.WithDIDJSONLDDocumentLoader(w.Loader)}

	c.Cases("did-document", c.N(len(vh.LDSuites)*16, len(vh.LDSuites)*160), func(r *rand.Rand, i int) {
		s := vh.LDSuites[i%len(vh.LDSuites)]
		a, m := w.Ents["alice"], w.Ents["mallory"]
		src := didJSON(r, vh.Pick(r, a.DID, "did:verif:subject"))
		doc := parseDID(src)
		before := didBytes(doc)
		lc := w.LDContext(r, a, s)
		id := s.Type + "/" + s.Alg + s.VM + "/" + rep(lc)

		signed, err := verifiable.AddDIDLinkedDataProof(doc, lc, ldprocessor.WithDocumentLoader(w.Loader))
		if !c.Expect(err == nil, "did:sign:"+s.Type, fmt.Sprintf("signing a DID document: %v", err), src) {
			return
		}

		c.Expect(didBytes(doc) == before, "did:source", "signing changed the document it was given", src)

		two := r.Intn(3) == 0
		if two {
			b := w.Ents["bob"]

			signed, err = verifiable.AddDIDLinkedDataProof(signed, w.LDContext(r, b, s), ldprocessor.WithDocumentLoader(w.Loader))
			if !c.Expect(err == nil, "did:sign2:"+s.Type, fmt.Sprintf("signing a signed DID document: %v", err), src) {
				return
			}
		}

		all := vh.M([]byte(didBytes(signed)))
		content := vh.CloneM(all)
		delete(content, "proof")

		was := vh.M([]byte(before))
		delete(was, "proof")
		c.Expect(string(vh.J(content)) == string(vh.J(was)), "did:content", "signing changed the content", all)

		again := parseDID(all)
		now := didBytes(signed)

		for k, d := range []*did.Doc{signed, again} {
			err := verifiable.VerifyDIDProof(d, vo...)
			c.Eval(fmt.Sprintf("did/%s/%d/%v", id, k, two))

			if !c.Expect(err == nil, "did:genuine-rejected:"+s.Type, fmt.Sprintf("signed DID document (%s) rejected: %v", id, err), all) {
				return
			}

			c.Count("did.accepted", 1)
		}

		// options that change nothing for a document all of whose terms are defined: the same content with a context supplied by the verifier
		less := vh.CloneM(all)
		if cx, ok := less["@context"].(L); ok && len(cx) == 2 && cx[1] == vh.CtxVerif {
			less["@context"] = cx[:1]
			ext := append(vo[:len(vo):len(vo)], verifiable.WithDIDExternalJSONLDContext(vh.CtxVerif))

			err := verifiable.VerifyDIDProof(parseDID(less), ext...)
			c.Expect(err == nil, "did:external-context", fmt.Sprintf("DID document (%s) with the context supplied by the verifier rejected: %v", id, err), less)
			c.Count("did.external", 1)
		}

		err = verifiable.VerifyDIDProof(again, append(vo[:len(vo):len(vo)], verifiable.WithDIDJSONLDOnlyValidRDF())...)
		c.Expect(err == nil, "did:valid-rdf", fmt.Sprintf("signed DID document (%s) rejected with only valid RDF: %v", id, err), all)

		c.Expect(didBytes(signed) == now, "did:verify-changed", "verifying changed the document", all)
		c.Expect(verifiable.VerifyDIDProof(signed, vo[1:]...) != nil, "did:no-checker", "accepted without anything to check the proof with", all)
		c.Expect(verifiable.VerifyDIDProof(doc, vo...) != nil, "did:no-proof", "document without proof accepted", src)

		for k := 0; k < 5; k++ {
			t := ts[(i/len(vh.LDSuites)*5+k)%len(ts)]
			d := vh.CloneM(all)

			if !t.f(r, d) {
				continue
			}

			td, err := did.ParseDocument(vh.J(d))
			if err != nil || didBytes(td) == now {
				c.Count("did.unreadable", 1)

				continue
			}

			o := vo
			if k%2 == 1 {
				o = append(vo[:len(vo):len(vo)], verifiable.WithDIDJSONLDOnlyValidRDF())
			}

			err = verifiable.VerifyDIDProof(td, o...)
			c.Eval("did/" + t.name + "/" + id)

			if c.Expect(err != nil, "did:tampered-accepted:"+t.name, fmt.Sprintf("%s DID document accepted after %s", id, t.name), M{"signed": all, "tampered": d}) {
				c.Count("did.refused", 1)
			}
		}

		// somebody else's signature in the name of alice's key
		if s.Alg != "PS256" {
			lc := w.LDContext(r, m, s)
			lc.VerificationMethod = s.VMID(a)

			forged, err := verifiable.AddDIDLinkedDataProof(doc, lc, ldprocessor.WithDocumentLoader(w.Loader))
			if err == nil {
				c.Expect(verifiable.VerifyDIDProof(forged, vo...) != nil, "did:impostor:"+s.Type, "proof made with another key accepted", didBytes(forged))
				c.Count("did.refused", 1)
			}
		}
	})
}
