#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "JWT credentials are accepted only when their issuer really signed them",
  "A credential in JWT form is accepted with proof checking on only if the signature over exactly the received header and payload verifies, with the algorithm the header names, under a signature-capable key that the DID document of the credential's issuer lists under the header's key id. Unsecured tokens, missing or foreign key ids, key-agreement keys, wrong algorithms, another party's signature and any change to header, payload or signature bytes are rejected; a token signed by its issuer with any supported algorithm is accepted. Plain JWT parsing with issuer checking follows the same rule.",
  ["inputs", "configurations"], "all credentials (data model 1.1 and 2.0), all seven JWS algorithms, minimised or not, all tampering of header/payload/signature, all issuer/key/alg confusions",
  "Tests sign a couple of fixed credentials with one or two algorithms and tamper by hand once or twice; the guarantee ranges over every token and every confusion of issuer, kid, alg and key.",
  ["verifiable/credential.go", "verifiable/credential_jwt.go", "verifiable/credential_parser.go", "jwt/jwt.go", "jwt/verifier.go", "proof/checker/checker.go", "vermethod/vdrkeyresolver.go"],
  [("JWS signature check against issuer key", "verifiable/credential.go, jwt/, proof/checker/checker.go CheckJWTProof"), ("key lookup in issuer DID document", "vermethod/")],
  observe=["ParseCredential", "Credential.CheckProof", "VerifyDIDProof"])

p("C02", "Linked-data proofs bind the whole credential to the issuer's key",
  "A credential with embedded linked-data proofs is accepted only if every proof in it is a valid signature, under a signature-capable key of the credential issuer's DID document that suits the proof type, over the credential's complete canonical content and that proof's own options (purpose, created, domain, challenge, verification method). Changing any claim, any proof option, any proof value, the issuer, the order-independent content, or adding a bad proof beside a good one makes verification fail, whereas reordering members or reserialising does not. The proofs of a DID document bind it in the same way.",
  ["inputs", "configurations"], "all credentials, all six linked-data signature suites in both signature representations, one to several proofs, all tampering of claims and proof members",
  "Tests verify fixed documents per suite; no test varies which claim or proof option is altered, nor mixes valid and invalid proofs.",
  ["verifiable/embedded_proof.go", "verifiable/linked_data_proof.go", "verifiable/credential_ldp.go", "verifiable/did_ldp.go", "verifiable/lddocument/", "proof/checker/checker.go", "proof/ldproofs/", "crypto-ext/verifiers/"],
  [("proof loop and canonical digest", "verifiable/lddocument/verifier.go"), ("suite/key matching", "proof/checker/checker.go CheckLDProof")],
  observe=["ParseCredential", "Credential.CheckProof", "VerifyDIDProof"])

p("C03", "Data Integrity proofs verify exactly what was signed, for the expected use",
  "A Data Integrity proof made by any supported cryptosuite over any document verifies, and verification fails after any change to the secured document, to the proof value, cryptosuite, verification method, purpose, creation or expiry time. It also fails when the proof has expired, when its purpose, or a required domain or challenge, is not the expected one, when the key is not listed for that purpose in the controller's DID document, when any proof of a proof set is bad, and when there is no proof at all; verdicts do not depend on earlier verifications.",
  ["inputs", "configurations", "histories"], "all JSON-LD documents, ecdsa (P-256, P-384) and eddsa suites under all their names, all option combinations, proof sets of 1..4 with differing methods and times, repeated use of one verifier and options value",
  "Suite tests sign one fixed document with mocked or single keys; proof sets, option reuse and per-field tampering are not sampled.",
  ["dataintegrity/verifier.go", "dataintegrity/signer.go", "dataintegrity/suite/ecdsa2019/ecdsa2019.go", "dataintegrity/suite/eddsa2022/eddsa2022.go", "verifiable/data_integrity_proof.go", "verifiable/did_data_integrity.go"],
  [("proof loop and option checks", "dataintegrity/verifier.go"), ("transform-and-hash", "dataintegrity/suite/*/")],
  observe=["Verifier.VerifyProof", "Signer.AddProof", "ParseCredential", "VerifyDIDProof"])

p("C04", "CWT credentials are accepted only when their issuer really signed them",
  "A credential in CWT (COSE_Sign1) form is accepted with proof checking on only if its signature verifies over the COSE signature structure of exactly its protected header and payload, with the protected algorithm, under a signature-capable key listed under the message's key id in the credential issuer's DID document. Any change to protected header, payload or signature, another party's key, or a missing key id or algorithm is rejected; a message signed by its issuer with any supported COSE algorithm is accepted and yields the signed claims, the same ones on every reading.",
  ["inputs", "configurations"], "all credentials, all supported COSE algorithms, hex and binary forms, all tampering and key confusions",
  "Two or three fixed CWTs are tested; no test varies the algorithm, issuer or the altered bytes.",
  ["verifiable/credential_cwt.go", "verifiable/credential_parser.go", "verifiable/cwt/", "cwt/", "proof/checker/checker.go"],
  [("COSE Sig_structure reconstruction and check", "cwt/cwt.go, verifiable/cwt/"), ("issuer key lookup", "proof/checker/checker.go checkCWTProofByKeyID")],
  observe=["ParseCredential"])

p("C05", "Presentations are accepted only when the holder's proof verifies",
  "A presentation carrying a proof in any form (JWT, CWT, embedded linked-data or Data Integrity proof, enveloped) is accepted with proof checking on only if that proof verifies over exactly its content under a key of the party that presents it, and every embedded signed credential in it verifies as well. With holder checking on, a presentation about one subject is rejected when it holds a credential secured by the presenter's own DID whose issuer is not the stated holder. Altered content, swapped embedded credentials, another party's key or an altered embedded credential are rejected, and genuine presentations are accepted with their credentials intact.",
  ["inputs", "configurations"], "all presentations with 0..4 embedded credentials of all formats, all proof forms, all tampering positions, holder check on and off",
  "Tests use a few fixed presentations; combinations of proof form, embedded credential format and tampered position are not covered.",
  ["verifiable/presentation.go", "verifiable/presentation_jwt.go", "verifiable/presentation_cwt.go", "verifiable/presentation_parser.go", "verifiable/presentation_ldp.go", "verifiable/embedded_proof.go"],
  [("presentation decoding per format", "verifiable/presentation*.go"), ("embedded credential checks", "verifiable/presentation.go")],
  observe=["ParsePresentation"])

p("C06", "SD-JWT issue, present and verify disclose exactly the chosen claims",
  "For any claims and any issuing options, issuing an SD-JWT and presenting a chosen subset of its disclosures gives the verifier exactly the always-visible claims plus the chosen ones with their original values, and nothing of the others; disclosing everything gives back the issued claims. The issued token itself reveals no selectively disclosable value, every disclosure is referenced by exactly one digest under the declared hash, and salts are never repeated.",
  ["inputs", "configurations"], "all JSON claim sets (nested objects, arrays), both SD-JWT drafts, flat/structured/recursive issuing, always-visible and recursive path options, decoys, SHA-256/384/512, all disclosure subsets",
  "Tests use fixed example claims from the drafts with hand-picked subsets; the option space times claim shapes is not sampled.",
  ["sdjwt/issuer/", "sdjwt/holder/holder.go", "sdjwt/verifier/verifier.go", "sdjwt/common/common.go"],
  [("disclosure and digest construction", "sdjwt/issuer/"), ("claim reconstruction", "sdjwt/common/common.go, sdjwt/verifier/verifier.go")],
  observe=["issuer.New", "holder.Parse", "holder.CreatePresentation", "verifier.Parse", "common.GetDisclosureClaims"])

p("C07", "SD-JWT verification rejects forged, mismatched or unbound presentations",
  "The SD-JWT verifier accepts a presentation only if the issuer's signature verifies with an allowed algorithm, an expected token type matches, every disclosure's digest is embedded in the token in the right kind of place, no disclosure or digest is duplicated, no disclosed claim overwrites a visible one or another, and the time claims are within bounds. When holder binding is required or present, the binding token must be signed with an allowed algorithm by the key the issuer bound, carry the expected nonce and audience and be timely. Every violation of any of these is rejected, by the holder on receipt too where it applies, and genuine presentations are accepted.",
  ["inputs", "configurations"], "all presentations, both drafts, every single-fault alteration of token, disclosures and key binding, all option combinations",
  "Each rule has one fixed negative test at most; combinations with draft version, nesting, and expected nonce/audience are not covered.",
  ["sdjwt/verifier/verifier.go", "sdjwt/holder/holder.go", "sdjwt/common/common.go"],
  [("holder verification rules", "sdjwt/verifier/verifier.go"), ("digest matching", "sdjwt/common/common.go")],
  observe=["verifier.Parse", "holder.CreatePresentation"])

p("C08", "Selective-disclosure credentials reveal exactly what the holder selects",
  "Turning a credential into an SD-JWT credential and marshalling it with selected claim names emits exactly the disclosures of those names (all of them when all are asked for, none when nothing is), fails when a required name is absent, and the result parses under the issuer's key to the same credential with only those claims visible. Display forms show exactly the selected claims with their original values, and neither operation changes the credential it was called on.",
  ["inputs", "configurations"], "all credentials, both SD-JWT versions, all name subsets, with and without holder binding",
  "Tests select two or three fixed names on one fixed credential.",
  ["verifiable/credential_sdjwt.go", "sdjwt/common/common.go", "sdjwt/holder/holder.go"],
  [("disclosure filtering", "verifiable/credential_sdjwt.go"), ("display reconstruction", "sdjwt/common/common.go GetDisclosedClaims")],
  observe=["Credential.MakeSDJWT", "Credential.MarshalWithDisclosure", "Credential.CreateDisplayCredential"])

p("C09", "JWT and CWT claims carry the credential's own id, issuer, subject and dates",
  "Encoding a credential about one identified subject, or a presentation, as JWT or CWT claims sets issuer, subject, id, not-before/issued-at, expiry and audience from its own fields, minimised or not, and decoding restores the same credential or presentation. When the registered claims of a JWT credential, or of a JWT or CWT presentation, disagree with the enclosed object, the registered (signed) claims win for the decoded id, issuer or holder, and dates, to one-second precision in any time zone; claims of a credential without dates or issuer are built, or refused with an error.",
  ["inputs"], "all credentials and presentations, minimised or not, all conflicting registered claims, all RFC 3339 times",
  "A handful of fixed credentials with fixed UTC dates is tested.",
  ["verifiable/credential_jwt.go", "verifiable/credential_cwt.go", "verifiable/presentation_jwt.go", "verifiable/presentation_cwt.go", "jwt/", "util/time/"],
  [("claims construction and refinement", "verifiable/credential_jwt.go, verifiable/credential_cwt.go, verifiable/presentation_jwt.go")],
  observe=["Credential.JWTClaims", "Presentation.JWTClaims", "ParseCredential"])

p("C10", "Parsing and serialising credentials and presentations loses nothing",
  "Every valid credential or presentation parsed from JSON and marshalled again has the same JSON content, including custom fields, nested values, multiple subjects, statuses and issuer properties, and parse-marshal-parse is stable through the JSON, JWT, SD-JWT, CWT and enveloped forms. The structured contents reported by accessors agree with the document, and building a credential from the structured contents of a document gives that document again, up to the representation choices the data model leaves open.",
  ["inputs"], "all credentials and presentations of data models 1.1 and 2.0 in all representations",
  "Round trips are tested on a few fixed documents with few optional fields.",
  ["verifiable/credential.go", "verifiable/presentation.go", "verifiable/common.go", "util/json/"],
  [("contents parsing and serialisation", "verifiable/credential.go parseCredentialContents/serializeCredentialContents")],
  observe=["ParseCredential", "ParseCredentialJSON", "CreateCredential", "Credential.MarshalJSON", "Credential.Contents", "ParsePresentation", "Presentation.MarshalJSON"])

p("C11", "Credential operations never alter their inputs or earlier values",
  "Deriving a modified credential leaves the original unchanged while the new one shows exactly the requested change in both its structured contents and its serialised document. Parsing, validating, proof checking, signing, encoding, displaying, selectively disclosing and presenting leave the caller's documents, credentials, presentations and option values as they were, except for the documented in-place additions.",
  ["inputs", "histories"], "all credentials and all sequences of up to a dozen operations on values derived from one another",
  "Tests check the new value after a single call, hardly ever the old one, and never sequences.",
  ["verifiable/credential.go", "verifiable/presentation.go", "verifiable/credential_sdjwt.go", "util/json/", "util/maphelpers/"],
  [("copy-on-modify", "verifiable/credential.go WithModified*"), ("shallow/deep copies", "util/json/, util/maphelpers/")],
  observe=["Credential.ToRawJSON", "Credential.Contents", "Presentation.Clone"])

p("C12", "Hostile input is answered with an error, never a crash or a hang",
  "Whatever bytes, tokens, JSON documents or CBOR messages are given to the parsing, verification, status, presentation-exchange, DID-configuration and SD-JWT entry points, they return normally with a result or an error. They do not panic and do not run away in time or memory on small inputs.",
  ["inputs"], "arbitrary bytes and structure-aware mutations (type confusion, missing/null/duplicated members, truncation, deep nesting, extreme numbers) of valid inputs of every kind",
  "Tests pass a few dozen malformed inputs; fuzzing-like exploration of structurally valid but semantically wrong inputs is absent.",
  ["verifiable/", "jwt/", "cwt/", "sdjwt/", "dataintegrity/", "presexch/", "status/", "didconfig/", "crypto-ext/"],
  [("decode-then-check of every optional member", "all parsers")],
  observe=["all exported parse/verify entry points"])

p("C13", "Shared objects are safe for concurrent use",
  "Verifying, parsing, issuing, disclosing, displaying, presenting and marshalling from many goroutines that share proof checkers, resolvers, verifiers, signers, caches, presentation definitions, loaders and parsed credentials involves no data race. Every concurrent call gives the same outcome as the same call made alone.",
  ["schedules"], "all interleavings of concurrent reads and operations on shared values",
  "Tests are sequential and the race detector is not part of their pass criterion.",
  ["verifiable/", "proof/checker/checker.go", "sdjwt/issuer/", "dataintegrity/", "presexch/", "legacy/mem/", "verifiable/cache.go"],
  [("no shared mutable state, locks in stores", "package-level variables and struct fields")],
  observe=["race detector reports", "results compared with sequential runs"])

p("C14", "Revocation and suspension verdicts follow the status list bit",
  "Checking a credential's status reports revoked or suspended, as the entry's purpose says, exactly when the bit at the entry's index (bit i mod 8, least significant first, of byte i div 8) of the referenced status list by the same issuer is set, for every index, list length and entry type supported (one-bit entries), and reports success when it is clear. Malformed entries, indexes outside the list, undecodable lists, a status credential by another issuer, an unsupported entry type, or a failing lookup yield an error rather than a clean verdict, and with several entries any set bit is reported. Each check reads the list as it is published at that moment.",
  ["inputs", "fault_sequences"], "all bit strings and indexes, StatusList2021 and BitstringStatusList entries, 1..4 entries, malformed and hostile lists, resolver failures",
  "Tests look at a few bits of one fixed list.",
  ["status/status.go", "status/internal/bitstring/bitstring.go", "status/validator/", "status/resolver/"],
  [("bit lookup", "status/internal/bitstring/bitstring.go"), ("issuer and type checks", "status/status.go, status/validator/")],
  observe=["Client.VerifyStatus"])

p("C15", "Presentation exchange selects exactly the credentials that satisfy a definition",
  "A presentation built for a definition contains, for each input descriptor in the submission, exactly credentials that satisfy that descriptor's schema, format, field, filter and holder constraints (with selective disclosure required, those that support it), and building fails when no such choice exists; the submission's paths point at those credentials, and credentials with the same non-empty id count as one. Limited disclosure reveals the mandatory members, the subject ids, the values at the paths the descriptor names and nothing else, in a form a verifier can parse (BBS+ and SD-JWT credentials stay verifiable); a predicate reveals true in place of the value. Matching a received presentation accepts it exactly when every descriptor is mapped to a credential that satisfies its schema, field and filter constraints.",
  ["inputs"], "all definitions with up to a few descriptors over random credentials (JSON-LD, JWT, SD-JWT, CWT, BBS+), field paths, filters, optional fields, predicates, limit-disclosure settings",
  "Tests use dozens of fixed definitions and credentials; an independent statement of which credentials qualify is missing.",
  ["presexch/definition.go", "presexch/api.go"],
  [("constraint filtering", "presexch/definition.go"), ("submission matching", "presexch/api.go")],
  observe=["PresentationDefinition.CreateVP", "PresentationDefinition.Match"])

p("C16", "Submission requirements are decided exactly as written",
  "For any nesting of submission requirements with all/pick rules and count, min and max bounds over descriptor groups, building a presentation succeeds exactly when some choice of satisfiable descriptors meets every requirement, and what is submitted meets them. Matching a presentation against the requirements accepts exactly the sets of descriptors that meet them.",
  ["inputs"], "all requirement trees up to depth 3 over up to 6 descriptors and all subsets of satisfiable descriptors",
  "Tests cover a few fixed trees; the boolean space of trees times available sets is only sampled at points.",
  ["presexch/definition.go", "presexch/api.go", "presexch/internal/requirementlogic/"],
  [("requirement evaluation", "presexch/definition.go, presexch/internal/requirementlogic/")],
  observe=["PresentationDefinition.CreateVP", "PresentationDefinition.MatchSubmissionRequirement", "PresentationDefinition.Match"])

p("C17", "Domain linkage is confirmed only by a genuine credential for that DID and origin",
  "Verifying a DID configuration for a DID and origin succeeds only if the document holds a domain linkage credential, embedded or JWT, whose issuer and subject are that DID, whose origin is that origin, that has an issuance and an expiry date and the domain linkage type, carries no credential id, and whose proof verifies under that DID. Any single deviation, tampering, or a credential for another DID or origin leads to rejection, and a genuine credential anywhere in the list is found.",
  ["inputs", "configurations"], "all DIDs, origins, lists of 1..5 credentials mixing genuine and deviating ones, both formats, every single-fault deviation",
  "Tests use two fixed configurations with a dozen deviations of one of them.",
  ["didconfig/verifier/didconfig.go", "didconfig/client/didconfig.go"],
  [("linkage credential rules", "didconfig/verifier/didconfig.go")],
  observe=["verifier.VerifyDIDAndDomain", "Client.VerifyDIDAndDomain"])

p("C18", "Credential validation accepts the data model and rejects deviations",
  "With validation on, a credential is accepted when it has the base context first, the mandatory type, an issuer, subject and the mandatory fields of its data-model version in their specified shapes, and is rejected when any mandatory part is missing or mis-shaped. Strict JSON-LD validation rejects terms not defined by the contexts, base-context modes reject contexts or types beyond the allowed ones, and a referenced JSON schema is applied to the credential.",
  ["inputs", "configurations"], "all credentials, every single deviation in a mandatory or typed member, all validation modes",
  "Tests hold one deviating document per rule for some rules.",
  ["verifiable/credential.go", "verifiable/jsonld.go", "verifiable/presentation.go"],
  [("JSON schema and base-context checks", "verifiable/credential.go"), ("JSON-LD structure comparison", "verifiable/credential.go validateJSONLD")],
  observe=["ParseCredential", "Credential.ValidateCredential"])

p("C19", "Related resources are accepted only when their digest matches",
  "A credential naming related resources is accepted with that check on only if every one carries an id and a supported, non-empty digest that equals the digest of the bytes fetched from its id. Any differing byte, any wrong, empty, short or unsupported digest, a missing resource or a failing fetch is rejected, and cached fetches give the same verdicts as fresh ones.",
  ["inputs", "histories", "fault_sequences"], "all contents, SRI and multibase digests over all supported hashes, alterations of digest or bytes, HTTP faults, repeated validations through a cache",
  "Tests use one resource with two digests.",
  ["verifiable/related_resource.go"],
  [("digest comparison", "verifiable/related_resource.go")],
  observe=["RelatedResourceValidator.Validate", "ParseCredential"])

p("C20", "The schema cache returns only live entries and schemas are always applied",
  "An entry is returned by the expiring schema cache exactly as it was stored, and only until its lifetime is over; an expired, evicted or never stored key is a miss. A credential whose referenced schema it violates is rejected whether that schema comes from the cache or the network, and a failing download is an error.",
  ["inputs", "histories", "schedules"], "all sequences and interleavings of stores and lookups, all schema/credential pairs, HTTP faults",
  "Tests store and read one entry.",
  ["verifiable/cache.go", "verifiable/credential.go"],
  [("expiry stamped entries", "verifiable/credential.go ExpirableSchemaCache")],
  observe=["ExpirableSchemaCache.Get/Put", "ParseCredential"])

p("C21", "The in-memory store behaves as an atomic tagged key-value store",
  "Under any concurrent history of puts, gets, tag reads, bulk gets, deletes, batches and queries, the in-memory storage gives results explainable by executing the operations one at a time, with a batch taking effect as a whole. Queries return exactly the entries whose tags satisfy the expression, and stored values and tags are independent of later changes by callers to what they passed in or got back.",
  ["histories", "schedules"], "all concurrent histories of up to several hundred operations on a few stores and keys",
  "The conformance suite is sequential.",
  ["legacy/mem/mem.go"],
  [("read-write lock around the map", "legacy/mem/mem.go")],
  observe=["Store.Put/Get/GetTags/GetBulk/Delete/Batch/Query"])

p("C22", "Signature verifiers agree with the standard algorithms",
  "Each signature verifier accepts exactly the signatures that are valid under the named algorithm for the given message and key, in the fixed-width form and, for elliptic curves, the DER form, with the key given as JWK or bytes. Altered messages or signatures, truncated or padded encodings, zero or out-of-range values, other keys, other curves and other key types are rejected with an error.",
  ["inputs"], "all messages, keys and signature encodings for Ed25519, P-256, P-384, P-521, secp256k1, RSA PKCS#1 v1.5 and PSS, BBS+",
  "Tests sign one message per algorithm and flip one thing.",
  ["crypto-ext/verifiers/"],
  [("signature decoding and verification", "crypto-ext/verifiers/{ecdsa,ed25519,rsa,bbs}")],
  observe=["Verifier.Verify"])

p("C23", "BBS+ selective disclosure reveals only the frame and stays verifiable",
  "Deriving a credential from a BBS+ signed one with a reveal frame yields a credential that contains exactly the framed claims with their original values and verifies under the issuer's key with the given nonce. No unrevealed claim value appears in it, altering, adding or removing any revealed claim, the nonce or the proof makes verification fail, and the source credential is unchanged.",
  ["inputs"], "all JSON-LD credentials with an id, whose nested objects have ids unless they hold no further objects, reveal frames and nonces",
  "Two fixed credential/frame pairs are tested.",
  ["verifiable/bbs_selective_disclosure.go", "verifiable/credential_bbs.go", "crypto-ext/verifiers/bbs"],
  [("framing and proof derivation", "verifiable/bbs_selective_disclosure.go")],
  observe=["Credential.GenerateBBSSelectiveDisclosure", "ParseCredential"])

p("C24", "A key only verifies proofs of its own algorithm, controller and purpose",
  "Proof checking resolves the stated verification method only in the DID document of the expected controller, never uses key-agreement keys, and accepts a key only for the algorithms and proof types that its method type, key type and curve allow. Every other pairing of algorithm or proof type with verification method, key type, curve or controller is rejected with an error, for every supported JWT, CWT and linked-data algorithm and for embedded keys alike. The signature algorithm offered for a KMS key type is one that keys of that type verify under; there is none for keys that do not sign.",
  ["inputs", "configurations"], "the full matrix of algorithms and proof types times verification method types, key types, curves, controllers and relationships",
  "Tests cover the diagonal and a few off-diagonal entries of the matrix.",
  ["proof/checker/checker.go", "proof/jwtproofs/", "proof/ldproofs/", "vermethod/", "proof/defaults/"],
  [("descriptor/key matching", "proof/checker/checker.go convertToPublicKey")],
  observe=["ProofChecker.CheckJWTProof", "CheckLDProof", "CheckCWTProof"])

p("C25", "JSON Web Tokens carry exactly the claims and headers they were built from",
  "A token built from claims - a map, a struct, JSON bytes or a JSON string - signed, unsecured or with a caller's signer, carries exactly those claims, every number to its last digit, and the requested headers, and is signed over exactly its header and payload. Its serialised form, with or without payload, parses back to the same headers, claims and payload bytes under every parse option, and a detached token verifies only with the payload that was signed. Tokens that are not three base64url parts holding an object header with an algorithm, a JWT or SD-JWT type if any and no nesting, and one object payload, and claims that are no object, are refused; signed and unsecured tokens are told apart by their signature part.",
  ["inputs", "configurations"], "all claims of every kind, all algorithms and extra headers, attached and detached forms, all parse options, all malformed shapes",
  "Tests use a few small claim sets and never compare the token's bytes with what was put in.",
  ["jwt/jwt.go", "jwt/jose_wrappers.go"],
  [("claims conversion", "jwt/jwt.go PayloadToMap"), ("header checks", "jwt/jwt.go CheckHeaders")],
  observe=["jwt.NewSigned", "jwt.Parse", "jwt.ParseAndCheckProof", "jwt.CheckProof"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
print(len(P))
