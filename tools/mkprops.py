#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C="src/cesr/core/"
p("C01","Primitives survive any number of relays and domain conversions unchanged",
 "Every primitive one party encodes (key, digest, signature, indexed signature, seed, salt, number, sequence number, timestamp, text, path, count code) is decoded by every other party to the same code, raw bytes, index or count and meaning (number, time, text), whatever sequence of text/binary/bytes conversions relays applied and whatever other primitives surround it in the stream. The text and binary forms are exactly those of the CESR code tables, so an independent implementation reads them identically, and a parsed primitive never consumes more or less than its own length.",
 ["inputs","histories","configurations"],
 "All primitive kinds and codes, all raw values and sizes (including variable-length and multi-precision numbers at their boundaries), all chains of relay conversions and all stream neighbours.",
 "Unit tests round-trip one or two fixed vectors per code inside one call; they never chain conversions over hops, never place primitives inside a stream with arbitrary neighbours, and never compare against an independent codec.",
 [C+"matter/mod.rs",C+"matter/tables.rs",C+"indexer/mod.rs",C+"indexer/tables.rs",C+"counter/mod.rs",C+"counter/tables.rs",C+"util.rs",C+"number.rs",C+"seqner.rs",C+"dater.rs",C+"bexter.rs"],
 [("text codec","Matter::infil/exfil, Indexer::infil/exfil, Counter::infil/exfil"),("binary codec","Matter::binfil/bexfil, Indexer::binfil/bexfil, Counter::binfil/bexfil"),("code tables","matter/indexer/counter tables: sizage, hardage, bardage"),("number sizing","Number::new, Seqner::new")],
 ["qb64/qb64b/qb2 of every primitive after each hop","code(), raw(), index(), ondex(), count(), num(), sn(), dts(), bext() at the receiver"])
p("C02","Partially delivered streams are reported short, never misread",
 "When only part of a primitive, count code or message has arrived, parsing it fails and yields no value, with the error for a shortage, so that the receiver can tell it has to wait from damage, however the stream was cut, in the text and in the binary domain; once the missing bytes arrive, the same parse yields exactly what was sent. A receiver that repeatedly retries as chunks arrive therefore recovers exactly the sent sequence, with no item lost, duplicated, merged or invented.",
 ["inputs","schedules","fault_sequences"],
 "All streams of primitives, count codes and messages, all ways of splitting them into chunks (every cut point), with stalls and resets between chunks.",
 "The tests try a handful of truncated literals for a few codes; they do not cut every kind of item at every offset, nor drive a receiver that resumes after a stall.",
 [C+"matter/mod.rs",C+"indexer/mod.rs",C+"counter/mod.rs",C+"common.rs",C+"sadder.rs",C+"util.rs"],
 [("length guards","Matter::exfil/bexfil, Indexer::exfil/bexfil, Counter::exfil/bexfil shortage checks"),("frame sniffing","common::sniff, sadder::inhale")],
 ["Result of each parse attempt while chunks arrive","sequence of items recovered"])
p("C03","Corrupted or hostile bytes never crash a node",
 "Any bytes received from the network or read back from storage, presented to any public parser or verifier, produce either an error or a value whose every accessor returns normally: no panic, no unbounded work and no abort. Rejecting hostile input leaves the process able to handle the next valid input.",
 ["inputs","fault_sequences"],
 "All byte strings (bit flips, truncation, splices, duplicated ranges, multibyte characters, forged codes and sizes, malformed JSON, missing or mistyped fields) at every public entry point, followed by every accessor.",
 "Tests check selected malformed literals per parser; the space of corrupted frames, and what accessors do with a value that was accepted, is not reached.",
 [C+"matter/mod.rs",C+"indexer/mod.rs",C+"counter/mod.rs",C+"serder.rs",C+"sadder.rs",C+"creder.rs",C+"saider.rs",C+"tholder.rs",C+"number.rs",C+"seqner.rs",C+"common.rs",C+"util.rs","src/data.rs","src/pathing/pather.rs","src/prefexing/prefixer.rs"],
 [("validation before slicing or indexing","every parser"),("Result based error handling","src/error.rs")],
 ["unwinding out of any public call","parse of a valid item directly afterwards"])
p("C04","A self-addressed message altered anywhere is detected",
 "A message or credential sealed with a self-addressing identifier verifies at every honest receiver as sent, for every supported digest algorithm and identifier field, and the identifier equals the digest of the canonical serialization with that field blanked. Any change to its content, identifier, digest algorithm or order of fields, in transit or at rest, makes that verification fail.",
 ["inputs","fault_sequences","configurations"],
 "All self-addressed structures (events, credentials, nested blocks, any label, any excluded fields), all digest algorithms, all single and multiple corruptions or substitutions between sender and verifier.",
 "Tests verify a few fixed messages and two or three tampered ones; they do not vary algorithm, label, exclusions, nesting or where corruption lands.",
 [C+"saider.rs",C+"sadder.rs",C+"serder.rs",C+"creder.rs",C+"diger.rs","src/cesr/crypto/hash.rs",C+"common.rs"],
 [("derivation with a dummy of the right length","saider::derive"),("verification","Saider::verify"),("exhale/inhale","sadder.rs")],
 ["Saider::verify and said() at the receiver","said derived independently"])
p("C05","A signature verifies for exactly the key and bytes it was made with",
 "For every signing suite, a signature made by a signer verifies under its verification key for the same bytes after any transport or storage, and an independently implemented verifier accepts it. It does not verify (and does not crash) for different bytes, a different key, a key of another suite, or a corrupted signature, and nothing verifies under a key that needs no secret (of small order).",
 ["inputs","fault_sequences","configurations"],
 "All suites, all seeds and messages, indexed and unindexed signatures, all corruptions, substitutions and cross-suite mixes of key, signature and message.",
 "Tests sign and verify one fixed message per suite; substitutions across suites, keys and corrupted signatures in transit are not explored.",
 ["src/signing/signer.rs",C+"verfer.rs",C+"siger.rs",C+"cigar.rs","src/cesr/crypto/sign.rs"],
 [("suite dispatch by code","crypto/sign.rs"),("signing","Signer::sign_unindexed, Signer::sign_indexed"),("verification","Verfer::verify")],
 ["Verfer::verify result at every receiver","independent verification with the suite libraries"])
p("C06","A signing threshold is met only by enough distinct signers",
 "A threshold (number, weights, or several groups of weights) is satisfied exactly when the distinct signer positions seen meet it, whatever the order, batching or repetition in which signatures arrive, and whatever positions outside a weight list a peer claims. More signers never turn a satisfied threshold unsatisfied, and the threshold's meaning is the same after it has been serialized, stored and parsed again in any of its forms. An expression that says no threshold (no weights, an empty group, weights outside 0 to 1 or that are no numbers, groups that never reach one, negative or oversized numbers, a damaged byte form) is refused in every form, never taken for one.",
 ["inputs","schedules","histories"],
 "All threshold expressions (integer, hex text, fractions, decimals 0 and 1, nested groups), all multisets of positions in all delivery orders, with duplicates and out-of-range positions, before and after any serialization round trip; all near-threshold expressions and damaged byte forms.",
 "Tests evaluate a few hand-picked thresholds on sorted lists; replays, out-of-range positions, exact rational boundaries and round trips of arbitrary expressions are not covered.",
 [C+"tholder.rs",C+"serder.rs",C+"number.rs",C+"bexter.rs"],
 [("satisfaction","Tholder::satisfy"),("parsing and rendering","Tholder::process_sith/process_limen, Tholder::sith/limen")],
 ["satisfy() after each delivered signature","sith(), limen(), num(), size() round trips"],
 state=[("threshold","parsed rational groups or integer",C+"tholder.rs")])
p("C07","Replicas of an event log accept the same events and never diverge",
 "Validators that build, exchange and check inception, rotation (including partial and reserve rotation), delegation, interaction and receipt events with this library, over a network that delays, drops, duplicates, reorders and corrupts bytes, and that may crash and restart from what they stored, accept for each identifier only the prefix of the history its controller really signed, so any two validators' logs are prefixes of one another. Forged, replayed, under-signed, mis-numbered or tampered events and conflicting second versions are never accepted, and once faults stop every validator reaches the controller's latest event within a bounded number of rounds.",
 ["schedules","crash_points","fault_sequences","histories"],
 "All interleavings of event creation, delivery, loss, duplication, corruption, validator crash/restart, key rotation and adversarial events, for single- and multi-key identifiers with integer or weighted thresholds and witnesses.",
 "No test runs two parties, a network or a restart; event chains are never built and replayed end to end.",
 [C+"serder.rs",C+"sadder.rs",C+"saider.rs",C+"siger.rs",C+"tholder.rs",C+"diger.rs",C+"verfer.rs","src/prefexing/prefixer.rs","src/messaging.rs","src/receipting.rs","sample/keri/kmi/verification.rs"],
 [("event accessors","Serder::verfers/digers/werfers/tholder/ntholder/sner/fner/pre/est"),("self-certification","Prefixer::verify, Saider::verify, Verfer::verify, Tholder::satisfy, Diger::compare")],
 ["per-validator accepted log after every step","time to convergence after faults stop"],
 state=[("accepted log","first-seen events per identifier","validator node (harness code over library calls)")],hook="messaging and receipting are private functions; a guarded module exposes them")
p("C08","An identifier is bound to its inception event",
 "An identifier derived from an inception event (basic non-transferable, basic transferable or self-addressing, plain or delegated, every supported code) is accepted for that event by every verifier and equals what an independent derivation gives. A self-addressing identifier is rejected for an event that differs in any field it is not itself written in, a basic one for an event whose key list is not exactly its key (or which commits to next keys though it is non-transferable), and any identifier that is itself altered or replaced in transit or at rest. Nothing is derived from an event that cannot bind the identifier: one of another kind than inception, whose key list is not exactly one key of the code asked for (basic codes), or that commits to next keys, witnesses or seals though it is non-transferable.",
 ["inputs","fault_sequences","configurations"],
 "All inception and delegated-inception events, all derivation codes, all corruptions or substitutions of identifier, keys, commitments, witnesses, seals or thresholds.",
 "Tests use fixed keys and one or two mutations per derivation type; arbitrary field corruption is not explored.",
 ["src/prefexing/prefixer.rs",C+"saider.rs",C+"serder.rs"],
 [("derivation","Prefixer::new with a ked: derive_*"),("verification","Prefixer::verify: verify_*")],
 ["derived prefix and verify() result at each party"])
p("C09","The same salt regenerates the same keys after any crash",
 "A controller that persisted only its salt, stem, tier and key indices regenerates, after a crash at any point, exactly the key pairs it had before, for every suite, tier, path and index, independent of what else the process did, and the regenerated keys produce signatures its peers accept. Distinct salts, tiers or derivation paths never give the same keys, a stored salt that no longer decodes (cut short, of another type, invalid characters) is reported as an error and neither crashes nor yields other or random keys, and the derivation equals the documented one so another implementation can recover the keys.",
 ["crash_points","histories","configurations","inputs"],
 "All salts, stems, tiers, paths, indices, counts, suites and transferability; crash and restart before, during and after any batch of key creations; stored parameters intact, truncated or damaged.",
 "Tests check a few literal seeds; recovery after losing process state, tier propagation, large indices and interleaved creators are not covered.",
 [C+"salter.rs","src/signify/creating.rs","src/cesr/crypto/salt.rs","src/signing/signer.rs"],
 [("stretching","Salter::stretch, crypto/salt.rs"),("path layout","SaltyCreator::create, Salter::signers")],
 ["verfer and seed of every regenerated signer","Result when the stored salt is damaged"])
p("C10","Random keys and salts are fresh, and entropy failure never yields a key",
 "Every signer or salt created without explicit material takes its full length from fresh operating-system randomness, so no two are equal or related, across objects, threads, interrupted or short entropy reads, and process restarts. If the entropy source fails, no key or salt is returned; if it repeats itself, signatures still never reuse a nonce across different messages.",
 ["fault_sequences","schedules","crash_points"],
 "All sequences of creations of keys, salts and signatures under an entropy source that delivers short reads, is interrupted, fails, or repeats.",
 "Tests can only see that a value came out; they cannot control or fail the entropy source or compare what was drawn with what was used.",
 ["src/cesr/crypto/csprng.rs","src/signing/signer.rs",C+"salter.rs","src/cesr/crypto/sign.rs","src/signify/creating.rs"],
 [("entropy","crypto/csprng.rs via OsRng"),("seed generation","Signer::new_with_defaults, Salter::new_with_defaults, RandyCreator")],
 ["bytes drawn at the entropy seam versus bytes in the key","nonce part of ECDSA signatures"],hook="RandyCreator is private; a guarded module exposes it")
p("C11","Timestamps record the instant they were taken and survive transport",
 "A timestamp created without an explicit value equals the current UTC time at creation to the microsecond, in the fixed 32-character ISO-8601 form, for any clock reading including jumps backwards or forwards, year and fraction boundaries. Every timestamp, current or given, is read back by any receiver as exactly the same text, so two parties always agree on the order of two timestamps taken in the same offset.",
 ["schedules","fault_sequences","inputs"],
 "All clock readings and sequences of clock steps, skew and drift between nodes; all well-formed date-time texts; all transports.",
 "The tests read the real clock once or use one literal; boundaries such as a zero sub-second part, leap days or clock steps never occur.",
 [C+"dater.rs"],
 [("formatting","Dater::new default branch"),("text mapping","iso_8601_to_b64, b64_to_iso_8601")],
 ["dts() at sender and receiver versus the simulated clock"])
p("C12","Messages are framed and serialized canonically",
 "Every serialized event or credential carries a version string whose size field equals its exact byte length, has its fields in the given order with standard compact JSON, and is byte-for-byte what an independent canonical serializer produces for the same content. A receiver with any stream of such messages, with or without attachments and with any trailing bytes, recovers each message's exact bytes and content, re-serializing gives the same bytes. Content edited in place reads as edited, with everything else untouched and in order, and is taken for no other type or number than it is. Unsupported versions, protocols or serializations are rejected.",
 ["inputs","schedules","histories"],
 "All message contents (nesting, unicode, escapes, 64-bit integers and finite decimals, empty containers), all sizes, all streams of messages interleaved with attachments and arbitrary chunking or trailing bytes.",
 "Tests round-trip a few ASCII messages alone in a buffer; sizes, unicode content, trailing binary data and multi-message streams are not covered.",
 [C+"common.rs",C+"sadder.rs",C+"serder.rs",C+"creder.rs","src/data.rs"],
 [("version string","common::versify/deversify/sizeify/sniff"),("serialization","common::dumps/loads, data::Value::to_json")],
 ["raw(), size(), ked() at the receiver"])
p("C13","Attachment groups deliver exactly the signatures that were attached",
 "A message framed with controller signatures, witness signatures and an optional source seal carries each group under the right group code with a count equal to the number of items, in order, for every group size; a receiver splitting the stream by those codes obtains exactly the attached items, and the next message starts exactly after them. Every count code carries its code and count (or version text) unchanged in both domains, up to its maximum, and a count above the maximum is refused.",
 ["inputs","histories","schedules"],
 "All combinations and sizes of attachment groups, all seals, all count codes with all counts (small, large, version), in text and binary, back to back on one stream under any chunking.",
 "The one framing test pins a fixed message; group sizes above a few, large counts, seals and streams of several framed messages are not covered.",
 ["src/messaging.rs","src/receipting.rs","src/seal.rs",C+"counter/mod.rs",C+"counter/tables.rs",C+"siger.rs"],
 [("framing","messaging::messagize"),("receipts","receipting::receipt"),("count codes","Counter")],
 ["items recovered by an independent stream splitter","bytes emitted versus an independent framer"],hook="messagize, Seal and receipt are private; a guarded module exposes them")
p("C14","Indexed signatures name the right key in every key list",
 "An indexed signature carries exactly the current and prior key-list positions it was created with, in the smallest form able to hold them (single list, both lists same position, both lists different positions), for every position up to the format's limits, and keeps them through any transport. A position that cannot be represented is refused, never truncated or attributed to another key, so each delivered signature verifies against the key at the position it names.",
 ["inputs","configurations","fault_sequences"],
 "All suites, key-list lengths, positions, prior positions and current-only flags, through text and binary relays and damaged index fields.",
 "Tests use a handful of small positions; the boundaries between forms, prior positions and the effect of damaged index fields on attribution are not covered.",
 ["src/signing/signer.rs",C+"siger.rs",C+"indexer/mod.rs",C+"indexer/tables.rs"],
 [("form selection","Signer::sign_indexed"),("index encoding","Indexer::new, infil/exfil/binfil/bexfil")],
 ["index(), ondex(), code() at the receiver","verification against the named key"])
p("C15","Material of one type is never accepted as another",
 "Where a digest, verification key, signature, indexed signature, seed, salt, number, sequence number, timestamp, text or identifier is expected, well-formed material whose code is not one of that type's is rejected, in text, bytes and binary form, and material of a code the type shares is read with exactly that code and raw bytes (codes of indexed signatures and of all other material are separate tables, each read by its own types). A peer that swaps valid items on the wire, or storage that returns the wrong record, therefore causes a reported error and never a misinterpreted value.",
 ["inputs","fault_sequences"],
 "All pairs (expected type, actual valid primitive of another type), in all domains, alone and swapped within events.",
 "Tests try one wrong code per type; the full matrix of types, codes and domains is not covered.",
 [C+"diger.rs",C+"verfer.rs",C+"cigar.rs",C+"siger.rs",C+"salter.rs",C+"number.rs",C+"seqner.rs",C+"dater.rs",C+"bexter.rs",C+"saider.rs","src/signing/signer.rs","src/prefexing/prefixer.rs","src/pathing/pather.rs"],
 [("per-type code validation","validate_code in each type")],
 ["Result of each constructor"])
p("C16","A path attached to a nested block selects the same block at every hop",
 "A path built for a nested block resolves to that block, and when relays repeatedly embed the message in an outer one and later extract it, adding the outer path to the front and removing it again, it resolves to the same block after every hop and finally equals the original. Removing a path that is not in front leaves the path unchanged, paths travel as text or binary unchanged, and a path is resolved exactly as its segments say or is an error, never to another block and never with a crash.",
 ["histories","inputs","fault_sequences"],
 "All nested structures (maps and lists, named and positional segments, repeated names), all paths in them, all sequences of embedding and extraction, all damaged paths.",
 "Tests resolve fixed paths in one fixed document and strip one fixed prefix; histories of embedding and extraction, and repeated segment names, are not covered.",
 ["src/pathing/pather.rs",C+"bexter.rs","src/data.rs"],
 [("resolution","Pather::resolve, resolve_path"),("re-rooting","Pather::root, Pather::strip, Pather::starts_with")],
 ["resolved block at every hop versus an independent resolver","bext, path"])
p("C17","Digest commitments match only what was committed to, across algorithms",
 "A digest verifies exactly the bytes it commits to for every supported algorithm, equals what an independent implementation computes, and two commitments compare equal for some bytes exactly when they are the identical commitment or both commit to those bytes, even if made with different algorithms by nodes at different upgrade levels. A commitment damaged or replaced in storage or transit, or made to other bytes, never matches, so keys revealed at rotation are accepted only if they are the ones committed to earlier.",
 ["inputs","fault_sequences","histories","configurations"],
 "All algorithms (both sides), all byte strings, all corruptions and substitutions between commitment and reveal, including same-algorithm/different-bytes and different-algorithm/different-bytes.",
 "Tests compare a few digests of one literal; mixed-algorithm comparison under corruption is not explored.",
 [C+"diger.rs","src/cesr/crypto/hash.rs"],
 [("verification","Diger::verify"),("cross-algorithm comparison","Diger::compare")],
 ["verify(), compare() at each node versus independent digests"])
p("C18","Operations are isolated: history and interleaving never change results",
 "The result of creating, parsing, verifying or evaluating anything depends only on its arguments (and entropy or clock where stated): not on earlier calls, failed calls, calls on other threads or interleavings of several users in one process. Reading or verifying with an object never changes it, and clones are independent.",
 ["schedules","histories"],
 "All histories and interleavings of library operations, successful and failing, by several clients in one process, under any scheduling of their threads.",
 "Tests run single short call sequences; none compares results under different histories or interleavings.",
 ["src/cesr/core/","src/signing/signer.rs","src/prefexing/prefixer.rs","src/pathing/pather.rs",C+"common.rs"],
 [("value semantics, no shared mutable state; lazily initialised regexes","whole crate"),("&self methods","whole crate")],
 ["result of every operation in a solo run versus any interleaving"])
p("C19","Secret key material does not outlive its owner in memory",
 "When a signer, salt or key creator is dropped or its secret is replaced, and when a call that makes, parses, signs with, stretches or derives keys returns or fails, no heap memory the library has released or keeps for itself still contains the secret seed, salt or stretched key in raw form; only live owners and copies handed to the caller do. A process image taken at a crash afterwards therefore does not reveal secrets that are no longer in use.",
 ["crash_points","histories","configurations"],
 "All suites, salts, tiers and paths; all sequences of create, sign, derive, clone, fail and drop, with a memory snapshot at any point after release.",
 "Tests cannot observe released memory; nothing checks zeroization of intermediate copies.",
 ["src/signing/signer.rs",C+"salter.rs","src/cesr/crypto/salt.rs","src/cesr/crypto/sign.rs","src/cesr/crypto/csprng.rs","src/signify/creating.rs"],
 [("zeroize on drop","Signer, Salter derive ZeroizeOnDrop; explicit zeroize of buffers")],
 ["contents of every heap block at the moment it is freed (allocator seam)"])
p("N01","The dynamic value container preserves structure",
 "Building a dynamic value from a literal or JSON tree, indexing it, comparing it and converting it back preserves its structure, types and order.",
 ["inputs"],"All literal and JSON trees.",
 "Tests use a few literals; the input space is unbounded.",
 ["src/data.rs"],[("conversion","data.rs From impls, dat! macro, Index impls")],["Value accessors"])
p("N02","Pretty printing is bounded and faithful",
 "The human-readable rendering of a message is its indented JSON cut to the requested number of characters.",
 ["inputs"],"All messages and limits.",
 "One fixed message is printed in tests.",
 [C+"sadder.rs"],[("rendering","Sadder::pretty")],["returned text"])
p("N03","Credential schemas are enforced when credentials are verified",
 "A credential is accepted only if it validates against the schema its schema identifier commits to, whatever chain of schemas and credentials it references.",
 ["inputs","histories"],"All credentials, schemas and chains.",
 "The sample application that does this is not part of any build, so no test can reach it.",
 ["sample/keri/acdc/schemer.rs","sample/keri/acdc/verification.rs"],[("schema validation","sample/keri/acdc/schemer.rs")],["verification result"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
