NOTE = {
"C01": ("seeded search over relay networks with loss, duplication, reordering, delay, partition and relay crashes",
  "Samples classes, codes, values, forms, regroupings and schedules against an independent codec written from the code tables; evidence, not proof. Trusts that codec."),
}
NOTE["C02"] = ("seeded search over chunked streams with every cut of an element, connection resets, torn buffers, stalls and retries",
  "Samples streams and cuts (every cut of one element per run) with an independent codec as oracle; evidence, not proof.")
NOTE["C03"] = ("seeded search over hostile and damaged bytes fed to every parser and verifier, with work bounds, each followed by a valid input",
  "Samples mutations of generated items, messages and thresholds, and forged codes; a panic, abort, stall or allocation beyond a bound is a violation. Evidence, not proof.")
NOTE["C04"] = ("seeded search over sealed messages altered in transit and at rest, with digests and canonical serialization recomputed independently",
  "Samples messages, algorithms and alterations; one float rounding defect of the JSON dependency is a listed finding.")
NOTE["C05"] = ("seeded search over signers that crash and restart from their seed and verifiers that get altered payloads, keys, signatures and suites",
  "Samples; trusts the curve crates, which the reference verifier calls directly.")
NOTE["C06"] = ("seeded search over orders, batches, repetitions and out-of-range positions of arriving signatures against exact rational arithmetic",
  "Samples thresholds and arrivals; the reference evaluates weights with its own big fractions.")
NOTE["C08"] = ("seeded search over identifiers derived, exchanged, altered and resealed between authors and verifiers, with prefixes derived independently",
  "Samples inception events, codes and alterations; the reference derivation uses the same digest crates directly.")
NOTE["C09"] = ("seeded search over controllers that crash at any point and rebuild their keys from what they had stored",
  "Samples suites, tiers, paths and crash points; most runs use the cheapest tier, one in sixty the full cost of low to high. Reference stretching calls the argon2 crate directly.")
NOTE["C10"] = ("seeded search over simulated operating-system entropy with short, interrupted and failing reads, several threads under a seeded scheduler, and restarts",
  "Entropy comes from a simulated getrandom; every byte of a key is traced to the entropy handed out. Samples; getrandom failing at the first call of a thread local generator included.")
NOTE["C11"] = ("seeded search over simulated clocks that jump and stand still, with timestamps relayed in every form and damaged",
  "Samples instants from 1970 to 9999 and relays against an independent calendar.")
NOTE["C12"] = ("seeded search over streams of messages framed by authors, serialized again by storing relays and split by receivers, with version strings altered on the way, against an independent serializer and version string reader",
  "Samples contents and alterations; one float rounding defect of the JSON dependency is a listed finding.")
NOTE["C13"] = ("seeded search over messages with attachment groups counted again by relays in either domain and split by receivers from streams in pieces with resets and stalls",
  "Samples groups, sizes and chunkings; group sizes at and above the 4095 limit included. The walk over the groups is the simulator's, every count and item in it is read by the library.")
NOTE["C14"] = ("seeded search over signers, positions in short and very long key lists, relays in every form with damaged position fields, and verifiers that look keys up by position",
  "Samples positions with the limits weighted; every constructor decision is compared with the code table's limits.")
NOTE["C15"] = ("seeded search over stores on disks that misplace records, peers that exchange items in groups and event fields, and receivers expecting another type",
  "Samples pairs of types, codes, forms and exchanges; the codes a type accepts are a table of the oracle, not read from the code under test.")
NOTE["C16"] = ("seeded search over documents put into outer ones and taken out again by relays over a faulty network, with paths re-rooted, relayed and damaged, against an independent resolver",
  "Samples documents, paths, embeddings and damage; numeric segments are positions and empty ones select the map they are reached at, as the format says.")
NOTE["C17"] = ("seeded search over controllers that commit and reveal, nodes with other algorithms, damaged records and revealed bytes that differ, with digests computed directly",
  "Samples pairs of algorithms, bytes and damage; trusts the digest crates, which the reference calls directly.")
NOTE["C18"] = ("seeded search over histories and lock-step thread schedules of operations with near-equal arguments on shared objects, each result compared with the one the operation gives alone in a fresh process",
  "Samples histories and schedules; threads switch at allocations, locks and system calls of the library only.")
NOTE["C19"] = ("seeded search over histories of making, deriving, copying, using, replacing and dropping secrets with spoiled material, failing entropy and lock-step threads, where an allocator seam searches every released block and process images for the secrets",
  "Samples histories; sees heap blocks only (no stack, no registers), and secrets as plain bytes, whole or half.")
NOTE["C07"] = ("seeded search over controllers, witnesses, validators and an adversary exchanging event logs over a network with loss, duplication, reordering, damage and partitions, with nodes that crash at any write and start again from disk, and bounded convergence once faults stop",
  "Samples histories and schedules. The library has no validator: the rules that combine its answers into accepting an event are the simulator's; every answer they combine is the library's.")
