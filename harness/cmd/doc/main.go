// Command doc decides the document-layer properties by exhaustive bounded
// exploration of the real document.Client.
package main

import (
	"time"

	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/kit"
)

var envAssumptions = []string{
	"the Swarm/Bee block store is replaced by an in-memory blockstore.Client; the fairOS-dfs library above it is the real one",
	"the vectorizer HTTP service is scripted in process (deterministic vectors)",
	"feed lookups use fairOS's sequential lookup algorithm",
}

func main() {
	kit.Main(
		&kit.Check{Property: "C01", Level: "exploration", Again: map[string]int{"tuple2": 24, "tuple3": 24, "batching": 16, "larger": 24, "levels": 16, "big": 2}, Init: dsim.Init, Cases: nearCases, Run: runNear, CrashIsViolation: true,
			Rule:        "one case = one concrete history of adds (vectors from a 9-vector alphabet or a generated family, batching, restarts) followed by a menu of near-searches compared with brute force; an outcome is (kind, distance, limit, size, result count)",
			Bounds:      "all ordered 1..3-tuples (thorough: 4) of 9 vectors; all batchings x restart sets of 4 (thorough: 5) documents; generated collections of 5..28 documents in 2..33 dimensions; one of 420 documents",
			Assumptions: envAssumptions},
		&kit.Check{Property: "C02", Level: "exploration", Again: map[string]int{"depth2": 24, "depth3": 24, "deep4": 16, "bulk": 6, "values": 8}, Init: dsim.Init, Cases: histCases, Run: runHist, CrashIsViolation: true,
			Rule:        "one case = one sequence of operations (add with vector / text / without vector, batches, replacing a document, restart, searches) on one collection; afterwards every acknowledged document is fetched by id, by indexed property and by near-search, in the same process and after a restart, and compared with the reference model",
			Bounds:      "all sequences of up to 3 of 10 operations and of 4-5 of the 5 that interact most (thorough: all sequences of up to 5); 41 property values in 3 places, 21 property names and 12 uses of reserved names, each through an add, replacements and restarts; all sequences of up to 2 operations next to 75 documents in two clusters, and of up to 5 next to 62",
			Assumptions: envAssumptions},
		&kit.Check{Property: "C03", Level: "fault_enumeration", Again: map[string]int{"depth1": 6, "depth2": 16}, Init: dsim.Init, Cases: crashCases, Run: runCrash, CrashIsViolation: true,
			Rule:        "one case = one history; every prefix of the block-store writes of its last operation is a crash point: a fresh process opens the store as it was then",
			Bounds:      "every write of the last operation of all histories of up to 2 (thorough: 3) operations, and of single operations next to 75 documents",
			Assumptions: envAssumptions},
		&kit.Check{Property: "C04", Level: "fault_enumeration", Again: map[string]int{"add": 8, "read": 40, "layers": 8, "life": 6}, Init: dsim.Init, Cases: faultCases, Run: runFault, CrashIsViolation: true,
			Rule:        "one case = one history and one operation (read or add); every block-store call of the operation, one after the other, fails (alone, it and some of the following, or it and all later ones)",
			Bounds:      "every store call of 6 reads and 5 adds after 7 histories (thorough: all histories of up to 2 of 6 operations), with and without a restart before; the same with vectors placed on higher layers of the index and next to 75 documents",
			Assumptions: envAssumptions},
		&kit.Check{Property: "C06", Level: "exploration", Again: map[string]int{"depth2": 24, "depth3": 32, "deep": 16}, Init: dsim.Init, Cases: lifeCases, Run: runLife, CrashIsViolation: true,
			Rule:        "one case = one sequence of collection operations (create, delete, recreate, add, replace, search, restart, other pod) on two collections; afterwards the listing, every document and the absence of all others are compared with the reference model, before and after a restart",
			Bounds:      "all sequences of up to 3 (thorough: 4) of 12 operations, and of 4-5 (thorough: 7) of create/delete/add/restart next to a filled collection; unusual and similar names next to other collections and to tables that are not FaVe's",
			Assumptions: envAssumptions},
		&kit.Check{Property: "C07", Level: "exploration", Again: map[string]int{"doc": 80, "wide": 6, "read": 1}, Init: dsim.Init, Cases: invalidCases, Run: runInvalid, CrashIsViolation: true,
			Rule:        "one case = one history and one invalid request (a document that cannot be stored, alone and at every place of a batch; a bad search, lookup, or an operation out of order); it has to be an error and to leave no trace, in process, after a further add and after a restart",
			Bounds:      "56 kinds of bad documents x 4 places x 4 histories; 50 bad searches, lookups and unknown collections, 10 unusable query vectors, 8 operations in 4 stages before the pod is open, x 4 histories; vectors of 1..300 components with NaN/Inf at every place and other lengths; 26 kinds of values x 4 index types; bad pods and accounts",
			Assumptions: envAssumptions},
		&kit.Check{Property: "C08", Level: "exploration", Again: map[string]int{"string": 12, "list": 8, "map": 8, "id": 6}, Init: dsim.Init, Cases: lookCases, Run: runLook, CrashIsViolation: true,
			Rule:        "one case = a set of documents with values of one alphabet in an indexed field (id, string, number, list, map), added and replaced; afterwards every value of the alphabet and values between, before and after them are looked up and compared with the model, before and after a restart",
			Bounds:      "all ordered pairs of values, triples and replacements over 8 alphabets of 3..17 values (thorough: all triples and pairs of replacements), three ways of adding",
			Assumptions: envAssumptions},
		&kit.Check{Property: "C12", Level: "fault_enumeration", Again: map[string]int{"answer": 150, "request": 1}, Init: dsim.Init, Cases: vectCases, Run: runVect, CrashIsViolation: true,
			Rule:        "one case = one answer of the vectorizer (status, body, lost connection) to one of its calls during an add or a search, after a history; or one list of properties to vectorize x property values; or one health answer; or the vector type on all pairs of small vectors",
			Bounds:      "73 answers x every call of adds, batches, replacements and searches x 4 histories (quick: half of the batches); all lists of up to 3 of 4 properties x 3 value assignments of 10 values; 11 health answers; all pairs of 260 vectors",
			Assumptions: envAssumptions[:1]},
		&kit.Check{Property: "C05", Level: "exploration", Init: dsim.Init, Cases: concCases, Run: runConc, CrashIsViolation: true, HangIsViolation: true, CaseTimeout: 90 * time.Second,
			Rule:        "one case = a pair of operations; the first is preempted at every store call and lock operation in turn while the second runs; reads have to be right for a state before or after the other operation, writes have to leave the result of one of the two orders; race group: one case = an ordered pair and the point at which the second begins, under happens-before race detection with the explorer's own synchronisation hidden",
			Bounds:      "all pairs of 13 operations of which one is a write, one preemption at every scheduling point, on a warm and on a fresh process, followed by further requests (thorough: also a second preemption at every store call); race detection for all 169 ordered pairs, the second beginning after the first or at 7 points on its way (thorough: at every point)",
			Assumptions: append([]string{"scheduling points are store calls and lock operations of the packages under test; what happens between them is judged by happens-before race detection"}, envAssumptions...)},
	)
}
