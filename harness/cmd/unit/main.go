// Command unit decides properties of the self-contained parts of the vector
// index: distance functions, queues, visited sets.
package main

import "github.com/fairDataSociety/FaVe/vmc/kit"

func main() {
	kit.Main(
		&kit.Check{Property: "C13", Level: "exploration", Cases: distCases, Run: runDist, CrashIsViolation: true,
			Rule:        "one case = one distance function and a range of vector lengths; for every length every position, every alignment and every way of calling it is compared with a float64 reference",
			Bounds:      "lengths 0..1100 (thorough: 0..2200), every position within each, alignments 0..7 floats, 16 value patterns; geo: a grid of coordinates including poles, antipodes and the date line; all ordered pairs of 7 functions called at the same time, with the race detector",
			Assumptions: []string{"amd64 with or without AVX2, as the machine has it; the portable loops are reached through Step and DotProductGo"}},
		&kit.Check{Property: "C14", Level: "exploration", Cases: workCases, Run: runWork, CrashIsViolation: true,
			Rule:        "one case = one sequence of operations on a queue, a visited set or the pool of visited sets, compared step by step with a multiset / set model",
			Bounds:      "queues: all sequences of up to 8 (thorough: 9) of 7 operations and all permutations and 3-value assignments of up to 9 (10) and 11 (12) items, generated orders of 5..300 items; visited sets: all sequences of up to 6 (thorough: 7) of 11 operations including 254 resets in a row; pool: all sequences of up to 7 (thorough: 8) of 9 operations on up to 3 borrowed sets, and all pairs of 39 sequences by two users at the same time, with the race detector; likewise pairs of queues and sets of one user each",
			Assumptions: []string{"queues and sets are used by one goroutine each, as in the code"}},
	)
}
