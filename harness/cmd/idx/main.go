// Command idx decides properties of the vector index (pkg/hnsw) on its own,
// over the key-value store of the dependency.
package main

import (
	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/kit"
)

func main() {
	kit.Main(
		&kit.Check{Property: "C10", Level: "exploration", Again: map[string]int{"history": 24, "layers": 24, "metric": 40, "page": 8, "deleted": 16, "lattice": 8}, Cases: knnCases, Run: runKnn, Init: dsim.Init, CrashIsViolation: true,
			Rule:        "one case = one index configuration and history of adds, flushes, restarts and cache wipes on the real index; every search is compared with the brute-force answer in float64",
			Bounds:      "5 metrics x 3 configurations x all tuples of up to 3 (thorough: 4) of 7 vectors x all allow lists; all layer assignments up to layer 2 of 5 vectors x restarts; all histories of up to 5 (6) of 4 operations; every failing store call of every search; pages of up to 128 (1150) results; lattices of equal distances; all 32 sets of deleted vectors of 6",
			Assumptions: []string{"graphs small enough to be complete (at most M vectors), where the search is exact whatever the layers"}},
		&kit.Check{Property: "C11", Level: "exploration", Again: map[string]int{"family": 28, "ids": 6}, Cases: sizeCases, Run: runSize, Init: dsim.Init, CrashIsViolation: true,
			Rule:        "one case = one collection size, shape of data, order of ids and history of flushes, restarts and cache wipes on the real index with the client's configuration; every stored vector (large collections: every 1/40th) is searched for and has to be the best match of itself; up to 800 vectors an unlimited search has to return all of them with the brute-force distances, and one with a filter all allowed ones",
			Bounds:      "14 families of data x sizes 29..300 (thorough: 800) x 3 (12) seeds of the layer lottery x flush intervals with restarts and cache wipes; ids from 0 to 2,000,000 in 5 x 4 x 3 orders; 10,050 (25,010) vectors with and without flush and restart; all ordered pairs of 9 operations at the same time x 9 (12) patterns of ids x 3 histories",
			Assumptions: []string{"ties between equal distances may be broken in any way", "of more than 60 copies of one vector some may be unreachable, and a vector opposite to more than 60 orthogonal ones (known findings)"}},
		&kit.Check{Property: "C15", Level: "fault_enumeration", Cases: clogCases, Run: runClog, Init: dsim.Init, CrashIsViolation: true,
			Rule:        "one case = one sequence of records, file switches, maintenance runs and restarts of the real commit log in a scratch directory (or one index that keeps one); after every step a copy of the files is read and compared with the reference model; in crash cases the directory before every change, and with every prefix of what was written in between, is recovered and used again",
			Bounds:      "all sequences of up to 3 (thorough: 4) of 19 records, cut at every byte, those of up to 2 continued after every cut; all sequences of up to 4 (5) of 15 records and maintenance steps in which nodes are added before they are linked; all crash images of 49 (343) histories with three files; 21 (141) histories of three files of 1.4 MB; indexes of up to 75 (300) vectors in 3 shapes with 3 link limits, with backups and restarts; all ordered pairs of 15 operations at the same time, the second at every change of the files by the first, x 4 states of maintenance",
			Assumptions: []string{"start-up reads the files as the (disabled) restoreFromDisk describes it", "a rename or removal is atomic, a file grows from its beginning", "product quantisation records are not recorded", "order of links within a layer does not matter"}},
		&kit.Check{Property: "C16", Level: "exploration", Cases: confCases, Run: runConf, Init: dsim.Init, CrashIsViolation: true,
			Rule:        "one case = one field, pair of fields or part of all subsets of fields; every combination of their values is parsed as a JSON document with numbers kept as text and as float64, compared with the documented meaning, written down and read again; or one setting of an open index, changed to others, compared with indexes opened with those, on a graph of 160 vectors where the breadth of a search shows",
			Bounds:      "17 settings, 35 numbers up to and beyond the limits of 64 bits, all pairs of settings with all pairs of values, all 131,072 subsets of settings, documents of other shapes, all 32 sets of internal settings; 90 settings of searches x changes to 7 others (thorough: all) x 75 searches; all 1,024 sets of changed settings x 4 differences; all ordered pairs of settings read at the same time, with the race detector",
			Assumptions: []string{"values of another type than the setting's are not judged, fractions only where the document keeps them as text"}},
	)
}
