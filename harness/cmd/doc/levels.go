package main

// levelSeeds: for every assignment of layers to the second to sixth vector of
// an index whose layers add up to at most 3, a seed of math/rand that makes the
// index draw exactly these layers (draws of the level generator with the
// maximum of 30 connections that collections use).
var levelSeeds = []struct {
	Seed   int64
	Levels [5]int
}{
	{1, [5]int{0, 0, 0, 0, 0}},
	{9, [5]int{1, 0, 0, 0, 0}},
	{36, [5]int{0, 0, 1, 0, 0}},
	{50, [5]int{0, 0, 0, 1, 0}},
	{57, [5]int{0, 0, 0, 0, 1}},
	{85, [5]int{0, 1, 0, 0, 0}},
	{86, [5]int{1, 0, 0, 1, 0}},
	{128, [5]int{0, 1, 0, 2, 0}},
	{165, [5]int{2, 0, 0, 0, 0}},
	{280, [5]int{0, 1, 0, 0, 1}},
	{288, [5]int{0, 0, 0, 2, 0}},
	{683, [5]int{0, 0, 0, 1, 1}},
	{780, [5]int{0, 0, 2, 0, 0}},
	{1214, [5]int{3, 0, 0, 0, 0}},
	{1250, [5]int{0, 1, 0, 1, 0}},
	{1307, [5]int{0, 0, 1, 1, 0}},
	{1309, [5]int{1, 0, 0, 0, 1}},
	{1446, [5]int{0, 0, 2, 1, 0}},
	{1493, [5]int{0, 1, 1, 0, 0}},
	{1559, [5]int{0, 2, 0, 0, 0}},
	{1933, [5]int{1, 0, 1, 0, 0}},
	{2576, [5]int{0, 0, 1, 0, 1}},
	{2729, [5]int{1, 1, 0, 0, 0}},
	{2874, [5]int{0, 0, 0, 0, 2}},
	{3570, [5]int{1, 1, 1, 0, 0}},
	{3970, [5]int{1, 2, 0, 0, 0}},
	{4906, [5]int{1, 0, 1, 0, 1}},
	{6718, [5]int{0, 1, 2, 0, 0}},
	{7012, [5]int{0, 2, 0, 1, 0}},
	{8010, [5]int{0, 0, 1, 2, 0}},
	{8275, [5]int{1, 0, 2, 0, 0}},
	{8985, [5]int{0, 1, 1, 0, 1}},
	{9091, [5]int{2, 0, 1, 0, 0}},
	{10545, [5]int{0, 1, 0, 0, 2}},
	{11002, [5]int{0, 0, 0, 0, 3}},
	{11392, [5]int{0, 0, 3, 0, 0}},
	{11629, [5]int{0, 2, 1, 0, 0}},
	{12855, [5]int{0, 2, 0, 0, 1}},
	{13145, [5]int{0, 0, 2, 0, 1}},
	{17029, [5]int{0, 1, 0, 1, 1}},
	{19064, [5]int{2, 0, 0, 1, 0}},
	{20988, [5]int{1, 0, 0, 1, 1}},
	{22722, [5]int{1, 0, 0, 0, 2}},
	{23554, [5]int{1, 0, 1, 1, 0}},
	{25830, [5]int{0, 3, 0, 0, 0}},
	{26766, [5]int{0, 0, 1, 0, 2}},
	{26925, [5]int{0, 0, 0, 1, 2}},
	{40183, [5]int{2, 1, 0, 0, 0}},
	{41908, [5]int{1, 1, 0, 1, 0}},
	{45104, [5]int{0, 0, 0, 3, 0}},
	{46283, [5]int{1, 0, 0, 2, 0}},
	{52971, [5]int{0, 1, 1, 1, 0}},
	{58492, [5]int{0, 0, 1, 1, 1}},
	{61101, [5]int{1, 1, 0, 0, 1}},
	{64203, [5]int{0, 0, 0, 2, 1}},
	{64549, [5]int{2, 0, 0, 0, 1}},
}
