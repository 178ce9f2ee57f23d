// Command web decides the properties of the HTTP API by driving the real
// server handler over the simulated store.
package main

import (
	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/kit"
)

func main() {
	kit.Main(
		&kit.Check{Property: "C09", Level: "exploration", Init: dsim.Init, Cases: webCases, Run: runWeb, CrashIsViolation: true,
			Rule:   "one case = one sequence of HTTP requests, or one history followed by one family of malformed requests, or one setting of the environment; every response and the state seen afterwards through the API are compared with the reference model",
			Bounds: "all sequences of up to 3 (thorough: 4) of 13 requests; every field of every request body set to each of 22 JSON values, and 40 handwritten bad requests; all property values of a 30-value alphabet in and out; ids and names with unusual characters; all 256 sets of environment variables; all ordered pairs of 12 requests, warm and after a restart, under the race detector",
			Assumptions: []string{
				"the HTTP requests are served in process by the server's handler (no sockets, no TLS)",
				"the Swarm/Bee block store is replaced by an in-memory one; fairOS-dfs is the real one, its constructor's options are checked",
				"the vectorizer HTTP service is scripted in process"}},
	)
}
