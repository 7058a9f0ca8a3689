// Package es checks the EventStoreDB adapter against a stand-in for the server.
package es

import (
	"math"

	"verifharness/conc"
	"verifharness/hist"
	"verifharness/pbt"
)

func init() {
	bad := []string{"", "", "", "", "bomb", "misfit", "type", "id", "cancelled", "cancelmid", "empty"}
	exps := []int64{0, 0, 0, 0, 1, -1, 2, math.MinInt64}
	pbt.Reg("C31", "histories", pbt.Opt{Quick: 4000, Thorough: 60000, Shards: 8,
		Rule: "a history of saves, optimistic saves and deletions with right and wrong expectations, reads from any position and failing batches on an EventStoreDB store that remembers deleted streams, with and without a prefix, every view compared after each call and a live subscriber at the end; non-trivial when two saves were accepted and a call was refused or a stream deleted"},
		hist.GenPlan(hist.Mix{Backends: []string{"es", "esprefix"}, Ops: []string{"save", "save", "save", "osave", "osave", "osave", "del", "all", "types", "stream"}, Bad: bad, Min: 2, Max: 12, Batch: 4, Exps: exps}),
		hist.RunPlan(true, true, func(n map[string]int) bool {
			return n["accepted"] >= 2 && n["rejected"]+n["deleted"] > 0
		}))
	pbt.Reg("C31", "reopened", pbt.Opt{Quick: 2000, Thorough: 30000, Shards: 8,
		Rule: "a history of saves, optimistic saves, reads and failing batches on an EventStoreDB store that is closed and opened again, every view compared after each call; non-trivial when two saves were accepted and the store was reopened"},
		hist.GenPlan(hist.Mix{Backends: []string{"es", "esprefix", "esforgets"}, Ops: []string{"save", "save", "osave", "reopen", "all", "types", "stream"}, Bad: bad, Min: 2, Max: 10, Batch: 3, Exps: exps}),
		hist.RunPlan(true, true, func(n map[string]int) bool { return n["accepted"] >= 2 && n["reopened"] > 0 }))
	clients := "2 to 5 clients making up to 5 calls each at the same time on one EventStoreDB store, or on two stores with one server, with delays injected before and after the server acts; non-trivial when calls of different clients overlapped"
	pbt.Reg("C31", "clients", pbt.Opt{Quick: 800, Thorough: 16000, Shards: 8, Rule: clients + "; the results and what a live subscriber gets are compared with the final log as an atomic history"},
		conc.GenCPlan([]string{"es", "esprefix", "esprefix2"}, []string{"save", "save", "save", "osave", "osave", "bad", "all", "types", "stream", "total"}, 5, 5), conc.RunClients)
	pbt.Reg("C31", "linear", pbt.Opt{Quick: 800, Thorough: 16000, Shards: 8, Rule: clients + "; with deletions; an order of all calls is searched that explains the result of each"},
		conc.GenCPlan([]string{"es", "esprefix"}, []string{"save", "save", "osave", "osave", "bad", "del", "del", "stream", "stream", "total"}, 5, 5), conc.RunLinear)
	pbt.Reg("C31", "contend", pbt.Opt{Quick: 600, Thorough: 12000, Shards: 8,
		Rule: "rounds in which 2 to 6 clients make optimistic saves and deletions on one stream at the same time on an EventStoreDB store; non-trivial when at least two competitors of a round had the right expectation"},
		conc.GenRPlan([]string{"es", "esprefix"}), conc.RunRounds)
}
