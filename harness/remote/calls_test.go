package remote

import (
	"math"

	"verifharness/hist"
	"verifharness/pbt"
)

var remotes = []string{"remote", "remotememmp", "remoteldb", "remoteldbmp"}

func init() {
	ops := []string{"save", "save", "osave", "osave", "del", "all", "types", "stream"}
	pbt.Reg("C17", "calls", pbt.Opt{Quick: 4000, Thorough: 60000, Shards: 8,
		Rule: "a history of saves, optimistic saves, deletions, reads and failing calls through a remote store, the served store being in memory or LevelDB with JSON or MessagePack records; every answer compared with the model, and a live subscription at the end; non-trivial when two saves were accepted, a call was rejected and a read started inside the history"},
		hist.GenPlan(hist.Mix{Backends: remotes, Ops: ops, Bad: []string{"", "", "", "", "", "bomb", "type", "id", "cancelled", "empty", "null"}, Min: 3, Max: 16, Batch: 4, Exps: []int64{0, 0, 0, 0, 1, -1, 100, math.MinInt64}}),
		hist.RunPlan(false, true, func(n map[string]int) bool {
			return n["accepted"] >= 2 && n["rejected"] > 0 && n["from-inside"] > 0
		}))
	pbt.Reg("C17", "wild", pbt.Opt{Quick: 2400, Thorough: 40000, Shards: 8,
		Rule: "as calls, over aggregates with arbitrary names, every view compared after each call; non-trivial when two saves were accepted"},
		hist.GenPlan(hist.Mix{Backends: []string{"remote", "remoteldb"}, Wild: true, Ops: []string{"save", "save", "osave", "del", "types", "stream"}, Bad: []string{"", "", "", "type", "id"}, Min: 2, Max: 10, Batch: 4, Exps: []int64{0, 0, 0, 1}}),
		hist.RunPlan(true, false, func(n map[string]int) bool { return n["accepted"] >= 2 }))
	pbt.Reg("C17", "long", pbt.Opt{Quick: 60, Thorough: 800, Shards: 4,
		Rule: "as calls, with batches of up to 600 events; non-trivial when a stream grew past 255 events"},
		hist.GenPlan(hist.Mix{Backends: remotes, Ops: ops, Min: 2, Max: 8, Batch: 2, Rep: 600, Aggs: 2, Exps: []int64{0, 0, 0, 1}}),
		hist.RunPlan(false, false, func(n map[string]int) bool { return n["longest"] > 255 }))
}
