package store

import (
	"math"

	"verifharness/hist"
	"verifharness/pbt"
)

var localStores = []string{"mem", "ldb", "memmp", "ldbmp"}

func init() {
	writes := []string{"save", "save", "save", "osave", "osave", "del", "reopen"}

	pbt.Reg("C01", "numbering", pbt.Opt{Quick: 8000, Thorough: 60000, Shards: 6,
		Rule: "a history of saves, optimistic saves (right and wrong expectations), stream deletions, LevelDB reopens and failing calls on an in-memory or LevelDB store with JSON or MessagePack records; non-trivial when at least two saves were accepted and a call was rejected, a stream deleted or the store reopened"},
		hist.GenPlan(hist.Mix{Backends: localStores, Ops: writes, Bad: []string{"", "", "", "", "bomb", "type", "cancelmid"}, Min: 3, Max: 18, Batch: 4}),
		hist.RunPlan(false, false, func(n map[string]int) bool {
			return n["accepted"] >= 2 && n["rejected"]+n["deleted"]+n["reopened"] > 0
		}))
	pbt.Reg("C01", "long", pbt.Opt{Quick: 240, Thorough: 1600, Shards: 4,
		Rule: "as numbering, with batches of up to 300 events so that sequence numbers pass 255; non-trivial when a stream grew past 255 events"},
		hist.GenPlan(hist.Mix{Backends: localStores, Ops: writes, Bad: []string{"", "", "", "", "", "bomb"}, Min: 2, Max: 6, Batch: 2, Rep: 300, Aggs: 2, Exps: []int64{0, 0, 0, 1}}),
		func(c *pbt.C, p hist.Plan) {
			hist.RunPlan(false, false, func(n map[string]int) bool { return n["longest"] > 255 })(c, p)
		})

	reads := []string{"save", "osave", "del", "all", "all", "types", "types", "stream", "stream", "reopen"}
	pbt.Reg("C02", "positions", pbt.Opt{Quick: 8000, Thorough: 60000, Shards: 6,
		Rule: "a history mixing writes with reads of all events, of one to three aggregate types (repeated and unknown ones too) and of streams, from before, at, between, after and past existing positions; non-trivial when at least two saves were accepted and a read started inside the history"},
		hist.GenPlan(hist.Mix{Backends: localStores, Ops: reads, Min: 4, Max: 24, Batch: 5, Exps: []int64{0}}),
		hist.RunPlan(false, false, func(n map[string]int) bool { return n["accepted"] >= 2 && n["from-inside"] > 0 }))
	pbt.Reg("C02", "long", pbt.Opt{Quick: 240, Thorough: 1600, Shards: 4,
		Rule: "as positions, with streams of hundreds of events; non-trivial when a stream grew past 255 events and a read started inside the history"},
		hist.GenPlan(hist.Mix{Backends: localStores, Ops: reads, Min: 4, Max: 12, Batch: 2, Rep: 300, Aggs: 3, Exps: []int64{0}}),
		hist.RunPlan(false, false, func(n map[string]int) bool { return n["longest"] > 255 && n["from-inside"] > 0 }))

	pbt.Reg("C03", "rejected", pbt.Opt{Quick: 5000, Thorough: 40000, Shards: 6,
		Rule: "a history in which most batches are made to fail at a chosen event (unserialisable event, event of another aggregate, context cancelled before or while the batch is processed, stale expectation, no events, an event without data, which may be refused), every view compared with the model after each call and a live subscriber compared at the end; non-trivial when a batch failed after its first event"},
		hist.GenPlan(hist.Mix{Backends: localStores, Ops: []string{"save", "save", "osave", "del", "reopen"}, Bad: []string{"", "", "bomb", "type", "id", "cancelled", "cancelmid", "empty", "null"}, Min: 2, Max: 10, Batch: 5}),
		hist.RunPlan(true, true, func(n map[string]int) bool { return n["rejected-midway"] > 0 }))

	pbt.Reg("C03", "wild", pbt.Opt{Quick: 5000, Thorough: 30000, Shards: 4,
		Rule: "as rejected, over aggregates with arbitrary (also empty) types and IDs; non-trivial when a batch failed after its first event"},
		hist.GenPlan(hist.Mix{Backends: localStores, Wild: true, Ops: []string{"save", "save", "osave", "reopen"}, Bad: []string{"", "", "bomb", "type", "id", "cancelmid", "null"}, Min: 2, Max: 8, Batch: 4}),
		hist.RunPlan(true, true, func(n map[string]int) bool { return n["rejected-midway"] > 0 }))

	pbt.Reg("C04", "sequential", pbt.Opt{Quick: 8000, Thorough: 60000, Shards: 6,
		Rule: "a history of optimistic saves and deletions with right, stale, too high and wrapped-around expectations; non-trivial when one was accepted and one was refused"},
		hist.GenPlan(hist.Mix{Backends: localStores, Ops: []string{"save", "osave", "osave", "osave", "del", "reopen"}, Min: 3, Max: 16, Batch: 4, Exps: []int64{0, 0, 0, -1, 1, 2, -2, 3, 100, math.MinInt64, math.MaxInt64}}),
		hist.RunPlan(true, false, func(n map[string]int) bool { return n["accepted"] > 0 && n["conflict"] > 0 }))

	pbt.Reg("C05", "deletion", pbt.Opt{Quick: 8000, Thorough: 50000, Shards: 6,
		Rule: "a history of saves into up to six streams sharing aggregate types and of deletions with right and wrong expectations, every view compared after each call; non-trivial when a stream was deleted while another one had events"},
		hist.GenPlan(hist.Mix{Backends: localStores, Ops: []string{"save", "save", "osave", "del", "del", "reopen"}, Bad: []string{"", "", "", "bomb", "type"}, Min: 4, Max: 18, Batch: 4, Aggs: 6, Exps: []int64{0, 0, 0, 0, 1, -1, 7}}),
		hist.RunPlan(true, true, func(n map[string]int) bool { return n["deleted-others"] > 0 }))

	pbt.Reg("C06", "names", pbt.Opt{Quick: 8000, Thorough: 60000, Shards: 6,
		Rule: "a history over aggregates whose stream names, aggregate types and IDs are arbitrary strings, often one extending another by the store's own separators or by bytes of a sequence number; every view compared after each call; non-trivial when two streams with events, or two types with events, have one name extending the other"},
		hist.GenPlan(hist.Mix{Backends: localStores, Wild: true, Ops: []string{"save", "save", "osave", "del", "types", "stream", "reopen"}, Min: 3, Max: 12, Batch: 3, Aggs: 6, Exps: []int64{0, 0, 0, 1}}),
		func(c *pbt.C, p hist.Plan) {
			hist.RunPlan(true, false, func(n map[string]int) bool { return n["accepted"] > 1 && hist.Extends(p.Aggs) })(c, p)
		})
}
