package pg

import (
	"math"

	"verifharness/hist"
	"verifharness/pbt"
)

var pgStores = []string{"pg", "pgnotify"}

func init() {
	pbt.Reg("C30", "histories", pbt.Opt{Quick: 8000, Thorough: 120000, Shards: 8,
		Rule: "a history of saves, optimistic saves and deletions with right and wrong expectations, reads from any position, failing batches and reopened stores, on a PostgreSQL store with and without pg_notify, every view compared after each call and a live subscriber at the end; non-trivial when two saves were accepted and a call was refused, a stream deleted or the store reopened"},
		hist.GenPlan(hist.Mix{Backends: pgStores, Ops: []string{"save", "save", "osave", "osave", "del", "reopen", "all", "types", "stream"}, Bad: []string{"", "", "", "", "bomb", "misfit", "type", "id", "cancelled", "cancelmid", "empty"}, Min: 2, Max: 14, Batch: 4, Exps: []int64{0, 0, 0, 0, 1, -1, 2, math.MinInt64}}),
		hist.RunPlan(true, true, func(n map[string]int) bool {
			return n["accepted"] >= 2 && n["rejected"]+n["deleted"]+n["reopened"] > 0
		}))
}
