package store

import (
	"verifharness/conc"
	"verifharness/pbt"
)

func init() {
	rounds := "rounds in which 2 to 6 clients make optimistic saves and deletions on one stream at the same time, with yields injected inside the store's callbacks; non-trivial when at least two competitors of a round had the right expectation"
	pbt.Reg("C04", "contend", pbt.Opt{Quick: 1500, Thorough: 40000, Shards: 4, Rule: rounds}, conc.GenRPlan(localStores), conc.RunRounds)

	clients := "2 to 6 clients making up to 8 calls each on one store at the same time, with yields injected inside the store's callbacks; non-trivial when calls of different clients overlapped"
	judged := []string{"save", "save", "save", "osave", "osave", "bad", "all", "types", "types", "stream", "total"}
	pbt.Reg("C09", "clients", pbt.Opt{Quick: 4000, Thorough: 100000, Shards: 6, Rule: clients + "; the results are compared with the final log as an atomic history"},
		conc.GenCPlan(localStores, judged, 6, 8), conc.RunClients)
	pbt.Reg("C09", "linear", pbt.Opt{Quick: 6000, Thorough: 150000, Shards: 6, Rule: clients + "; an order of all calls is searched that explains the result of each"},
		conc.GenCPlan(localStores, []string{"save", "save", "osave", "bad", "del", "del", "all", "all", "types", "types", "stream", "stream", "total"}, 5, 6), conc.RunLinear)
	pbt.Reg("C09", "race", pbt.Opt{Quick: 500, Thorough: 10000, Shards: 4, Race: true, Rule: clients + "; under the race detector"},
		conc.GenCPlan(localStores, append([]string{"del", "cancel", "sub"}, judged...), 5, 6), conc.RunLiveness)
	pbt.Reg("C08", "clients", pbt.Opt{Quick: 6000, Thorough: 150000, Shards: 8, Rule: clients + "; every call must return, and the store must work afterwards"},
		conc.GenCPlan(localStores, []string{"save", "osave", "bad", "del", "del", "all", "types", "types", "types", "stream", "stream", "cancel", "sub", "total"}, 6, 8), conc.RunLiveness)
}
