package pg

import (
	"verifharness/conc"
	"verifharness/pbt"
)

func init() {
	clients := "2 to 5 clients making up to 6 calls each at the same time on one PostgreSQL store, or on two stores with one database, with delays injected before and after the database runs a statement; non-trivial when calls of different clients overlapped"
	pbt.Reg("C33", "clients", pbt.Opt{Quick: 1500, Thorough: 30000, Shards: 8, Rule: clients + "; the results and what a live subscriber gets are compared with the final log as an atomic history"},
		conc.GenCPlan([]string{"pg", "pgnotify", "pgnotify2"}, []string{"save", "save", "save", "osave", "osave", "bad", "all", "types", "stream", "total"}, 5, 6), conc.RunClients)
	pbt.Reg("C33", "linear", pbt.Opt{Quick: 2000, Thorough: 40000, Shards: 8, Rule: clients + "; an order of all calls is searched that explains the result of each"},
		conc.GenCPlan([]string{"pg", "pgnotify", "pg2", "pgnotify2"}, []string{"save", "save", "osave", "bad", "del", "del", "all", "all", "types", "stream", "stream", "total"}, 5, 6), conc.RunLinear)
	pbt.Reg("C33", "contend", pbt.Opt{Quick: 1200, Thorough: 24000, Shards: 8,
		Rule: "rounds in which 2 to 6 clients make optimistic saves and deletions on one stream at the same time, through one or two PostgreSQL stores on one database; non-trivial when at least two competitors of a round had the right expectation"},
		conc.GenRPlan([]string{"pg", "pgnotify", "pg2", "pgnotify2"}), conc.RunRounds)
}
