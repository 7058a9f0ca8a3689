package kit

// Interval is when a call was made and when it returned.
type Interval struct{ Inv, Ret int64 }

// Linearize searches an order of at most 64 concurrent calls that is consistent
// with their times and in which step explains the result of each. It gives up,
// returning decided == false, after limit steps.
func Linearize[S any](calls []Interval, init S, step func(s S, i int) (S, bool), key func(S) string, limit int) (ok, decided bool) {
	if len(calls) > 64 {
		return false, false
	}
	type node struct {
		done  uint64
		state string
	}
	all := uint64(1)<<len(calls) - 1
	if len(calls) == 64 {
		all = ^uint64(0)
	}
	seen := map[node]bool{}
	steps := 0
	var search func(done uint64, s S) bool
	search = func(done uint64, s S) bool {
		if done == all {
			return true
		}
		n := node{done, key(s)}
		if seen[n] {
			return false
		}
		seen[n] = true
		first := int64(1<<63 - 1)
		for i, c := range calls {
			if done&(1<<i) == 0 && c.Ret < first {
				first = c.Ret
			}
		}
		for i, c := range calls {
			if done&(1<<i) != 0 || c.Inv > first {
				continue
			}
			if steps++; steps > limit {
				return false
			}
			if next, fits := step(s, i); fits && search(done|1<<i, next) {
				return true
			}
		}
		return false
	}
	ok = search(0, init)
	return ok, ok || steps <= limit
}
