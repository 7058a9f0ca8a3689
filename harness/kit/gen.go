package kit

import (
	"math"

	"pgregory.net/rapid"
)

// Agg is an aggregate and the stream its events go to.
type Agg struct {
	Stream string `json:"s"`
	Type   string `json:"t"`
	ID     string `json:"i"`
}

// GenText makes short valid UTF-8 text with awkward characters.
func GenText() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`[a-z]{0,6}`),
		rapid.SampledFrom([]string{"", "é", "日本語", "\"quoted\"", "back\\slash", "a\nb\tc", "\u0000", "<script>&amp;", "\u2028", "😀", "null", "{}", "!", "$", "%2F", " "}),
	)
}

// GenEv generates an event that can be saved.
func GenEv(kinds ...string) *rapid.Generator[EvSpec] {
	if len(kinds) == 0 {
		kinds = []string{"thing", "thing", "other", "raw", "unbound"}
	}
	return rapid.Custom(func(t *rapid.T) EvSpec {
		return EvSpec{
			Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
			Ptr:  rapid.Bool().Draw(t, "ptr"),
			Num:  rapid.OneOf(rapid.Int64Range(-5, 50), rapid.SampledFrom([]int64{1 << 53, 1<<53 + 1, -(1<<53 + 1), 1 << 62, math.MaxInt64 / 4})).Draw(t, "num"),
			Text: GenText().Draw(t, "text"),
			Deep: rapid.IntRange(0, 3).Draw(t, "deep"),
			Meta: rapid.IntRange(0, 3).Draw(t, "meta"),
		}
	})
}

// GenAggs generates aggregates, some of whose names are prefixes or
// look-alikes of the others'.
func GenAggs(min, max int, wild bool) *rapid.Generator[[]Agg] {
	plain := rapid.StringMatching(`[a-c]{1,2}`)
	odd := rapid.SampledFrom([]string{"", "!", "$", "$!", "a!", "a!b!c", "a$", "a$!", "a$!b", "$s$a", "$all$", "$at$", "$gsn$", "é", "日", "a b", "\u0000", "a\u0000", "A", "a/b", "a,b", "a?b=c", "ÿÿÿÿ", "long-long-long-long-long-long-long-name"})
	suffix := rapid.SampledFrom([]string{"$!", "$!\u0000\u0000\u0000\u0000\u0000\u0000\u0000\u0001", "$!x", "!", "$", "$!\u007f\u007f\u007f\u007f\u007f\u007f\u007f\u007f\u007f", "$!abcdefgh$!", "\u0000"})
	return rapid.Custom(func(t *rapid.T) []Agg {
		n := rapid.IntRange(min, max).Draw(t, "aggs")
		var out []Agg
		name := func(label string, prev func(Agg) string) string {
			if !wild {
				return plain.Draw(t, label)
			}
			switch rapid.IntRange(0, 3).Draw(t, label+"-how") {
			case 0:
				if len(out) > 0 {
					return prev(out[rapid.IntRange(0, len(out)-1).Draw(t, label+"-of")]) + suffix.Draw(t, label+"-suffix")
				}
				return plain.Draw(t, label)
			case 1:
				return odd.Draw(t, label)
			default:
				return plain.Draw(t, label)
			}
		}
		for i := 0; i < n; i++ {
			a := Agg{Type: name("type", func(a Agg) string { return a.Type }), ID: name("id", func(a Agg) string { return a.ID })}
			if len(out) > 0 && rapid.IntRange(0, 3).Draw(t, "sametype") == 0 {
				a.Type = out[0].Type
			}
			if rapid.IntRange(0, 3).Draw(t, "custom") == 0 {
				a.Stream = name("stream", func(a Agg) string { return a.Stream })
			} else {
				a.Stream = a.Type + "!" + a.ID
			}
			out = append(out, a)
		}
		return out
	})
}

// Streams returns the distinct stream names of aggs.
func Streams(aggs []Agg) []string {
	var out []string
	seen := map[string]bool{}
	for _, a := range aggs {
		if !seen[a.Stream] {
			seen[a.Stream] = true
			out = append(out, a.Stream)
		}
	}
	return out
}

// Types returns the distinct aggregate types of aggs.
func Types(aggs []Agg) []string {
	var out []string
	seen := map[string]bool{}
	for _, a := range aggs {
		if !seen[a.Type] {
			seen[a.Type] = true
			out = append(out, a.Type)
		}
	}
	return out
}
