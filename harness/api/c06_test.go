package verifharness

import (
	"context"
	"fmt"
	"sort"
	"testing"

	"github.com/peterbourgon/trc"
)

// collected checks a collector against the model by searching it.
func collected(t *testing.T, c *trc.Collector, hist string, want map[string][]string) {
	t.Helper()
	total := 0
	for cat, ids := range want {
		total += len(ids)
		res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: 250, StackDepth: -1, Filter: trc.Filter{Category: cat}})
		if err != nil {
			t.Fatalf("%s: search: %v", hist, err)
		}
		var have []string
		for _, tr := range res.Traces {
			have = append(have, tr.ID())
		}
		wanted := append([]string{}, ids...)
		sort.Strings(have)
		sort.Strings(wanted)
		if fmt.Sprint(have) != fmt.Sprint(wanted) {
			t.Fatalf("%s: category %q holds %v, want %v", hist, cat, have, wanted)
		}
	}
	res, err := c.Search(context.Background(), &trc.SearchRequest{})
	if err != nil {
		t.Fatal(err)
	}
	if res.TotalCount != total {
		t.Fatalf("%s: total count %d, want %d", hist, res.TotalCount, total)
	}
}

func runCollector(t *testing.T, salt int64, n int, resize bool) {
	r := newRand(salt)
	for k := 0; k < n; k++ {
		c := trc.NewDefaultCollector()
		size := 1 + r.Intn(5)
		c.SetCategorySize(size)
		want := map[string][]string{}
		hist := fmt.Sprintf("size %d:", size)
		for i := 0; i < 30; i++ {
			if resize && r.Intn(6) == 0 {
				sz := r.Intn(8) - 1
				hist += fmt.Sprintf(" resize(%d)", sz)
				c.SetCategorySize(sz)
				if sz > 0 {
					size = sz
					for cat := range want {
						if len(want[cat]) > sz {
							want[cat] = want[cat][:sz]
						}
					}
				}
			} else {
				cat := []string{"x", "y", "z"}[r.Intn(3)]
				hist += " " + cat
				_, tr := c.NewTrace(context.Background(), cat)
				id := tr.ID()
				if r.Intn(2) == 0 {
					tr.Finish()
				}
				want[cat] = append([]string{id}, want[cat]...)
				if len(want[cat]) > size {
					want[cat] = want[cat][:size]
				}
			}
			collected(t, c, hist, want)
		}
		note(t, "%s", hist)
	}
}

func TestC06_collector(t *testing.T) { runCollector(t, 62, iters(30), false) }

func TestC07_collector(t *testing.T) { runCollector(t, 72, iters(40), true) }

