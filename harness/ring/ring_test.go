package ring

import (
	"errors"
	"fmt"
	"sort"
	"testing"

	"github.com/peterbourgon/trc/internal/trcringbuf"
)

func walkInts(rb *trcringbuf.RingBuffer[int]) []int {
	var got []int
	rb.Walk(func(v int) error { got = append(got, v); return nil })
	return got
}

// model of one buffer: newest first
type rbModel struct {
	cap   int
	items []int
}

func (m *rbModel) add(v int) (int, bool) {
	if m.cap == 0 {
		return 0, false
	}
	m.items = append([]int{v}, m.items...)
	if len(m.items) > m.cap {
		d := m.items[m.cap]
		m.items = m.items[:m.cap]
		return d, true
	}
	return 0, false
}

func (m *rbModel) resize(n int) []int {
	if n <= 0 {
		return nil
	}
	m.cap = n
	if len(m.items) <= n {
		return nil
	}
	d := append([]int{}, m.items[n:]...)
	m.items = m.items[:n]
	return d
}

func checkBuf(t *testing.T, hist string, rb *trcringbuf.RingBuffer[int], m *rbModel) {
	t.Helper()
	if have, want := walkInts(rb), m.items; fmt.Sprint(have) != fmt.Sprint(want) {
		t.Fatalf("walk after %s: have %v, want %v", hist, have, want)
	}
	newest, oldest, n := rb.Stats()
	if n != len(m.items) {
		t.Fatalf("count after %s: have %d, want %d", hist, n, len(m.items))
	}
	if n > 0 && (newest != m.items[0] || oldest != m.items[n-1]) {
		t.Fatalf("stats after %s: have %d %d, want %d %d", hist, newest, oldest, m.items[0], m.items[n-1])
	}
}

func TestC06_buffer(t *testing.T) {
	// exhaustive small space, without resize
	for c := 1; c <= 7; c++ {
		rb := trcringbuf.NewRingBuffer[int](c)
		m := &rbModel{cap: c}
		for i := 1; i <= 4*c+3; i++ {
			d, ok := rb.Add(i)
			wd, wok := m.add(i)
			if ok != wok || (ok && d != wd) {
				t.Fatalf("capacity %d, add %d: evicted %v %v, want %v %v", c, i, d, ok, wd, wok)
			}
			checkBuf(t, fmt.Sprintf("capacity %d, %d adds", c, i), rb, m)
			note(t, "capacity %d adds %d", c, i)
			// an early stop sees the newest prefix
			for stop := 1; stop <= len(m.items); stop++ {
				var got []int
				sentinel := errors.New("stop")
				err := rb.Walk(func(v int) error {
					got = append(got, v)
					if len(got) == stop {
						return sentinel
					}
					return nil
				})
				if err != sentinel || fmt.Sprint(got) != fmt.Sprint(m.items[:stop]) {
					t.Fatalf("capacity %d, %d adds, stop at %d: have %v (%v), want %v", c, i, stop, got, err, m.items[:stop])
				}
			}
		}
	}
	// random, with resizes in between
	r := newRand(6)
	for n := 0; n < iters(400); n++ {
		c := 1 + r.Intn(12)
		rb := trcringbuf.NewRingBuffer[int](c)
		m := &rbModel{cap: c}
		hist := fmt.Sprintf("new(%d)", c)
		for k := 0; k < 60; k++ {
			if r.Intn(8) == 0 {
				sz := r.Intn(14) - 1
				hist += fmt.Sprintf(" resize(%d)", sz)
				rb.Resize(sz)
				m.resize(sz)
			} else {
				hist += " add"
				d, ok := rb.Add(k)
				wd, wok := m.add(k)
				if ok != wok || (ok && d != wd) {
					t.Fatalf("%s: evicted %v %v, want %v %v", hist, d, ok, wd, wok)
				}
			}
			checkBuf(t, hist, rb, m)
		}
		note(t, "%s", hist)
	}
}

func TestC06_categories(t *testing.T) {
	r := newRand(61)
	for n := 0; n < iters(150); n++ {
		c := 1 + r.Intn(6)
		rbs := trcringbuf.NewRingBuffers[int](c)
		ms := map[string]*rbModel{}
		hist := fmt.Sprintf("cap %d:", c)
		for k := 0; k < 50; k++ {
			cat := []string{"a", "b", "c", ""}[r.Intn(4)]
			hist += " " + cat
			if ms[cat] == nil {
				ms[cat] = &rbModel{cap: c}
			}
			d, ok := rbs.GetOrCreate(cat).Add(k)
			wd, wok := ms[cat].add(k)
			if ok != wok || (ok && d != wd) {
				t.Fatalf("%s: evicted %v %v, want %v %v", hist, d, ok, wd, wok)
			}
			all := rbs.GetAll()
			if len(all) != len(ms) {
				t.Fatalf("%s: categories %d, want %d", hist, len(all), len(ms))
			}
			for name, m := range ms {
				if all[name] == nil {
					t.Fatalf("%s: category %q missing", hist, name)
				}
				checkBuf(t, hist+" in "+name, all[name], m)
			}
		}
		note(t, "%s", hist)
	}
}

func TestC07_buffer(t *testing.T) {
	// every fill level, wrap position, old and new size up to 6
	for c := 1; c <= 6; c++ {
		for adds := 0; adds <= 2*c+2; adds++ {
			for sz := -1; sz <= 8; sz++ {
				rb := trcringbuf.NewRingBuffer[int](c)
				m := &rbModel{cap: c}
				for i := 1; i <= adds; i++ {
					rb.Add(i)
					m.add(i)
				}
				hist := fmt.Sprintf("capacity %d, %d adds, resize %d", c, adds, sz)
				have, want := rb.Resize(sz), m.resize(sz)
				if len(have) != len(want) {
					t.Fatalf("%s: dropped %v, want %v", hist, have, want)
				}
				sort.Ints(have)
				sort.Ints(want)
				if len(want) > 0 && fmt.Sprint(have) != fmt.Sprint(want) {
					t.Fatalf("%s: dropped %v, want %v", hist, have, want)
				}
				checkBuf(t, hist, rb, m)
				// and it goes on working
				for i := 100; i < 100+2*m.cap+1; i++ {
					d, ok := rb.Add(i)
					wd, wok := m.add(i)
					if ok != wok || (ok && d != wd) {
						t.Fatalf("%s, add %d: evicted %v %v, want %v %v", hist, i, d, ok, wd, wok)
					}
					checkBuf(t, fmt.Sprintf("%s, then add %d", hist, i), rb, m)
				}
				note(t, "%s", hist)
			}
		}
	}
}

func TestC07_categories(t *testing.T) {
	r := newRand(71)
	for n := 0; n < iters(200); n++ {
		c := 1 + r.Intn(6)
		rbs := trcringbuf.NewRingBuffers[int](c)
		ms := map[string]*rbModel{}
		hist := fmt.Sprintf("cap %d:", c)
		for k := 0; k < 50; k++ {
			if r.Intn(7) == 0 {
				sz := r.Intn(9) - 1
				hist += fmt.Sprintf(" resize(%d)", sz)
				have := rbs.Resize(sz)
				var want []int
				for _, m := range ms {
					want = append(want, m.resize(sz)...)
				}
				if sz > 0 {
					c = sz
				}
				sort.Ints(have)
				sort.Ints(want)
				if len(have) != len(want) || (len(want) > 0 && fmt.Sprint(have) != fmt.Sprint(want)) {
					t.Fatalf("%s: dropped %v, want %v", hist, have, want)
				}
			} else {
				cat := []string{"a", "b", "c"}[r.Intn(3)]
				hist += " " + cat
				if ms[cat] == nil {
					ms[cat] = &rbModel{cap: c}
				}
				d, ok := rbs.GetOrCreate(cat).Add(k)
				wd, wok := ms[cat].add(k)
				if ok != wok || (ok && d != wd) {
					t.Fatalf("%s: evicted %v %v, want %v %v", hist, d, ok, wd, wok)
				}
			}
			all := rbs.GetAll()
			for name, m := range ms {
				if all[name] == nil {
					t.Fatalf("%s: category %q missing", hist, name)
				}
				checkBuf(t, hist+" in "+name, all[name], m)
			}
		}
		note(t, "%s", hist)
	}
}
