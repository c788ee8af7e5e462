// Package vf counts and reports what rapid explores.
package vf

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type failure struct {
	Kind    string `json:"kind"`
	Message string `json:"message"`
	Case    string `json:"case"`
}

type stats struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Failure     *failure       `json:"failure"`
	Keys        []string       `json:"keys"`
	Cut         bool           `json:"cut"`
	keys        map[uint64]bool
	mu          sync.Mutex
	seq         int
	note        string
}

type T struct {
	*rapid.T
	note       string
	labels     []string
	nontrivial bool
	failed     bool
	s          *stats
}

func (t *T) Note(f string, a ...interface{}) {
	t.note += fmt.Sprintf(f, a...) + "\n"
	t.s.mu.Lock()
	t.s.note = t.note
	t.s.mu.Unlock()
}
func (t *T) Label(l string) { t.labels = append(t.labels, l) }
func (t *T) NonTrivial()    { t.nontrivial = true }
func (t *T) Failf(kind, f string, a ...interface{}) {
	t.failed = true
	t.s.Failure = &failure{kind, fmt.Sprintf(f, a...), t.note}
	t.T.Fatalf("%s: %s", kind, fmt.Sprintf(f, a...))
}

func (s *stats) save() {
	s.NonTrivial = len(s.keys)
	s.Keys = []string{}
	for k := range s.keys {
		s.Keys = append(s.Keys, strconv.FormatUint(k, 16))
	}
	if o := os.Getenv("VF_OUT"); o != "" {
		b, _ := json.Marshal(s)
		os.WriteFile(o, b, 0644)
	}
}

// Case has no progress for so long: it hangs (a case takes milliseconds)
const hang = 60 * time.Second

func Check(t *testing.T, f func(*T)) {
	s := &stats{Labels: map[string]int{}, keys: map[uint64]bool{}, Samples: []string{}}
	t.Cleanup(s.save)
	limit := 1 << 30
	if v, err := strconv.Atoi(os.Getenv("VF_LIMIT")); err == nil {
		limit = v
	}
	start := time.Now()
	go func() {
		last, at := -1, time.Now()
		for {
			time.Sleep(time.Second)
			s.mu.Lock()
			if s.seq != last {
				last, at = s.seq, time.Now()
			} else if time.Since(at) > hang {
				s.Failure = &failure{"hang", "a case did not end in time", s.note}
				s.save()
				os.Exit(4)
			}
			s.mu.Unlock()
		}
	}()
	rapid.Check(t, func(rt *rapid.T) {
		s.mu.Lock()
		s.seq++
		s.note = ""
		s.mu.Unlock()
		if s.Failure == nil && time.Since(start) > time.Duration(limit)*time.Second {
			s.Cut = true
			return
		}
		x := &T{T: rt, s: s}
		done := false
		defer func() {
			if done || x.failed {
				return
			}
			p := recover()
			if p != nil && fmt.Sprintf("%T", p) != "rapid.invalidData" {
				s.Failure = &failure{"panic", fmt.Sprint(p), x.note}
			}
			if p != nil {
				panic(p)
			}
		}()
		f(x)
		done = true
		if s.Failure != nil {
			return
		}
		s.Evaluations++
		for _, l := range x.labels {
			s.Labels[l]++
		}
		if x.nontrivial {
			h := fnv.New64a()
			h.Write([]byte(x.note))
			if k := h.Sum64(); !s.keys[k] {
				s.keys[k] = true
				if len(s.Samples) < 4 && len(s.keys)%7 == 1 {
					n := x.note
					if len(n) > 1500 {
						n = n[:1500]
					}
					s.Samples = append(s.Samples, n)
				}
			}
		}
	})
}
