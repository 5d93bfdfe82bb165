package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
)

// doSelftest checks the simulator itself on scenarios of every check: one seed
// is one exactly repeatable execution (a second run gives the same bytes), the
// explicit form of a run, made of its realised decisions and faults only,
// repeats it. How often the build with the race detector takes the same course
// as the build without is counted, not required: a replay uses the build it was
// recorded with (sync.Pool, for one, draws random numbers under the detector).
func doSelftest() {
	e := setup(true)
	n := 40
	if v := os.Getenv("VERIF_RUNS"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	var bad, runs, otherBuild, compared int64
	type job struct {
		c *check
		i int
	}
	jobs := make(chan job)
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				num := uint64(0)
				fmt.Sscanf(j.c.id, "C%d", &num)
				list, err := j.c.scenarios(e, newRng(99, num, uint64(j.i)), j.i)
				if err != nil {
					fail("%v", err)
				}
				if len(list) > 3 {
					list = list[:3]
				}
				for _, s := range list {
					get := func(s *scenario) []*outcome {
						outs, err := e.run(s, false)
						if err != nil {
							fail("%v", err)
						}
						atomic.AddInt64(&runs, 1)
						return outs
					}
					a := get(s)
					report := func(what, x, y string) {
						atomic.AddInt64(&bad, 1)
						fmt.Printf("%s scenario %d: %s\n  %.300s\n  %.300s\n", j.c.id, j.i, what, x, y)
					}
					if x, y, same := sameOuts(a, get(s), false); !same {
						report("a second run differs", x, y)
					}
					if x, y, same := sameOuts(a, get(explicit(s, a)), true); !same {
						report("the explicit form differs", x, y)
					}
					if j.c.race {
						t := s.clone()
						t.Race = !t.Race
						atomic.AddInt64(&compared, 1)
						if _, _, same := sameOuts(a, get(t), true); !same {
							atomic.AddInt64(&otherBuild, 1)
						}
					}
				}
			}
		}()
	}
	for _, c := range checks {
		for i := 0; i < n; i++ {
			jobs <- job{c, i}
		}
	}
	close(jobs)
	wg.Wait()
	fmt.Printf("selftest: %d runs, %d differences; plain and race builds took the same course in %d of %d scenarios\n", runs, bad, compared-otherBuild, compared)
	if bad > 0 {
		cleanup()
		os.Exit(1)
	}
}

// sameOuts compares runs byte for byte. loose: apart from how the choices were
// described.
func sameOuts(a, b []*outcome, loose bool) (string, string, bool) {
	for i := range a {
		if i >= len(b) || (a[i].res == nil) != (b[i].res == nil) {
			return "", "a process died", false
		}
		if a[i].res == nil {
			continue
		}
		x, y := *a[i].res, *b[i].res
		if loose {
			x.Races, y.Races = 0, 0
			x.Fired, y.Fired = nil, nil
			if len(x.Decs) == 0 && len(y.Decs) == 0 {
				x.Decs, y.Decs = nil, nil
			}
		}
		p, _ := json.Marshal(x)
		q, _ := json.Marshal(y)
		if !bytes.Equal(p, q) {
			k := 0
			for k < len(p) && k < len(q) && p[k] == q[k] {
				k++
			}
			k -= 40
			if k < 0 {
				k = 0
			}
			return string(p[k:]), string(q[k:]), false
		}
	}
	return "", "", true
}
