package main

import (
	"time"

	"verifsim/spec"
)

// Minimising a failing scenario: every reduction is executed again and kept
// only if the same class of violation remains.

type minimiser struct {
	e     *env
	c     *check
	class string
	left  int
	until time.Time
	best  *scenario
	msg   string
}

func (m *minimiser) over() bool { return m.left <= 0 || time.Now().After(m.until) }

func (m *minimiser) try(s *scenario) bool {
	if m.over() {
		return false
	}
	m.left--
	outs, err := m.e.run(s, false)
	if err != nil {
		return false
	}
	v, err := m.c.judge(m.e, s, outs)
	if err != nil || v == nil || v.Class != m.class {
		return false
	}
	m.best, m.msg = s, v.Msg
	return true
}

// explicit turns the seeded choices of a run into the list of choices made.
func explicit(s *scenario, outs []*outcome) *scenario {
	c := s.clone()
	for i := range c.Phases {
		if i >= len(outs) || outs[i].res == nil || c.Phases[i].Explicit {
			continue
		}
		p := &c.Phases[i]
		p.Explicit = true
		p.Sched, p.FaultGen = nil, nil
		p.Decs, p.Faults = outs[i].res.Decs, outs[i].res.Faults
	}
	return c
}

// ddmin reduces a list of n items: test(keep) says whether keeping only those
// items still fails.
func (m *minimiser) ddmin(n int, test func(keep []bool) bool) {
	keep := make([]bool, n)
	idx := make([]int, n)
	for i := range keep {
		keep[i], idx[i] = true, i
	}
	if n == 0 {
		return
	}
	if test(make([]bool, n)) {
		return
	}
	for g := 2; len(idx) >= 2 && !m.over(); {
		size := (len(idx) + g - 1) / g
		reduced := false
		for a := 0; a < len(idx) && !m.over(); a += size {
			b := a + size
			if b > len(idx) {
				b = len(idx)
			}
			k := append([]bool{}, keep...)
			for _, i := range idx[a:b] {
				k[i] = false
			}
			if test(k) {
				keep = k
				idx = append(append([]int{}, idx[:a]...), idx[b:]...)
				if g > 2 {
					g--
				}
				reduced = true
				break
			}
		}
		if !reduced {
			if g >= len(idx) {
				break
			}
			g *= 2
			if g > len(idx) {
				g = len(idx)
			}
		}
	}
}

func minimise(e *env, c *check, s *scenario, v *violation, execs int, limit time.Duration) (*scenario, string) {
	m := &minimiser{e: e, c: c, class: v.Class, left: execs, until: time.Now().Add(limit), best: s, msg: v.Msg}
	for pass := 0; pass < 2; pass++ {
		before := m.left
		// later processes
		for len(m.best.Phases) > 1 {
			k := m.best.clone()
			k.Phases = k.Phases[:len(k.Phases)-1]
			if !m.try(k) {
				break
			}
		}
		// operations and threads
		for i := range m.best.Phases {
			for t := range m.best.Phases[i].Threads {
				allNop := true
				for _, o := range m.best.Phases[i].Threads[t] {
					if o.K != "nop" {
						allNop = false
					}
				}
				if !allNop && len(m.best.Phases[i].Threads) > 1 {
					k := m.best.clone()
					for o := range k.Phases[i].Threads[t] {
						k.Phases[i].Threads[t][o] = spec.Op{K: "nop"}
					}
					if m.try(k) {
						continue
					}
				}
				for o := range m.best.Phases[i].Threads[t] {
					if m.over() {
						break
					}
					if m.best.Phases[i].Threads[t][o].K == "nop" {
						continue
					}
					k := m.best.clone()
					k.Phases[i].Threads[t][o] = spec.Op{K: "nop"}
					m.try(k)
				}
			}
		}
		for i := range m.best.Phases {
			if m.best.Phases[i].Jump != nil {
				k := m.best.clone()
				k.Phases[i].Jump = nil
				m.try(k)
			}
			if m.best.Phases[i].Slow != 0 {
				k := m.best.clone()
				k.Phases[i].Slow = 0
				m.try(k)
			}
		}
		for i := range m.best.Phases {
			if p := &m.best.Phases[i]; p.Env != nil {
				k := m.best.clone()
				k.Phases[i].Env = nil
				m.try(k)
			}
			if p := &m.best.Phases[i]; p.Pid != 0 {
				k := m.best.clone()
				k.Phases[i].Pid = 0
				m.try(k)
			}
			if p := &m.best.Phases[i]; p.Uid != 0 || p.Host != "" {
				k := m.best.clone()
				k.Phases[i].Uid, k.Phases[i].Host = 0, ""
				m.try(k)
			}
			if p := &m.best.Phases[i]; p.Prog != "" {
				k := m.best.clone()
				k.Phases[i].Prog = ""
				m.try(k)
			}
			if p := &m.best.Phases[i]; p.CPUs != 0 {
				k := m.best.clone()
				k.Phases[i].CPUs = 0
				m.try(k)
			}
		}
		for di := range m.best.Docs {
			if m.best.Docs[di].Kind != 0 {
				k := m.best.clone()
				k.Docs[di].Kind = 0
				m.try(k)
			}
		}
		// decisions and faults
		for i := range m.best.Phases {
			decs := m.best.Phases[i].Decs
			m.ddmin(len(decs), func(keep []bool) bool {
				k := m.best.clone()
				k.Phases[i].Decs = nil
				for j, d := range decs {
					if keep[j] {
						k.Phases[i].Decs = append(k.Phases[i].Decs, d)
					}
				}
				return m.try(k)
			})
			faults := m.best.Phases[i].Faults
			m.ddmin(len(faults), func(keep []bool) bool {
				k := m.best.clone()
				k.Phases[i].Faults = nil
				for j, d := range faults {
					if keep[j] {
						k.Phases[i].Faults = append(k.Phases[i].Faults, d)
					}
				}
				return m.try(k)
			})
		}
		// files
		for di := range m.best.Docs {
			if m.best.Docs[di].Cut >= 0 {
				continue // a position would move
			}
			ps := m.best.Docs[di].Pieces
			m.ddmin(len(ps), func(keep []bool) bool {
				k := m.best.clone()
				k.Docs[di].Pieces = nil
				for j, p := range ps {
					if keep[j] {
						k.Docs[di].Pieces = append(k.Docs[di].Pieces, p)
					}
				}
				return m.try(k)
			})
		}
		// inputs
		for i := range m.best.Phases {
			for n := range m.best.Phases[i].Inputs {
				in := m.best.Phases[i].Inputs[n]
				if in.Mesh != nil && len(in.Mesh.I) > 3 {
					for nt := 1; nt < len(in.Mesh.I)/3; nt *= 4 {
						k := m.best.clone()
						k.Phases[i].Inputs[n].Mesh.I = in.Mesh.I[:3*nt]
						if m.try(k) {
							break
						}
					}
				}
				if in.Table != nil {
					tb := in.Table
					m.ddmin(len(tb), func(keep []bool) bool {
						k := m.best.clone()
						k.Phases[i].Inputs[n].Table = []spec.Entity{}
						for j, x := range tb {
							if keep[j] {
								k.Phases[i].Inputs[n].Table = append(k.Phases[i].Inputs[n].Table, x)
							}
						}
						return len(k.Phases[i].Inputs[n].Table) > 0 && m.try(k)
					})
				}
			}
		}
		if m.left == before || m.left <= 0 || len(m.best.Phases) == 0 {
			break
		}
	}
	return m.best, m.msg
}
