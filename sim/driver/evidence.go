package main

import (
	"encoding/json"
	"math"
	"os"
	"path/filepath"
	"time"
)

func writeEvidence(e *env, c *check, start time.Time, built, explored time.Duration, scen, nontriv int, samples []string, modes map[string]int, nviol int) {
	st := &e.st
	hours := explored.Hours()
	if hours <= 0 {
		hours = 1e-9
	}
	if samples == nil {
		samples = []string{}
	}
	delete(modes, "")
	unknown := []int{}
	for u := range st.unknown {
		unknown = append(unknown, u)
	}
	cov := map[string]interface{}{
		"evaluations":                        st.procs,
		"distinct_nontrivial":                nontriv,
		"rule":                               c.rule,
		"samples":                            samples,
		"scenarios":                          scen,
		"scenario_modes":                     modes,
		"seeds_per_hour":                     math.Round(float64(scen) / hours),
		"simulated_processes_per_hour":       math.Round(float64(st.procs+st.refProcs) / hours),
		"reference_processes":                st.refProcs,
		"distinct_executions":                len(st.hashes),
		"distinct_interleavings":             len(st.scheds),
		"distinctness_measure":               "an interleaving is the hash of the realised sequence of scheduling decisions and system calls; an execution additionally of operations, inputs, disk and faults",
		"yield_points_executed":              st.yields,
		"context_switches":                   st.switches,
		"system_calls_simulated":             st.syscalls,
		"simulated_seconds":                  math.Round(st.clock*1000) / 1000,
		"faults_fired":                       st.fired,
		"clock_jumps":                        st.jumps,
		"disk_full_hits":                     st.capHits,
		"kills":                              st.kills,
		"kills_by_position":                  st.killBy,
		"race_reports":                       st.races,
		"yield_sites_instrumented":           len(e.sites),
		"yield_sites_reached_by_one_run_max": st.sites,
		"unmodelled_system_calls":            unknown,
		"build_s":                            math.Round(built.Seconds()*10) / 10,
		"exploring_s":                        math.Round(explored.Seconds()*10) / 10,
		"components_real":                    c.real,
		"components_simulated":               "kernel (files, descriptors, standard output), scheduler, clock, map and runtime randomness, process death",
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": e.tier, "seed": e.seed, "level": c.level,
		"coverage": cov, "violations": nviol,
		"wall_s": math.Round(time.Since(start).Seconds()*100) / 100,
		"assumptions": []string{
			"the simulated kernel behaves like Linux for the calls the code makes (open, read, write, close, stat, seek, rename, unlink, truncate, mkdir, getdents)",
			"threads interleave at statement boundaries and system calls; finer interleavings are covered by the race detector where it is used",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fail("%v", err)
	}
	dir := filepath.Join(home(), "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, c.id+".json"), append(b, '\n'), 0644); err != nil {
		fail("%v", err)
	}
}
