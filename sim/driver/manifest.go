package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

// Properties about what a deterministic function of its arguments computes.
const pure = "a pure function of its arguments: no scheduling, time, I/O, randomness or fault can influence it, so there is nothing for a simulator to decide; "

var notApplicable = [][2]string{
	{"C18", pure + "sampling centres and radii would be property-based testing. That shapes index only existing vertices is decided as part of C01 where it reaches the exported file."},
	{"C19", pure + "the Delaunay condition is a geometric statement about inputs. Independence from other calls and schedules is C14."},
	{"C20", pure + "the Delaunay condition is a geometric statement about inputs. Independence from collection order is C11."},
	{"C21", pure + "agreement with the de Boor definition is arithmetic. Independence from other calls and schedules is C15."},
	{"C22", pure + "the sign of a determinant is arithmetic."},
	{"C23", pure + "vector algebra is arithmetic."},
	{"C24", pure + "containment is a geometric statement about inputs."},
	{"C25", pure + "list splitting is string manipulation on an argument already in memory; the splitting of arguments as files are read is C04."},
}

// doManifest prints MANIFEST.json from the table of checks.
func doManifest() {
	type m map[string]interface{}
	var list []m
	claimed := map[string]bool{}
	for _, c := range checks {
		claimed[c.id] = true
		list = append(list, m{
			"property": c.id, "quick_cmd": "./check.sh check " + c.id,
			"thorough_cmd":  "./check.sh check " + c.id,
			"evidence_file": "evidence/" + c.id + ".json",
			"technique":     c.technique, "level": c.level, "level_note": c.note,
		})
	}
	var na []m
	for _, x := range notApplicable {
		claimed[x[0]] = true
		na = append(na, m{"property": x[0], "reason": x[1]})
	}
	f, err := os.Open(filepath.Join(home(), "properties.jsonl"))
	if err != nil {
		fail("%v", err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		var p struct{ ID string }
		if err := json.Unmarshal(sc.Bytes(), &p); err != nil || !claimed[p.ID] {
			fail("property %s is neither claimed nor declined (%v)", p.ID, err)
		}
	}
	b, _ := json.MarshalIndent(m{
		"version": 1, "setup_cmd": "./check.sh setup", "checks": list, "not_applicable": na,
		"notes": "No hooks in /repo: seams are build-time overlays of the Go runtime, syscall, time and of a copy of /repo's packages, generated on every run from /repo's working tree. Replay: ./check.sh replay <file>. Repeatability of the simulator: ./check.sh selftest. Repaired defects: KNOWN_FINDINGS.txt.",
	}, "", " ")
	fmt.Println(string(b))
}
