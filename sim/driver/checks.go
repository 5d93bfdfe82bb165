package main

import (
	"bytes"

	"verifsim/spec"
)

func anyFault(p *spec.Plan, r *spec.Result) bool {
	return len(r.Faults) > 0 || r.CapHits > 0 || r.Killed
}

func switched(p *spec.Plan, r *spec.Result) bool { return r.Switches > 0 || anyFault(p, r) }

func manyOps(p *spec.Plan, r *spec.Result) bool {
	n := 0
	for _, t := range p.Threads {
		n += len(t)
	}
	return n > 1 || anyFault(p, r)
}

func stepsRun(p *spec.Plan, r *spec.Result) bool { return r.Yields > 20 }

const ruleConc = "Each scenario draws inputs (partly shared between threads, partly near copies of each other), 1-4 threads of 1-10 calls and a scheduling policy; the seeded scheduler then decides at every statement and system call which thread runs. Non-trivial: at least one preemptive switch or fault happened. Distinct: by operations, inputs, disk, realised decisions and faults."

var checks = []*check{
	{id: "C01", level: "exploration", note: "Sampled: every explored mesh, previous content and fault sequence on real export code over a simulated disk; the file is decoded by a GLB reader written here and compared with the mesh. Trusts the simulated kernel's write/open/close semantics.",
		technique: "deterministic simulation: seeded disk-fault injection, file decoded by an independent GLB reader",
		quick:     12000, thorough: 720000, gen: genC01, judge: judgeC01, nontrivial: anyFault,
		rule: "Each scenario exports 1-3 generated meshes over generated previous content with a healthy disk, short and interrupted writes, a disk that is full from a random byte on, or failing calls. Non-trivial: at least one fault fired. Distinct: by operations, inputs, disk and realised faults.",
		real: "glTF, shape, r3, github.com/qmuntal/gltf, Go os and bufio"},
	{id: "C02", level: "fault_enumeration", note: "For each sampled export every system call is a kill point (at least 30 sampled where there are more than 60), plus kills inside writes; the disk model keeps completed write calls (kill, not power loss). Base cases are sampled.",
		technique: "deterministic simulation: process killed at every system call and inside writes of seeded exports, plus failing exports",
		quick:     1000, thorough: 60000, gen: genC02, judge: judgeC02, nontrivial: anyFault,
		rule: "Each base case (mesh, previous content, neighbours, short-write pattern) is executed once, then killed before every system call (a random sample of at least 30 where there are more than 60), in the middle of writes at chunk boundaries and random bytes, and after the last; other cases fail by injected errors. Non-trivial: the kill or a fault happened. Distinct: by inputs, disk, kill point and faults.",
		real: "glTF, github.com/qmuntal/gltf, Go os and bufio"},
	{id: "C03", level: "exploration", note: "Sampled histories; reference is the same mesh exported alone in a fresh simulated process, so a deterministic but wrong encoding is C01's business.",
		technique: "deterministic simulation: histories of exports with seeded map order, short writes and failures against a fresh-process reference",
		quick:     12000, thorough: 720000, gen: genC03, judge: judgeC03, nontrivial: manyOps,
		rule: "Each scenario is a history of 2-7 exports of equal and nearly equal meshes to a few paths with previous contents, some failing, with its own map iteration seed. Non-trivial: more than one operation or a fault. Distinct: by operations, inputs, disk, map seed and faults.",
		real: "glTF, shape, github.com/qmuntal/gltf, Go os, bufio, encoding/json"},
	{id: "C04", level: "exploration", note: "Sampled files and read partitions; the oracle is the model the file text is generated from, and is independent of the lexer's code. Only the supported layout is generated.",
		technique: "deterministic simulation: seeded partition of reads (short reads, EINTR) against a generating reference model",
		quick:     8000, thorough: 480000, gen: genC04, judge: judgeC04, nontrivial: stepsRun,
		rule: "Each scenario lexes 2-6 generated files in one process with data arriving in seeded pieces; the table is compared with the model the file was generated from. Non-trivial: at least one line was lexed. Distinct: by files, map seed and read partition.",
		real: "step (Lexer), Go bufio and os"},
	{id: "C05", level: "exploration", note: "Sampled files and fault sequences; a hang is judged by a step and system-call budget far above any terminating run.",
		technique: "deterministic simulation: seeded open and read errors, bounded steps",
		quick:     15000, thorough: 900000, gen: genC05, judge: judgeC05, nontrivial: anyFault,
		rule: "Each scenario lexes 1-4 generated files with seeded failing opens and reads, transient or persistent, and short reads. Non-trivial: at least one fault fired. Distinct: by files and realised faults.",
		real: "step (Lexer), Go bufio and os"},
	{id: "C06", level: "exploration", note: "Sampled files and cut bytes; the oracle says which definitions are complete in the remaining text, from the generating model.",
		technique: "deterministic simulation: files ending at seeded crash points, seeded read partitions, against a generating reference model",
		quick:     10000, thorough: 600000, gen: genC06, judge: judgeC06, nontrivial: stepsRun,
		rule: "Each scenario lexes up to 40 truncations of one generated file (two thirds at token boundaries, one third anywhere) in one process. Non-trivial: at least one line was lexed. Distinct: by file, cut positions and read partition.",
		real: "step (Lexer), Go bufio and os"},
	{id: "C07", level: "exploration", note: "Sampled histories; the simulated kernel's descriptor table is exact.",
		technique: "deterministic simulation: seeded faults on every class of call, descriptor table of the simulated kernel as invariant",
		quick:     15000, thorough: 900000, gen: genC07, judge: judgeC07, nontrivial: anyFault,
		rule: "Each scenario is a history of 1-12 Lex and Export calls with seeded failures of open, read, write, close, stat, sync, rename, unlink; the descriptor table is checked after each call. Non-trivial: at least one fault fired. Distinct: by operations, inputs, disk and realised faults.",
		real: "step, glTF, shape, github.com/qmuntal/gltf, Go os and bufio"},
	{id: "C08", level: "exploration", note: "Sampled failure sequences and kills; the reference is a fault-free fresh process on a fresh disk.",
		technique: "deterministic simulation: seeded failures and kills, then fault-free retries in the same and a new process against a fresh-process reference",
		quick:     8000, thorough: 480000, gen: genC08, judge: judgeC08, nontrivial: anyFault,
		rule: "Each scenario runs 1-6 failing calls, possibly killed, then fault-free calls in the same process and in a new process on the same disk. Non-trivial: a fault fired or the process was killed. Distinct: by operations, inputs, disk, kill and faults.",
		real: "step, glTF, shape, github.com/qmuntal/gltf, Go os and bufio"},
	{id: "C09", level: "exploration", note: "Sampled tables and orders; orders are compared with each other, no model of Parse is trusted.",
		technique: "deterministic simulation: seeded map iteration orders of one table compared with each other",
		quick:     30000, thorough: 1800000, gen: genC09, judge: judgeC09, nontrivial: manyOps,
		rule: "Each scenario parses 1-3 generated reference graphs six times each, with shuffled insertion and seeded iteration order. Non-trivial: more than one order. Distinct: by tables, shuffles and map seed.",
		real: "step (Parse)"},
	{id: "C10", level: "exploration", note: "Sampled reference graphs; the oracle adds up what each entity reports when it is processed alone, so it assumes reports are per entity, which the code's design says.",
		technique: "deterministic simulation: seeded iteration orders over generated reference graphs, reports counted against per-entity references, bounded steps",
		quick:     3600, thorough: 216000, gen: genC10, judge: judgeC10, nontrivial: stepsRun,
		rule: "Each scenario parses two generated reference graphs (cycles, self, shared and dangling references) three times each; the reports must be the sum of what the entities report alone. Non-trivial: at least one entity processed. Distinct: by tables, shuffles and map seed.",
		real: "step (Parse)"},
	{id: "C11", level: "exploration", note: "Sampled point lists and orders; compared with each other.",
		technique: "deterministic simulation: seeded map iteration orders of repeated tessellations compared with each other",
		quick:     24000, thorough: 1440000, gen: genC11, judge: judgeC11, nontrivial: manyOps,
		rule: "Each scenario tessellates one generated point list five times with different iteration orders. Non-trivial: more than one repetition. Distinct: by points and map seed.",
		real: "meshing, predicates, r3"},
	{id: "C12", level: "exploration", note: "Sampled schedules at statement granularity on one P; the race detector sees the simulated schedule with no synchronisation added by the simulator. Weak-memory effects beyond what the detector reports are not explored.",
		technique: "deterministic simulation: seeded statement-level interleavings with short reads and failures, results against solo runs, race detector", race: true,
		quick: 10000, thorough: 600000, gen: genC12, judge: judgeConc, nontrivial: switched, rule: ruleConc,
		real: "step, Go bufio, os, sync, race detector"},
	{id: "C13", level: "exploration", note: "As C12.",
		technique: "deterministic simulation: seeded statement-level interleavings with short writes and failures, results against solo runs, race detector", race: true,
		quick: 6000, thorough: 360000, gen: genC13, judge: judgeConc, nontrivial: switched, rule: ruleConc,
		real: "shape, glTF, github.com/qmuntal/gltf, Go os, sync, race detector"},
	{id: "C14", level: "exploration", note: "As C12.",
		technique: "deterministic simulation: seeded statement-level interleavings, results against solo runs, race detector", race: true,
		quick: 12000, thorough: 720000, gen: genC14, judge: judgeConc, nontrivial: switched, rule: ruleConc,
		real: "triangulate2, r3, sort, race detector"},
	{id: "C15", level: "exploration", note: "As C12.",
		technique: "deterministic simulation: seeded statement-level interleavings, results against solo runs, race detector", race: true,
		quick: 10000, thorough: 600000, gen: genC15, judge: judgeConc, nontrivial: switched, rule: ruleConc,
		real: "nurbs, go3d, race detector"},
	{id: "C16", level: "exploration", note: "Sampled operations and failing outputs; reference is the same run with working output. SIGPIPE is not delivered (EPIPE is).",
		technique: "deterministic simulation: seeded failing and short writes to standard output, results against runs with working output",
		quick:     16000, thorough: 960000, gen: genC16, judge: judgeConc, nontrivial: anyFault,
		rule: "Each scenario runs 1-8 printing operations with standard output failing throughout, from a random moment on, or now and then. Non-trivial: at least one fault fired. Distinct: by operations, inputs and realised faults.",
		real: "glTF, step, meshing, nurbs, triangulate2, triangulate3, Go fmt and os"},
	{id: "C17", level: "exploration", note: "As C12.",
		technique: "deterministic simulation: seeded statement-level interleavings, results against solo runs, race detector", race: true,
		quick: 8000, thorough: 480000, gen: genC17, judge: judgeConc, nontrivial: switched, rule: ruleConc,
		real: "meshing, triangulate3, predicates, r3, race detector"},
}

// allow grants files with very many lines, or very long ones, the steps that reading them takes.
func (s *scenario) allow() {
	for _, d := range s.Docs {
		n, size := 0, 0
		for _, p := range d.Pieces {
			size += len(p.Text)
			n += bytes.Count(p.Text, []byte("\n"))
		}
		if n < 1000 && size < 1<<18 {
			continue
		}
		for k := range s.Phases {
			if p := &s.Phases[k]; p.StepLimit < 2e9 {
				p.StepLimit = 2e9
			}
		}
	}
}

func (c *check) scenarios(e *env, r *rng, i int) ([]*scenario, error) {
	list, err := c.gen(e, r, i)
	if len(list) == 1 {
		list[0].lexers(r)
	}
	for _, s := range list {
		s.allow()
	}
	return list, err
}
