package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// writeEvidence records what this run covered.
func writeEvidence(p *Property, base uint64, total Stats, distinct, redone, skips int, known map[string]int, search time.Duration, result, detail string, rc int) {
	hours := search.Hours()
	if hours <= 0 {
		hours = 1e-9
	}
	var samples []any
	for i := 0; i < 3 && i < total.Runs; i++ {
		c := genCase(p, base, i, *tier)
		samples = append(samples, map[string]any{"scenario": c.Scenario, "seed": c.Seed, "config": c.Config})
	}
	if samples == nil {
		samples = []any{}
	}
	stubs := append([]string{
		"operating system: goroutine scheduler, locks, channels, clocks and timers, math/rand, file system, stdin/stdout/stderr, process exit (package cfsim/sim decides all of them from the seed)",
	}, p.Stub...)
	cov := map[string]any{
		"evaluations":               total.Runs,
		"distinct_nontrivial":       distinct,
		"rule":                      "a case is a scenario with a configuration, a random stream, a schedule and a fault plan, all derived from one seed; non-trivial: more than one goroutine ran, or a fault, crash or cut read fired, or random draws were made; distinct: different hash over every scheduling decision, random draw, file content and output of the history",
		"samples":                   samples,
		"program_runs":              total.Execs,
		"program_runs_multi_thread": total.MultiG,
		"simulated_runs_per_hour":   float64(total.Execs) / hours,
		"seeds_per_hour":            float64(total.Runs) / hours,
		"statements_executed":       total.Steps,
		"context_switches":          total.Switches,
		"preemptions":               total.Preempts,
		"sync_operations":           total.SyncOps,
		"file_operations":           total.FileOps,
		"random_draws":              total.Draws,
		"simulated_seconds":         float64(total.SimTime) / 1e9,
		"faults_fired":              total.Fired,
		"conditions_reached":        total.Probes,
		"scenarios":                 total.Scenarios,
		"determinism_rechecked":     redone,
		"skipped":                   skips,
		"known_findings_met":        known,
		"components_real":           p.Real,
		"components_stubbed":        stubs,
		"distinct_measure":          "hash of schedule, draws, outputs and files per history",
		"search_seconds":            search.Seconds(),
		"result":                    result,
		"detail":                    detail,
		"worker_processes":          *workers,
	}
	ev := map[string]any{
		"property": p.ID, "tier": *tier, "seed": int64(base & (1<<62 - 1)), "level": "exploration", "coverage": cov,
		"assumptions": append([]string{
			"the instrumented copy behaves like the original except for the operations named as stubbed",
			"preemption happens between statements and between computing and storing a value, under sequentially consistent memory; weaker behaviour is covered by the race detector in the properties that name it",
		}, p.assumptions()...),
		"wall_s": search.Seconds(), "violations": rc,
	}
	dir := filepath.Join(*verifDir, "evidence")
	os.MkdirAll(dir, 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die(err)
	}
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0644); err != nil {
		die(err)
	}
}

func (p *Property) assumptions() []string {
	if p.Notes == "" {
		return nil
	}
	return strings.Split(p.Notes, "\n")
}
