package main

import "fmt"

type propPlan struct {
	configs func(tier string) []Config
	assume  []string
	post    func(prop, tier string, seed int64, rs []*childResult) []*Replay
}

var (
	cfgDefault = Config{Name: "default"}
	// every operation evaluates in parallel
	cfgPar     = Config{Name: "parallel", Env: []string{"FROZEN_CONCURRENCY=-30"}}
	cfgBranch4 = Config{Name: "branch4", V: Variant{Tags: "branch4"}}
)

// instr is a configuration of the controlled scheduler: GOMAXPROCS decides how
// many levels of the trie fan out.
func instr(name string, race bool, procs int, tags string) Config {
	return Config{
		Name: name, V: Variant{Instr: true, Race: race, Tags: tags}, Workers: 1, Shards: 8,
		Env: []string{"FROZEN_CONCURRENCY=-30", fmt.Sprintf("GOMAXPROCS=%d", procs)},
	}
}

func fixed(cs ...Config) func(string) []Config {
	return func(string) []Config { return cs }
}

var schedAssume = []string{
	"schedules interleave at goroutine creation, channel, sync and sync/atomic operations; between these the code is free of data races, " +
		"which the race detector confirms in the -race configurations on every explored schedule",
}

// c26Configs is the matrix of build tags, FROZEN_CONCURRENCY, GOMAXPROCS and hash
// seeds: in the thorough tier all combinations, in the quick tier enough of them
// to have every pair of values of two of these.
func c26Configs(tier string) []Config {
	tags := []string{"", "branch4", "branch16"}
	fcs := []string{"", "off", "OFF", "0", "1", "4", "-30", "15", "64", "junk", "-9223372036854775808", "9223372036854775807"}
	procs := []int{1, 2, 3, 8, 9, 64, 200, 2000}
	seeds := []int{0, 1, 2, 3, 4}
	var out []Config
	add := func(t, f, p, s int) {
		name := tags[t]
		if name == "" {
			name = "default"
		}
		out = append(out, Config{
			Name: fmt.Sprintf("%s, FROZEN_CONCURRENCY=%s, GOMAXPROCS=%d, hash seed %d", name, fcs[f], procs[p], seeds[s]),
			V:    Variant{Tags: tags[t]},
			Env: []string{
				"FROZEN_CONCURRENCY=" + fcs[f], fmt.Sprintf("GOMAXPROCS=%d", procs[p]),
				fmt.Sprintf("VERIF_HASHSEED=%d", seeds[s]),
			},
		})
	}
	for f := range fcs {
		for p := range procs {
			if tier != "thorough" {
				add((f+p)%3, f, p, (f+2*p)%5)
				continue
			}
			for t := range tags {
				for s := range seeds {
					add(t, f, p, s)
				}
			}
		}
	}
	return out
}

var plan = map[string]propPlan{
	"C01": {configs: fixed(cfgDefault, cfgBranch4)},
	"C02": {configs: fixed(cfgDefault, cfgPar, cfgBranch4)},
	"C03": {configs: fixed(cfgDefault, cfgPar)},
	"C04": {configs: fixed(cfgDefault, cfgPar, cfgBranch4)},
	"C05": {configs: fixed(cfgDefault, cfgBranch4)},
	"C06": {configs: fixed(cfgDefault, cfgBranch4)},
	"C07": {configs: fixed(cfgDefault, cfgBranch4)},
	"C08": {configs: fixed(cfgDefault, cfgBranch4)},
	"C09": {configs: fixed(cfgDefault, cfgBranch4)},
	"C10": {configs: fixed(cfgDefault, cfgPar, cfgBranch4)},
	"C11": {configs: fixed(cfgDefault, cfgPar)},
	"C12": {configs: fixed(cfgDefault, cfgBranch4)},
	"C13": {configs: fixed(cfgDefault, cfgPar)},
	"C14": {configs: func(tier string) []Config {
		cs := []Config{
			instr("one-level", false, 8, ""), instr("two-levels", false, 16, ""),
			instr("one-level-race", true, 8, ""), instr("two-levels-race", true, 16, ""),
			instr("two-processors", false, 2, ""), instr("three-processors", false, 3, ""),
		}
		if tier == "thorough" {
			cs = append(cs, instr("branch4-one-level", false, 4, "branch4"), instr("branch4-two-levels", false, 16, "branch4"))
		}
		return cs
	}, assume: schedAssume},
	"C15": {configs: func(tier string) []Config {
		seq := instr("sequential-race", true, 8, "")
		seq.Env = []string{"GOMAXPROCS=8"}
		cs := []Config{seq, instr("parallel-race", true, 8, "")}
		if tier == "thorough" {
			cs = append(cs, instr("parallel-two-levels-race", true, 16, ""), instr("parallel-branch4-race", true, 4, "branch4"))
		}
		return cs
	}, assume: schedAssume},
	"C16": {configs: fixed(cfgDefault)},
	"C17": {configs: fixed(cfgDefault, cfgPar)},
	"C18": {configs: fixed(cfgDefault)},
	"C19": {configs: fixed(cfgDefault)},
	"C20": {configs: func(string) []Config {
		plain, race := instr("plain", false, 8, ""), instr("race", true, 8, "")
		plain.Env, race.Env = []string{"GOMAXPROCS=8"}, []string{"GOMAXPROCS=8"}
		return []Config{plain, race}
	}, assume: schedAssume},
	"C21": {configs: fixed(cfgDefault)},
	"C22": {configs: fixed(cfgDefault, cfgPar)},
	"C23": {configs: fixed(cfgDefault, cfgPar)},
	"C24": {configs: fixed(cfgDefault)},
	"C25": {configs: fixed(cfgDefault)},
	"C26": {configs: c26Configs},
	"C27": {configs: func(tier string) []Config {
		// a fault is global in its process
		alone := func(c Config) Config {
			c.Workers, c.Shards = 1, 8
			return c
		}
		cs := []Config{alone(cfgDefault), alone(cfgPar), instr("schedules", false, 8, "")}
		if tier == "thorough" {
			cs = append(cs, alone(cfgBranch4), instr("schedules-two-levels", false, 16, ""), instr("schedules-branch4", false, 4, "branch4"))
		}
		return cs
	}, assume: schedAssume},
	"C28": {configs: fixed(cfgDefault, cfgPar, cfgBranch4)},
	"C29": {configs: fixed(cfgDefault, cfgPar)},
	"C30": {configs: fixed(cfgDefault, cfgPar, Config{Name: "branch4", V: Variant{Tags: "branch4"}, Env: []string{"FROZEN_CONCURRENCY=7"}})},
}
