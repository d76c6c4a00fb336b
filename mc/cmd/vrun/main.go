// Command vrun is the driver of the checks: it builds the exploration harness
// against the current working tree of arr-ai/frozen in the configurations a
// property needs, runs one child process per configuration, merges what they
// covered into the evidence file and reports violations.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/mc/core"
)

// Variant is one build of the harness.
type Variant struct {
	Tags  string
	Race  bool
	Instr bool // instrumented for the controlled scheduler
}

func (v Variant) key() string {
	k := "plain"
	if v.Instr {
		k = "sched"
	}
	if v.Race {
		k += "-race"
	}
	if v.Tags != "" {
		k += "-" + v.Tags
	}
	return k
}

// Config is one child process.
type Config struct {
	Name    string
	V       Variant
	Env     []string
	Workers int
	Shards  int // processes that share the units
}

// Known is an entry of KNOWN_FINDINGS.json.
type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Key      string `json:"key,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func fatal(code int, format string, args ...any) {
	fmt.Fprintf(os.Stderr, "vrun: "+format+"\n", args...)
	os.Exit(code)
}

var verif string

func main() {
	if len(os.Args) < 2 {
		fatal(3, "usage: vrun Cxx quick|thorough | vrun replay FILE | vrun setup")
	}
	verif = os.Getenv("VERIF_DIR")
	if verif == "" {
		fatal(3, "VERIF_DIR is not set")
	}
	switch os.Args[1] {
	case "setup":
		setup()
	case "replay":
		replay(os.Args[2])
	case "instrument": // DIR [tags]: for development
		o, note, err := instrument(os.Args[2], os.Args[3:])
		if err != nil {
			fatal(3, "%v", err)
		}
		fmt.Println(o, note)
	default:
		tier := "quick"
		if len(os.Args) > 2 {
			tier = os.Args[2]
		}
		check(os.Args[1], tier)
	}
}

type builder struct {
	dir   string
	bins  map[string]string
	notes []string
}

func newBuilder() *builder {
	dir, err := os.MkdirTemp("", "vrun-")
	if err != nil {
		fatal(3, "%v", err)
	}
	return &builder{dir: dir, bins: map[string]string{}}
}

func (b *builder) close() { os.RemoveAll(b.dir) }

// build compiles the harness; the working tree of /repo is what is compiled.
// Only the files of the property are compiled in: instantiating the generic
// types for all of them takes most of a minute.
func (b *builder) build(prop string, v Variant) (string, error) {
	key := prop + "-" + v.key()
	if bin, has := b.bins[key]; has {
		return bin, nil
	}
	bin := filepath.Join(b.dir, "mc-"+key)
	args := []string{"build", "-o", bin}
	tags := []string{"sel", strings.ToLower(prop)}
	if v.Tags != "" {
		tags = append(tags, v.Tags)
	}
	if v.Instr {
		tags = append(tags, "vsched")
	}
	args = append(args, "-tags", strings.Join(tags, ","))
	if v.Race {
		args = append(args, "-race")
	}
	gobuild := func(extra ...string) error {
		args := append(append(append([]string{}, args...), extra...), "./cmd/mc")
		cmd := exec.Command("go", args...)
		cmd.Dir = filepath.Join(verif, "mc")
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, out)
		}
		return nil
	}
	var err error
	if v.Instr {
		var overlay, note string
		overlay, note, err = instrument(filepath.Join(b.dir, "overlay-"+key), tags)
		if err != nil {
			return "", err
		}
		if err = gobuild("-overlay", overlay); err != nil {
			// the rewritten tree does not compile: run the tree as it is, its
			// goroutines are then scheduled by the Go runtime
			note = "the working tree could not be instrumented: " + err.Error()
			if overlay, err = bareOverlay(overlay); err == nil {
				err = gobuild("-overlay", overlay)
			}
		}
		if note != "" {
			b.notes = append(b.notes, key+": "+note)
		}
	} else {
		err = gobuild()
	}
	if err != nil {
		return "", err
	}
	b.bins[key] = bin
	return bin, nil
}

type childResult struct {
	cfg     Config
	frag    *core.Fragment
	exit    int
	sig     syscall.Signal
	timeout bool
	out     string
}

func (b *builder) run(prop, tier string, seed int64, cfg Config, deadline, hard time.Duration, known []string, extra ...string) (*childResult, error) {
	if _, err := b.build(prop, cfg.V); err != nil {
		return nil, err
	}
	if cfg.Shards <= 1 || len(extra) > 0 {
		return b.run1(prop, tier, seed, cfg, deadline, hard, known, 0, extra...)
	}
	rs := make([]*childResult, cfg.Shards)
	errs := make([]error, cfg.Shards)
	var wg sync.WaitGroup
	for i := range rs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rs[i], errs[i] = b.run1(prop, tier, seed, cfg, deadline, hard, known, i, "-shard", fmt.Sprintf("%d/%d", i, cfg.Shards))
		}()
	}
	wg.Wait()
	var res *childResult
	for i, r := range rs {
		if errs[i] != nil {
			return nil, errs[i]
		}
		if r.exit != 0 || r.sig != 0 || r.frag == nil {
			return r, nil // the first one that failed
		}
		if res == nil {
			res = r
			continue
		}
		f, g := res.frag, r.frag
		f.Units += g.Units
		f.UnitsDone += g.UnitsDone
		f.States += g.States
		f.Trans += g.Trans
		f.Traces += g.Traces
		f.Evals += g.Evals
		if f.Cov == nil {
			f.Cov = map[string]int64{}
		}
		for k, v := range g.Cov {
			if strings.HasPrefix(k, "max ") {
				f.Cov[k] = max(f.Cov[k], v)
			} else {
				f.Cov[k] += v
			}
		}
		f.Samples = append(f.Samples, g.Samples...)
		f.Capped = append(f.Capped, g.Capped...)
		f.Known = append(f.Known, g.Known...)
		f.WallS = max(f.WallS, g.WallS)
		res.out += r.out
	}
	return res, nil
}

func (b *builder) run1(prop, tier string, seed int64, cfg Config, deadline, hard time.Duration, known []string, shard int, extra ...string) (*childResult, error) {
	bin, err := b.build(prop, cfg.V)
	if err != nil {
		return nil, err
	}
	frag := filepath.Join(b.dir, fmt.Sprintf("frag-%s-%s-%d-%d.json", prop, cfg.Name, shard, time.Now().UnixNano()))
	workers := cfg.Workers
	if workers == 0 {
		workers = 8
	}
	args := []string{
		"-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-config", cfg.Name, "-out", frag,
		"-deadline", fmt.Sprintf("%.1f", deadline.Seconds()), "-known", strings.Join(known, ","),
		"-workers", fmt.Sprint(workers),
	}
	args = append(args, extra...)
	ctx, cancel := context.WithTimeout(context.Background(), hard)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = b.dir
	cmd.Env = append(append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66"), cfg.Env...)
	var out tail
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	res := &childResult{cfg: cfg, out: out.String(), timeout: ctx.Err() != nil}
	if err != nil {
		res.exit = -1
		if ee, is := err.(*exec.ExitError); is {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() {
				res.sig = ws.Signal()
			} else {
				res.exit = ws.ExitStatus()
			}
		} else {
			return nil, err
		}
	}
	if data, err := os.ReadFile(frag); err == nil {
		fr := &core.Fragment{}
		if json.Unmarshal(data, fr) == nil {
			res.frag = fr
		}
		os.Remove(frag)
	}
	return res, nil
}

// tail keeps the beginning and the end of the output.
type tail struct {
	head, end bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	n := len(p)
	if room := 24<<10 - t.head.Len(); room > 0 {
		k := min(room, len(p))
		t.head.Write(p[:k])
		p = p[k:]
	}
	t.end.Write(p)
	if t.end.Len() > 128<<10 {
		b := append([]byte(nil), t.end.Bytes()[t.end.Len()-24<<10:]...)
		t.end.Reset()
		t.end.Write(b)
	}
	return n, nil
}

func (t *tail) String() string {
	e := t.end.Bytes()
	if len(e) > 24<<10 {
		e = e[len(e)-24<<10:]
	}
	return t.head.String() + string(e)
}

func lastUnit(out string) string {
	unit := ""
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "UNIT ") {
			unit = strings.TrimPrefix(l, "UNIT ")
		}
	}
	return unit
}

// Replay is what a replay file holds.
type Replay struct {
	Property  string          `json:"property"`
	Tier      string          `json:"tier"`
	Seed      int64           `json:"seed"`
	Config    string          `json:"config"`
	Env       []string        `json:"env,omitempty"`
	Violation *core.Violation `json:"violation"`
	Again     string          `json:"reproduced"`
	Command   string          `json:"command"`
}

func check(prop, tier string) {
	start := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	pl, has := plan[prop]
	if !has {
		fatal(3, "unknown property %s", prop)
	}
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	known, keys := loadKnown(prop)
	b := newBuilder()
	defer b.close()

	var results []*childResult
	var violations []*Replay
	var errs []string
	configs := pl.configs(tier)
	for i, cfg := range configs {
		left := budget - time.Since(start)
		if left < time.Second {
			left = time.Second
		}
		// leave something for the configurations to come
		dl := left * 3 / time.Duration(3+2*(len(configs)-1-i))
		hard := dl + 400*time.Second
		r, err := b.run(prop, tier, seed, cfg, dl, hard, keys)
		if err != nil {
			errs = append(errs, fmt.Sprintf("%s: %v", cfg.Name, err))
			continue
		}
		results = append(results, r)
		vs, err := b.judge(prop, tier, seed, r, keys)
		if err != nil {
			errs = append(errs, fmt.Sprintf("%s: %v", cfg.Name, err))
		}
		violations = append(violations, vs...)
		if len(violations) > 0 {
			break
		}
	}
	if pl.post != nil && len(violations) == 0 && len(errs) == 0 {
		violations = append(violations, pl.post(prop, tier, seed, results)...)
	}
	for _, n := range b.notes {
		fmt.Println("note:", n)
	}
	writeEvidence(prop, tier, seed, results, violations, b.notes, time.Since(start))

	for _, k := range known {
		if k.Status == "known" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
		}
	}
	if len(violations) > 0 {
		dir := filepath.Join(verif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		for i, v := range violations {
			if i > 2 {
				break
			}
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
			v.Command = "./run.sh replay " + p
			data, _ := json.MarshalIndent(v, "", "  ")
			_ = os.WriteFile(p, data, 0o644)
			fmt.Printf("config %s, unit %s (%s; %s)\n%s\n%s\n", v.Config, v.Violation.Unit, v.Violation.Kind, v.Again,
				v.Violation.Case, v.Violation.Desc)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		}
		b.close()
		os.Exit(1)
	}
	if len(errs) > 0 {
		b.close()
		fatal(3, "%s", strings.Join(errs, "\n"))
	}
	var st, tr int64
	capped := 0
	if os.Getenv("MC_TIMES") != "" {
		for _, r := range results {
			fmt.Println(r.cfg.Name)
			fmt.Print(r.out)
		}
	}
	for _, r := range results {
		st += r.frag.States
		tr += r.frag.Trans
		capped += len(r.frag.Capped)
	}
	fmt.Printf("ok property=%s tier=%s states=%d transitions=%d configurations=%d capped=%d wall=%.1fs\n",
		prop, tier, st, tr, len(results), capped, time.Since(start).Seconds())
}

// judge turns the result of a child into violations.
func (b *builder) judge(prop, tier string, seed int64, r *childResult, keys []string) ([]*Replay, error) {
	mk := func(v *core.Violation) *Replay {
		return &Replay{Property: prop, Tier: tier, Seed: seed, Config: r.cfg.Name, Env: r.cfg.Env, Violation: v}
	}
	again := func(rep *Replay) {
		if rep.Violation.Unit == "" || rep.Violation.Kind == "hang" {
			rep.Again = "not re-run"
			return
		}
		n := 0
		const runs = 3
		for i := 0; i < runs; i++ {
			r2, err := b.run(prop, tier, seed, r.cfg, 60*time.Second, 120*time.Second, keys, "-only", rep.Violation.Unit)
			if err == nil && (r2.exit != 0 || r2.sig != 0) {
				n++
			}
		}
		rep.Again = fmt.Sprintf("unit run alone fails %d of %d times", n, runs)
	}
	if r.frag != nil && len(r.frag.Violations) > 0 {
		var reps []*Replay
		for _, v := range r.frag.Violations {
			rep := mk(v)
			if len(reps) == 0 {
				again(rep)
			}
			reps = append(reps, rep)
		}
		return reps, nil
	}
	switch {
	case r.exit == 0 && r.sig == 0 && r.frag != nil:
		return nil, nil
	case r.timeout:
		return nil, fmt.Errorf("the child did not stop at its deadline\n%s", r.out)
	case r.sig == syscall.SIGKILL:
		return nil, fmt.Errorf("child was killed")
	case r.exit == 3:
		return nil, fmt.Errorf("child failed:\n%s", r.out)
	}
	// a crash of the process: a fatal runtime error, a panic in a goroutine of
	// the library, or a report of the race detector
	kind := "crash"
	if r.exit == 66 {
		kind = "data race"
	}
	v := &core.Violation{Kind: kind, Desc: r.out}
	if r2, err := b.run(prop, tier, seed, r.cfg, 200*time.Second, 240*time.Second, keys, "-trace", "-workers", "1"); err == nil && (r2.exit != 0 || r2.sig != 0) {
		v.Unit = lastUnit(r2.out)
	}
	rep := mk(v)
	again(rep)
	return []*Replay{rep}, nil
}

func loadKnown(prop string) (mine []Known, keys []string) {
	data, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.json"))
	if err != nil {
		return nil, nil
	}
	var all struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(data, &all); err != nil {
		fatal(3, "KNOWN_FINDINGS.json: %v", err)
	}
	for _, k := range all.Findings {
		if k.Property == prop {
			mine = append(mine, k)
			if k.Status == "known" {
				keys = append(keys, k.Key)
			}
		}
	}
	return
}

func writeEvidence(prop, tier string, seed int64, results []*childResult, violations []*Replay, notes []string, wall time.Duration) {
	var st, tr, traces, evals int64
	cov := map[string]int64{}
	configs := []any{}
	samples := []string{}
	exhaustive := true
	var capped []string
	for _, r := range results {
		c := map[string]any{"name": r.cfg.Name, "build": r.cfg.V.key(), "env": r.cfg.Env}
		if f := r.frag; f != nil {
			st += f.States
			tr += f.Trans
			traces += f.Traces
			evals += f.Evals
			for k, v := range f.Cov {
				if strings.HasPrefix(k, "max ") {
					cov[k] = max(cov[k], v)
				} else {
					cov[k] += v
				}
			}
			c["units"], c["units_done"], c["states"], c["transitions"] = f.Units, f.UnitsDone, f.States, f.Trans
			c["traces"], c["wall_s"] = f.Traces, f.WallS
			for i, s := range f.Samples {
				if i < 6 && len(samples) < 16 {
					if len(s) > 600 {
						s = s[:600] + "..."
					}
					samples = append(samples, "["+r.cfg.Name+"] "+s)
				}
			}
			if len(f.Capped) > 0 || f.UnitsDone < f.Units {
				exhaustive = false
				for i, s := range f.Capped {
					if i < 5 {
						capped = append(capped, r.cfg.Name+": "+s)
					}
				}
			}
		} else {
			exhaustive = false
		}
		configs = append(configs, c)
	}
	sort.Strings(samples)
	coverage := map[string]any{
		"states": st, "transitions": tr, "traces_validated_against_impl": traces,
		"comparisons_with_oracle": evals,
		"samples":                 samples, "exhaustive": exhaustive && len(violations) == 0,
		"configurations": configs,
	}
	if len(cov) > 0 {
		coverage["counters"] = cov
	}
	for _, n := range notes {
		exhaustive = false
		if len(n) > 2000 {
			n = n[:2000]
		}
		capped = append(capped, n)
	}
	coverage["exhaustive"] = exhaustive && len(violations) == 0
	if len(capped) > 0 {
		coverage["not_covered"] = capped
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": coverage, "wall_s": wall.Seconds(), "violations": len(violations),
		"assumptions": append([]string{
			"the reference model in /verif/mc (bit masks, Go maps and slices) states the property correctly",
			"bounds: exactly the configurations and units listed; see DESIGN.md for the space of each unit",
		}, plan[prop].assume...),
	}
	data, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(3, "%v", err)
	}
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), data, 0o644); err != nil {
		fatal(3, "%v", err)
	}
}

func replay(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		fatal(3, "%v", err)
	}
	var rep Replay
	if err := json.Unmarshal(data, &rep); err != nil {
		fatal(3, "%v", err)
	}
	_, keys := loadKnown(rep.Property)
	b := newBuilder()
	defer b.close()
	for _, cfg := range plan[rep.Property].configs(rep.Tier) {
		if cfg.Name != rep.Config {
			continue
		}
		r, err := b.run(rep.Property, rep.Tier, rep.Seed, cfg, 10*time.Minute, 20*time.Minute, keys, "-only", rep.Violation.Unit)
		if err != nil {
			fatal(3, "%v", err)
		}
		fmt.Println(r.out)
		if r.exit != 0 || r.sig != 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, path)
			b.close()
			os.Exit(1)
		}
		fmt.Println("not reproduced")
		return
	}
	fatal(3, "no such configuration")
}

func setup() {
	b := newBuilder()
	defer b.close()
	for _, v := range []Variant{{}, {Race: true}} {
		if _, err := b.build("C01", v); err != nil {
			b.close()
			fatal(3, "%v", err)
		}
	}
	fmt.Println("harness builds")
}
