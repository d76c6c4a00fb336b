// Command mc runs the exploration of one property in one configuration and
// writes a fragment of the evidence. It is started by vrun.
package main

import (
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"verif/mc/core"
)

var checks = map[string]func(*core.Ctx){}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int64("seed", 1, "seed")
	config := flag.String("config", "default", "configuration name")
	out := flag.String("out", "", "fragment")
	only := flag.String("only", "", "run one unit only")
	list := flag.Bool("list", false, "list the units")
	trace := flag.Bool("trace", false, "announce units")
	workers := flag.Int("workers", 8, "parallel units")
	deadline := flag.Float64("deadline", 600, "seconds")
	known := flag.String("known", "", "comma-separated keys of known findings")
	shard := flag.String("shard", "", "i/n: run every n-th unit")
	flag.Parse()

	if os.Getenv("GOGC") == "" {
		debug.SetGCPercent(400)
	}
	log.SetOutput(io.Discard) // rel.Nest logs
	f := checks[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(3)
	}
	c := &core.Ctx{
		Prop: *prop, Tier: *tier, Seed: *seed, Config: *config, Only: *only, Trace: *trace,
		Deadline: time.Now().Add(time.Duration(*deadline * float64(time.Second))),
		Known:    map[string]bool{},
	}
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			c.Known[k] = true
		}
	}
	if *shard != "" {
		if _, err := fmt.Sscanf(*shard, "%d/%d", &c.Shard, &c.Shards); err != nil {
			fmt.Fprintln(os.Stderr, "bad shard", *shard)
			os.Exit(3)
		}
	}
	f(c)
	if *list {
		for _, n := range c.Names() {
			fmt.Println(n)
		}
		return
	}
	if pf := os.Getenv("MC_PROF"); pf != "" {
		w, err := os.Create(pf)
		if err == nil {
			_ = pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	fr := c.Run(*out, *workers)
	if len(fr.Violations) > 0 {
		for _, v := range fr.Violations {
			fmt.Printf("FAIL unit=%s kind=%s\n%s\n%s\n", v.Unit, v.Kind, v.Case, v.Desc)
		}
		os.Exit(1)
	}
}
