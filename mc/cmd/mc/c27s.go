//go:build vsched && (!sel || c27)

package main

import (
	"fmt"

	"verif/mc/core"
)

func init() { c27Sched = c27Schedules }

// c27Schedules: in every schedule within the bound, for every call that panics.
func c27Schedules(c *Ctx, u *Unit, s core.Shape, o pOp, want, operands string, calls int64) {
	schedCtx()
	sp := delay(2)
	if c.Thorough() {
		sp = delay(3)
	}
	for k := int64(1); k <= calls; k++ {
		var (
			w   *pWorld
			f   *fault
			res func(*pWorld) string
			p   any
		)
		explore(u, sp, func() string {
			return fmt.Sprintf("%s (%s): call %d of %d panics (%s)", o.name, s.Name, k, calls, sp)
		}, func() []func() {
			w, f, res, p = newPWorld(s), &fault{at: k}, nil, nil
			return []func(){func() { res, p = pRun(w, o, f) }}
		}, false, func(*exec) string {
			return w.judge(o, f, res, p, want, operands)
		})
	}
	u.Sample("%s: each of %d calls panics: %d executions", o.name, calls, u.Traces)
}
