//go:build !sel || c24

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"
)

// c24Sizes prints and encodes sets and maps of every size.
func c24Sizes(c *Ctx) {
	var ns []int
	top := 140
	if c.Thorough() {
		top = 500
	}
	for n := 0; n <= top; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 600, 1023, 1024, 1025, 4000, 10001, 70000)
	if c.Thorough() {
		ns = append(ns, 33000, 140000)
	}
	most := ns[len(ns)-1]
	// the elements are such that their text is of different lengths
	values := []struct {
		name string
		at   func(i int) int
	}{
		{"small", func(i int) int { return i }},
		{"long", func(i int) int { return (i - 20) * 123456789 }},
		{"powers", func(i int) int {
			if i > 4000 {
				return i * 1000003 // a prime, and no fifth power below 4000 has it
			}
			return i * i * i * i * i * (1 - i%2*2)
		}},
	}
	for _, v := range values {
		at := v.at
		c.Unit("C24/sizes/"+v.name, func(u *Unit) {
			n, what := 0, ""
			u.Case(func() string { return fmt.Sprintf("%s of %d entries of %s numbers", what, n, v.name) })
			pos := map[int]int{}
			for i := 0; i <= most; i++ {
				pos[at(i)] = i
			}
			// listed checks that the numbers in a text are the first n, each once,
			// every other one being the value of the key before it.
			numbers := func(how, s string) []int {
				if strings.Contains(s, "PANIC=") {
					u.Failf("%s: %s panics: %.200s", what, how, s)
				}
				var out []int
				for _, t := range tokenRE.FindAllString(s, -1) {
					i, err := strconv.Atoi(t)
					if err != nil {
						u.Failf("%s: %s lists %q: %.300s", what, how, t, s)
					}
					out = append(out, i)
				}
				return out
			}
			once := func(how string, list []int, s string) {
				u.Trans++
				seen := make([]bool, n)
				for _, x := range list {
					i, is := pos[x]
					if !is || i >= n || seen[i] {
						u.Failf("%s: %s lists %d, which is no element or there already: %.300s", what, how, x, s)
					}
					seen[i] = true
				}
				if len(list) != n {
					u.Failf("%s: %s lists %d elements, want %d: %.300s", what, how, len(list), n, s)
				}
			}
			text := func(x any) {
				for how, s := range texts(x) {
					once(how, numbers(how, s), s)
				}
				if n < 40 {
					noPanicTexts(x)
				}
			}
			val := func(i int) int { return 3*i + 7 }
			mapText := func(x any) {
				for how, s := range texts(x) {
					list := numbers(how, s)
					if len(list) != 2*n {
						u.Failf("%s: %s lists %d numbers, want %d: %.300s", what, how, len(list), 2*n, s)
					}
					var keys []int
					for i := 0; i+1 < len(list); i += 2 {
						if list[i+1] != val(pos[list[i]]) {
							u.Failf("%s: %s lists %d: %d: %.300s", what, how, list[i], list[i+1], s)
						}
						keys = append(keys, list[i])
					}
					once(how, keys, s)
				}
			}
			for _, n = range ns {
				u.Tick()
				u.States += 5
				what = "building"
				var sb frozen.SetBuilder[int]
				var ib []int
				var mb frozen.MapBuilder[int, int]
				var ms frozen.MapBuilder[string, int]
				var ss frozen.SetBuilder[string]
				for i := 0; i < n; i++ {
					sb.Add(at(i))
					ib = append(ib, at(i))
					mb.Put(at(i), val(i))
					ms.Put(strconv.Itoa(at(i)), val(i))
					ss.Add(strconv.Itoa(at(i)))
				}
				what = "SetBuilder"
				text(&sb)
				if sb.Count() != n {
					u.Failf("printing the builder changed its Count to %d", sb.Count())
				}
				s, m, sm, st := sb.Finish(), mb.Finish(), ms.Finish(), ss.Finish()
				is := frozen.NewIntSet(ib...)
				what = "Set[int]"
				text(s)
				what = "Set[any]"
				text(s.AsSetAny())
				what = "IntSet"
				for _, x := range []string{is.String(), fmt.Sprint(is), fmt.Sprintf("%v", is), fmt.Sprintf("%s", is), fmt.Sprint([]any{is})} {
					once("text", numbers("text", x), x)
				}
				what = "lazy.Frozen"
				text(lazy.Frozen(s.AsSetAny()))
				what = "Map[int, int]"
				mapText(m)
				what = "Map[string, int]"
				mapText(sm)
				what = "Set[Set[int]]"
				for how, x := range texts(frozen.NewSet(s)) {
					once(how, numbers(how, x), x)
				}
				what = "Set[string]"
				text(st)

				what = "json of Set[int]"
				data := marshal(u, s)
				var back []int
				if err := json.Unmarshal(data, &back); err != nil {
					u.Failf("json %.300s: %v", data, err)
				}
				once("json", back, string(data))
				direct, err := s.MarshalJSON()
				u.Check(err == nil && json.Valid(direct) && bytes.HasPrefix(bytes.TrimSpace(direct), []byte("[")), "MarshalJSON = %.300s, %v", direct, err)
				what = "json of Set[string]"
				var strs []string
				if err := json.Unmarshal(marshal(u, st), &strs); err != nil {
					u.Failf("json: %v", err)
				}
				back = nil
				for _, s := range strs {
					i, _ := strconv.Atoi(s)
					back = append(back, i)
				}
				once("json", back, "")
				what = "json of Map[int, int]"
				back = nil
				for _, kv := range decodePairs[int, int](u, marshal(u, m)) {
					u.Check(kv.Value == val(pos[kv.Key]), "key %d has value %d", kv.Key, kv.Value)
					back = append(back, kv.Key)
				}
				once("json", back, "")
				what = "json of Map[string, int]"
				data = marshal(u, sm)
				var obj map[string]int
				if err := json.Unmarshal(data, &obj); err != nil {
					u.Failf("json %.300s: %v", data, err)
				}
				back = nil
				for k, v := range obj {
					i, _ := strconv.Atoi(k)
					u.Check(v == val(pos[i]), "key %q has value %d", k, v)
					back = append(back, i)
				}
				once("json", back, string(data))
				u.Check(bytes.Count(data, []byte(":")) == n, "json has repeated keys: %.300s", data)
				what = "json of Map[string, Set[int]]"
				var nested map[string][]int
				data = marshal(u, frozen.NewMap(frozen.KV("a", s), frozen.KV("b", s.With(-1<<62))))
				if err := json.Unmarshal(data, &nested); err != nil {
					u.Failf("json %.300s: %v", data, err)
				}
				once("json", nested["a"], string(data))
				u.Check(len(nested["b"]) == n+1, "json %.300s", data)
				what = "the set and map afterwards"
				u.Check(s.Count() == n && m.Count() == n && is.Count() == n && len(s.Elements()) == n, "printing changed a value")
			}
			u.Sample("every size up to %d, and %v", top, ns[top+1:])
		})
	}
}
