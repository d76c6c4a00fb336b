//go:build !sel || c24

package main

import (
	"encoding/json"
	"fmt"
	"math/bits"
	"regexp"
	"strconv"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"

	"verif/mc/core"
)

func init() { checks["C24"] = c24 }

var tokenRE = regexp.MustCompile(`[A-Za-z]+[0-9]+|-?[0-9]+`)

// texts renders v in every way that has to list the contents.
func texts(v any) map[string]string {
	m := map[string]string{
		"%v": fmt.Sprintf("%v", v), "%+v": fmt.Sprintf("%+v", v), "%s": fmt.Sprintf("%s", v),
		"Sprint": fmt.Sprint(v), "%v in a slice": fmt.Sprintf("%v", []any{v}),
	}
	if s, is := v.(fmt.Stringer); is {
		m["String()"] = s.String()
	}
	return m
}

// noPanicTexts renders v in ways whose text is not specified.
func noPanicTexts(v any) {
	for _, f := range []string{"%q", "%d", "%x", "%#v", "%T", "%5v", "%-5s", "%+5v", "%.2v", "%+s", "% v"} {
		if s := fmt.Sprintf(f, v); strings.Contains(s, "PANIC") {
			panic(fmt.Sprintf("Sprintf(%q): %s", f, s))
		}
	}
}

func checkSetText(u *Unit, what string, v any, mask uint32) {
	for how, s := range texts(v) {
		if strings.Contains(s, "PANIC=") {
			u.Failf("%s: %s panics: %s", what, how, s)
		}
		var seen uint32
		for _, tok := range tokenRE.FindAllString(s, -1) {
			i, err := strconv.Atoi(strings.TrimLeft(tok, "eqs"))
			if err != nil || i < 0 || i > 31 {
				u.Failf("%s: %s = %q lists %q", what, how, s, tok)
			}
			if seen>>uint(i)&1 != 0 {
				u.Failf("%s: %s = %q lists element %d twice", what, how, s, i)
			}
			seen |= 1 << uint(i)
		}
		u.Check(seen == mask, "%s: %s = %q, want the elements %s", what, how, s, core.MaskString(mask))
	}
	noPanicTexts(v)
}

// checkLimitedText renders a set with a limited number of elements: the ones
// shown are different elements of the set, and the rest is counted.
func checkLimitedText(u *Unit, s fmt.Formatter, mask uint32) {
	n := bits.OnesCount32(mask)
	for w := 0; w <= n+2; w++ {
		for _, verb := range []string{"%*v", "%*s"} {
			text := fmt.Sprintf(verb, w, s)
			shown, rest, cut := strings.Cut(text, "...(+")
			left := 0
			if cut {
				num, _, _ := strings.Cut(rest, ")")
				var err error
				left, err = strconv.Atoi(num)
				u.Check(err == nil && left > 0, "%s of width %d = %q", verb, w, text)
			}
			var seen uint32
			k := 0
			for _, tok := range tokenRE.FindAllString(shown, -1) {
				i, err := strconv.Atoi(strings.TrimLeft(tok, "eqs"))
				if err != nil || i < 0 || i > 31 || mask>>uint(i)&1 == 0 || seen>>uint(i)&1 != 0 {
					u.Failf("%s of width %d = %q lists %q", verb, w, text, tok)
				}
				seen |= 1 << uint(i)
				k++
			}
			u.Check(k+left == n && (k == n || k == w), "%s of width %d = %q of %d elements", verb, w, text, n)
		}
	}
}

func checkMapText(u *Unit, what string, v any, c core.Content) {
	for how, s := range texts(v) {
		if strings.Contains(s, "PANIC=") {
			u.Failf("%s: %s panics: %s", what, how, s)
		}
		got := core.EmptyContent()
		toks := tokenRE.FindAllString(s, -1)
		if len(toks)%2 != 0 {
			u.Failf("%s: %s = %q: a key without a value", what, how, s)
		}
		for i := 0; i+1 < len(toks); i += 2 {
			k, err1 := strconv.Atoi(strings.TrimPrefix(toks[i], "e"))
			val, err2 := strconv.Atoi(toks[i+1])
			if err1 != nil || err2 != nil || k < 0 || k >= len(got) || toks[i][0] != 'e' {
				u.Failf("%s: %s = %q lists %s:%s", what, how, s, toks[i], toks[i+1])
			}
			if got[k] >= 0 {
				u.Failf("%s: %s = %q lists key e%d twice", what, how, s, k)
			}
			got[k] = int8(val - 100)
		}
		u.Check(got == c, "%s: %s = %q, want %v", what, how, s, c)
	}
	noPanicTexts(v)
}

func c24(c *Ctx) {
	c24Sizes(c)
	g := geom(c)
	for n := 1; n <= 4; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, c.Thorough() || n <= 3), g) {
			s := s
			c.Unit("C24/sets/"+s.Name, func(u *Unit) { c24Sets(u, s, c.Thorough()) })
			c.Unit("C24/maps/"+s.Name, func(u *Unit) { c24Maps(u, s, c.Thorough()) })
		}
	}
	for n := 1; n <= 4; n++ {
		n := n
		c.Unit(fmt.Sprintf("C24/json/%d", n), func(u *Unit) { c24JSON(u, n) })
		c.Unit(fmt.Sprintf("C24/nested/%d", n), func(u *Unit) { c24Nested(u, n) })
	}
	for _, s := range []core.Shape{wideShape(30, g), groupShape("g", g, [2]int{12, g.Max}, [2]int{10, 1})} {
		s := s
		c.Unit("C24/large/"+s.Name, func(u *Unit) { c24Large(u, s) })
	}
	c.Unit("C24/intset", c24IntSet)
	c.Unit("C24/json/characters", func(u *Unit) { c24Chars(u, c.Thorough()) })
	c.Unit("C24/zero-values", c24Zero)
}

func c24Sets(u *Unit, s core.Shape, thorough bool) {
	un := core.UnivE(s)
	max := 120
	if thorough {
		max = 2000
	}
	sp := core.NewSetSpace(un, u, core.SpaceOpts{Where: true, NewSets: true, Binary: true, MaxBinary: 40})
	for _, i := range sp.Select(max) {
		st := &sp.States[i]
		u.Case(func() string { return "text of " + sp.Expr(i) })
		checkSetText(u, "Set", st.Set, st.Mask)
		checkSetText(u, "*Set", &st.Set, st.Mask)
		checkLimitedText(u, st.Set, st.Mask)
		checkSetText(u, "Set[any]", st.Set.AsSetAny(), st.Mask)
		checkSetText(u, "lazy.Frozen", lazy.Frozen(st.Set.AsSetAny()), st.Mask)
		var b frozen.SetBuilder[E]
		for r := st.Set.Range(); r.Next(); {
			b.Add(r.Value())
		}
		checkSetText(u, "SetBuilder", b, st.Mask)
		checkSetText(u, "*SetBuilder", &b, st.Mask)
		if b.Count() != bitsOf(st.Mask) {
			u.Failf("Count() of the builder changed by printing")
		}
		checkSetText(u, "Set from the builder", b.Finish(), st.Mask)
		checkSetText(u, "finished SetBuilder", &b, 0)
		// JSON
		data, err := json.Marshal(st.Set)
		if err != nil {
			u.Failf("json.Marshal: %v", err)
		}
		var back []E
		if err := json.Unmarshal(data, &back); err != nil {
			u.Failf("json %s: %v", data, err)
		}
		u.Check(len(back) == bitsOf(st.Mask), "json %s: %d elements", data, len(back))
		if d := core.ObserveSet(un, frozen.NewSet(back...), st.Mask); d != "" {
			u.Failf("json %s: %s", data, d)
		}
		direct, err := st.Set.MarshalJSON()
		u.Check(err == nil && sameJSON(direct, data), "MarshalJSON = %s, json.Marshal = %s", direct, data)
		u.Trans += 7
		u.Tick()
	}
	u.Sample("%d sets printed and encoded", len(sp.States))
}

func sameJSON(a, b []byte) bool {
	var x, y any
	return json.Unmarshal(a, &x) == nil && json.Unmarshal(b, &y) == nil && fmt.Sprint(x) == fmt.Sprint(y)
}

func c24Maps(u *Unit, s core.Shape, thorough bool) {
	sp := core.NewMapSpace(core.UnivE(s), 2, u, core.MSpaceOpts{NewMaps: true})
	max := 150
	if thorough {
		max = 2000
	}
	for _, i := range sp.Select(max) {
		st := &sp.States[i]
		u.Case(func() string { return "text of " + sp.Expr(i) })
		// values are printed as 100 and more, keys as e0, e1...
		m := frozen.MapMap(st.M, func(_ E, v int) int { return v + 100 })
		checkMapText(u, "Map", m, st.C)
		checkMapText(u, "*Map", &m, st.C)
		var b frozen.MapBuilder[E, int]
		for r := m.Range(); r.Next(); {
			kv := frozen.KV(r.Key(), r.Value())
			for how, s := range texts(kv) {
				t := tokenRE.FindAllString(s, -1)
				u.Check(len(t) == 2 && t[0] == r.Key().String() && t[1] == fmt.Sprint(r.Value()), "KeyValue: %s = %q", how, s)
			}
			b.Put(r.Key(), r.Value())
		}
		// printing a MapBuilder must not disturb it
		for _, f := range []string{"%v", "%+v", "%s", "%#v"} {
			_ = fmt.Sprintf(f, b)
			_ = fmt.Sprintf(f, &b)
		}
		checkMapText(u, "Map from the builder", b.Finish(), st.C)
		data, err := json.Marshal(st.M)
		if err != nil {
			u.Failf("json.Marshal: %v", err)
		}
		got := decodePairs[E, int](u, data)
		u.Check(len(got) == st.C.Count(), "json %s: %d entries", data, len(got))
		bm := core.EmptyContent()
		for _, kv := range got {
			bm[kv.Key.ID] = int8(kv.Value)
			u.Check(kv.Key == sp.U.El[kv.Key.ID], "json %s: key %+v", data, kv.Key)
		}
		u.Check(bm == st.C, "json %s, want %v", data, st.C)
		u.Trans += 5
		u.Tick()
	}
	u.Sample("%d maps printed and encoded", len(sp.States))
}

// decodePairs decodes an array of [key, value] pairs.
func decodePairs[K, V any](u *Unit, data []byte) []frozen.KeyValue[K, V] {
	var raw [][]json.RawMessage
	if err := json.Unmarshal(data, &raw); err != nil {
		u.Failf("json %s is not an array of pairs: %v", data, err)
	}
	var out []frozen.KeyValue[K, V]
	for _, p := range raw {
		var kv frozen.KeyValue[K, V]
		if len(p) != 2 {
			u.Failf("json %s is not an array of pairs", data)
		}
		if err := json.Unmarshal(p[0], &kv.Key); err != nil {
			u.Failf("json %s: key: %v", data, err)
		}
		if err := json.Unmarshal(p[1], &kv.Value); err != nil {
			u.Failf("json %s: value: %v", data, err)
		}
		out = append(out, kv)
	}
	return out
}

// c24JSON: all subsets of n awkward elements, and all maps from n awkward keys.
func c24JSON(u *Unit, n int) {
	strs := []string{"", "a\"b\\", "<é\u2028>", "1"}[:n]
	ints := []int{0, -1, 1 << 62, 7}[:n]
	fls := []float64{0.5, -1e300, 3, 1e-9}[:n]
	anys := []any{true, "x", 2.5, "2.5"}[:n]
	what := ""
	var mask int
	u.Case(func() string { return fmt.Sprintf("%s, subset %b", what, mask) })
	for mask = 0; mask < 1<<uint(n); mask++ {
		u.States++
		what = "Set[string]"
		jsonSet(u, strs, mask)
		what = "Set[int]"
		jsonSet(u, ints, mask)
		what = "Set[float64]"
		jsonSet(u, fls, mask)
		what = "Set[any]"
		jsonSet(u, anys, mask)
		what = "Map[string, V]"
		jsonObj(u, strs, ints, mask)
		jsonObj(u, strs, strs, mask)
		jsonObj(u, strs, anys, mask)
		what = "Map[int, V], Map[float64, V], Map of a named string type"
		jsonPairs(u, ints, strs, mask)
		jsonPairs(u, fls, ints, mask)
		jsonPairs(u, anys, ints, mask)
		type name string
		var names []name
		for _, s := range strs {
			names = append(names, name(s))
		}
		m := mapOf(names, ints, mask)
		data := marshal(u, m)
		// either encoding is a map from strings
		if len(data) > 0 && data[0] == '[' {
			jsonPairs(u, names, ints, mask)
		}
		// Map[string, Set] and Set[Map]
		what = "Map[string, Set[int]]"
		var ms frozen.Map[string, frozen.Set[int]]
		want := map[string]map[int]bool{}
		for i, k := range strs {
			if mask>>uint(i)&1 != 0 {
				sub := map[int]bool{}
				var s frozen.Set[int]
				for j := 0; j < i; j++ {
					s = s.With(ints[j])
					sub[ints[j]] = true
				}
				ms = ms.With(k, s)
				want[k] = sub
			}
		}
		var got map[string][]int
		data = marshal(u, ms)
		if err := json.Unmarshal(data, &got); err != nil {
			u.Failf("json %s: %v", data, err)
		}
		u.Check(len(got) == len(want), "json %s: %d entries", data, len(got))
		for k, v := range want {
			l, has := got[k]
			ok := has && l != nil && len(l) == len(v)
			for _, x := range l {
				ok = ok && v[x]
			}
			u.Check(ok, "json %s: key %q", data, k)
		}
	}
	u.Sample("all subsets of %q, %v and %v", strs, ints, fls)
}

// c24Chars: strings of one character, for every character of the lower planes
// that JSON can carry, of every two of the awkward ones, and of an awkward one
// between letters, as elements, keys and values.
func c24Chars(u *Unit, thorough bool) {
	var strs []string
	top := rune(0x2100)
	if thorough {
		top = 0x10ffff
	}
	for r := rune(0); r <= top; r++ {
		if r < 0xd800 || r > 0xdfff {
			strs = append(strs, string(r))
		}
	}
	odd := []rune("\x00\x01\a\b\t\n\v\f\r\x1b\x1f \"'/\\<>&{}[]:,u0\x7f\u0080\u00a0\u00ad\u2028\u2029\ufeff\ufffd\uffff\U0001f600\U000e0001\U0010ffff")
	for _, a := range odd {
		strs = append(strs, "a"+string(a)+"z")
		for _, b := range odd {
			strs = append(strs, string(a)+string(b))
		}
	}
	cur := ""
	u.Case(func() string { return fmt.Sprintf("JSON of the string %q as an element, a key and a value", cur) })
	for _, cur = range strs {
		one := []string{cur}
		jsonSet(u, one, 1)
		jsonObj(u, one, one, 1)
		jsonObj(u, []string{"k"}, one, 1)
		jsonPairs(u, []int{7}, one, 1)
		jsonSet(u, []any{cur}, 1)
		direct, err := frozen.NewMap(frozen.KV(cur, cur)).MarshalJSON()
		var back map[string]string
		u.Check(err == nil && json.Unmarshal(direct, &back) == nil && len(back) == 1 && back[cur] == cur, "MarshalJSON = %s, %v", direct, err)
		direct, err = frozen.NewSet(cur).MarshalJSON()
		var el []string
		u.Check(err == nil && json.Unmarshal(direct, &el) == nil && len(el) == 1 && el[0] == cur, "MarshalJSON = %s, %v", direct, err)
		u.States++
		u.Tick()
	}
	// all of the awkward ones in one set and one map
	cur = "(many)"
	for lo := 0; lo < len(strs); lo += 30 {
		part := strs[lo:min(lo+30, len(strs))]
		seen := map[string]bool{}
		var els []string
		for _, s := range part {
			if !seen[s] {
				seen[s] = true
				els = append(els, s)
			}
		}
		jsonSet(u, els, 1<<uint(len(els))-1)
		jsonObj(u, els, els, 1<<uint(len(els))-1)
	}
	u.Sample("%d strings", len(strs))
}

func marshal(u *Unit, v any) []byte {
	data, err := json.Marshal(v)
	if err != nil {
		u.Failf("json.Marshal: %v", err)
	}
	u.Trans++
	return data
}

func jsonSet[T comparable](u *Unit, els []T, mask int) {
	var s frozen.Set[T]
	want := map[T]bool{}
	for i, e := range els {
		if mask>>uint(i)&1 != 0 {
			s = s.With(e)
			want[e] = true
		}
	}
	data := marshal(u, s)
	var back []T
	if err := json.Unmarshal(data, &back); err != nil {
		u.Failf("json %s: %v", data, err)
	}
	u.Check(back != nil && len(back) == len(want), "json %s: %d elements, want %d", data, len(back), len(want))
	for _, e := range back {
		u.Check(want[e], "json %s: element %v", data, e)
		delete(want, e)
	}
}

func mapOf[K, V any](ks []K, vs []V, mask int) frozen.Map[K, V] {
	var m frozen.Map[K, V]
	for i, k := range ks {
		if mask>>uint(i)&1 != 0 {
			m = m.With(k, vs[(i+1)%len(vs)])
		}
	}
	return m
}

func jsonObj[V comparable](u *Unit, ks []string, vs []V, mask int) {
	data := marshal(u, mapOf(ks, vs, mask))
	var back map[string]V
	if err := json.Unmarshal(data, &back); err != nil {
		u.Failf("json %s: %v", data, err)
	}
	u.Check(back != nil && len(back) == bitsOf(uint32(mask)), "json %s: %d entries", data, len(back))
	for i, k := range ks {
		v, has := back[k]
		u.Check(has == (mask>>uint(i)&1 != 0) && (!has || v == vs[(i+1)%len(vs)]), "json %s: key %q: %v %v", data, k, v, has)
	}
}

func jsonPairs[K, V comparable](u *Unit, ks []K, vs []V, mask int) {
	data := marshal(u, mapOf(ks, vs, mask))
	got := decodePairs[K, V](u, data)
	u.Check(len(got) == bitsOf(uint32(mask)), "json %s: %d entries", data, len(got))
	for i, k := range ks {
		n := 0
		for _, kv := range got {
			if kv.Key == k {
				n++
				u.Check(kv.Value == vs[(i+1)%len(vs)], "json %s: key %v has value %v", data, k, kv.Value)
			}
		}
		u.Check(n == mask>>uint(i)&1, "json %s: key %v occurs %d times", data, k, n)
	}
}

// c24Nested: all sets of subsets, and maps to and from sets.
func c24Nested(u *Unit, n int) {
	if n > 3 {
		n = 3
	}
	els := []E{{ID: 0}, {ID: 1, H: 1 << 63}, {ID: 2, H: 0}}[:n]
	var subs []frozen.Set[E]
	for m := 0; m < 1<<uint(n); m++ {
		var s frozen.Set[E]
		for i, e := range els {
			if m>>uint(i)&1 != 0 {
				s = s.With(e)
			}
		}
		subs = append(subs, s)
	}
	k := uint(len(subs))
	var mask uint
	u.Case(func() string { return fmt.Sprintf("the set of the subsets number %v of %v", headOf2(mask), els) })
	for mask = 0; mask < 1<<k; mask++ {
		var ss frozen.Set[frozen.Set[E]]
		for i := range subs {
			if mask>>uint(i)&1 != 0 {
				ss = ss.With(subs[i])
			}
		}
		u.States++
		u.Trans++
		u.Tick()
		for how, s := range texts(ss) {
			if how == "%+v" || how == "%v in a slice" {
				continue
			}
			got, ok := parseSets(s)
			u.Check(ok && got == mask, "%s = %q", how, s)
		}
		noPanicTexts(ss)
		var back [][]E
		data := marshal(u, ss)
		if err := json.Unmarshal(data, &back); err != nil {
			u.Failf("json %s: %v", data, err)
		}
		var got uint
		for _, l := range back {
			m := uint(0)
			for _, e := range l {
				m |= 1 << uint(e.ID)
			}
			u.Check(got>>m&1 == 0 && bitsOf(uint32(m)) == len(l), "json %s", data)
			got |= 1 << m
		}
		u.Check(got == mask, "json %s", data)
	}
	u.Sample("all %d sets of subsets of %d elements", 1<<k, n)
}

func headOf2(m uint) []int {
	var h []int
	for i := 0; m != 0; i, m = i+1, m>>1 {
		if m&1 != 0 {
			h = append(h, i)
		}
	}
	return h
}

// parseSets reads the text of a set of sets of elements e0, e1...: an outer
// pair of brackets of any kind around inner ones.
func parseSets(s string) (mask uint, ok bool) {
	depth := 0
	cur := uint(0)
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{', '[', '(':
			depth++
			cur = 0
		case '}', ']', ')':
			depth--
			if depth == 1 {
				if mask>>cur&1 != 0 {
					return 0, false
				}
				mask |= 1 << cur
			}
		case 'e':
			i++
			if i == len(s) || depth != 2 || s[i] < '0' || s[i] > '9' {
				return 0, false
			}
			b := uint(1) << uint(s[i]-'0')
			if cur&b != 0 {
				return 0, false
			}
			cur |= b
		}
	}
	return mask, depth == 0
}

func c24Large(u *Unit, s core.Shape) {
	un := core.UnivE(s)
	var set frozen.Set[E]
	var m frozen.Map[E, int]
	u.Case(func() string { return fmt.Sprintf("%s\nthe first %d elements", un.Describe(), set.Count()) })
	mask := uint32(0)
	for i, e := range un.El {
		if i >= 31 {
			break
		}
		set = set.With(e)
		m = m.With(e, 100)
		mask |= 1 << uint(i)
		checkSetText(u, "Set", set, mask)
		checkLimitedText(u, set, mask)
		checkSetText(u, "Set", set.Where(func(e E) bool { return e.ID%2 == 0 }), mask&0x55555555)
		for how, s := range texts(m) {
			u.Check(len(tokenRE.FindAllString(s, -1)) == 2*(i+1), "Map of %d entries: %s = %q", i+1, how, s)
		}
		var back []E
		data := marshal(u, set)
		if err := json.Unmarshal(data, &back); err != nil {
			u.Failf("json %s: %v", data, err)
		}
		if d := core.ObserveSet(un, frozen.NewSet(back...), mask); d != "" || len(back) != i+1 {
			u.Failf("json %s: %s", data, d)
		}
		u.States++
	}
	u.Sample("sets and maps of up to %d elements", len(un.El))
}

func c24IntSet(u *Unit) {
	vals := []int{0, 1, 63, 64, -1, -64, -65, 1000}
	var mask int
	u.Case(func() string { return fmt.Sprintf("IntSet of subset %b of %v", mask, vals) })
	for mask = 0; mask < 1<<uint(len(vals)); mask++ {
		s := frozen.NewIntSet[int]()
		for i, v := range vals {
			if mask>>uint(i)&1 != 0 {
				s = s.With(v)
			}
		}
		u.States++
		for how, txt := range texts(s) {
			if how == "%+v" {
				continue // the cells
			}
			seen := 0
			n := 0
			for _, tok := range tokenRE.FindAllString(txt, -1) {
				x, _ := strconv.Atoi(tok)
				for i, v := range vals {
					if v == x {
						seen |= 1 << uint(i)
					}
				}
				n++
			}
			u.Trans++
			u.Check(seen == mask && n == bitsOf(uint32(mask)), "%s = %q", how, txt)
		}
		noPanicTexts(s)
	}
	u.Sample("all subsets of %v", vals)
}

// c24Zero: zero values and values holding nil.
func c24Zero(u *Unit) {
	u.Case(func() string { return "zero values" })
	for _, v := range []any{
		frozen.Set[int]{}, frozen.Set[any]{}, frozen.Set[frozen.Set[int]]{}, frozen.Map[int, int]{}, frozen.Map[string, any]{},
		frozen.Map[any, any]{}, frozen.IntSet[int]{}, frozen.SetBuilder[int]{}, &frozen.SetBuilder[string]{}, &frozen.MapBuilder[int, int]{},
		frozen.NewSet[int](), frozen.NewMap[int, int](), frozen.NewIntSet[int](), lazy.Frozen(frozen.Set[any]{}), lazy.EmptySet{},
		frozen.NewMap(frozen.KV("", any(nil))), frozen.NewSet(frozen.Set[int]{}), frozen.NewMap(frozen.KV(frozen.Set[int]{}, frozen.Map[int, int]{})),
		frozen.Set[int]{}.With(1).Without(1), frozen.Map[int, int]{}.With(1, 1).Without(1), frozen.NewIntSet(3).Without(3),
		frozen.KV(1, any(nil)), frozen.KV("", frozen.Set[int]{}),
	} {
		for how, s := range texts(v) {
			u.Check(!strings.Contains(s, "PANIC="), "%T: %s = %s", v, how, s)
		}
		noPanicTexts(v)
		u.Trans++
	}
	for _, v := range []any{frozen.Set[int]{}, frozen.NewSet(1).Without(1), frozen.Map[int, int]{}, frozen.Map[any, int]{}} {
		data := marshal(u, v)
		var l []any
		u.Check(json.Unmarshal(data, &l) == nil && l != nil && len(l) == 0, "%T: json %s", v, data)
	}
	for _, v := range []any{frozen.Map[string, int]{}, frozen.NewMap(frozen.KV("x", 1)).Without("x")} {
		data := marshal(u, v)
		var l map[string]any
		u.Check(json.Unmarshal(data, &l) == nil && l != nil && len(l) == 0, "%T: json %s", v, data)
	}
	data := marshal(u, frozen.NewMap(frozen.KV("n", any(nil)), frozen.KV("s", any(frozen.NewSet(1)))))
	var l map[string]any
	u.Check(json.Unmarshal(data, &l) == nil && len(l) == 2 && l["n"] == nil && fmt.Sprint(l["s"]) == "[1]", "json %s", data)
	u.Sample("zero values of every type")
}
