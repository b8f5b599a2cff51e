package dateparser

// Writes harness/h/c18data.go from the CLDR names that cldr.js took from ICU:
//   node cldr.js /tmp/cldr.json
//   OUT=... CLDR=/tmp/cldr.json go test -overlay {"Replace": {"/repo/zz_test.go": "gen_test.go"}} -run TestGen .
// Names that the tables of the library do not know (it rejects them: they were
// renamed after the release of CLDR that the tables were made from) are left
// out and counted; a name that is read as something else is kept.

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"time"
)

type genLang struct {
	M, S, B, L, W, V, U []string
	R       map[string][][]string
}

func TestGen(t *testing.T) {
	b, _ := os.ReadFile(os.Getenv("CLDR"))
	var all map[string]genLang
	if err := json.Unmarshal(b, &all); err != nil {
		t.Fatal(err)
	}
	var names []string
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	now := time.Date(2021, 11, 5, 10, 20, 30, 0, time.UTC)
	units := []string{"second", "minute", "hour", "day", "week", "month", "year"}
	left := 0
	var out strings.Builder
	out.WriteString("package h\n\n// Code generated by tools/c18/gen_test.go from the CLDR names of ICU. DO NOT EDIT.\n\n")
	out.WriteString("type namesOf struct {\n\tlang   string\n\tmonths []nameOf // names and the number of the month\n\tlong []nameOf // whole dates, # the day and ## the year\n\tdays   []nameOf // names and the number of the weekday, Sunday being 0\n\tago    []amountOf\n}\n\ntype nameOf struct {\n\ttext string\n\tn    int\n}\n\n// amountOf is a pattern; # stands for one of the digits 5..9, ## for 10..19.\ntype amountOf struct {\n\ttext string\n\tunit int\n\tn    int // the amount, negative in the past; its sign alone where there are digits\n}\n\nvar cldr = []namesOf{\n")
	for _, l := range names {
		reads := func(s string) bool {
			_, e := (&Parser{}).Parse(&Configuration{Locales: []string{l}, CurrentTime: now}, s)
			return e == nil
		}
		// a name may be unknown and skipped, or a time zone
		ignored := func(a, n, b string) bool {
			x, e1 := (&Parser{}).Parse(&Configuration{Locales: []string{l}, CurrentTime: now}, a+n+b)
			y, e2 := (&Parser{}).Parse(&Configuration{Locales: []string{l}, CurrentTime: now}, a+"Xyz"+b)
			return e1 == nil && (e2 == nil && x.Time.Equal(y.Time) || x.Time.Location().String() != "UTC")
		}
		fmt.Fprintf(&out, "\t{%q,\n\t\t[]nameOf{", l)
		seen := map[string]bool{}
		bare := func(n string) string { return strings.ToLower(strings.Trim(n, ". ")) }
		// what else a short name may mean
		other := map[string]map[int]bool{"now": {-1: true}}
		mean := func(k int, names ...string) {
			for _, n := range names {
				if n = bare(n); other[n] == nil {
					other[n] = map[int]bool{}
				}
				other[n][k] = true
			}
		}
		for i := range 12 {
			mean(i, all[l].M[i], all[l].S[i], all[l].B[i])
		}
		for i := range 7 {
			mean(20+i, all[l].W[i], all[l].V[i])
		}
		mean(-2, all[l].U...)
		for i := 0; i < 12; i++ {
			for k, n := range []string{all[l].M[i], all[l].S[i], all[l].B[i]} {
				if n == "" || seen[n] || k == 2 && (len(other[bare(n)]) > 1 || other[bare(n)][-1]) {
					continue
				}
				seen[n] = true
				if !reads("15 " + n + " 2012") || ignored("15 ", n, " 2012") {
					left++
					continue
				}
				fmt.Fprintf(&out, "{%q, %d}, ", n, i+1)
			}
		}
		out.WriteString("},\n\t\t[]nameOf{")
		for i, n := range all[l].L {
			if strings.Count(n, "15") != 1 || strings.Count(n, "2012") != 1 {
				continue
			}
			if !reads(n) || !reads(strings.Replace(n, "15", "9", 1)) {
				left++
				continue
			}
			fmt.Fprintf(&out, "{%q, %d}, ", strings.Replace(strings.Replace(n, "2012", "##", 1), "15", "#", 1), i+1)
		}
		out.WriteString("},\n\t\t[]nameOf{")
		for k := range 14 {
			i, n := k%7, all[l].W[k%7]
			if k >= 7 {
				n = all[l].V[i]
			}
			if n == "" || seen[n] || k >= 7 && (len(other[bare(n)]) > 1 || other[bare(n)][-1]) {
				continue // also a month
			}
			seen[n] = true
			if !reads(n) {
				left++
				continue
			}
			fmt.Fprintf(&out, "{%q, %d}, ", n, (i+1)%7)
		}
		out.WriteString("},\n\t\t[]amountOf{")
		times := map[string]int{}
		for _, unit := range units {
			for i := range 4 {
				for dir := range 2 {
					times[all[l].R[unit][i][dir]]++
				}
			}
		}
		for u, unit := range units {
			for i, n := range []int{1, 2, 5, 10} {
				for dir := 0; dir < 2; dir++ {
					s := all[l].R[unit][i][dir]
					if times[s] > 1 || strings.ContainsAny(s[:1], "+-") || strings.HasPrefix(s, "±") {
						continue // ambiguous, or a pattern of CLDR's root (it has none for the language)
					}
					if !reads(s) {
						left++
						continue
					}
					k := n
					if dir == 0 {
						k = -n
					}
					switch i {
					case 2:
						if strings.Count(s, "5") != 1 {
							continue
						}
						s, k = strings.Replace(s, "5", "#", 1), k/5
					case 3:
						if strings.Count(s, "10") != 1 {
							continue
						}
						s, k = strings.Replace(s, "10", "##", 1), k/10
					}
					if seen[s] {
						continue
					}
					seen[s] = true
					fmt.Fprintf(&out, "{%q, %d, %d}, ", s, u, k)
				}
			}
		}
		out.WriteString("}},\n")
	}
	out.WriteString("}\n")
	s := strings.ReplaceAll(out.String(), ", }", "}")
	if err := os.WriteFile(os.Getenv("OUT"), []byte(s), 0o644); err != nil {
		t.Fatal(err)
	}
	fmt.Println("left out", left)
}
