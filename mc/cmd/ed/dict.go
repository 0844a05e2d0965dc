package main

import (
	"regexp"
	"strings"

	"verifmc/dict"
)

// mentioned runs the operations on texts and with arguments that the code
// mentions, and at sizes and with counts that it mentions.
func (g *engine) mentioned(s spec) {
	words := dict.Texts()
	g.c.Bound("texts taken from the sources", len(words))
	ops := thin(append(append([]op{}, s.core...), thin(s.focus, 10)...), g.c.Pick(26, 80))
	g.c.Parallel(len(words), func(w, i int) {
		x := words[i]
		re := regexp.QuoteMeta(x)
		var own []op
		switch s.id {
		case "P03":
			own = []op{call("insert", x), call("replace-region", x)}
		case "P06":
			own = []op{call("search-forward", x), call("search-backward", x), call("re-search-forward", re), call("re-search-backward", re)}
			if _, err := regexp.Compile(x); err == nil {
				own = append(own, call("re-search-forward", x), call("re-search-backward", x))
			}
		case "P08":
			own = []op{call("looking-at", re), call("looking-back", re)}
			if _, err := regexp.Compile(x); err == nil {
				own = append(own, call("looking-at", x), call("looking-back", x))
			}
		}
		for _, t := range []string{x, "a " + x + " b\n" + x, x + x, "ab\n" + x + "\nab"} {
			for p := 1; p <= len(t)+1; p++ {
				if len(t) > 40 && p%3 != 0 && p > 4 {
					continue
				}
				use := append(own, ops...)
				if len(t) > 60 {
					use = own
				}
				for _, o := range use {
					g.one(w, t, p, 1, o, "")
					if s.mark {
						g.one(w, t, p, len(t)/2+1, o, "")
					}
				}
			}
			if s.id == "P07" {
				for _, f := range []op{call("search-forward", x), call("re-search-forward", re), call("search-forward", "ab"), call("re-search-forward", ".+")} {
					for _, r := range []string{x, "R", "", x + "R" + x} {
						g.seq(w, t, []op{f, call("replace-match", r), f, call("replace-match", "Q")})
						g.seq(w, t, []op{call("end-of-buffer"), call("search-backward", x), call("replace-match", r), call("replace-match", "Q")})
					}
				}
			}
		}
		g.c.States.Add(1)
	})
	g.c.Family("texts taken from the sources", int64(len(words)))

	counts := dict.Around(6, 1<<30)
	var list []op
	for _, n := range counts {
		for _, t := range s.counted {
			list = append(list, call(t.name, float64(n)), call(t.name, float64(-n)))
		}
	}
	g.c.Parallel(len(list), func(w, i int) {
		for _, t := range []string{strings.Repeat("ab c\n", 4000), strings.Repeat("w ", 10000), strings.Repeat("\n", 20000)} {
			for _, p := range []int{1, 2, len(t) / 2, len(t) + 1} {
				g.one(w, t, p, len(t)/3+1, list[i], "")
			}
		}
	})
	g.c.Family("counts taken from the sources", int64(len(list)))
}

// glued puts a word into a longer one, some text after it, and then the word
// on its own; searches must find the first.
func (g *engine) glued(s spec) {
	var gaps []int
	for k := 0; k <= 13; k++ {
		gaps = append(gaps, 1<<k-1, 1<<k, 1<<k+1)
	}
	gaps = append(gaps, 10, 70, 100, 200, 1000, 5000)
	gaps = append(gaps, dict.Around(3, 20000)...)
	words := []string{"ab", "a", "a_b", "Ab1", "é"}
	borders := []string{" ", "\n", ",", "(", "\"", "\t", "-", ""}
	glue := []string{"x", "_", "1", "A", "é", "-", "\n"}
	if !g.c.Thorough() {
		borders, glue = borders[:5], glue[:4]
	}
	g.c.Parallel(len(gaps)*len(words), func(w, i int) {
		gap, x := strings.Repeat("z", gaps[i/len(words)]), words[i%len(words)]
		re := regexp.QuoteMeta(x)
		var ops []op
		switch s.id {
		case "P06":
			ops = []op{call("search-forward", x), call("search-backward", x), call("re-search-forward", re), call("re-search-backward", re)}
			if i%3 == 0 {
				ops = append(ops, call("re-search-forward", "\\b"+re+"\\b"), call("re-search-backward", "\\b"+re+"\\b"))
			}
		case "P08":
			ops = []op{call("looking-at", "(?s).*"+re), call("looking-at", "(?s).*\\b"+re+"\\b"), call("looking-back", re+"(?s).*")}
			if len(gap) > 300 {
				return
			}
		}
		for bi, b := range borders {
			for gi, e := range glue {
				if len(gap) > 300 && (bi+gi+i)%4 != 0 {
					continue
				}
				for _, t := range []string{
					e + x + e + gap + b + x + b + gap + e + x + e,
					b + x + b + gap + e + x + e + gap + b + x + b,
					x + e + gap + b + x + b, b + x + b + gap + e + x,
				} {
					for _, p := range []int{1, 2, len(x) + 2, len(t)/2 + 1, len(t), len(t) + 1} {
						for _, o := range ops {
							g.one(w, t, p, 1, o, "")
						}
					}
					if s.id == "P07" {
						for _, o := range []op{call("search-forward", x), call("re-search-forward", re)} {
							g.seq(w, t, []op{o, call("replace-match", "R"), o, call("replace-match", "Q")})
						}
						g.seq(w, t, []op{call("end-of-buffer"), call("search-backward", x), call("replace-match", "R"), call("search-backward", x), call("replace-match", "Q")})
					}
				}
			}
		}
		g.c.States.Add(1)
	})
	g.c.Family("words inside words, far from words of their own", int64(len(gaps)*len(words)*len(borders)*len(glue)*4))
}
