package main

import (
	"context"
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"verifmc/dict"

	"github.com/dhamidi/texted/edlisp"
	"github.com/dhamidi/texted/tools"
	"verifmc/rep"
)

// P25: the documentation against the registered functions, under every order
// in which the runtime may iterate over its maps.

func docTool(args map[string]any) (string, bool) {
	return said(tools.TextedDocHandler(context.Background(), request(args)))
}

var (
	reBullet = regexp.MustCompile(`(?m)^- (\S+)$`)
	reBold   = regexp.MustCompile(`(?m)^- \*\*(.+?)\*\*: (.*)$`)
	reIndent = regexp.MustCompile(`(?m)^  (\S+)$`)
	reHead   = regexp.MustCompile(`(?m)^## (.*)$`)
	reNum    = regexp.MustCompile(`(\d+) total|Found (\d+) function`)
)

func firsts(m [][]string) []string {
	r := []string{}
	for _, x := range m {
		r = append(r, x[1])
	}
	return r
}

// inOrder says which of the parts does not occur in the text after the ones
// before it, or "".
func inOrder(text string, parts []string) string {
	for _, p := range parts {
		i := strings.Index(text, p)
		if i < 0 {
			return p
		}
		text = text[i+len(p):]
	}
	return ""
}

type docView struct {
	all   []edlisp.FunctionDoc
	cats  []string
	byCat map[string][]edlisp.FunctionDoc
	tool  map[string]string
	count int
}

func viewDocs() docView {
	v := docView{all: edlisp.GetAllDocumentation(), cats: edlisp.GetCategories(), byCat: map[string][]edlisp.FunctionDoc{},
		tool: map[string]string{}, count: edlisp.GetRegisteredFunctionCount()}
	ask := func(name string, args map[string]any) {
		t, e := docTool(args)
		v.tool[name] = fmt.Sprint(e, " ", t)
	}
	for _, verbose := range []bool{false, true} {
		ask(fmt.Sprint("list ", verbose), map[string]any{"verbose": verbose})
		for _, c := range v.cats {
			v.byCat[c] = edlisp.GetDocumentationByCategory(c)
			ask(fmt.Sprint("category ", c, " ", verbose), map[string]any{"category": c, "verbose": verbose})
		}
	}
	ask("unknown category", map[string]any{"category": "no-such-category"})
	ask("unknown name", map[string]any{"function_name": "char"})
	for _, d := range v.all {
		ask("name "+d.Name, map[string]any{"function_name": d.Name})
	}
	return v
}

func names(docs []edlisp.FunctionDoc) []string {
	r := []string{}
	for _, d := range docs {
		r = append(r, d.Name)
	}
	return r
}

func runP25(c *rep.Check) {
	orders := c.Pick(130, 1030)
	c.Bound("map iteration offsets", orders)
	c.Assume("An iteration over a Go map visits its slots in order from a starting offset the runtime draws; every offset is tried, each pair of entries is thus seen in both orders. Hash seeds stay random; they only relabel the slots.")
	fail := func(what, repro, exp, act string) {
		c.Fail(&rep.Violation{What: what, Repro: repro, Expected: exp, Actual: act})
	}
	callable := []string{}
	for n := range edlisp.NewDefaultEnvironment().Functions {
		callable = append(callable, n)
	}
	sort.Strings(callable)
	known := map[string]bool{}
	for _, n := range callable {
		known[n] = true
	}

	// every iteration order, each asked twice
	var base docView
	for o := 0; o <= orders; o++ {
		setMapOrder(uint64(o + 1))
		if o == orders {
			setMapOrder(0)
		}
		for again := 0; again < 2; again++ {
			v := viewDocs()
			c.States.Add(1)
			c.Transitions.Add(int64(len(v.tool) + len(v.byCat) + 3))
			where := fmt.Sprintf("map iteration offset %d, query %d", o, again)
			if o == 0 && again == 0 {
				base = v
			}
			if !reflect.DeepEqual(v, base) {
				what := "listings"
				for k, t := range v.tool {
					if t != base.tool[k] {
						what = "texted_doc " + k
						fail("a documentation query answers differently the second time", where+": "+what, shortTail(base.tool[k]), shortTail(t))
					}
				}
				if what == "listings" {
					fail("a documentation query answers differently the second time", where,
						fmt.Sprint(names(base.all), base.cats, base.count), fmt.Sprint(names(v.all), v.cats, v.count))
				}
			}
		}
		c.Validated.Add(1)
	}
	setMapOrder(0)
	c.Lap("orders")

	// complete, each once, in order
	if got := names(base.all); !reflect.DeepEqual(got, callable) {
		fail("the documented functions are not the callable functions, each once, in alphabetical order", "GetAllDocumentation", fmt.Sprint(callable), fmt.Sprint(got))
	}
	if base.count != len(callable) {
		fail("wrong number of documented functions", "GetRegisteredFunctionCount", fmt.Sprint(len(callable)), fmt.Sprint(base.count))
	}
	wantCats := map[string][]string{}
	for _, d := range base.all {
		wantCats[d.Category] = append(wantCats[d.Category], d.Name)
		if d.Category == "" || d.Summary == "" || d.Description == "" {
			fail("a function without category, summary or description", d.Name, "all stated", fmt.Sprintf("%+v", d))
		}
		if x, ok := edlisp.GetDocumentation(d.Name); !ok || !reflect.DeepEqual(x, d) {
			fail("looking up a name gives another documentation than the list", d.Name, fmt.Sprintf("%+v", d), fmt.Sprintf("%+v", x))
		}
	}
	catNames := []string{}
	for k := range wantCats {
		catNames = append(catNames, k)
	}
	sort.Strings(catNames)
	if !reflect.DeepEqual(catNames, base.cats) {
		fail("the categories are not those of the functions", "GetCategories", fmt.Sprint(catNames), fmt.Sprint(base.cats))
	}
	listed := 0
	for _, k := range base.cats {
		listed += len(base.byCat[k])
		if got := names(base.byCat[k]); !reflect.DeepEqual(got, wantCats[k]) {
			fail("a category does not list its functions", k, fmt.Sprint(wantCats[k]), fmt.Sprint(got))
		}
	}
	if listed != len(base.all) {
		fail("the categories do not partition the functions", "GetDocumentationByCategory", fmt.Sprint(len(base.all)), fmt.Sprint(listed))
	}

	// the tool's and the command line's answers
	s := newScratch()
	defer s.done()
	docOf := map[string]edlisp.FunctionDoc{}
	for _, d := range base.all {
		docOf[d.Name] = d
	}
	checkList := func(repro, text, kind string, want []string, verbose bool) {
		var got []string
		switch {
		case verbose:
			m := reBold.FindAllStringSubmatch(text, -1)
			got = firsts(m)
			for _, x := range m {
				if d, ok := docOf[x[1]]; ok && d.Summary != x[2] {
					fail("a listed summary is not the function's", repro+": "+x[1], d.Summary, x[2])
				}
			}
			// grouped by category: check every group
			groups := reHead.FindAllStringIndex(text, -1)
			var heads []string
			var flat []string
			for i, g := range groups {
				end := len(text)
				if i+1 < len(groups) {
					end = groups[i+1][0]
				}
				head := strings.ToLower(strings.TrimSpace(text[g[0]+3 : g[1]]))
				heads = append(heads, head)
				in := firsts(reBold.FindAllStringSubmatch(text[g[1]:end], -1))
				for _, n := range in {
					if docOf[n].Category != head {
						fail("a function is listed under another category", repro+": "+n, docOf[n].Category, head)
					}
				}
				if !sort.StringsAreSorted(in) {
					fail("the functions of a category are not in order", repro+": "+head, "alphabetical", fmt.Sprint(in))
				}
				flat = append(flat, in...)
			}
			if !sort.StringsAreSorted(heads) {
				fail("the categories are not in order", repro, "alphabetical", fmt.Sprint(heads))
			}
			sort.Strings(flat)
			sort.Strings(got)
			if !reflect.DeepEqual(flat, got) {
				fail("functions listed outside the categories", repro, fmt.Sprint(flat), fmt.Sprint(got))
			}
		case kind == "cli":
			got = firsts(reIndent.FindAllStringSubmatch(text, -1))
		default:
			got = firsts(reBullet.FindAllStringSubmatch(text, -1))
		}
		if !reflect.DeepEqual(got, want) {
			fail("the list of functions is not complete, in order and free of repetitions", repro, fmt.Sprint(want), fmt.Sprint(got))
		}
		if m := reNum.FindStringSubmatch(text); m != nil && m[1]+m[2] != fmt.Sprint(len(want)) {
			fail("the stated number of functions is wrong", repro, fmt.Sprint(len(want)), m[0])
		}
	}
	checkDoc := func(repro, text string, d edlisp.FunctionDoc) {
		parts := []string{"# " + d.Name + "\n", d.Summary, d.Description}
		for _, p := range d.Parameters {
			parts = append(parts, "**"+p.Name+"** ("+p.Type+")", p.Description)
		}
		for _, e := range d.Examples {
			parts = append(parts, e.Description, e.Input)
		}
		parts = append(parts, d.Category)
		parts = append(parts, d.SeeAlso...)
		if miss := inOrder(text, parts); miss != "" {
			fail("the documentation shown is not the function's own, whole and in order", repro, "contains "+miss, shortTail(text))
		}
		if n := strings.Count(text, "\n# "); n != 0 || !strings.HasPrefix(text, "# "+d.Name+"\n") {
			fail("the documentation shown is not that of exactly one function", repro, "# "+d.Name, shortTail(text))
		}
	}
	for _, verbose := range []bool{false, true} {
		checkList("texted_doc", base.tool[fmt.Sprint("list ", verbose)], "tool", callable, verbose)
		for _, k := range base.cats {
			checkList("texted_doc category "+k, base.tool[fmt.Sprint("category ", k, " ", verbose)], "tool", wantCats[k], verbose)
		}
	}
	for _, d := range base.all {
		checkDoc("texted_doc "+d.Name, strings.TrimPrefix(base.tool["name "+d.Name], "false "), d)
	}

	// the command line, in every iteration order
	type query struct {
		args    []string
		want    []string
		verbose bool
		name    string
	}
	var qs []query
	for _, v := range [][]string{nil, {"-v"}, {"--verbose"}} {
		qs = append(qs, query{append([]string{"doc"}, v...), callable, v != nil, ""})
		for _, k := range base.cats {
			qs = append(qs, query{append([]string{"doc", "--category", k}, v...), wantCats[k], v != nil, ""})
		}
	}
	for _, d := range base.all {
		qs = append(qs, query{[]string{"doc", d.Name}, nil, false, d.Name})
	}
	cliOrders := c.Pick(17, 65)
	c.Bound("command line map iteration offsets", cliOrders)
	outs := make([][]string, len(qs))
	c.Parallel(len(qs), func(w, i int) {
		d := s.fresh(w, world{})
		for o := 0; o < cliOrders; o++ {
			r := runEnv(d, "", []string{fmt.Sprint("VERIF_MAP_ORDER=", o)}, qs[i].args...)
			c.States.Add(1)
			c.Transitions.Add(1)
			outs[i] = append(outs[i], fmt.Sprint(r.Exit, " ", r.Out, r.Err))
			if r.Exit != 0 || len(r.After) != 0 {
				fail("a documentation query fails", fmt.Sprint(qs[i].args), "exit 0", fmt.Sprintf("exit %d %s%s", r.Exit, r.Out, r.Err))
			}
			if o > 0 && outs[i][o] != outs[i][0] {
				fail("a documentation query answers differently the second time", fmt.Sprint(qs[i].args, " map iteration offset ", o), shortTail(outs[i][0]), shortTail(outs[i][o]))
			}
			if o == 0 {
				if qs[i].name != "" {
					checkDoc("doc "+qs[i].name, r.Out, docOf[qs[i].name])
					for _, p := range docOf[qs[i].name].Parameters {
						if strings.Contains(r.Out, "**"+p.Name+"** ("+p.Type+") (optional)") != p.Optional {
							fail("a parameter is wrongly marked optional or required", qs[i].name+" "+p.Name, fmt.Sprint(p.Optional), shortTail(r.Out))
						}
					}
				} else {
					checkList(fmt.Sprint(qs[i].args), r.Out, "cli", qs[i].want, qs[i].verbose)
				}
			}
		}
		c.Validated.Add(1)
	})
	c.Lap("command line")

	// unknown names and categories
	unknown := map[string]bool{"x": true, "(": true, "\x00": true}
	for _, n := range callable {
		for i := 0; i <= len(n); i++ {
			for _, m := range []string{n[:i], n[i:], n[:i] + "x" + n[i:], n[:i] + "-" + n[i:], n[:i] + " " + n[i:]} {
				unknown[m] = true
			}
			if i < len(n) {
				unknown[n[:i]+n[i+1:]] = true
				unknown[n[:i]+strings.ToUpper(n[i:i+1])+n[i+1:]] = true
				unknown[n[:i]+"_"+n[i+1:]] = true
			}
		}
		unknown[n+"\n"] = true
		unknown[strings.ToUpper(n)] = true
		unknown["("+n+")"] = true
	}
	for _, k := range base.cats {
		unknown[k] = true
		unknown[strings.ToUpper(k)] = true
		unknown[k+"s"] = true
		unknown[k[:1]] = true
	}
	for _, x := range append(dict.Texts(), oddNames...) {
		unknown[x] = true
	}
	for n := range known {
		delete(unknown, n)
	}
	delete(unknown, "")
	d := s.fresh(0, world{})
	for _, args := range [][]string{{"doc", ""}, {"doc", "--", ""}, {"doc", "-v", ""}, {"doc", "--category", base.cats[0], ""}} {
		if r := run(d, "", args...); r.Exit != 1 || r.crashed() {
			fail("the command line answers for a function without a name", fmt.Sprintf("%q", args), "exit 1", fmt.Sprintf("exit %d %s%s", r.Exit, r.Out, r.Err))
		}
	}
	list := []string{}
	for n := range unknown {
		list = append(list, n)
	}
	sort.Strings(list)
	isCat := map[string]bool{}
	for _, k := range base.cats {
		isCat[k] = true
	}
	c.Bound("unknown names", len(list))
	c.Parallel(len(list), func(w, i int) {
		n := list[i]
		c.Transitions.Add(3)
		if d, ok := edlisp.GetDocumentation(n); ok {
			fail("documentation for a function that does not exist", n, "none", d.Name)
		}
		if t, e := docTool(map[string]any{"function_name": n}); !e {
			fail("the tool answers for a function that does not exist", n, "an error", t)
		} else if i := strings.Index(t, "Did you mean: "); i >= 0 {
			for _, sug := range strings.Split(t[i+len("Did you mean: "):], ", ") {
				if !known[sug] {
					fail("the tool suggests a function that does not exist", n, "existing names", sug)
				}
			}
		}
		if !isCat[n] {
			if t, e := docTool(map[string]any{"category": n}); !e {
				fail("the tool lists a category that does not exist", n, "an error", t)
			}
			if len(edlisp.GetDocumentationByCategory(n)) != 0 {
				fail("functions in a category that does not exist", n, "none", "some")
			}
		}
		if !strings.Contains(n, "\x00") && (i%7 == 0 || c.Thorough()) {
			d := s.fresh(w, world{})
			if r := run(d, "", "doc", "--", n); r.Exit != 1 || r.crashed() {
				fail("the command line answers for a function that does not exist", n, "exit 1", fmt.Sprintf("exit %d %s%s", r.Exit, r.Out, r.Err))
			}
			if !isCat[n] {
				if r := run(d, "", "doc", "--category="+n); r.Exit != 1 || r.crashed() {
					fail("the command line lists a category that does not exist", n, "exit 1", fmt.Sprintf("exit %d %s%s", r.Exit, r.Out, r.Err))
				}
			}
		}
	})
	for _, n := range callable {
		for _, k := range append([]string{"nope"}, base.cats...) {
			if t, e := docTool(map[string]any{"function_name": n, "category": k}); !e {
				fail("function_name and category are accepted together", n+" "+k, "an error", t)
			}
			c.Transitions.Add(1)
		}
	}
	c.Lap("unknown")

	// histories of queries whose callers keep and change what they were given
	queries := []struct {
		name string
		ask  func() string
	}{
		{"all", func() string {
			d := edlisp.GetAllDocumentation()
			r := fmt.Sprint(names(d))
			for i := range d {
				d[i] = edlisp.FunctionDoc{Name: "changed"}
			}
			return r
		}},
		{"categories", func() string {
			d := edlisp.GetCategories()
			r := fmt.Sprint(d)
			for i := range d {
				d[i] = "changed"
			}
			return r
		}},
		{"category", func() string {
			d := edlisp.GetDocumentationByCategory(base.cats[0])
			r := fmt.Sprint(names(d))
			for i := range d {
				d[i] = edlisp.FunctionDoc{Name: "changed"}
			}
			return r
		}},
		{"other category", func() string {
			d := edlisp.GetDocumentationByCategory(base.cats[len(base.cats)-1])
			r := fmt.Sprint(names(d))
			for i := range d {
				d[i] = edlisp.FunctionDoc{Name: "changed"}
			}
			return r
		}},
		{"name", func() string {
			d, ok := edlisp.GetDocumentation("insert")
			r := fmt.Sprint(d, ok)
			d.Name, d.Summary = "changed", "changed"
			return r
		}},
		{"unknown name", func() string { d, ok := edlisp.GetDocumentation("nope"); return fmt.Sprint(d, ok) }},
		{"count", func() string { return fmt.Sprint(edlisp.GetRegisteredFunctionCount()) }},
		{"tool list", func() string { t, e := docTool(map[string]any{"verbose": true}); return fmt.Sprint(t, e) }},
		{"tool category", func() string {
			t, e := docTool(map[string]any{"category": base.cats[0], "verbose": true})
			return fmt.Sprint(t, e)
		}},
		{"tool name", func() string {
			t, e := docTool(map[string]any{"function_name": "insert"})
			return fmt.Sprint(t, e)
		}},
		{"tool unknown", func() string {
			t, e := docTool(map[string]any{"function_name": "word"})
			return fmt.Sprint(t, e)
		}},
		{"environment", func() string {
			env := edlisp.NewDefaultEnvironment()
			n := len(env.Functions)
			for k := range env.Functions {
				delete(env.Functions, k)
			}
			return fmt.Sprint(n)
		}},
	}
	first := make([]string, len(queries))
	for i := range queries {
		first[i] = queries[i].ask()
	}
	depth := c.Pick(3, 4)
	c.Bound("query history depth", depth)
	var walk func(h []int)
	walk = func(h []int) {
		if len(h) == depth {
			c.States.Add(1)
			for _, q := range h {
				c.Transitions.Add(1)
				if got := queries[q].ask(); got != first[q] {
					var hn []string
					for _, x := range h {
						hn = append(hn, queries[x].name)
					}
					fail("a documentation query answers differently the second time", fmt.Sprint("history ", hn), shortTail(first[q]), shortTail(got))
				}
			}
			return
		}
		for q := range queries {
			if !c.Stop() {
				walk(append(h[:len(h):len(h)], q))
			}
		}
	}
	walk(nil)
	c.Lap("histories")

	// functions registered by a user of the library
	for _, n := range []string{"aaa", "insertx", "zzz"} {
		for _, k := range []string{base.cats[0], "brand-new", ""} {
			for again := 0; again < 2; again++ {
				before := edlisp.GetAllDocumentation()
				nd := edlisp.FunctionDoc{Name: n, Summary: "s " + k, Description: fmt.Sprint("d ", again), Category: k}
				edlisp.RegisterDocumentation(nd)
				c.Transitions.Add(1)
				want := []edlisp.FunctionDoc{nd}
				for _, d := range before {
					if d.Name != n {
						want = append(want, d)
					}
				}
				sort.Slice(want, func(i, j int) bool { return want[i].Name < want[j].Name })
				if got := edlisp.GetAllDocumentation(); !reflect.DeepEqual(got, want) {
					fail("registering a function's documentation does not add or replace exactly it", fmt.Sprint(nd), fmt.Sprint(names(want)), fmt.Sprint(names(got)))
				}
				if d, ok := edlisp.GetDocumentation(n); !ok || !reflect.DeepEqual(d, nd) {
					fail("registered documentation is not found", fmt.Sprint(nd), fmt.Sprint(nd), fmt.Sprint(d, ok))
				}
				cs := map[string]bool{}
				for _, d := range want {
					if d.Category != "" {
						cs[d.Category] = true
					}
				}
				got := edlisp.GetCategories()
				if len(got) != len(cs) || !sort.StringsAreSorted(got) {
					fail("the categories are not those of the registered functions", fmt.Sprint(nd), fmt.Sprint(cs), fmt.Sprint(got))
				}
				if k != "" {
					found := 0
					for _, d := range edlisp.GetDocumentationByCategory(k) {
						if d.Name == n {
							found++
						}
					}
					if found != 1 {
						fail("a registered function is not listed once in its category", fmt.Sprint(nd), "1", fmt.Sprint(found))
					}
				}
			}
		}
	}
	c.Sample(map[string]any{"callable": len(callable), "categories": base.cats})
	c.Outcome(fmt.Sprint(len(callable), " functions"))
	for _, k := range base.cats {
		c.Outcome("category " + k)
	}

}
