package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func usage() {
	fmt.Println("usage: crlitecheck -repo DIR -verif DIR -tier quick|thorough PROPERTY...")
	os.Exit(2)
}

func main() {
	repo, verif, tier := "/repo", "/verif", os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	var ids []string
	args := os.Args[1:]
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-repo":
			i++
			repo = args[i]
		case "-verif":
			i++
			verif = args[i]
		case "-tier":
			i++
			tier = args[i]
		case "dump":
			p, err := Load(repo)
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			dump(p, args[i+1])
			return
		case "funcs":
			p, err := Load(repo)
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			for _, f := range p.Funcs {
				fmt.Println(fname(f), f.Synthetic)
			}
			return
		default:
			ids = append(ids, args[i])
		}
	}
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if len(ids) == 0 {
		usage()
	}
	start := time.Now()
	p, err := Load(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot analyse the repository:", err)
		os.Exit(2)
	}
	loadS := time.Since(start).Seconds()
	exit := 0
	for _, id := range ids {
		f := checks[id]
		if f == nil {
			fmt.Fprintln(os.Stderr, "no check for", id)
			os.Exit(2)
		}
		t0 := time.Now()
		r := run1(f, p, tier, id)
		r.finish()
		code := report(p, r, verif, tier, time.Since(t0).Seconds()+loadS)
		if code > exit {
			exit = code
		}
	}
	if prof != nil {
		prof.print()
	}
	os.Exit(exit)
}

func run1(f checkFn, p *Program, tier, id string) (r *Result) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("DBG") != "" {
				panic(e)
			}
			r = NewResult(id, "")
			r.Err = fmt.Errorf("internal error: %v", e)
		}
	}()
	r = f(p, tier)
	r.Prop = id
	return r
}

func loadKnown(verif string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		// known: property=<id> key=<key> :: <description>
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property=")
		parts := strings.SplitN(rest, " key=", 2)
		if len(parts) != 2 {
			continue
		}
		kd := strings.SplitN(parts[1], " :: ", 2)
		d := ""
		if len(kd) == 2 {
			d = kd[1]
		}
		m[parts[0]+"|"+strings.TrimSpace(kd[0])] = d
	}
	return m
}

func report(p *Program, r *Result, verif, tier string, wall float64) int {
	known := loadKnown(verif)
	type vj struct {
		Key   string   `json:"key"`
		Pos   string   `json:"position"`
		Msg   string   `json:"message"`
		Path  []string `json:"path,omitempty"`
		Known bool     `json:"known,omitempty"`
	}
	var vs []vj
	newV := 0
	seenKnown := map[string]bool{}
	for _, v := range r.sorted() {
		k := r.Prop + "|" + v.Key
		d, isK := known[k]
		if isK {
			if !seenKnown[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.Prop, d, v.Pos)
				seenKnown[k] = true
			}
		} else {
			newV++
		}
		vs = append(vs, vj{v.Key, v.Pos, v.Msg, v.Trace, isK})
	}
	repdir := filepath.Join(verif, "evidence", "reports")
	os.MkdirAll(repdir, 0755)
	rep := filepath.Join(repdir, r.Prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nrule: %s\n\n", r.Prop, r.Rule)
	for _, v := range vs {
		fmt.Fprintf(&sb, "VIOLATION %s\n  at %s\n  %s\n", v.Key, v.Pos, v.Msg)
		if len(v.Path) > 0 {
			sb.WriteString("  path:\n")
			for _, l := range v.Path {
				fmt.Fprintf(&sb, "    %s\n", l)
			}
		}
		sb.WriteString("\n")
	}
	os.WriteFile(rep, []byte(sb.String()), 0644)

	samples := r.Samples
	var keys []string
	for k, ok := range r.obl {
		s := "discharged: "
		if !ok {
			s = "FAILED: "
		}
		keys = append(keys, s+k)
	}
	sort.Strings(keys)
	if len(keys) > 60 {
		keys = keys[:60]
	}
	samples = append(samples, keys...)
	var fns []string
	for f := range r.Fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	expl := fmt.Sprintf("Static analysis of the current source of /repo/go (type-checked packages, SSA form). Rule: %s. "+
		"%d obligations generated at concrete constructs, %d discharged; %d functions, %d call sites, %d abstract states and %d paths examined.",
		r.Rule, r.Obligations, r.Discharged, len(r.Fns), len(r.Sites), r.States, r.Paths)
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": 0, "level": "other",
		"coverage": map[string]any{
			"explanation": expl, "obligations": r.Obligations, "discharged": r.Discharged,
			"functions_analysed": len(fns), "functions": fns, "call_sites": len(r.Sites),
			"abstract_states": r.States, "instructions_interpreted": r.Steps, "paths": r.Paths,
			"instances": r.Counts, "samples": samples,
		},
		"wall_s": wall,
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		var n int
		fmt.Sscanf(s, "%d", &n)
		ev["seed"] = n
	}
	as := append([]string{}, r.Assume...)
	as = append(as, "memory reached through distinct symbolic pointers does not alias", "goroutine bodies are examined at their start statement; interleavings are covered only where the rule says so")
	ev["assumptions"] = as
	if len(vs) > 0 {
		ev["violations"] = len(vs)
		ev["violation_list"] = vs
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", r.Prop+".json"), append(b, '\n'), 0644)

	if newV > 0 {
		for _, v := range vs {
			if !v.Known {
				fmt.Printf("%s: %s: %s\n", v.Pos, v.Key, v.Msg)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, rep)
		return 1
	}
	if r.Err != nil {
		fmt.Fprintf(os.Stderr, "property %s: analysis incomplete: %v\n", r.Prop, r.Err)
		return 2
	}
	fmt.Printf("OK property=%s obligations=%d functions=%d states=%d (%.1fs)\n", r.Prop, r.Obligations, len(fns), r.States, wall)
	return 0
}
