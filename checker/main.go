// Command checker decides properties of go-typeset by static analysis of the
// source tree: it loads and type-checks the module, builds its SSA form, and
// runs the analysis registered for the property. It never runs the code.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"time"
)

type check struct {
	run       func(p *Program, r *Report)
	level     string
	technique string
}

var checks = map[string]check{}

func register(id, level, technique string, run func(p *Program, r *Report)) {
	checks[id] = check{run: run, level: level, technique: technique}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: checker PROPERTY [REPO [VERIF]]")
		os.Exit(2)
	}
	prop, repo, verif := os.Args[1], "/repo", "/verif"
	if len(os.Args) > 2 {
		repo = os.Args[2]
	}
	if len(os.Args) > 3 {
		verif = os.Args[3]
	}
	if prop == "list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Printf("%s\t%s\t%s\n", id, checks[id].level, checks[id].technique)
		}
		return
	}
	if repo, err := filepath.EvalSymlinks(repo); err == nil {
		os.Exit(runCheck(prop, repo, verif))
	}
	os.Exit(runCheck(prop, repo, verif))
}

// The analyses give up, as undecided, after maxTime.
var started = time.Now()

const maxTime = 600 * time.Second

func runCheck(prop, repo, verif string) (code int) {
	start := started
	dataDir = filepath.Join(verif, "data")
	c, ok := checks[prop]
	if !ok {
		fmt.Printf("no check for property %s\n", prop)
		return 2
	}
	if f := os.Getenv("CHECK_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
			time.AfterFunc(90*time.Second, func() {
				pprof.StopCPUProfile()
				os.Exit(2)
			})
		}
	}
	debug.SetGCPercent(400)
	r := newReport(prop)
	time.AfterFunc(maxTime+200*time.Second, func() {
		late := newReport(prop)
		late.Fail("undecided", "analysis", "-", "the analysis does not end in time")
		os.Exit(late.Finish(verif, c.level, c.technique, start))
	})
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Fail("undecided", "analysis", "-", fmt.Sprintf("the analysis failed: %v", e))
				if os.Getenv("CHECK_DEBUG") != "" {
					debug.PrintStack()
				}
			}
		}()
		p, err := loadProgram(repo)
		if err != nil {
			r.Fail("type-check", "module", repo, err.Error())
			return
		}
		c.run(p, r)
	}()
	return r.Finish(verif, c.level, c.technique, start)
}
