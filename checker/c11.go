package main

import (
	"fmt"
	"go/constant"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C11", "other",
		"data lint over the embedded rule files and their upstream sources: line-by-line comparison modulo comments, grammar of patterns and exceptions, against the dispatch constants extracted from the loader's SSA form",
		checkC11)
}

const hyphPkg = "wordbreak/hyphenator"
const triePkg = "wordbreak/hyphenator/internal/trie"

var trailingComment = regexp.MustCompile(`^(.+?)\s*%.*$`)

// rulesOf gives the lines of a TeX file that hold rules, comments and blanks
// stripped, each with its line number.
type ruleLine struct {
	text string
	line int
}

func rulesOf(data string) []ruleLine {
	var out []ruleLine
	for i, l := range strings.Split(data, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if strings.HasPrefix(l, "%") {
			continue
		}
		if m := trailingComment.FindStringSubmatch(l); m != nil {
			l = m[1]
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		out = append(out, ruleLine{l, i + 1})
	}
	return out
}

func wellFormedPattern(s string) string {
	rs := []rune(s)
	letters, prevDigit := 0, false
	for i, r := range rs {
		switch {
		case r >= '0' && r <= '9':
			if prevDigit {
				return "two consecutive digits"
			}
			prevDigit = true
			continue
		case r == '.':
			// a word boundary: first or last symbol (a digit may be on its far side)
			first, last := true, true
			for _, q := range rs[:i] {
				if q < '0' || q > '9' {
					first = false
				}
			}
			for _, q := range rs[i+1:] {
				if q < '0' || q > '9' {
					last = false
				}
			}
			if !first && !last {
				return "a word boundary within the pattern"
			}
		case unicode.IsLetter(r) || r == '\'' || r == '’' || r == '-':
			letters++
		default:
			return fmt.Sprintf("unexpected rune %q", r)
		}
		prevDigit = false
	}
	if letters == 0 {
		return "no letter"
	}
	return ""
}

func wellFormedException(s string) string {
	for _, part := range strings.Split(s, "-") {
		if part == "" {
			return "an empty part"
		}
		for _, r := range part {
			if !unicode.IsLetter(r) && r != '\'' && r != '’' {
				return fmt.Sprintf("unexpected rune %q", r)
			}
		}
	}
	return ""
}

func checkC11(p *Program, r *Report) {
	r.Rule("each file matched by the go:embed directive of the hyphenator has an upstream source of the same name under languages/tex, and holds exactly the lines of that source, in order, once comments and blanks are stripped")
	r.Rule("what the loader takes for patterns is a sequence of symbols (letter, apostrophe or word boundary at either end), with at most one digit between two symbols; exceptions are words of letters with hyphens between non-empty parts")
	r.Rule("the prefixes and suffixes the loader dispatches on (constants of its SSA form) are those of the TeX format: message and hyphenation sections, comments, commands, section ends")
	pk := p.Pkgs[hyphPkg]
	if pk == nil {
		r.Fail("anchor", hyphPkg, "-", "package not found")
		return
	}
	var files []string
	for _, f := range pk.EmbedFiles {
		if strings.HasSuffix(f, ".tex") {
			files = append(files, f)
		}
	}
	sort.Strings(files)
	for _, f := range files {
		rel := strings.TrimPrefix(f, p.Repo+"/")
		r.Count("bundled files", rel)
		data, err := os.ReadFile(f)
		if err != nil {
			r.Fail("read", rel, rel, err.Error())
			continue
		}
		up := filepath.Join(filepath.Dir(f), "tex", filepath.Base(f))
		src, err := os.ReadFile(up)
		if err != nil {
			r.Fail("upstream", rel, rel, "no upstream source: "+err.Error())
			continue
		}
		got, want := rulesOf(string(data)), rulesOf(string(src))
		for i := 0; i < len(got) || i < len(want); i++ {
			r.Counts["rule lines compared"]++
			switch {
			case i >= len(got):
				r.Oblige(false, "rule lost", rel, fmt.Sprintf("%s:%d", strings.TrimPrefix(up, p.Repo+"/"), want[i].line), fmt.Sprintf("upstream rule %q is not bundled", want[i].text))
			case i >= len(want):
				r.Oblige(false, "rule added", rel, fmt.Sprintf("%s:%d", rel, got[i].line), fmt.Sprintf("rule %q is not upstream", got[i].text))
			default:
				if !r.Oblige(got[i].text == want[i].text, "rule differs", rel, fmt.Sprintf("%s:%d", rel, got[i].line), fmt.Sprintf("bundled %q, upstream %q (line %d)", got[i].text, want[i].text, want[i].line)) {
					i = len(got) + len(want) // the rest is out of step
				}
			}
		}
		lintRules(r, rel, got)
	}
	r.AtLeast("bundled files", 5)
	r.AtLeast("rule lines compared", 40000)
	loaderConstants(p, r)
	r.Assume("the files under languages/tex are the upstream sources")
}

func lintRules(r *Report, rel string, lines []ruleLine) {
	section := ""
	for _, l := range lines {
		where := fmt.Sprintf("%s:%d", rel, l.line)
		switch {
		case strings.HasPrefix(l.text, `\message{`), l.text == `\endinput`:
			r.Oblige(section == "", "command within a section", rel, where, l.text)
		case l.text == `\patterns{`:
			r.Oblige(section == "", "nested section", rel, where, l.text)
			section = "patterns"
		case l.text == `\hyphenation{`:
			r.Oblige(section == "", "nested section", rel, where, l.text)
			section = "exceptions"
		case l.text == "}":
			r.Oblige(section != "", "section end out of a section", rel, where, l.text)
			section = ""
		case section == "patterns":
			for _, pat := range strings.Fields(l.text) {
				r.Counts["patterns"]++
				bad := wellFormedPattern(pat)
				r.Oblige(bad == "", "malformed pattern", rel, where, fmt.Sprintf("%q: %s", pat, bad))
			}
		case section == "exceptions":
			word := strings.TrimSuffix(l.text, "}")
			r.Counts["exceptions"]++
			bad := wellFormedException(word)
			r.Oblige(bad == "", "malformed exception", rel, where, fmt.Sprintf("%q: %s", word, bad))
			if word != l.text {
				section = ""
			}
		default:
			r.Fail("rule out of a section", rel, where, l.text)
		}
	}
	r.Oblige(section == "", "section not closed", rel, rel, section)
}

// loaderConstants extracts the constants given to strings.HasPrefix and the
// like by the functions LoadPatterns is made of.
func loaderConstants(p *Program, r *Report) {
	load, err := p.Func(hyphPkg, "LoadPatterns")
	if err != nil {
		r.Fail("anchor", "LoadPatterns", "-", err.Error())
		return
	}
	seen := map[*ssa.Function]bool{}
	prefixes, suffixes := map[string]string{}, map[string]string{}
	other := false
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.InModule(f) {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				visit(callee)
				if callee == nil || callee.Pkg == nil || callee.Pkg.Pkg.Path() != "strings" {
					continue
				}
				into := map[string]map[string]string{
					"HasPrefix": prefixes, "CutPrefix": prefixes,
					"TrimSuffix": suffixes, "CutSuffix": suffixes, "TrimRight": suffixes,
				}[callee.Name()]
				if into == nil {
					continue
				}
				k, ok := c.Common().Args[1].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					other = true
					continue
				}
				s := constant.StringVal(k.Value)
				into[s] = p.PosOf(ins)
				r.Count("dispatch constants of the loader", fmt.Sprintf("%s %q", callee.Name(), s))
			}
		}
	}
	visit(load)
	if len(prefixes) == 0 || other {
		r.Assume("the loader dispatches on something else than constant prefixes: its dispatch was not compared with the format")
		return
	}
	want := []string{`\message{`, `\hyphenation{`, "%", `\`, "}"}
	ok := map[string]bool{}
	for _, w := range want {
		ok[w] = true
	}
	for s, where := range prefixes {
		r.Oblige(ok[s], "unknown line prefix", "LoadPatterns", where, fmt.Sprintf("the loader dispatches lines on prefix %q, which is none of the TeX format", s))
	}
	for _, w := range []string{`\hyphenation{`} {
		_, found := prefixes[w]
		r.Oblige(found, "lost line prefix", "LoadPatterns", p.PosOfFunc(load), fmt.Sprintf("the loader no longer dispatches lines on prefix %q", w))
	}
	if len(suffixes) > 0 {
		_, found := suffixes["}"]
		r.Oblige(found, "section end", "LoadPatterns", p.PosOfFunc(load), "the end of section that follows the last exception is not trimmed")
	}
}
