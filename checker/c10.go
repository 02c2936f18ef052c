package main

// C10: languages and their rule files.

import (
	"bufio"
	"bytes"
	"fmt"
	"go/types"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C10", "other", aiTrusted+", over any language tag: the index of the match is any of those of the supported languages, the file and the dictionary are followed for each of them through the options, the cache and the loader", checkC10)
}

const langPkg = "golang.org/x/text/language"

// langNames: the supported languages, by the name of their tag.
var langNames = map[string]string{
	"en-US": "AmericanEnglish", "en-GB": "BritishEnglish", "en": "English", "fr": "French", "fr-CA": "CanadianFrench",
	"de": "German", "es": "Spanish", "es-ES": "EuropeanSpanish", "es-419": "LatinAmericanSpanish",
}

var langFile = map[string]string{
	"en-US": "ushyphmax.tex", "en-GB": "hyph-en-gb.tex", "fr": "hyph-fr.tex", "fr-CA": "hyph-fr.tex",
	"de": "hyph-de-1996.tex", "es": "hyph-es.tex", "es-ES": "hyph-es.tex", "es-419": "hyph-es.tex",
}

// fileFor is the rule file of a language: that of its base language for the others.
func fileFor(tag string) (string, bool) {
	if f, ok := langFile[tag]; ok {
		return f, true
	}
	switch base := strings.SplitN(tag, "-", 2)[0]; base {
	case "fr", "de", "es":
		return langFile[base], true
	}
	return "", false
}

// sameLanguage: the tags that may be taken for each other: the matcher holds
// that en is en-US.
func sameLanguage(n string) []string {
	if n == "en" || n == "en-US" {
		return []string{"en", "en-US"}
	}
	return []string{n}
}

func listed(list, names []string) bool {
	for _, l := range list {
		for _, n := range names {
			if l == n {
				return true
			}
		}
	}
	return false
}

func tagTerm(name string, t types.Type) VTerm {
	if n, ok := langNames[name]; ok {
		return VTerm{key: "global " + langPkg + "." + n, nn: 1, typ: t}
	}
	return VTerm{key: "global " + langPkg + " tag " + name, nn: 1, typ: t}
}

// tagName is the inverse of tagTerm.
func tagName(v Val) (string, bool) {
	t, ok := v.(VTerm)
	if !ok {
		return "", false
	}
	if n := strings.TrimPrefix(t.key, "global "+langPkg+" tag "); n != t.key {
		return n, true
	}
	for name, id := range langNames {
		if t.key == "global "+langPkg+"."+id {
			return name, true
		}
	}
	return strings.TrimPrefix(t.key, "global "), strings.HasPrefix(t.key, "global "+langPkg+".")
}

type langWorld struct {
	x        *Exec
	r        *Report
	matchers map[string][]string // the tags of each matcher
	tagT     types.Type
	confT    types.Type
	bundled  map[string]bool
	dictT    types.Type // *Dictionary
	opened   map[string]bool
}

// languageModels: the language package, as documented. The index of a match
// is any index; that of a supported language is its own; the tag returned by a
// match matches the same language again. A match without confidence is
// the first language.
func (w *langWorld) models(x *Exec) {
	tagOf := func(s *State, v Val) Val {
		if st, ok := v.(VStr); ok {
			if st.k != nil {
				return tagTerm(*st.k, w.tagT)
			}
			if st.id == "request" {
				return VTerm{key: "requested tag", nn: 1, typ: w.tagT}
			}
		}
		return VTerm{key: "tag of " + valKey(s, v), nn: 1, typ: w.tagT}
	}
	x.models[langPkg+".NewMatcher"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		els, ok := x.concElems(s, args[0].(VSlice))
		opts, okO := x.concElems(s, args[1].(VSlice))
		if !ok || !okO || len(opts) > 0 {
			panic(giveUp{"the list of languages of a matcher is not a constant, or it has options"})
		}
		var tags []string
		for _, e := range els {
			n, ok := tagName(e)
			if !ok {
				panic(giveUp{"a language of a matcher is not a constant"})
			}
			tags = append(tags, n)
		}
		k := x.uniq("matcher")
		w.matchers[k] = tags
		return []ret{{s, VTerm{key: k, nn: 1, typ: resultType(site.Common().Signature())}}}
	}
	match := func(x *Exec, s *State, matcher Val, tags []Val, withConf bool, site ssa.CallInstruction) []ret {
		m, ok := matcher.(VTerm)
		list, known := w.matchers[m.key]
		if !ok || !known || len(tags) == 0 {
			panic(giveUp{"unknown matcher"})
		}
		w.r.Count("matches", x.p.PosOf(site))
		t, _ := tags[0].(VTerm)
		for _, o := range tags[1:] { // used when the first one is not matched
			n, ok := tagName(o)
			if !ok || len(list) == 0 || n != list[0] {
				x.nobl++
				x.fail("match", site, "other tags are matched as well")
			}
		}
		only := -1
		var among []string
		if n, ok := tagName(t); ok {
			among = sameLanguage(n)
			if !listed(list, among) {
				panic(giveUp{"tag " + n + " is not supported"})
			}
			x.nobl++
			if want := s.mon["requested"]; want != nil {
				x.fail("match", site, "tag "+n+" is matched instead of the one requested")
			}
		} else if i, ok := s.mon["matched:"+t.key].(VInt); ok {
			if l := list[i.e.c]; len(sameLanguage(l)) > 1 {
				among = sameLanguage(l)
			} else {
				only = int(i.e.c)
			}
		} else if x.nobl++; t.key != "requested tag" {
			x.fail("match", site, "what is matched is not the tag requested")
		}
		var out []ret
		for i := range list {
			if only >= 0 && i != only || among != nil && !listed(list[i:i+1], among) {
				continue
			}
			q := s.clone()
			tag := VTerm{key: x.uniq("matched tag"), nn: 1, typ: w.tagT}
			q.setMon("matched:"+tag.key, VInt{K(int64(i))})
			q.setMon("index", VInt{K(int64(i))})
			q.setMon("language", constStr(list[i]))
			if t.key == "requested tag" {
				q.setMon("requested", nil)
			}
			f := []Val{tag, VInt{K(int64(i))}}
			if withConf {
				c := x.symInt(q, types.Typ[types.Int], "confidence")
				lo := int64(1)
				if i == 0 {
					lo = 0
				}
				x.assume(q, ge(c.e.AddK(-lo)))
				x.assume(q, ge(K(3).Sub(c.e)))
				f = append(f, c)
			}
			out = append(out, ret{q, VTuple{f: f}})
		}
		return out
	}
	x.invoke = func(x *Exec, s *State, recv Val, m *types.Func, args []Val, site ssa.CallInstruction) ([]ret, bool) {
		t, ok := recv.(VTerm)
		if ok && t.key == "file" && m.Name() == "Close" {
			return []ret{{s, VIface{}}}, true
		}
		if !ok || w.matchers[t.key] == nil || m.Name() != "Match" {
			return nil, false
		}
		tags, ok := x.concElems(s, args[0].(VSlice))
		if !ok {
			panic(giveUp{"the tags that are matched are not known one by one"})
		}
		return match(x, s, recv, tags, true, site), true
	}
	x.models[langPkg+".MatchStrings"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		strs, ok := x.concElems(s, args[1].(VSlice))
		if !ok {
			panic(giveUp{"the languages that are matched are not known one by one"})
		}
		var tags []Val
		for _, e := range strs {
			tags = append(tags, tagOf(s, e))
		}
		return match(x, s, args[0], tags, false, site)
	}
	mk := func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		return []ret{{s, tagOf(s, args[0])}}
	}
	x.models[langPkg+".Make"] = mk
	x.models[langPkg+".MustParse"] = mk
	x.models[langPkg+".Parse"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		bad := s.clone()
		bad.setMon("requested", nil) // no language is requested
		e := VTerm{key: x.uniq("new:error"), nn: 1, typ: types.Universe.Lookup("error").Type()}
		return []ret{
			{s, VTuple{f: []Val{tagOf(s, args[0]), VIface{}}}},
			{bad, VTuple{f: []Val{VTerm{key: "requested tag", nn: 1, typ: w.tagT}, e}}},
		}
	}
	x.models["("+langPkg+".Tag).String"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		if n, ok := tagName(args[0]); ok {
			return []ret{{s, constStr(n)}}
		}
		return []ret{{s, x.freshStr(s, "tag")}}
	}
	join := func(join func(...string) string) model {
		return func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
			els, ok := x.concElems(s, args[0].(VSlice))
			var parts []string
			for _, e := range els {
				st, is := e.(VStr)
				if ok = ok && is && st.k != nil; ok {
					parts = append(parts, *st.k)
				}
			}
			if !ok {
				return []ret{{s, x.freshStr(s, "path")}}
			}
			return []ret{{s, constStr(join(parts...))}}
		}
	}
	// a sync.Map is a map, kept under the name of its variable
	entries := func(s *State, m Val) *Obj {
		k := "syncmap " + valKey(s, m)
		v, ok := s.mon[k].(VMap)
		if !ok {
			v = VMap{obj: x.newObj(s, &Obj{isMap: true, typ: types.NewInterfaceType(nil, nil), mk: map[string]Val{}})}
			s.setMon(k, v)
		}
		o := *x.obj(s, v.obj)
		mk := map[string]Val{}
		for a, b := range o.mk {
			mk[a] = b
		}
		id := x.newObj(s, &Obj{isMap: true, typ: o.typ, mk: mk})
		s.setMon(k, VMap{obj: id})
		return x.obj(s, id)
	}
	key := func(s *State, v Val) string {
		if i, ok := v.(VIface); ok {
			v = i.v
		}
		k, ok := constKey(s, v)
		if !ok {
			panic(giveUp{"a key of a sync.Map is not known"})
		}
		return k
	}
	x.models["(*sync.Map).Load"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		v, ok := entries(s, args[0]).mk[key(s, args[1])]
		if !ok {
			v = VIface{}
		}
		return []ret{{s, VTuple{f: []Val{v, VBool{condOf(ok)}}}}}
	}
	x.models["(*sync.Map).Store"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		entries(s, args[0]).mk[key(s, args[1])] = args[2]
		return []ret{{s, VTuple{}}}
	}
	x.models["(*sync.Map).LoadOrStore"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
		o, k := entries(s, args[0]), key(s, args[1])
		v, ok := o.mk[k]
		if !ok {
			v = args[2]
			o.mk[k] = v
		}
		return []ret{{s, VTuple{f: []Val{v, VBool{condOf(ok)}}}}}
	}
	x.models["path.Join"] = join(path.Join)
	x.models["path/filepath.Join"] = join(filepath.Join)
}

func checkC10(p *Program, r *Report) {
	sp, pk := p.SSAPkgs[hyphPkg], p.Pkgs[hyphPkg]
	if sp == nil || pk == nil {
		r.Fail("undecided", hyphPkg, "-", "package not found")
		return
	}
	mkNew, err1 := p.Func(hyphPkg, "New")
	load, err2 := p.Func(hyphPkg, "LoadPatterns")
	if err1 != nil || err2 != nil {
		r.Fail("undecided", "hyphenator", "-", "functions New and LoadPatterns are expected")
		return
	}
	r.Rule("for each index the matcher may return, the dictionary of the hyphenator is that of the file of the language at this index")
	r.Rule("the first language, taken when nothing matches, is en-US; en-US, en-GB, fr, de and es have an entry of their own")
	r.Rule("the loader opens the file it is given, every such file is bundled, and it then returns a dictionary")
	bundled := map[string]bool{}
	dir := ""
	if len(pk.GoFiles) > 0 {
		dir = filepath.Dir(pk.GoFiles[0])
	}
	for _, f := range pk.EmbedFiles {
		if rel, err := filepath.Rel(dir, f); err == nil {
			bundled[filepath.ToSlash(rel)] = true
		}
	}
	dictT := load.Signature.Results().At(0).Type()
	world := func() *langWorld {
		return &langWorld{r: r, matchers: map[string][]string{}, bundled: bundled, dictT: dictT, opened: map[string]bool{}}
	}
	tagT := func(x *Exec) types.Type {
		lp := p.SSA.ImportedPackage(langPkg)
		if lp == nil {
			panic(giveUp{"package " + langPkg + " is not used"})
		}
		return lp.Type("Tag").Type()
	}
	isOption := func(f *ssa.Function) bool {
		return f.Signature.Recv() == nil && f.Signature.Results().Len() == 1 && f.Object() != nil && f.Object().Exported() &&
			f.Signature.Results().At(0).Type().String() == mkNew.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem().String()
	}
	var options []*ssa.Function
	for _, f := range sortedFns(p, hyphPkg) {
		if isOption(f) {
			options = append(options, f)
		}
	}
	byParam := func(pred func(types.Type) bool) *ssa.Function {
		for _, f := range options {
			if f.Signature.Params().Len() == 1 && pred(f.Signature.Params().At(0).Type()) {
				return f
			}
		}
		return nil
	}
	withTag := byParam(func(t types.Type) bool { return t.String() == langPkg+".Tag" })
	withStr := byParam(isStringT)
	if withTag == nil || withStr == nil {
		r.Fail("undecided", "options", "-", "options for a language tag and for a language string are expected")
		return
	}
	dictOf := func(file string) VTerm { return VTerm{key: "dictionary of " + file, nn: 1, typ: dictT} }

	// new runs New with options on a state, and checks the dictionary of the result.
	run := func(what string, opts func(x *Exec, w *langWorld, s *State) []optCall, twice bool) {
		var w *langWorld
		analyse(p, r, what, func(x *Exec) {
			w = world()
			w.x, w.tagT = x, tagT(x)
			w.models(x)
			x.joinAt = 1 << 20
			loadModel := func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
				st, ok := args[0].(VStr)
				if !ok || st.k == nil {
					panic(giveUp{"the name of the file that is loaded is not known"})
				}
				if !bundled["languages/"+*st.k] {
					x.nobl++
					x.fail("bundled", site, "file "+*st.k+" is not bundled")
					return nil
				}
				w.opened[*st.k] = true
				return []ret{{s, VTuple{f: []Val{dictOf(*st.k), VIface{}}}}}
			}
			x.models[load.String()] = loadModel
		}, func(x *Exec) {
			// caches of dictionaries: empty, or filled by earlier calls
			caches := []*ssa.Global{}
			for _, m := range sortedMembers(sp) {
				if g, ok := m.(*ssa.Global); ok {
					if mt, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map); ok && isStringT(mt.Key()) && types.Identical(mt.Elem(), dictT) {
						caches = append(caches, g)
					}
				}
			}
			// what one call leaves in the caches, by key
			learned := map[*ssa.Global]map[string]Val{}
			learning := true
			judge := func(q ret) {
				s := q.s
				r.Count("outcomes", what)
				lang, ok := s.mon["language"].(VStr)
				_, pending := s.mon["requested"]
				x.require(ok && !(pending && s.mon["requested"] != nil), "language", mkNew, "a hyphenator may be made without matching the language requested")
				if !ok {
					return
				}
				name := *lang.k
				var d VTerm
				found := false
				if ptr, ok := q.v.(VPtr); ok && ptr.obj != 0 {
					if v, ok := x.obj(s, ptr.obj).val.(VStruct); ok {
						for _, f := range v.f {
							if t, is := f.(VTerm); is && strings.HasPrefix(t.key, "dictionary of ") {
								d, found = t, true
							}
						}
					}
				}
				r.Count("languages", name)
				if name == "en" { // taken for American English by the matcher, except for some languages that are not supported
					x.require(found && (d.key == dictOf("ushyphmax.tex").key || d.key == dictOf("hyph-en-gb.tex").key), "file", mkNew, "a hyphenator for en may not have English rules")
				} else if want, ok := fileFor(name); ok {
					x.require(found && d.key == dictOf(want).key, "file", mkNew, fmt.Sprintf("a hyphenator for %s may have the %s, not that of %s", name, orNone(d.key), want))
				} else {
					x.require(found, "file", mkNew, "a hyphenator for "+name+" may have no dictionary")
				}
				for _, g := range caches {
					m, ok := x.obj(s, x.globalObj(g)).val.(VMap)
					if !ok || m.obj == 0 {
						continue
					}
					o := x.obj(s, m.obj)
					x.require(!o.mopen, "cache", mkNew, "the keys of the cache are not known")
					if learned[g] == nil {
						learned[g] = map[string]Val{}
					}
					for k, v := range o.mk {
						if learning && learned[g][k] == nil {
							learned[g][k] = v
						}
						t, ok := v.(VTerm)
						l, ok2 := learned[g][k].(VTerm)
						x.require(ok && ok2 && t.key == l.key, "cache", mkNew, "the dictionary cached under "+k+" is not always the same")
					}
				}
			}
			visit := func(s *State) {
				rs := w.make(s, mkNew, opts(x, w, s))
				x.require(len(rs) > 0, "returns", mkNew, "no hyphenator is made")
				for _, q := range rs {
					judge(q)
					if twice {
						s := q.s
						for _, q2 := range w.make(s, mkNew, opts(x, w, s)) {
							judge(q2)
						}
					}
				}
			}
			visit(x.startState())
			learning = false
			// then from caches that hold any of it: all, and all but one
			keys := map[string]bool{}
			for _, m := range learned {
				for k := range m {
					keys[k] = true
				}
			}
			if len(keys) == 0 {
				return
			}
			for _, skip := range append([]string{""}, sortedKeys(keys)...) {
				s := x.startState()
				for _, g := range caches {
					m := &Obj{isMap: true, typ: dictT, mk: map[string]Val{}, name: g.Name()}
					for k, v := range learned[g] {
						if k != skip {
							m.mk[k] = v
						}
					}
					x.wobj(s, x.globalObj(g)).val = VMap{obj: x.newObj(s, m)}
				}
				visit(s)
			}
		})
		if w == nil {
			return
		}
		for _, k := range sortedKeys(w.matchers) {
			list := w.matchers[k]
			r.Count("matchers", strings.Join(list, ", "))
			r.Obligations++
			if len(list) == 0 || list[0] != "en-US" {
				r.Fail("default", "supported languages", p.PosOfFunc(mkNew), "the first supported language, taken when nothing matches, is not en-US")
			} else {
				r.Discharged++
			}
			for _, need := range []string{"en-US", "en-GB", "fr", "de", "es"} {
				has := false
				for _, l := range list {
					has = has || l == need
				}
				r.Obligations++
				if has {
					r.Discharged++
				} else {
					r.Fail("language", "supported languages", p.PosOfFunc(mkNew), need+" is no supported language: it is matched to another one")
				}
			}
		}
	}
	tag := func(x *Exec, w *langWorld, s *State) optCall {
		s.setMon("requested", VBool{condT})
		return optCall{withTag, []Val{VTerm{key: "requested tag", nn: 1, typ: w.tagT}}}
	}
	str := func(x *Exec, w *langWorld, s *State) optCall {
		s.setMon("requested", VBool{condT})
		return optCall{withStr, []Val{VStr{id: "request", ln: x.symLen(s, "length")}}}
	}
	run("New()", func(x *Exec, w *langWorld, s *State) []optCall {
		s.setMon("requested", nil)
		return nil
	}, false)
	for name, ask := range map[string]func(x *Exec, w *langWorld, s *State) optCall{"New(" + withTag.Name() + ")": tag, "New(" + withStr.Name() + ")": str} {
		ask := ask
		run(name, func(x *Exec, w *langWorld, s *State) []optCall { return []optCall{ask(x, w, s)} }, true)
		for _, o := range options {
			o := o
			if o == withTag || o == withStr {
				continue
			}
			for _, first := range []bool{true, false} {
				first := first
				run(fmt.Sprintf("%s and %s", name, o.Name()), func(x *Exec, w *langWorld, s *State) []optCall {
					c := optCall{fn: o}
					for i := 0; i < o.Signature.Params().Len(); i++ {
						c.args = append(c.args, x.fresh(s, o.Signature.Params().At(i).Type(), "argument"))
					}
					if first {
						return []optCall{c, ask(x, w, s)}
					}
					return []optCall{ask(x, w, s), c}
				}, false)
			}
		}
	}
	// the loader
	var files []string
	for f := range bundled {
		if rel := strings.TrimPrefix(f, "languages/"); rel != f && !strings.Contains(rel, "/") {
			files = append(files, rel)
		}
	}
	sort.Strings(files)
	for _, want := range []string{"hyph-de-1996.tex", "hyph-en-gb.tex", "hyph-es.tex", "hyph-fr.tex", "ushyphmax.tex"} {
		r.Obligations++
		if !bundled["languages/"+want] {
			r.Fail("bundled", want, p.PosOfFunc(load), "the rule file is not bundled")
			continue
		}
		r.Discharged++
		r.Count("bundled files", want)
		data, err := os.ReadFile(filepath.Join(dir, "languages", want))
		long := 0
		for _, l := range bytes.Split(data, []byte("\n")) {
			if len(l) > long {
				long = len(l)
			}
		}
		r.Obligations++
		if err != nil || long >= bufio.MaxScanTokenSize {
			r.Fail("bundled", want, "-", "a line is too long for the scanner")
		} else {
			r.Discharged++
		}
	}
	for _, file := range files {
		file := file
		analyse(p, r, "LoadPatterns", func(x *Exec) {
			w := world()
			w.x, w.tagT = x, tagT(x)
			w.models(x)
			open := func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
				st, ok := args[1].(VStr)
				x.nobl++
				r.Count("files opened", x.p.PosOf(site))
				if !ok || st.k == nil || *st.k != "languages/"+file {
					x.fail("opened", site, "the file opened is not the one asked for")
				}
				return nil
			}
			x.models["(embed.FS).ReadFile"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
				open(x, s, args, site)
				s.setMon("opened", VBool{condT})
				return []ret{{s, VTuple{f: []Val{x.freshSlice(s, types.Typ[types.Byte], "data"), VIface{}}}}}
			}
			x.models["(embed.FS).Open"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
				open(x, s, args, site)
				s.setMon("opened", VBool{condT})
				return []ret{{s, VTuple{f: []Val{VTerm{key: "file", nn: 1, typ: resultType(site.Common().Signature()).(*types.Tuple).At(0).Type()}, VIface{}}}}}
			}
			x.models["io/fs.ReadFile"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
				return x.models["(embed.FS).ReadFile"](x, s, args, site)
			}
			x.models["(*bufio.Scanner).Err"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
				return []ret{{s, VIface{}}} // the files are in memory, and their lines are short
			}
			for _, n := range []string{"Scan", "Text", "Bytes", "Split", "Buffer"} {
				x.models["(*bufio.Scanner)."+n] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
					return []ret{{s, x.fresh(s, resultType(site.Common().Signature()), "scanned")}}
				}
			}
			x.models["bufio.NewScanner"] = func(x *Exec, s *State, args []Val, site ssa.CallInstruction) []ret {
				return []ret{{s, VTerm{key: x.uniq("scanner"), nn: 1, typ: resultType(site.Common().Signature())}}}
			}
			x.override = func(x *Exec, s *State, f *ssa.Function, args []Val, site ssa.CallInstruction) ([]ret, bool) {
				// what the loader puts in the dictionary is not followed
				if x.inInit || f == load || f.Synthetic != "" {
					return nil, false
				}
				t := resultType(f.Signature)
				if !p.InModule(f) {
					if t != nil && f.Signature.Results().Len() == 1 {
						if _, ok := t.Underlying().(*types.Pointer); ok {
							return []ret{{s, VTerm{key: x.uniq(f.Name()), nn: 1, typ: t}}}, true
						}
					}
					return []ret{{s, x.fresh(s, t, f.Name())}}, true
				}
				values := f.Signature.Results().Len() > 0
				for i := 0; i < f.Signature.Results().Len(); i++ {
					switch f.Signature.Results().At(i).Type().Underlying().(type) {
					case *types.Slice, *types.Basic:
					default:
						values = false
					}
				}
				if values && len(x.info(f).loops) > 0 {
					return []ret{{s, x.fresh(s, t, f.Name())}}, true
				}
				if f.Pkg != sp {
					if t != nil && f.Signature.Results().Len() == 1 {
						switch t.Underlying().(type) {
						case *types.Pointer, *types.Interface:
							return []ret{{s, VTerm{key: x.uniq(f.Name()), nn: 1, typ: t}}}, true
						}
					}
					return []ret{{s, x.fresh(s, t, f.Name())}}, true
				}
				return nil, false
			}
			next := x.invoke
			x.invoke = func(x *Exec, s *State, recv Val, m *types.Func, args []Val, site ssa.CallInstruction) ([]ret, bool) {
				if t, ok := recv.(VTerm); ok && m.Pkg() != nil && p.inModPath(m.Pkg().Path()) && t.key != "" {
					return []ret{{s, x.fresh(s, resultType(m.Type().(*types.Signature)), m.Name())}}, true
				}
				return next(x, s, recv, m, args, site)
			}
		}, func(x *Exec) {
			s := x.startState()
			for _, q := range x.call(s, load, []Val{constStr(file)}, nil, nil) {
				r.Count("outcomes", "LoadPatterns")
				t, ok := q.v.(VTuple)
				x.require(ok && len(t.f) == 2 && x.decide(q.s, x.isNil(q.s, t.f[0])) == -1, "dictionary", load, "no dictionary may be returned for "+file)
				x.require(ok && len(t.f) == 2 && x.decide(q.s, x.isNil(q.s, t.f[1])) == 1, "dictionary", load, "an error may be returned for "+file)
				x.require(q.s.mon["opened"] != nil, "opened", load, "the file may not be read")
			}
		})
	}
	r.AtLeast("outcomes", 20)
	r.AtLeast("matches", 1)
	r.AtLeast("languages", 6)
	r.AtLeast("files opened", 1)
}

func orNone(k string) string {
	if k == "" {
		return "no dictionary"
	}
	return k
}

type optCall struct {
	fn   *ssa.Function
	args []Val
}

// make calls New with the results of the options.
func (w *langWorld) make(s *State, mkNew *ssa.Function, opts []optCall) []ret {
	x := w.x
	type partial struct {
		s  *State
		vs []Val
	}
	cur := []partial{{s, nil}}
	for _, o := range opts {
		var next []partial
		for _, c := range cur {
			for _, q := range x.call(c.s, o.fn, o.args, nil, nil) {
				next = append(next, partial{q.s, append(c.vs[:len(c.vs):len(c.vs)], q.v)})
			}
		}
		cur = next
	}
	var out []ret
	for _, c := range cur {
		n := K(int64(len(c.vs)))
		elem := mkNew.Signature.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		arg := VSlice{}
		if len(c.vs) > 0 {
			o := &Obj{arr: true, typ: elem, n: n, ck: cConc, el: c.vs, name: "options"}
			arg = VSlice{obj: x.newObj(c.s, o), off: K(0), ln: n, cp: n}
		}
		out = append(out, x.call(c.s, mkNew, []Val{arg}, nil, nil)...)
	}
	return out
}

// startState: once the packages are initialised.
func (x *Exec) startState() *State {
	s := x.newState()
	for k, v := range x.initMon {
		s.setMon(k, v)
	}
	return s
}

func sortedMembers(sp *ssa.Package) []ssa.Member {
	var ks []string
	for k := range sp.Members {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []ssa.Member
	for _, k := range ks {
		out = append(out, sp.Members[k])
	}
	return out
}
