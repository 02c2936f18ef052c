package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Model of the effects of external (standard library and x/text) functions on
// the memory they are given.

// extPkg gives the package path of an external callee (or of the interface invoked).
func extPkg(c ssa.CallInstruction, f *ssa.Function) (pkg, name string) {
	com := c.Common()
	if com.IsInvoke() {
		name = com.Method.Name()
		if com.Method.Pkg() != nil {
			pkg = com.Method.Pkg().Path()
		}
		return pkg, name
	}
	if f == nil {
		return "", ""
	}
	name = f.Name()
	if o := f.Origin(); o != nil {
		f = o
		name = f.Name()
	}
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Path()
	}
	return pkg, name
}

func recvNamed(f *ssa.Function) string {
	if f == nil || f.Signature.Recv() == nil {
		return ""
	}
	t := f.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// readOnlyPkgs never write to memory given as argument, whatever the function,
// or only in a way that is safe for concurrent use.
var readOnlyPkgs = map[string]bool{
	"unicode": true, "strings": true, "strconv": true, "math": true, "math/bits": true, "errors": true,
	"path": true, "path/filepath": true, "embed": true, "io/fs": true, "fmt": true, "unicode/utf16": true, "cmp": true,
	"golang.org/x/text/language": true, "golang.org/x/text/runes": true, "golang.org/x/text/width": true,
	"golang.org/x/text/unicode/rangetable": true, "golang.org/x/text/internal/language": true,
	"sync": true, "sync/atomic": true, "reflect": true,
}

// readOnlyFuncs of packages that have both kinds.
var readOnlyFuncs = map[string]bool{
	"container/list.Front": true, "container/list.Back": true, "container/list.Len": true,
	"container/list.Next": true, "container/list.Prev": true, "container/list.New": true,
	"unicode/utf8.RuneLen": true, "unicode/utf8.ValidRune": true, "unicode/utf8.RuneCount": true, "unicode/utf8.RuneCountInString": true,
	"unicode/utf8.DecodeRune": true, "unicode/utf8.DecodeRuneInString": true, "unicode/utf8.Valid": true, "unicode/utf8.ValidString": true,
	"unicode/utf8.FullRune": true, "unicode/utf8.DecodeLastRune": true, "unicode/utf8.DecodeLastRuneInString": true,
	"sort.Search": true, "sort.SearchInts": true, "sort.SearchStrings": true, "sort.SliceIsSorted": true, "sort.IsSorted": true,
	"sort.IntsAreSorted": true, "sort.StringsAreSorted": true, "sort.Find": true,
	"slices.Contains": true, "slices.ContainsFunc": true, "slices.Index": true, "slices.IndexFunc": true, "slices.Equal": true,
	"slices.EqualFunc": true, "slices.BinarySearch": true, "slices.BinarySearchFunc": true, "slices.Clone": true, "slices.Max": true,
	"slices.Min": true, "slices.IsSorted": true, "slices.Compare": true, "slices.MaxFunc": true, "slices.MinFunc": true, "slices.Clip": true,
	"slices.Concat": true, "slices.Repeat": true, "slices.Values": true, "slices.All": true, "slices.Backward": true, "slices.Collect": true, "slices.Sorted": true,
	"maps.Keys": true, "maps.Values": true, "maps.Clone": true, "maps.Equal": true, "maps.All": true,
	"bytes.Equal": true, "bytes.Contains": true, "bytes.IndexByte": true, "bytes.Index": true, "bytes.HasPrefix": true, "bytes.TrimSpace": true,
	"bytes.NewReader": true, "bytes.NewBuffer": true, "bytes.Fields": true, "bytes.Split": true, "bytes.Clone": true,
	"bufio.NewScanner": true, "bufio.NewReader": true, "bufio.NewWriter": true,
}

// mutatedArgs gives the arguments an external call may write through.
func mutatedArgs(c ssa.CallInstruction, ext []*ssa.Function) []ssa.Value {
	com := c.Common()
	var f *ssa.Function
	if len(ext) == 1 {
		f = ext[0]
	}
	pkg, name := extPkg(c, f)
	if com.IsInvoke() {
		// an interface of the module or of the standard library: writers are
		// expected to be written to; the slices they are given are read only
		// by the contracts of io.Writer and of runesio.Writer
		switch {
		case strings.HasPrefix(name, "Write"):
			return nil
		case name == "Read" && len(com.Args) > 0:
			return com.Args[:1]
		}
		return nil
	}
	if f == nil {
		return nil
	}
	if f.Signature.Recv() != nil && (pkg == "strings" || pkg == "fmt" || pkg == "reflect") {
		if _, isPtr := f.Signature.Recv().Type().(*types.Pointer); isPtr {
			return com.Args[:1]
		}
	}
	switch pkg + "." + name {
	case "maps.Copy", "slices.Sort", "slices.SortFunc", "slices.Reverse", "sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Strings":
		return com.Args[:1]
	}
	if readOnlyPkgs[pkg] || readOnlyFuncs[pkg+"."+name] {
		return nil
	}
	switch pkg {
	case "container/list", "container/ring":
		if f.Signature.Recv() != nil {
			return com.Args[:1]
		}
	case "unicode/utf8":
		if name == "EncodeRune" || name == "AppendRune" {
			if name == "AppendRune" && cappedSlice(com.Args[0]) {
				return nil
			}
			return com.Args[:1]
		}
		return nil
	}
	// default: through any reference but strings, functions and interfaces
	var out []ssa.Value
	for _, a := range com.Args {
		switch a.Type().Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Map:
			out = append(out, a)
		}
	}
	return out
}
