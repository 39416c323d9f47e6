package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

// Sorts: Int Bool Str Flt, plus (Array Int S) for by-value arrays.

type leaf struct {
	suf  string
	sort string
	t    types.Type // go type of the leaf when it is a whole value, nil for slice components
}

const modPath = "github.com/mjarkk/yarql"

func isRepoPkg(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/") || p.Path() == "toy")
}

// opaque struct types: every struct type declared outside the repository
var transparent = map[string]bool{"reflect.StructField": true, "reflect.Method": true}

func isOpaque(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			if transparent[n.String()] {
				return false
			}
			return !isRepoPkg(n.Obj().Pkg())
		}
		if _, ok := n.Underlying().(*types.Array); ok {
			return !isRepoPkg(n.Obj().Pkg())
		}
	}
	return false
}

func structOf(t types.Type) *types.Struct {
	if isOpaque(t) {
		return nil
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func isArray(t types.Type) *types.Array {
	if isOpaque(t) {
		return nil
	}
	a, _ := t.Underlying().(*types.Array)
	return a
}

var reByte = regexp.MustCompile(`\bbyte\b`)
var reRune = regexp.MustCompile(`\brune\b`)
var keyTable = map[string]string{}
var keyUsed = map[string]string{}

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string {
		if p.Path() == modPath {
			return "yarql"
		}
		return p.Name()
	})
	s = reByte.ReplaceAllString(s, "uint8")
	s = reRune.ReplaceAllString(s, "int32")
	if k, ok := keyTable[s]; ok {
		return k
	}
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("p")
		case c == '.':
			b.WriteString("_")
		case c == '[':
			b.WriteString("l")
		default:
			b.WriteString("_")
		}
	}
	k := b.String()
	if len(k) > 60 {
		k = k[:60]
	}
	for o, ok := keyUsed[k]; ok && o != s; o, ok = keyUsed[k] {
		k += "x"
	}
	keyUsed[k] = s
	keyTable[s] = k
	return k
}

func basicSort(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0 || u.Info()&types.IsComplex != 0:
			return "Flt"
		case u.Info()&types.IsString != 0:
			return "Str"
		}
		return "Int"
	}
	return "Int"
}

// leaves of a type that is neither a repo struct nor a multi-leaf array
func leavesOf(t types.Type) []leaf {
	if isOpaque(t) {
		return []leaf{{"", "Int", t}}
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return []leaf{{"_b", "Int", nil}, {"_o", "Int", nil}, {"_l", "Int", nil}, {"_c", "Int", nil}}
	case *types.Struct:
		panic(unsup("leavesOf struct %s", t.String()))
	case *types.Array:
		if isStructLike(u.Elem()) || len(leavesOf(u.Elem())) != 1 {
			return []leaf{{"", "Int", t}} // opaque by-value token
		}
		return []leaf{{"", "(Array Int " + leavesOf(u.Elem())[0].sort + ")", t}}
	}
	return []leaf{{"", basicSort(t), t}}
}

func isStructLike(t types.Type) bool { return structOf(t) != nil }

// flat leaves: recursive through structs
func flatLeaves(t types.Type) []leaf {
	if st := structOf(t); st != nil {
		var out []leaf
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			for _, l := range flatLeaves(f.Type()) {
				out = append(out, leaf{"_" + f.Name() + l.suf, l.sort, l.t})
			}
		}
		return out
	}
	return leavesOf(t)
}

type unsupported struct{ msg string }

func unsup(s string, a ...interface{}) unsupported { return unsupported{fmt.Sprintf(s, a...)} }

func intRange(t types.Type) (lo, hi string, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return "(- 128)", "127", true
	case types.Int16:
		return "(- 32768)", "32767", true
	case types.Int32:
		return "(- 2147483648)", "2147483647", true
	case types.Int64, types.Int, types.UntypedInt:
		return "(- 9223372036854775808)", "9223372036854775807", true
	case types.Uint8:
		return "0", "255", true
	case types.Uint16:
		return "0", "65535", true
	case types.Uint32:
		return "0", "4294967295", true
	case types.Uint64, types.Uint, types.Uintptr:
		return "0", "18446744073709551615", true
	}
	return
}

func intBits(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return
}

var pow2 = map[int]string{0: "1", 1: "2", 2: "4", 3: "8", 4: "16", 5: "32", 6: "64", 7: "128", 8: "256", 10: "1024", 12: "4096", 15: "32768", 16: "65536", 24: "16777216",
	7 + 24: "2147483648", 32: "4294967296", 63: "9223372036854775808", 64: "18446744073709551616"}
