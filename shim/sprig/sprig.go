// Package sprig is an offline stand-in for github.com/Masterminds/sprig/v3. It
// implements the deterministic, dependency-free part of its function map with
// the documented semantics (strings, lists, dicts, maths, encoding, paths,
// reflection, regular expressions).
package sprig

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	htmltemplate "html/template"
	"math"
	"os"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"text/template"
	"time"
	"unicode"

	"github.com/huandu/xstrings"
)

// FuncMap returns the function map.
func FuncMap() htmltemplate.FuncMap { return htmltemplate.FuncMap(GenericFuncMap()) }

// HtmlFuncMap returns the function map.
func HtmlFuncMap() htmltemplate.FuncMap { return FuncMap() }

// TxtFuncMap returns the function map.
func TxtFuncMap() template.FuncMap { return template.FuncMap(GenericFuncMap()) }

// HermeticTxtFuncMap returns the function map without environment access.
func HermeticTxtFuncMap() template.FuncMap {
	m := TxtFuncMap()
	for _, k := range []string{"env", "expandenv", "now"} {
		delete(m, k)
	}
	return m
}

// GenericFuncMap returns a copy of the function map.
func GenericFuncMap() map[string]interface{} {
	m := make(map[string]interface{}, len(generic))
	for k, v := range generic {
		m[k] = v
	}
	return m
}

func strval(v interface{}) string {
	switch v := v.(type) {
	case string:
		return v
	case []byte:
		return string(v)
	case error:
		return v.Error()
	case fmt.Stringer:
		return v.String()
	default:
		return fmt.Sprintf("%v", v)
	}
}

func strslice(v interface{}) []string {
	switch v := v.(type) {
	case []string:
		return v
	case nil:
		return []string{}
	}
	val := reflect.ValueOf(v)
	switch val.Kind() {
	case reflect.Array, reflect.Slice:
		var b []string
		for i := 0; i < val.Len(); i++ {
			e := val.Index(i).Interface()
			if e != nil {
				b = append(b, strval(e))
			}
		}
		return b
	}
	return []string{strval(v)}
}

func toI64(v interface{}) int64 {
	switch x := v.(type) {
	case nil:
		return 0
	case string:
		i, err := strconv.ParseInt(x, 0, 64)
		if err != nil {
			return 0
		}
		return i
	}
	rv := reflect.Indirect(reflect.ValueOf(v))
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return rv.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(rv.Uint())
	case reflect.Float32, reflect.Float64:
		return int64(rv.Float())
	case reflect.Bool:
		if rv.Bool() {
			return 1
		}
	}
	return 0
}

func toF64(v interface{}) float64 {
	if s, ok := v.(string); ok {
		f, _ := strconv.ParseFloat(s, 64)
		return f
	}
	rv := reflect.Indirect(reflect.ValueOf(v))
	switch rv.Kind() {
	case reflect.Float32, reflect.Float64:
		return rv.Float()
	}
	return float64(toI64(v))
}

func empty(given interface{}) bool {
	g := reflect.ValueOf(given)
	if !g.IsValid() {
		return true
	}
	switch g.Kind() {
	default:
		return g.IsNil()
	case reflect.Array, reflect.Slice, reflect.Map, reflect.String:
		return g.Len() == 0
	case reflect.Bool:
		return !g.Bool()
	case reflect.Complex64, reflect.Complex128:
		return g.Complex() == 0
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return g.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return g.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return g.Float() == 0
	case reflect.Struct:
		return false
	}
}

func toSlice(l interface{}) []interface{} {
	if l == nil {
		return nil
	}
	v := reflect.ValueOf(l)
	if k := v.Kind(); k != reflect.Slice && k != reflect.Array {
		panic(fmt.Sprintf("Cannot use type %s as a list", k))
	}
	r := make([]interface{}, v.Len())
	for i := range r {
		r[i] = v.Index(i).Interface()
	}
	return r
}

func ints(f func(a, b int64) int64) func(a interface{}, b ...interface{}) int64 {
	return func(a interface{}, b ...interface{}) int64 {
		r := toI64(a)
		for _, x := range b {
			r = f(r, toI64(x))
		}
		return r
	}
}

func dict(v ...interface{}) map[string]interface{} {
	d := map[string]interface{}{}
	for i := 0; i < len(v); i += 2 {
		k := strval(v[i])
		if i+1 >= len(v) {
			d[k] = ""
			continue
		}
		d[k] = v[i+1]
	}
	return d
}

func merge(overwrite bool) func(dst map[string]interface{}, srcs ...map[string]interface{}) interface{} {
	var rec func(d, s map[string]interface{})
	rec = func(d, s map[string]interface{}) {
		for k, v := range s {
			old, ok := d[k]
			dm, ok1 := old.(map[string]interface{})
			sm, ok2 := v.(map[string]interface{})
			switch {
			case ok && ok1 && ok2:
				rec(dm, sm)
			case !ok || overwrite || empty(old):
				d[k] = v
			}
		}
	}
	return func(dst map[string]interface{}, srcs ...map[string]interface{}) interface{} {
		for _, s := range srcs {
			rec(dst, s)
		}
		return dst
	}
}

func toPrettyJson(v interface{}) string {
	b, _ := json.MarshalIndent(v, "", "  ")
	return string(b)
}

func toRawJson(v interface{}) string {
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetEscapeHTML(false)
	if err := e.Encode(&v); err != nil {
		panic(err)
	}
	return strings.TrimSuffix(buf.String(), "\n")
}

func untilStep(start, stop, step int) []int {
	v := []int{}
	if stop < start {
		if step >= 0 {
			return v
		}
		for i := start; i > stop; i += step {
			v = append(v, i)
		}
		return v
	}
	if step <= 0 {
		return v
	}
	for i := start; i < stop; i += step {
		v = append(v, i)
	}
	return v
}

func substring(start, end int, s string) string {
	if start < 0 {
		return s[:end]
	}
	if end < 0 || end > len(s) {
		return s[start:]
	}
	return s[start:end]
}

func splitMap(sep, orig string, n int) map[string]string {
	res := map[string]string{}
	for i, v := range strings.SplitN(orig, sep, n) {
		res["_"+strconv.Itoa(i)] = v
	}
	return res
}

func dig(ps ...interface{}) (interface{}, error) {
	if len(ps) < 3 {
		panic("dig needs at least three arguments")
	}
	cur := ps[len(ps)-1].(map[string]interface{})
	def := ps[len(ps)-2]
	keys := ps[:len(ps)-2]
	for i, k := range keys {
		v, ok := cur[k.(string)]
		if !ok {
			return def, nil
		}
		if i == len(keys)-1 {
			return v, nil
		}
		cur = v.(map[string]interface{})
	}
	return cur, nil
}

func inList(haystack []interface{}, needle interface{}) bool {
	for _, h := range haystack {
		if reflect.DeepEqual(needle, h) {
			return true
		}
	}
	return false
}

func title(s string) string {
	prev := ' '
	return strings.Map(func(r rune) rune {
		p := prev
		prev = r
		if !unicode.IsLetter(p) && !unicode.IsDigit(p) && p != '_' {
			return unicode.ToTitle(r)
		}
		return r
	}, s)
}

func pick(keep bool) func(d map[string]interface{}, keys ...string) map[string]interface{} {
	return func(d map[string]interface{}, keys ...string) map[string]interface{} {
		res := map[string]interface{}{}
		for k, v := range d {
			in := false
			for _, x := range keys {
				in = in || x == k
			}
			if in == keep {
				res[k] = v
			}
		}
		return res
	}
}

func must(re string) *regexp.Regexp { return regexp.MustCompile(re) }

var generic = map[string]interface{}{
	"hello": func() string { return "Hello!" },

	// strings
	"trim": strings.TrimSpace, "upper": strings.ToUpper, "lower": strings.ToLower, "title": title,
	"untitle":    xstrings.FirstRuneToLower,
	"trimAll":    func(a, b string) string { return strings.Trim(b, a) },
	"trimall":    func(a, b string) string { return strings.Trim(b, a) },
	"trimSuffix": func(a, b string) string { return strings.TrimSuffix(b, a) },
	"trimPrefix": func(a, b string) string { return strings.TrimPrefix(b, a) },
	"substr":     substring,
	"repeat":     func(count int, str string) string { return strings.Repeat(str, count) },
	"nospace":    func(s string) string { return strings.Join(strings.Fields(s), "") },
	"trunc": func(c int, s string) string {
		if c < 0 && len(s)+c > 0 {
			return s[len(s)+c:]
		}
		if c >= 0 && len(s) > c {
			return s[:c]
		}
		return s
	},
	"contains":  func(substr string, str string) bool { return strings.Contains(str, substr) },
	"hasPrefix": func(substr string, str string) bool { return strings.HasPrefix(str, substr) },
	"hasSuffix": func(substr string, str string) bool { return strings.HasSuffix(str, substr) },
	"quote": func(str ...interface{}) string {
		out := make([]string, 0, len(str))
		for _, s := range str {
			if s != nil {
				out = append(out, fmt.Sprintf("%q", strval(s)))
			}
		}
		return strings.Join(out, " ")
	},
	"squote": func(str ...interface{}) string {
		out := make([]string, 0, len(str))
		for _, s := range str {
			if s != nil {
				out = append(out, fmt.Sprintf("'%v'", s))
			}
		}
		return strings.Join(out, " ")
	},
	"cat": func(v ...interface{}) string {
		var out []string
		for _, x := range v {
			if x != nil {
				out = append(out, fmt.Sprintf("%v", x))
			}
		}
		return strings.Join(out, " ")
	},
	"indent": func(spaces int, v string) string {
		pad := strings.Repeat(" ", spaces)
		return pad + strings.ReplaceAll(v, "\n", "\n"+pad)
	},
	"nindent": func(spaces int, v string) string {
		pad := strings.Repeat(" ", spaces)
		return "\n" + pad + strings.ReplaceAll(v, "\n", "\n"+pad)
	},
	"replace": func(old, new, src string) string { return strings.ReplaceAll(src, old, new) },
	"plural": func(one, many string, count int) string {
		if count == 1 {
			return one
		}
		return many
	},
	"snakecase": xstrings.ToSnakeCase, "camelcase": xstrings.ToCamelCase, "kebabcase": xstrings.ToKebabCase,
	"toString":  strval,
	"toStrings": strslice,
	"join":      func(sep string, v interface{}) string { return strings.Join(strslice(v), sep) },
	"sortAlpha": func(list interface{}) []string {
		s := append([]string{}, strslice(list)...)
		sort.Strings(s)
		return s
	},
	"split":     func(sep, orig string) map[string]string { return splitMap(sep, orig, -1) },
	"splitn":    func(sep string, n int, orig string) map[string]string { return splitMap(sep, orig, n) },
	"splitList": func(sep, orig string) []string { return strings.Split(orig, sep) },

	// numbers
	"atoi":    func(a string) int { i, _ := strconv.Atoi(a); return i },
	"int64":   toI64,
	"int":     func(v interface{}) int { return int(toI64(v)) },
	"float64": toF64,
	"toDecimal": func(v interface{}) int64 {
		r, err := strconv.ParseInt(fmt.Sprint(v), 8, 64)
		if err != nil {
			return 0
		}
		return r
	},
	"add1": func(i interface{}) int64 { return toI64(i) + 1 },
	"add": func(i ...interface{}) int64 {
		var a int64
		for _, b := range i {
			a += toI64(b)
		}
		return a
	},
	"sub": func(a, b interface{}) int64 { return toI64(a) - toI64(b) },
	"div": func(a, b interface{}) int64 { return toI64(a) / toI64(b) },
	"mod": func(a, b interface{}) int64 { return toI64(a) % toI64(b) },
	"mul": ints(func(a, b int64) int64 { return a * b }),
	"max": ints(func(a, b int64) int64 {
		if b > a {
			return b
		}
		return a
	}),
	"biggest": ints(func(a, b int64) int64 {
		if b > a {
			return b
		}
		return a
	}),
	"min": ints(func(a, b int64) int64 {
		if b < a {
			return b
		}
		return a
	}),
	"ceil":  func(a interface{}) float64 { return math.Ceil(toF64(a)) },
	"floor": func(a interface{}) float64 { return math.Floor(toF64(a)) },
	"until": func(count int) []int {
		if count < 0 {
			return untilStep(0, count, -1)
		}
		return untilStep(0, count, 1)
	},
	"untilStep": untilStep,
	"seq": func(p ...int) string {
		var v []int
		switch len(p) {
		case 1:
			v = untilStep(1, p[0]+1, 1)
		case 2:
			v = untilStep(p[0], p[1]+1, 1)
		case 3:
			v = untilStep(p[0], p[2]+1, p[1])
		}
		return strings.Trim(strings.Join(strings.Fields(fmt.Sprint(v)), " "), "[]")
	},

	// defaults
	"default": func(d interface{}, given ...interface{}) interface{} {
		if len(given) == 0 || empty(given[0]) {
			return d
		}
		return given[0]
	},
	"empty": empty,
	"coalesce": func(v ...interface{}) interface{} {
		for _, x := range v {
			if !empty(x) {
				return x
			}
		}
		return nil
	},
	"all": func(v ...interface{}) bool {
		for _, x := range v {
			if empty(x) {
				return false
			}
		}
		return true
	},
	"any": func(v ...interface{}) bool {
		for _, x := range v {
			if !empty(x) {
				return true
			}
		}
		return false
	},
	"compact": func(l interface{}) []interface{} {
		r := []interface{}{}
		for _, x := range toSlice(l) {
			if !empty(x) {
				r = append(r, x)
			}
		}
		return r
	},
	"ternary": func(vt, vf interface{}, v bool) interface{} {
		if v {
			return vt
		}
		return vf
	},
	"fail": func(msg string) (string, error) { return "", errors.New(msg) },

	// encoding
	"toJson":       func(v interface{}) string { b, _ := json.Marshal(v); return string(b) },
	"toPrettyJson": toPrettyJson, "toRawJson": toRawJson,
	"mustToJson":       func(v interface{}) (string, error) { b, err := json.Marshal(v); return string(b), err },
	"mustToPrettyJson": func(v interface{}) (string, error) { b, err := json.MarshalIndent(v, "", "  "); return string(b), err },
	"mustToRawJson":    func(v interface{}) (string, error) { return toRawJson(v), nil },
	"fromJson":         func(s string) interface{} { var o interface{}; json.Unmarshal([]byte(s), &o); return o },
	"mustFromJson":     func(s string) (interface{}, error) { var o interface{}; err := json.Unmarshal([]byte(s), &o); return o, err },
	"b64enc":           func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) },
	"b64dec": func(s string) string {
		d, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			return err.Error()
		}
		return string(d)
	},

	// reflection
	"typeOf":     func(v interface{}) string { return fmt.Sprintf("%T", v) },
	"typeIs":     func(t string, v interface{}) bool { return t == fmt.Sprintf("%T", v) },
	"typeIsLike": func(t string, v interface{}) bool { s := fmt.Sprintf("%T", v); return t == s || "*"+t == s },
	"kindOf":     func(v interface{}) string { return reflect.ValueOf(v).Kind().String() },
	"kindIs":     func(t string, v interface{}) bool { return t == reflect.ValueOf(v).Kind().String() },
	"deepEqual":  func(x, y interface{}) bool { return reflect.DeepEqual(x, y) },

	// paths
	"base": path.Base, "dir": path.Dir, "clean": path.Clean, "ext": path.Ext, "isAbs": path.IsAbs,
	"osBase": filepath.Base, "osClean": filepath.Clean, "osDir": filepath.Dir, "osExt": filepath.Ext, "osIsAbs": filepath.IsAbs,
	"env": os.Getenv, "expandenv": os.ExpandEnv, "now": time.Now,

	// lists
	"list":  func(v ...interface{}) []interface{} { return v },
	"tuple": func(v ...interface{}) []interface{} { return v },
	"append": func(l interface{}, v interface{}) []interface{} {
		return append(toSlice(l), v)
	},
	"push": func(l interface{}, v interface{}) []interface{} {
		return append(toSlice(l), v)
	},
	"prepend": func(l interface{}, v interface{}) []interface{} {
		return append([]interface{}{v}, toSlice(l)...)
	},
	"concat": func(ls ...interface{}) interface{} {
		var r []interface{}
		for _, l := range ls {
			r = append(r, toSlice(l)...)
		}
		return r
	},
	"first": func(l interface{}) interface{} {
		s := toSlice(l)
		if len(s) == 0 {
			return nil
		}
		return s[0]
	},
	"last": func(l interface{}) interface{} {
		s := toSlice(l)
		if len(s) == 0 {
			return nil
		}
		return s[len(s)-1]
	},
	"rest": func(l interface{}) []interface{} {
		s := toSlice(l)
		if len(s) == 0 {
			return nil
		}
		return s[1:]
	},
	"initial": func(l interface{}) []interface{} {
		s := toSlice(l)
		if len(s) == 0 {
			return nil
		}
		return s[:len(s)-1]
	},
	"reverse": func(l interface{}) []interface{} {
		s := toSlice(l)
		for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
			s[i], s[j] = s[j], s[i]
		}
		return s
	},
	"uniq": func(l interface{}) []interface{} {
		r := []interface{}{}
		for _, x := range toSlice(l) {
			if !inList(r, x) {
				r = append(r, x)
			}
		}
		return r
	},
	"without": func(l interface{}, omit ...interface{}) []interface{} {
		r := []interface{}{}
		for _, x := range toSlice(l) {
			if !inList(omit, x) {
				r = append(r, x)
			}
		}
		return r
	},
	"has": func(needle interface{}, l interface{}) bool { return l != nil && inList(toSlice(l), needle) },
	"slice": func(l interface{}, idx ...interface{}) interface{} {
		s := toSlice(l)
		a, b := 0, len(s)
		if len(idx) > 0 {
			a = int(toI64(idx[0]))
		}
		if len(idx) > 1 {
			b = int(toI64(idx[1]))
		}
		return s[a:b]
	},
	"chunk": func(size int, l interface{}) [][]interface{} {
		s := toSlice(l)
		var r [][]interface{}
		for i := 0; i < len(s); i += size {
			e := i + size
			if e > len(s) {
				e = len(s)
			}
			r = append(r, s[i:e])
		}
		return r
	},

	// dicts
	"dict": dict,
	"get": func(d map[string]interface{}, key string) interface{} {
		if v, ok := d[key]; ok {
			return v
		}
		return ""
	},
	"set": func(d map[string]interface{}, key string, v interface{}) map[string]interface{} {
		d[key] = v
		return d
	},
	"unset":  func(d map[string]interface{}, key string) map[string]interface{} { delete(d, key); return d },
	"hasKey": func(d map[string]interface{}, key string) bool { _, ok := d[key]; return ok },
	"keys": func(ds ...map[string]interface{}) []string {
		k := []string{}
		for _, d := range ds {
			for key := range d {
				k = append(k, key)
			}
		}
		return k
	},
	"values": func(d map[string]interface{}) []interface{} {
		v := []interface{}{}
		for _, x := range d {
			v = append(v, x)
		}
		return v
	},
	"pluck": func(key string, ds ...map[string]interface{}) []interface{} {
		r := []interface{}{}
		for _, d := range ds {
			if v, ok := d[key]; ok {
				r = append(r, v)
			}
		}
		return r
	},
	"pick": pick(true), "omit": pick(false), "dig": dig,
	"merge": merge(false), "mergeOverwrite": merge(true),

	// regular expressions
	"regexMatch":             func(re, s string) bool { m, _ := regexp.MatchString(re, s); return m },
	"regexFind":              func(re, s string) string { return must(re).FindString(s) },
	"regexFindAll":           func(re, s string, n int) []string { return must(re).FindAllString(s, n) },
	"regexReplaceAll":        func(re, s, repl string) string { return must(re).ReplaceAllString(s, repl) },
	"regexReplaceAllLiteral": func(re, s, repl string) string { return must(re).ReplaceAllLiteralString(s, repl) },
	"regexSplit":             func(re, s string, n int) []string { return must(re).Split(s, n) },
	"regexQuoteMeta":         regexp.QuoteMeta,
}
