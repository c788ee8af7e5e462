// Settings overrides: any base and any list of overrides, as YAML or JSON text or file.
package override

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"testing"

	"github.com/aodinokov/metac/pkg/override"
	"github.com/aodinokov/metac/zz_verif/vf"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

type M = map[string]interface{}

var keys = []string{"a", "b", "c", "path", "path_type", "data", "key with space", "x-y", "A", "0", "true", "ключ"}

func leaf(t *rapid.T) interface{} {
	switch rapid.IntRange(0, 9).Draw(t, "leaf") {
	case 0:
		return nil
	case 1:
		return rapid.Bool().Draw(t, "bool")
	case 2:
		return rapid.SampledFrom([]int{1 << 31, -1 << 31, 1<<32 + 5, 1 << 53, 1<<53 + 1, -1<<53 - 1, math.MaxInt64, math.MinInt64, 1e15, 1e16 + 1}).Draw(t, "large")
	case 3:
		return rapid.IntRange(-1000000, 1000000).Draw(t, "int")
	case 4:
		return float64(rapid.IntRange(-1000, 1000).Draw(t, "eighths"))/8 + 0.0625
	case 5:
		return rapid.SampledFrom([]string{"", "null", "~", "true", "no", "1", "0x10", "1e3", " lead", "a: b", "- x", "{", "[", "#c", "'", "\"", "--file:x", "multi\nline", "tab\t", "&a", "*a", "!t", "|", ">", "%", "@", "`", "é", "\\n"}).Draw(t, "odd")
	case 6:
		n := rapid.IntRange(0, 4).Draw(t, "n")
		l := make([]interface{}, n)
		for i := range l {
			if rapid.IntRange(0, 3).Draw(t, "deep") == 0 {
				l[i] = table(t, 1)
			} else {
				l[i] = rapid.IntRange(0, 9).Draw(t, "el")
			}
		}
		return l
	default:
		return rapid.StringMatching(`[a-z/. ]{0,8}`).Draw(t, "str")
	}
}

func table(t *rapid.T, depth int) M {
	m := M{}
	if depth > 3 { // a long chain of tables
		m[rapid.SampledFrom(keys[:3]).Draw(t, "key")] = table(t, depth-1)
		return m
	}
	n := rapid.IntRange(0, 5).Draw(t, "entries")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(keys).Draw(t, "key")
		if depth > 0 && rapid.IntRange(0, 2).Draw(t, "table") != 0 {
			m[k] = table(t, depth-1)
		} else {
			m[k] = leaf(t)
		}
	}
	return m
}

type number string

// the same value with numbers as text, lists and tables as new ones
func norm(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		r := M{}
		for k, y := range x {
			r[k] = norm(y)
		}
		return r
	case []interface{}:
		r := make([]interface{}, len(x))
		for i, y := range x {
			r[i] = norm(y)
		}
		return r
	case int:
		return number(fmt.Sprint(x))
	case int64:
		return number(fmt.Sprint(x))
	case uint64:
		return number(fmt.Sprint(x))
	case float64:
		if x == math.Trunc(x) && math.Abs(x) <= 1<<53 {
			return number(fmt.Sprint(int64(x)))
		}
		return number(strconv.FormatFloat(x, 'g', -1, 64))
	default:
		return v
	}
}

// what overriding means: tables are merged, everything else is replaced
func model(base, over M) M {
	r := M{}
	for k, v := range base {
		r[k] = norm(v)
	}
	for k, v := range over {
		bt, ok1 := r[k].(M)
		ot, ok2 := v.(M)
		if ok1 && ok2 {
			r[k] = model(bt, ot)
		} else {
			r[k] = norm(v)
		}
	}
	return r
}

// a number which JSON's (double precision) numbers cannot hold
func large(v interface{}) bool {
	switch x := v.(type) {
	case M:
		for _, y := range x {
			if large(y) {
				return true
			}
		}
	case []interface{}:
		for _, y := range x {
			if large(y) {
				return true
			}
		}
	case int:
		return x > 1<<53 || x < -1<<53
	}
	return false
}

func text(t *rapid.T, m M) (string, bool) {
	if !large(m) && rapid.Bool().Draw(t, "json") {
		b, err := json.Marshal(m)
		if err != nil {
			t.Fatal(err)
		}
		if rapid.Bool().Draw(t, "indent") {
			b, _ = json.MarshalIndent(m, " ", "\t")
			b = append([]byte(" \n"), b...)
		}
		return string(b), true
	}
	b, err := yaml.Marshal(m)
	if err != nil {
		t.Fatal(err)
	}
	return string(b), false
}

func base(t *rapid.T, m M) *M {
	b, err := yaml.Marshal(m)
	if err != nil {
		t.Fatal(err)
	}
	r := &M{}
	if err := yaml.Unmarshal(b, r); err != nil {
		t.Fatal(err)
	}
	return r
}

func depth(t *rapid.T) int {
	if rapid.IntRange(0, 12).Draw(t, "deep") == 0 {
		return rapid.IntRange(4, 12).Draw(t, "depth")
	}
	return rapid.IntRange(0, 3).Draw(t, "depth")
}

func TestMerge(t *testing.T) {
	dir := t.TempDir()
	vf.Check(t, func(t *vf.T) {
		b := table(t.T, depth(t.T))
		in := base(t.T, b)
		n := rapid.IntRange(0, 4).Draw(t.T, "overrides")
		if rapid.IntRange(0, 15).Draw(t.T, "many") == 0 {
			n = rapid.IntRange(5, 14).Draw(t.T, "overrides")
		}
		want := model(M{}, b)
		var overs []string
		size := 0
		bad := false
		for i := 0; i < n; i++ {
			o := table(t.T, depth(t.T))
			s, js := text(t.T, o)
			if rapid.IntRange(0, 19).Draw(t.T, "broken") == 0 {
				// no document at all, or one that is no table
				s = rapid.SampledFrom([]string{"{", "{\"a\":}", "[1,2]", "a: [", "just text", "a: b: c", "--file:" + dir + "/absent", "\tx: 1", "{\"a\": 1} x"}).Draw(t.T, "what")
				bad = true
			} else {
				if rapid.IntRange(0, 5).Draw(t.T, "empty") == 0 {
					s, o = rapid.SampledFrom([]string{"", " ", "\n", "# nothing", "{}", "null", "~", "---"}).Draw(t.T, "nothing"), M{}
				}
				if rapid.IntRange(0, 2).Draw(t.T, "file") == 0 {
					f := filepath.Join(dir, fmt.Sprintf("%d", i))
					if js {
						f += ".yaml" // the name says nothing about the contents
					}
					if err := os.WriteFile(f, []byte(s), 0644); err != nil {
						t.T.Fatal(err)
					}
					s = "--file:" + f
					t.Label("file")
				}
				want = model(want, o)
				size += len(o)
			}
			overs = append(overs, s)
		}
		t.Note("base %q overrides %q", fmt.Sprint(b), overs)
		before := norm(*in)
		got, err := override.MergeAll(in, overs)
		if bad {
			t.Label("refused")
			if err == nil {
				t.Failf("refuse", "an override that is no table was accepted: %q gives %v", overs, *got)
			}
		} else {
			if err != nil {
				t.Failf("accept", "overrides %q refused: %v", overs, err)
			}
			if g := norm(*got); !reflect.DeepEqual(g, interface{}(want)) {
				t.Failf("merge", "base %v with %q gives %v, expected %v", b, overs, g, want)
			}
			if size >= 4 && n >= 2 {
				t.NonTrivial()
			}
		}
		if !reflect.DeepEqual(norm(*in), before) {
			t.Failf("base", "the base has changed from %v to %v", before, *in)
		}
		// the result is independent of the base: changing one does not show in the other
		if err == nil {
			scribble(*got)
			if !reflect.DeepEqual(norm(*in), before) {
				t.Failf("alias", "the result shares tables with the base %v", b)
			}
		}
	})
}

func scribble(v interface{}) {
	switch x := v.(type) {
	case M:
		for _, y := range x {
			scribble(y)
		}
		x["scribbled"] = 1
	case []interface{}:
		for i, y := range x {
			scribble(y)
			x[i] = "scribbled"
		}
	}
}
