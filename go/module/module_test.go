// Finding and running modules over random trees of search paths.
package module

import (
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/aodinokov/metac/pkg/module"
	"github.com/aodinokov/metac/pkg/module/gotemplate"
	"github.com/aodinokov/metac/pkg/module/gotemplate/funcs"
	"github.com/aodinokov/metac/zz_verif/vf"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

type M = map[string]interface{}

var names = []string{"m1", "m2", "m3", "mod-x.y", "a b"}

type spec struct {
	broken, notemplate bool
	pieces             []string // kind:argument
	include            []string
	s1, k              string
}

type mod struct {
	path, name string
	header     string // "absent", "broken", "goTemplate", "other", "unknown"
	specs      map[string]*spec
	tpl        string // "none", "ok", "broken", "file"
	lib        string
}

type world struct {
	paths []string
	mods  map[string]*mod // by path/name
	bad   map[string]bool // paths where the other kind refuses
	noIncludes, noInclude bool // the factory forbids including modules, the function include
}

func wr(t *rapid.T, f, s string) {
	if err := os.MkdirAll(filepath.Dir(f), 0755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(f, []byte(s), 0644); err != nil {
		t.Fatal(err)
	}
}

// unlike rapid.IntRange, without preference for small numbers
func uniform(t *rapid.T, n int, what string) int {
	v := 0
	for i := 0; i < 7; i++ {
		v *= 2
		if rapid.Bool().Draw(t, what) {
			v++
		}
	}
	return v * n / 128
}
func pick(t *rapid.T, what string, s ...string) string { return s[uniform(t, len(s), what)] }
func chance(t *rapid.T, n int, what string) bool        { return uniform(t, n, what) == n-1 }

func genSpec(t *rapid.T, cli bool) *spec {
	s := &spec{s1: pick(t, "s1", "v1", "v2", ""), k: pick(t, "k", "k1", "k2")}
	if chance(t, 40, "broken") {
		s.broken = true
	}
	if chance(t, 40, "notemplate") {
		s.notemplate = true
	}
	n := uniform(t, 6, "pieces")
	for i := 0; i < n; i++ {
		switch uniform(t, 10, "piece") {
		case 0, 1:
			s.pieces = append(s.pieces, "lit:"+pick(t, "lit", "x", "a\nb", "# { ", "é", "100%d %s", "%"))
		case 2, 3:
			s.pieces = append(s.pieces, "set:"+pick(t, "set", ".s1", ".tbl.k"))
		case 4, 5, 6:
			inc := pick(t, "inc", names...)
			s.pieces = append(s.pieces, "inc:"+inc)
			if !chance(t, 15, "forgotten include") {
				s.include = append(s.include, inc)
			}
		case 7, 8:
			if cli {
				s.pieces = append(s.pieces, "mark:")
			} else {
				s.pieces = append(s.pieces, "cwd:")
			}
		case 9:
			if chance(t, 2, "changing") {
				s.pieces = append(s.pieces, pick(t, "changing", "chg:", "chgk:"))
			} else if chance(t, 6, "failing") {
				s.pieces = append(s.pieces, pick(t, "failing", "fail:", "parse:"))
			}
		}
	}
	for _, nm := range names {
		if chance(t, 20, "include") {
			s.include = append(s.include, nm)
		}
	}
	if chance(t, 60, "illegal include") {
		s.include = append(s.include, pick(t, "illegal", "../m1", ".", "..", "p0/m1", "a\\b"))
	}
	return s
}

func (s *spec) write(t *rapid.T, f string, kind string) {
	if s.broken {
		wr(t, f, pick(t, "broken text", "kind: [", "\tx", "kind: goTemplate\nspec: text\n", "- a\n- b\n"))
		return
	}
	sp := M{"settings": M{"s1": s.s1, "tbl": M{"k": s.k, "other": 1}, "list": []int{1, 2}}}
	if len(s.include) > 0 {
		sp["include"] = s.include
	}
	if !s.notemplate {
		x := ""
		for _, p := range s.pieces {
			a := strings.SplitN(p, ":", 2)
			switch a[0] {
			case "lit":
				x += a[1]
			case "set":
				x += "{{ " + a[1] + " }}"
			case "inc":
				x += "{{ include \"lib_" + a[1] + "\" . }}"
			case "cwd":
				x += "{{ cwd }}"
			case "mark":
				x += "{{ $m := dwarfFromYamlFile \"marker.yaml\" }}M"
			case "chg":
				x += "{{ $x := set . \"s1\" \"changed\" }}"
			case "chgk":
				x += "{{ $x := set .tbl \"k\" \"changed\" }}"
			case "fail":
				x += "before{{ fail \"stop\" }}after"
			case "parse":
				x += "{{ .s1 "
			}
		}
		sp["template"] = x
	}
	b, err := yaml.Marshal(M{"apiVersion": "github.com/aodinokov/metac/v1", "kind": kind, "metadata": M{"name": "n"}, "spec": sp})
	if err != nil {
		t.Fatal(err)
	}
	wr(t, f, string(b))
}

func gen(t *rapid.T, cli bool) *world {
	w := &world{mods: map[string]*mod{}, bad: map[string]bool{}}
	np := 1 + uniform(t, 5, "paths")
	dflt := cli && chance(t, 5, "default path")
	if dflt {
		np = 1
	}
	for i := 0; i < np; i++ {
		p := fmt.Sprintf("p%d", i)
		if dflt {
			p = "modules"
		}
		if !dflt && chance(t, 4, "nested") {
			p = "deep/" + p
		}
		w.paths = append(w.paths, p)
		if chance(t, 12, "no dir") {
			continue
		}
		if err := os.MkdirAll(p, 0755); err != nil {
			t.Fatal(err)
		}
		for _, nm := range names {
			if chance(t, 4, "no module") {
				continue
			}
			m := &mod{path: p, name: nm, specs: map[string]*spec{}}
			w.mods[p+"/"+nm] = m
			d := p + "/" + nm
			if err := os.MkdirAll(d, 0755); err != nil {
				t.Fatal(err)
			}
			m.header = pick(t, "header", "absent", "broken", "goTemplate", "goTemplate", "goTemplate", "goTemplate", "goTemplate", "other", "unknown")
			switch m.header {
			case "absent":
			case "broken":
				wr(t, d+"/module.yaml", pick(t, "broken text", "kind: [", "\tx", "- a\n"))
			default:
				s := genSpec(t, cli)
				s.broken = false
				m.specs["module.yaml"] = s
				s.write(t, d+"/module.yaml", m.header)
			}
			if chance(t, 2, "alt") {
				s := genSpec(t, cli)
				m.specs["alt.yaml"] = s
				s.write(t, d+"/alt.yaml", "goTemplate")
			}
			m.lib = d
			m.tpl = pick(t, "templates", "none", "none", "ok", "ok", "ok", "ok", "ok", "ok", "broken", "file")
			def := "{{ define \"lib_" + nm + "\" }}<" + d + ":{{ .s1 }}>{{ end }}\n"
			switch m.tpl {
			case "ok":
				f := pick(t, "file", "_.tpl", "_lib.tpl", "sub/dir/x.tpl")
				wr(t, d+"/templates/"+f, def)
				if chance(t, 2, "second") {
					wr(t, d+"/templates/zz.txt", "{{- define \"other_"+nm+"\" }}other{{ end -}}")
				}
			case "broken":
				wr(t, d+"/templates/_.tpl", "{{ define \"lib_"+nm+"\" }}{{ .s1 ")
			case "file":
				wr(t, d+"/templates", "no directory")
			}
			if chance(t, 4, "other kind refuses") {
				w.bad[d] = true
			}
		}
	}
	// search paths in any order, also twice
	w.paths = rapid.Permutation(w.paths).Draw(t, "order")
	if chance(t, 6, "twice") {
		w.paths = append(w.paths, w.paths[0])
	}
	return w
}

func illegal(n string) bool { return strings.ContainsAny(n, "/\\") || n == "." || n == ".." }

// modules of this name with a readable header of a known kind, in the order of the search paths
func (w *world) candidates(name string, cli bool) []*mod {
	var r []*mod
	for _, p := range w.paths {
		if m := w.mods[p+"/"+name]; m != nil && (m.header == "goTemplate" || m.header == "other" && !cli) {
			r = append(r, m)
		}
	}
	return r
}

type result struct {
	out           string
	err, unjudged bool
}

// what running path/specfile gives
func (w *world) run(m *mod, f string, set M, cwd string, cli, marker, absolute bool) result {
	s := m.specs[f]
	if s == nil || s.broken || s.notemplate {
		return result{err: true}
	}
	s1, k := s.s1, s.k
	if v, ok := set["s1"]; ok {
		s1 = fmt.Sprint(v)
	}
	if v, ok := set["tbl"]; ok {
		k = fmt.Sprint(v.(M)["k"])
	}
	if w.noIncludes && len(s.include) > 0 {
		return result{err: true}
	}
	for _, p := range s.pieces {
		if w.noInclude && strings.HasPrefix(p, "inc:") {
			return result{err: true}
		}
	}
	defs := map[string]string{}
	if m.tpl == "broken" {
		return result{err: true}
	}
	if m.tpl == "ok" {
		defs[m.name] = m.lib
	}
	for _, inc := range s.include {
		if illegal(inc) {
			return result{err: true}
		}
		ok := false
		for _, c := range w.candidates(inc, cli) {
			if c.header != "goTemplate" {
				continue
			}
			if c.tpl == "ok" {
				defs[inc] = c.lib
				ok = true
				break
			}
			if c == m && c.tpl != "broken" { // itself: no need for templates
				if absolute { // known by another path
					return result{unjudged: true}
				}
				ok = true
				break
			}
		}
		if !ok {
			return result{err: true}
		}
	}
	out, failed := "", false
	for _, p := range s.pieces {
		a := strings.SplitN(p, ":", 2)
		switch a[0] {
		case "lit":
			out += a[1]
		case "set":
			if a[1] == ".s1" {
				out += s1
			} else {
				out += k
			}
		case "inc":
			if l, ok := defs[a[1]]; ok {
				out += "<" + l + ":" + s1 + ">"
			} else {
				failed = true
			}
		case "cwd":
			out += cwd
		case "chg":
			s1 = "changed"
		case "chgk":
			k = "changed"
		case "mark":
			if !marker {
				failed = true
			}
			out += "M"
		case "fail":
			failed = true
		case "parse":
			return result{err: true}
		}
	}
	if failed {
		return result{err: true}
	}
	return result{out: out}
}

type other struct{ w *world }
type otherInst struct{ path, spec string }

func (o *otherInst) Run(workDir string, overrides []string) ([]byte, error) {
	return []byte("other " + o.path + " " + o.spec), nil
}
func (o *other) NewInstance(r *module.Runner, path string, specFilename string) (module.Instance, error) {
	if o.w.bad[path] {
		return nil, fmt.Errorf("refused")
	}
	return &otherInst{path, specFilename}, nil
}

func TestModule(t *testing.T) {
	log.SetOutput(io.Discard)
	root, err := filepath.EvalSymlinks(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	metac := os.Getenv("VF_METAC")
	seq := 0
	vf.Check(t, func(vt *vf.T) {
		t := vt.T
		seq++
		dir := filepath.Join(root, fmt.Sprint(seq))
		if err := os.Mkdir(dir, 0755); err != nil {
			t.Fatal(err)
		}
		if err := os.Chdir(dir); err != nil {
			t.Fatal(err)
		}
		defer func() {
			os.Chdir(root)
			os.RemoveAll(dir)
		}()
		cli := metac != "" && chance(t, 10, "command line")
		w := gen(t, cli)
		os.Mkdir("wd", 0755)
		os.MkdirAll("wd2/in", 0755)
		for _, d := range []string{"wd", "wd2/in", "."} {
			if chance(t, 2, "marker") {
				wr(t, d+"/marker.yaml", "{}\n")
			}
		}
		// which module
		name, specf := "", ""
		switch uniform(t, 14, "by") {
		case 0:
			name = pick(t, "odd name", "../m1", "p0/m1", "..", ".", "a\\b", "absent", "p0/..")
		case 1, 2, 3:
			specf = pick(t, "path", append(append([]string{}, w.paths...), "absent")...) + "/" + pick(t, "name", names...) + "/" + pick(t, "spec", "module.yaml", "alt.yaml", "none.yaml")
			if chance(t, 3, "absolute") {
				specf = filepath.Join(dir, specf)
			}
		case 4, 5:
			name, specf = pick(t, "name", names...), pick(t, "spec", "module.yaml", "alt.yaml", "none.yaml")
		default:
			name = pick(t, "name", names...)
		}
		keys := make([]string, 0, len(w.mods))
		for k := range w.mods {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		vt.Note("paths %q name %q spec %q", w.paths, name, specf)
		for _, k := range keys {
			m := w.mods[k]
			vt.Note(" %s header %s templates %s refused %v", k, m.header, m.tpl, w.bad[k])
			for _, f := range []string{"module.yaml", "alt.yaml"} {
				if s := m.specs[f]; s != nil {
					vt.Note("   %s %+v", f, *s)
				}
			}
		}
		// what should happen
		var m *mod
		f := specf
		ok := false
		if name == "" {
			rel := strings.TrimPrefix(specf, dir+"/")
			m = w.mods[filepath.Dir(rel)]
			f = filepath.Base(rel)
			if m != nil {
				s := m.specs[f]
				kind := "goTemplate"
				if f == "module.yaml" {
					kind = m.header
				}
				ok = s != nil && (kind == "goTemplate" || kind == "other" && !cli && !w.bad[filepath.Dir(specf)])
				if ok && s.broken {
					// some of the broken texts have a header: the failure comes with the run
					ok = false
				}
			}
		} else if !illegal(name) {
			if f == "" {
				f = "module.yaml"
			}
			for _, c := range w.candidates(name, cli) {
				if c.header == "other" && w.bad[c.path+"/"+c.name] {
					continue
				}
				m, ok = c, true
				break
			}
		}
		if !cli {
			w.noIncludes, w.noInclude = chance(t, 20, "no includes"), chance(t, 20, "no include")
		}
		// how it is run
		set := M{}
		var overs []string
		if chance(t, 3, "override") {
			set["s1"] = pick(t, "value", "o1", "o2")
			overs = append(overs, "s1: "+set["s1"].(string))
		}
		if chance(t, 3, "override") {
			set["tbl"] = M{"k": "ok"}
			overs = append(overs, `{"tbl": {"k": "ok"}}`)
		}
		badover := chance(t, 20, "bad override")
		if badover {
			overs = append(overs, "s1: [")
		}
		wd := pick(t, "workdir", "", "", "", "", "", "wd", "wd", "wd", "wd", "wd2/in", "wd2/in", "wd2/in", "absent")
		cwd := filepath.Join(dir, wd)
		_, merr := os.Stat(filepath.Join(cwd, "marker.yaml"))
		vt.Note("workdir %q overrides %q command line %v", wd, overs, cli)
		var want result
		if !ok {
			want.err = true
		} else if m.header == "other" && f == "module.yaml" || name != "" && m.header == "other" {
			p := m.path + "/" + m.name
			if name == "" {
				p = filepath.Dir(specf)
			}
			want.out = "other " + p + " " + f
		} else {
			want = w.run(m, f, set, cwd, cli, merr == nil, filepath.IsAbs(specf))
			if badover || wd == "absent" {
				want.err = true
			}
		}
		if want.unjudged {
			vt.Label("includes itself by another path")
			return
		}
		if want.err {
			want.out = ""
			vt.Label("fails")
		} else {
			vt.Label("runs")
			if len(w.paths) > 1 && len(want.out) > 5 {
				vt.NonTrivial()
			}
		}
		if cli {
			vt.Label("command line")
			args := []string{"run"}
			if name != "" {
				args = append(args, name)
			}
			long := chance(t, 3, "long options")
			opt := func(short, name, v string) {
				if long {
					args = append(args, "--"+name+"="+v)
				} else {
					args = append(args, short, v)
				}
			}
			if w.paths[0] != "modules" {
				for _, p := range w.paths {
					opt("-M", "ModulePath", p)
				}
				// a module of the default path, which is not searched now
				for _, nm := range names {
					if chance(t, 3, "not searched") {
						wr(t, "modules/"+nm+"/module.yaml", "apiVersion: v1\nkind: goTemplate\nmetadata: {name: x}\nspec: {settings: {a: b}, template: t}\n")
					}
				}
			}
			if specf != "" {
				opt("-f", "specFilename", specf)
			}
			for _, o := range overs {
				opt("-s", "settingsOverride", o)
			}
			if wd != "" {
				opt("-C", "changeWorkDir", wd)
			}
			c := exec.Command(metac, args...)
			b, err := c.Output()
			if (err != nil) != want.err {
				vt.Failf("status", "metac %q: exit status %v, output %q; expected %+v", args, err, b, want)
			}
			if err == nil && string(b) != want.out+"\n" {
				vt.Failf("cli-output", "metac %q printed %q, expected %q", args, b, want.out+"\n")
			}
			if err != nil && len(b) != 0 {
				vt.Failf("cli-output", "metac %q failed and printed %q", args, b)
			}
			return
		}
		ft := gotemplate.DefaultGoTemplateFactory()
		ft.EnableIncludeModules, ft.EnableIncludeFn = !w.noIncludes, !w.noInclude
		funcs.AppendTemplateFuncMap(&ft.FuncMap)
		ft.FuncMap["cwd"] = os.Getwd
		runner := module.Runner{Paths: append([]string{}, w.paths...), Kinds: map[string]module.Kind{"goTemplate": ft, "other": &other{w}}}
		if name != "" {
			infos, err := runner.InfoByName(name)
			if (err != nil) != illegal(name) {
				vt.Failf("info", "InfoByName(%q) returns %v", name, err)
			}
			var got, exp []string
			for _, i := range infos {
				got = append(got, i.Path+" "+i.Kind)
			}
			if !illegal(name) {
				for _, c := range w.candidates(name, false) {
					exp = append(exp, c.path+"/"+c.name+" "+c.header)
				}
			}
			if !reflect.DeepEqual(got, exp) {
				vt.Failf("info", "InfoByName(%q) is %q, expected %q", name, got, exp)
			}
		}
		inst, err := runner.NewInstance(name, specf)
		var b []byte
		if err == nil && inst == nil {
			vt.Failf("instance", "neither instance nor error for %q %q", name, specf)
		}
		if (!ok && name != "" || ok) && (err == nil) != ok {
			vt.Failf("instance", "NewInstance(%q, %q) gives error %v, expected %v", name, specf, err, !ok)
		}
		check := func(wd string, overs []string, want result) {
			b, err = inst.Run(wd, overs)
			if (err != nil) != want.err {
				vt.Failf("run", "Run(%q, %q) of %q %q gives %q, %v; expected %+v", wd, overs, name, specf, b, err, want)
			}
			if err == nil && string(b) != want.out {
				vt.Failf("output", "Run(%q, %q) of %q %q gives %q, expected %q", wd, overs, name, specf, b, want.out)
			}
			if now, err := os.Getwd(); err != nil || now != dir {
				vt.Failf("workdir", "after Run(%q) the working directory is %s, it was %s", wd, now, dir)
			}
		}
		if err == nil {
			check(wd, overs, want)
			// again: nothing stays from the first run
			if ok && m.header != "other" {
				_, merr := os.Stat("marker.yaml")
				check("", nil, w.run(m, f, M{}, dir, false, merr == nil, filepath.IsAbs(specf)))
				check(wd, overs, want)
			}
		} else if !want.err {
			vt.Failf("instance", "%v", err)
		}
	})
}
