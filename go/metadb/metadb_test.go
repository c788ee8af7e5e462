// The database of types built from random debug information of several compile units.
package metadb

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/aodinokov/metac/pkg/dwarfy"
	"github.com/aodinokov/metac/pkg/metadb"
	"github.com/aodinokov/metac/zz_verif/vf"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- the model of the debug information
// refs are made by position in the unit's list of types; -1: none (void)
type typ struct {
	tag         string
	name        string // "": none
	decl        bool
	size, align int64 // -1: none
	enc         int64
	enums       []enumerator
	dims        []dim
	stride      int64
	ref         int
	params      []param
	fields      []field
	place       string // "cu", "fn", "blk", "type"
}
type enumerator struct {
	k string
	v int64
}
type dim struct {
	form  string // "none", "upper", "count", "lower"
	n, lo int64
}
type param struct {
	name     string
	ref      int
	variadic bool
}
type field struct {
	name                                   string
	ref                                    int
	size, align, bitOff, dataBit, bits, at int64 // -1: none
}
type object struct {
	kind         string // Variable, Subprogram, LexBlock, Namespace, Label
	name         string
	external     int // 0 absent 1 true 2 false
	linkage      string
	decl         bool
	ref          int
	params       []param
	children     []*object
	types        []int // types placed here
	line, column int64
}
type unit struct {
	name  string
	lang  int64
	files []string
	types []*typ
	objs  []*object
}

func clone(u *unit) *unit {
	n := *u
	n.types = nil
	for _, t := range u.types {
		x := *t
		x.enums = append([]enumerator{}, t.enums...)
		x.dims = append([]dim{}, t.dims...)
		x.params = append([]param{}, t.params...)
		x.fields = append([]field{}, t.fields...)
		n.types = append(n.types, &x)
	}
	n.objs = nil
	return &n
}

func uniform(t *rapid.T, n int, what string) int {
	v := 0
	for i := 0; i < 6; i++ {
		v *= 2
		if rapid.Bool().Draw(t, what) {
			v++
		}
	}
	return v * n / 64
}
func few(t *rapid.T, what string) int {
	if chance(t, 15, "many") {
		return 6 + uniform(t, 8, what)
	}
	return uniform(t, 4, what)
}
func pick(t *rapid.T, what string, s ...string) string { return s[uniform(t, len(s), what)] }
func chance(t *rapid.T, n int, what string) bool        { return uniform(t, n, what) == n-1 }
func num(t *rapid.T, what string, s ...int64) int64     { return s[uniform(t, len(s), what)] }

var tags = []string{"a", "b", "S", "node", "Node", "T"}

func named(t *typ) bool {
	switch t.tag {
	case "StructType", "UnionType", "ClassType", "Typedef", "EnumerationType", "BaseType":
		return t.name != ""
	}
	return false
}

// a type that can be referred to from position i without an endless chain of nameless types
func (u *unit) ref(t *rapid.T, i int, void bool) int {
	var c []int
	for j, x := range u.types {
		if j < i || named(x) && j < len(u.types) {
			c = append(c, j)
		}
	}
	if len(c) == 0 || void && chance(t, 5, "void") {
		return -1
	}
	return c[uniform(t, len(c), "ref")]
}

func opt(t *rapid.T, what string, s ...int64) int64 {
	if chance(t, 4, what) {
		return num(t, what, s...)
	}
	return -1
}

func (u *unit) fill(t *rapid.T, i int, cpp bool) {
	x := u.types[i]
	x.size, x.align, x.enc, x.stride, x.ref = -1, -1, -1, -1, -1
	switch x.tag {
	case "BaseType":
		x.enc = num(t, "encoding", 5, 7, 8, 6, 4, 2)
		x.size = num(t, "size", 1, 4, 8, 16)
	case "EnumerationType":
		x.size = num(t, "size", 4, 4, 8)
		x.align = opt(t, "align", 8, 16)
		for k := few(t, "enumerators"); k > 0; k-- {
			x.enums = append(x.enums, enumerator{pick(t, "key", "A", "B", "C"), num(t, "value", 0, 1, -1, 1<<40, -1<<63, 1<<63-1)})
		}
	case "ArrayType":
		if x.ref = u.ref(t, i, false); x.ref < 0 { // no arrays of nothing
			x.tag, x.size = "PointerType", 8
			return
		}
		for k := few(t, "dims"); k > 0; k-- {
			x.dims = append(x.dims, dim{pick(t, "form", "none", "upper", "upper", "count", "lower"), num(t, "n", 0, 1, 2, 5), num(t, "lo", 1, 2)})
		}
		x.size = opt(t, "size", 8)
		x.stride = opt(t, "stride", 8)
	case "PointerType", "ReferenceType", "RvalueReferenceType":
		x.ref = u.ref(t, i, x.tag == "PointerType")
		x.size = num(t, "size", 8, 8, 8, 4)
	case "ConstType", "VolatileType", "RestrictType":
		x.ref = u.ref(t, i, true)
	case "Typedef":
		x.ref = u.ref(t, i, true)
		x.align = opt(t, "align", 8)
	case "SubroutineType":
		x.ref = u.ref(t, i, true)
		x.params = u.params(t, i, false)
	case "StructType", "UnionType", "ClassType":
		x.size = num(t, "size", 8, 16)
		x.align = opt(t, "align", 16)
		if x.name != "" && chance(t, 4, "declaration") {
			x.decl = true
			x.size, x.align = -1, -1
			return
		}
		for k := few(t, "fields"); k > 0; k-- {
			f := field{name: pick(t, "field", "x", "y", "z", ""), ref: u.ref(t, i, false), size: -1, align: opt(t, "align", 8), bitOff: -1, dataBit: -1, bits: -1, at: num(t, "at", 0, 4, 8)}
			if f.ref < 0 {
				continue
			}
			switch uniform(t, 6, "bits") {
			case 0:
				f.bits, f.dataBit, f.at = num(t, "bits", 1, 3), num(t, "off", 0, 3), -1
			case 1:
				f.bits, f.bitOff, f.size = num(t, "bits", 1, 3), num(t, "off", 5, 29), num(t, "size", 1, 4)
			}
			if x.tag == "UnionType" && chance(t, 2, "no offset") {
				f.at = -1
			}
			x.fields = append(x.fields, f)
		}
	}
}

func (u *unit) params(t *rapid.T, i int, names bool) []param {
	var r []param
	for k := few(t, "params"); k > 0; k-- {
		p := param{ref: u.ref(t, i, false)}
		if names {
			p.name = pick(t, "param", "p", "q", "")
		}
		if p.ref >= 0 {
			r = append(r, p)
		}
	}
	if chance(t, 5, "variadic") {
		r = append(r, param{variadic: true, ref: -1})
	}
	return r
}

func (u *unit) newtype(t *rapid.T, cpp bool) *typ {
	kinds := []string{"BaseType", "EnumerationType", "ArrayType", "PointerType", "PointerType", "ConstType", "VolatileType", "RestrictType", "Typedef", "Typedef", "SubroutineType", "StructType", "StructType", "StructType", "UnionType"}
	if cpp {
		kinds = append(kinds, "ClassType", "ReferenceType", "RvalueReferenceType", "UnspecifiedType")
	}
	x := &typ{tag: pick(t, "tag", kinds...), place: "cu"}
	switch x.tag {
	case "BaseType":
		x.name = pick(t, "name", "int", "char", "unsigned int", "double", "long int", "long", "complex")
	case "Typedef":
		x.name = pick(t, "name", tags...)
	case "StructType", "UnionType", "ClassType", "EnumerationType":
		if !chance(t, 4, "anonymous") {
			x.name = pick(t, "name", tags...)
		}
	case "UnspecifiedType":
		x.name = "decltype(nullptr)"
	}
	return x
}

func genUnit(t *rapid.T, i int) *unit {
	u := &unit{name: fmt.Sprintf("u%d.c", i), lang: num(t, "lang", 29, 12, 33)}
	cpp := u.lang == 33
	n := 2 + uniform(t, 16, "types")
	for k := 0; k < n; k++ {
		u.types = append(u.types, u.newtype(t, cpp))
	}
	for k := range u.types {
		u.fill(t, k, cpp)
	}
	return u
}

// small changes
func mutate(t *rapid.T, u *unit) {
	if len(u.types) == 0 {
		return
	}
	i := uniform(t, len(u.types), "which")
	x := u.types[i]
	switch uniform(t, 9, "mutation") {
	case 0:
		if x.size >= 0 && x.tag != "BaseType" {
			x.size += 8
		}
	case 1:
		if x.ref >= 0 {
			x.ref = u.ref(t, i, false)
		}
	case 2:
		if len(x.fields) > 0 {
			f := &x.fields[uniform(t, len(x.fields), "field")]
			switch uniform(t, 6, "what") {
			case 0:
				f.name += "q"
			case 1:
				if f.at >= 0 {
					f.at += 4
				}
			case 2:
				if f.bits >= 0 {
					f.bits++
				}
			case 3:
				if f.bitOff >= 0 {
					f.bitOff++
				}
				if f.dataBit >= 0 {
					f.dataBit++
				}
			case 4:
				f.ref = u.ref(t, i, false)
			case 5:
				if f.size >= 0 {
					f.size *= 2
				}
			}
		}
	case 3:
		if len(x.enums) > 0 {
			x.enums[uniform(t, len(x.enums), "enum")].v ^= 1 << uint(num(t, "bit", 0, 1, 7, 15, 31, 32, 40, 62))
		}
	case 4:
		if len(x.dims) > 0 {
			x.dims[uniform(t, len(x.dims), "dim")].n++
		}
	case 5:
		if (x.tag == "StructType" || x.tag == "UnionType") && x.name != "" && !x.decl {
			x.decl, x.fields, x.size, x.align = true, nil, -1, -1
		}
	case 6:
		if x.name != "" && (x.tag == "StructType" || x.tag == "Typedef") {
			x.name = pick(t, "name", tags...)
		}
	case 7:
		if len(x.fields) > 0 {
			x.fields = x.fields[:len(x.fields)-1]
		} else if len(x.params) > 0 {
			x.params = x.params[1:]
		}
	case 8:
		if len(x.enums) > 0 {
			x.enums[0].k += "_"
		} else if x.tag == "ConstType" {
			x.tag = "VolatileType"
		} else if x.tag == "StructType" && !x.decl {
			x.tag = "UnionType"
		}
	}
}

func (u *unit) genObjs(t *rapid.T, depth int, cpp bool) []*object {
	var r []*object
	for k := uniform(t, 5, "objects"); k > 0; k-- {
		o := &object{ref: -1, line: int64(1 + uniform(t, 9, "line")), column: int64(uniform(t, 3, "column"))}
		kinds := []string{"Variable", "Variable"}
		if depth == 0 {
			kinds = append(kinds, "Subprogram", "Subprogram")
		} else {
			kinds = append(kinds, "LexBlock", "Label")
		}
		if cpp && depth == 0 {
			kinds = append(kinds, "Namespace")
		}
		o.kind = pick(t, "object", kinds...)
		switch o.kind {
		case "Variable":
			o.name = pick(t, "name", "v", "w", "a", "S")
			o.ref = u.ref(t, len(u.types), false)
			o.external = uniform(t, 3, "external")
			o.decl = chance(t, 5, "declared")
		case "Subprogram":
			o.name = pick(t, "name", "f", "g", "a", "S")
			o.ref = u.ref(t, len(u.types), true)
			o.external = uniform(t, 3, "external")
			o.params = u.params(t, len(u.types), true)
			if chance(t, 4, "linkage") {
				o.linkage = "_Z" + o.name
			}
			if o.decl = chance(t, 6, "declared"); !o.decl && depth < 3 {
				o.children = u.genObjs(t, depth+1, cpp)
			}
		case "LexBlock":
			if depth < 3 {
				o.children = u.genObjs(t, depth+1, cpp)
			}
		case "Namespace":
			o.name = pick(t, "name", "n", "m")
			for _, c := range u.genObjs(t, 0, false) {
				o.children = append(o.children, c)
			}
		}
		r = append(r, o)
	}
	return r
}

// ---------------------------------------------------------------- as debug information
type node struct { // one type of the model as the database should show it (array levels are separate)
	off    dwarfy.Offset
	kind   string
	local  string // everything of its own
	refs   []int  // nodes, -1 void
	parent dwarfy.Offset
	class  int
}
type image struct {
	data  *dwarfy.Data
	next  dwarfy.Offset
	nodes []*node
	of    map[dwarfy.Offset]int // node by offset
	// other objects by offset: description
	objs map[dwarfy.Offset]*node
	hier map[dwarfy.Offset][]dwarfy.Offset // visible children
	cus  []dwarfy.Offset
	unit map[dwarfy.Offset]*unit
}

func (im *image) add(parent dwarfy.Offset, tag string) (dwarfy.Offset, *dwarfy.Entry) {
	o := im.next
	im.next += 7
	p := parent
	e := &dwarfy.Entry{Parent: &p, Tag: dwarfy.Tag(tag)}
	im.data.Entries[o] = e
	im.data.Entries[parent].Children = append(im.data.Entries[parent].Children, o)
	return o, e
}
func num64(e *dwarfy.Entry, a string, v int64) {
	if v != -1 || a == "ConstValue" {
		e.Fields = append(e.Fields, &dwarfy.Field{Attr: dwarfy.Attr(a), Val: v, Class: "ClassConstant"})
	}
}
func str(e *dwarfy.Entry, a, v string) {
	if v != "" {
		e.Fields = append(e.Fields, &dwarfy.Field{Attr: dwarfy.Attr(a), Val: v, Class: "ClassString"})
	}
}
func flag(e *dwarfy.Entry, a string, v bool) {
	e.Fields = append(e.Fields, &dwarfy.Field{Attr: dwarfy.Attr(a), Val: v, Class: "ClassFlag"})
}
func refer(e *dwarfy.Entry, offs []dwarfy.Offset, i int) {
	if i >= 0 {
		e.Fields = append(e.Fields, &dwarfy.Field{Attr: "Type", Val: offs[i], Class: "ClassReference"})
	}
}

var kindOf = map[string]string{"ConstType": "QualType", "VolatileType": "QualType", "RestrictType": "QualType", "RvalueReferenceType": "ReferenceType"}

func kind(tag string) string {
	if k, ok := kindOf[tag]; ok {
		return k
	}
	return tag
}

func baseName(x *typ) string {
	switch x.name {
	case "long":
		return "long int"
	case "complex":
		return map[int64]string{8: "complex float", 16: "complex double", 32: "long complex double"}[x.size]
	}
	return x.name
}

func build(t *rapid.T, us []*unit) *image {
	im := &image{data: &dwarfy.Data{Entries: map[dwarfy.Offset]*dwarfy.Entry{0: {}}}, next: 11, of: map[dwarfy.Offset]int{}, objs: map[dwarfy.Offset]*node{},
		hier: map[dwarfy.Offset][]dwarfy.Offset{}, unit: map[dwarfy.Offset]*unit{}}
	for _, u := range us {
		im.buildUnit(t, u)
	}
	return im
}

func (im *image) buildUnit(t *rapid.T, u *unit) {
	cu, e := im.add(0, "CompileUnit")
	im.cus = append(im.cus, cu)
	im.unit[cu] = u
	str(e, "Name", u.name)
	num64(e, "Language", u.lang)
	files := append([]string{}, u.files...)
	e.DeclFiles = &files
	// places for types: the unit, its functions and blocks
	type spot struct {
		off dwarfy.Offset
		o   *object
	}
	// first the offsets of all objects and types are needed: objects are laid out with types between them
	offs := make([]dwarfy.Offset, len(u.types))
	where := make([]*object, len(u.types))
	var all []*object
	var walk func(os []*object)
	walk = func(os []*object) {
		for _, o := range os {
			if (o.kind == "Subprogram" && !o.decl) || o.kind == "LexBlock" || o.kind == "Namespace" {
				all = append(all, o)
			}
			walk(o.children)
		}
	}
	walk(u.objs)
	for i := range u.types {
		if len(all) > 0 && chance(t, 3, "local") {
			where[i] = all[uniform(t, len(all), "place")]
		}
	}
	order := rapid.Permutation(func() []int {
		r := make([]int, len(u.types))
		for i := range r {
			r[i] = i
		}
		return r
	}()).Draw(t, "order")
	type todo struct {
		off    dwarfy.Offset
		e      *dwarfy.Entry
		i      int
		parent dwarfy.Offset
	}
	var todos []todo
	types := func(o *object, parent dwarfy.Offset) {
		for _, i := range order {
			if where[i] == o {
				off, e := im.add(parent, u.types[i].tag)
				offs[i] = off
				todos = append(todos, todo{off, e, i, parent})
				im.hier[parent] = append(im.hier[parent], off)
				// children get their offsets right after
				x := u.types[i]
				for k, d := range x.dims {
					_ = k
					_, de := im.add(off, "SubrangeType")
					switch d.form {
					case "upper":
						num64(de, "UpperBound", d.n)
						if d.n < 0 {
							panic("bound")
						}
					case "count":
						num64(de, "Count", d.n)
					case "lower":
						num64(de, "LowerBound", d.lo)
						num64(de, "UpperBound", d.n+d.lo)
					}
				}
				for range x.fields {
					im.add(off, "Member")
				}
				for _, p := range x.params {
					if p.variadic {
						im.add(off, "UnspecifiedParameters")
					} else {
						im.add(off, "FormalParameter")
					}
				}
				for _, en := range x.enums {
					_, ee := im.add(off, "Enumerator")
					str(ee, "Name", en.k)
					num64(ee, "ConstValue", en.v)
				}
			}
		}
	}
	type otodo struct {
		off    dwarfy.Offset
		e      *dwarfy.Entry
		o      *object
		parent dwarfy.Offset
	}
	var otodos []otodo
	var lay func(os []*object, parent dwarfy.Offset)
	lay = func(os []*object, parent dwarfy.Offset) {
		for _, o := range os {
			tag := o.kind
			if tag == "LexBlock" {
				tag = "LexDwarfBlock"
			}
			off, e := im.add(parent, tag)
			if o.kind == "Label" {
				str(e, "Name", "label")
				continue
			}
			im.hier[parent] = append(im.hier[parent], off)
			otodos = append(otodos, otodo{off, e, o, parent})
			for _, p := range o.params {
				if p.variadic {
					im.add(off, "UnspecifiedParameters")
				} else {
					im.add(off, "FormalParameter")
				}
			}
			types(o, off)
			lay(o.children, off)
		}
	}
	first := rapid.Bool().Draw(t, "types first")
	if first {
		types(nil, cu)
	}
	lay(u.objs, cu)
	if !first {
		types(nil, cu)
	}
	// now the attributes
	base := len(im.nodes)
	index := make([]int, len(u.types)) // node of a type
	n := base
	for i, x := range u.types {
		index[i] = n
		n++
		if k := len(x.dims); k > 1 {
			n += k - 1
		}
	}
	im.nodes = append(im.nodes, make([]*node, n-base)...)
	nref := func(i int) int {
		if i < 0 {
			return -1
		}
		return index[i]
	}
	for _, td := range todos {
		x, e := u.types[td.i], td.e
		nm := x.name
		str(e, "Name", nm)
		if x.tag == "BaseType" {
			nm = baseName(x)
		}
		num64(e, "ByteSize", x.size)
		num64(e, "Alignment", x.align)
		num64(e, "Encoding", x.enc)
		num64(e, "StrideSize", x.stride)
		if x.decl {
			flag(e, "Declaration", true)
		}
		refer(e, offs, x.ref)
		nd := &node{off: td.off, kind: kind(x.tag), parent: td.parent}
		head := fmt.Sprintf("%s|%s|%v", kind(x.tag), nm, x.decl)
		switch x.tag {
		case "ArrayType":
			size := fmt.Sprintf("size%d,%d", x.size, x.align)
			if len(x.dims) == 0 {
				nd.local, nd.refs = head+fmt.Sprintf("|count-1|level0|lower-1|stride%d|", x.stride)+size, []int{nref(x.ref)}
			}
			// the first dimension is the outermost
			for k, d := range x.dims {
				cnt, lo := int64(-1), int64(-1)
				switch d.form {
				case "upper":
					cnt = d.n + 1
				case "count":
					cnt = d.n
				case "lower":
					cnt, lo = d.n+1, d.lo
				}
				lv := &node{kind: "ArrayType", off: e.Children[k]}
				i := index[td.i] + k
				stride, sz, h := int64(-1), "size-1,-1", "ArrayType||false"
				if k == 0 {
					lv = nd
					stride, sz, h = x.stride, size, head
				} else {
					lv.parent = e.Children[k-1]
					if k == 1 {
						lv.parent = td.off
					}
				}
				lv.local = h + fmt.Sprintf("|count%d|level%d|lower%d|stride%d|%s", cnt, len(x.dims)-1-k, lo, stride, sz)
				if k == len(x.dims)-1 {
					lv.refs = []int{nref(x.ref)}
				} else {
					lv.refs = []int{i + 1}
				}
				im.nodes[i] = lv
				im.of[lv.off] = i
			}
		case "SubroutineType":
			nd.refs = []int{nref(x.ref)}
			l := ""
			for k, p := range x.params {
				pe := im.data.Entries[e.Children[k]]
				refer(pe, offs, p.ref)
				nd.refs = append(nd.refs, nref(p.ref))
				l += fmt.Sprintf("(%v)", p.variadic)
			}
			nd.local = head + "|" + l
		case "StructType", "UnionType", "ClassType":
			l := ""
			for k, f := range x.fields {
				fe := im.data.Entries[e.Children[k]]
				str(fe, "Name", f.name)
				refer(fe, offs, f.ref)
				num64(fe, "ByteSize", f.size)
				num64(fe, "Alignment", f.align)
				num64(fe, "BitOffset", f.bitOff)
				num64(fe, "DataBitOffset", f.dataBit)
				num64(fe, "BitSize", f.bits)
				num64(fe, "DataMemberLoc", f.at)
				nd.refs = append(nd.refs, nref(f.ref))
				at := f.at
				if at < 0 {
					at = 0
				}
				l += fmt.Sprintf("(%s,%d,%d,%d,%d,%d,%d)", f.name, f.size, f.align, f.bitOff, f.dataBit, f.bits, at)
			}
			nd.local = head + fmt.Sprintf("|size%d,%d|", x.size, x.align) + l
		case "EnumerationType":
			nd.local = head + fmt.Sprintf("|size%d,%d|%v", x.size, x.align, x.enums)
		case "BaseType":
			nd.local = head + fmt.Sprintf("|size%d,%d|%s", x.size, x.align, dwarfy.Encoding(x.enc).String())
		case "UnspecifiedType":
			nd.local = head
		case "ConstType", "VolatileType", "RestrictType", "ReferenceType", "RvalueReferenceType":
			nd.local = head + "|" + x.tag + fmt.Sprintf("|size%d,%d", x.size, x.align)
			nd.refs = []int{nref(x.ref)}
		default:
			nd.local = head + fmt.Sprintf("|size%d,%d", x.size, x.align)
			nd.refs = []int{nref(x.ref)}
		}
		im.nodes[index[td.i]] = nd
		im.of[nd.off] = index[td.i]
	}
	for _, td := range otodos {
		o, e := td.o, td.e
		str(e, "Name", o.name)
		str(e, "LinkageName", o.linkage)
		switch o.external {
		case 1:
			flag(e, "External", true)
		case 2:
			flag(e, "External", false)
		}
		if o.decl {
			flag(e, "Declaration", true)
		}
		if len(u.files) > 0 {
			num64(e, "DeclFile", int64(len(u.files)-1))
			num64(e, "DeclLine", o.line)
			if o.column > 0 {
				num64(e, "DeclColumn", o.column)
			}
		}
		refer(e, offs, o.ref)
		nd := &node{off: td.off, kind: o.kind, parent: td.parent}
		nd.local = fmt.Sprintf("%s|%s|%v|%d|%s", o.kind, o.name, o.decl, o.external, o.linkage)
		if o.kind == "Variable" || o.kind == "Subprogram" {
			nd.refs = append(nd.refs, nref(o.ref))
		}
		for k, p := range o.params {
			pe := im.data.Entries[e.Children[k]]
			str(pe, "Name", p.name)
			refer(pe, offs, p.ref)
			nd.refs = append(nd.refs, nref(p.ref))
			nd.local += fmt.Sprintf("(%s,%v)", p.name, p.variadic)
		}
		im.objs[td.off] = nd
	}
}

// makes the information incomplete or inconsistent
func (im *image) damage(t *rapid.T) string {
	var offs []int
	for o := range im.data.Entries {
		offs = append(offs, int(o))
	}
	sort.Ints(offs)
	o := dwarfy.Offset(offs[uniform(t, len(offs), "victim")])
	e := im.data.Entries[o]
	switch uniform(t, 3, "damage") {
	case 0:
		delete(im.data.Entries, o)
		return fmt.Sprintf("entry %d is missing\n", o)
	case 1:
		for _, f := range e.Fields {
			if f.Attr == "Type" {
				f.Val = im.next + 1
				return fmt.Sprintf("entry %d refers to an absent entry\n", o)
			}
		}
	case 2:
		for _, f := range e.Fields {
			if f.Attr == "Type" {
				f.Val = im.cus[0]
				return fmt.Sprintf("the type of entry %d is a compile unit\n", o)
			}
		}
	}
	if e.Tag == "BaseType" || e.Tag == "Typedef" {
		e.Fields = nil
		return fmt.Sprintf("entry %d has no name\n", o)
	}
	return ""
}

// which nodes are the same type: the coarsest partition where equal nodes refer to equal nodes
func (im *image) classes() {
	key := map[string]int{}
	for _, n := range im.nodes {
		if _, ok := key[n.local]; !ok {
			key[n.local] = len(key)
		}
		n.class = key[n.local]
	}
	for {
		k2 := map[string]int{}
		next := make([]int, len(im.nodes))
		for i, n := range im.nodes {
			s := fmt.Sprint(n.class)
			for _, r := range n.refs {
				if r < 0 {
					s += ",void"
				} else {
					s += fmt.Sprintf(",%d", im.nodes[r].class)
				}
			}
			if _, ok := k2[s]; !ok {
				k2[s] = len(k2)
			}
			next[i] = k2[s]
		}
		for i, n := range im.nodes {
			n.class = next[i]
		}
		if len(k2) == len(key) {
			return
		}
		key = k2
	}
}

// ---------------------------------------------------------------- what the database shows
type shown struct {
	kind, local string
	refs        []metadb.CommonLink
	parents     []metadb.CommonLink
	hier        []*metadb.HierarchyItem
	imported    int
}

func p64(p *int64) int64 {
	if p == nil {
		return -1
	}
	return *p
}
func ps(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}
func pb(p *bool) bool { return p != nil && *p }
func ptri(p *bool) int {
	if p == nil {
		return 0
	}
	if *p {
		return 1
	}
	return 2
}
func parents(p []*metadb.CommonLink) []metadb.CommonLink {
	var r []metadb.CommonLink
	for _, x := range p {
		r = append(r, *x)
	}
	return r
}
func common(c *metadb.CommonType, k string) *shown {
	return &shown{kind: k, local: fmt.Sprintf("%s|%s|%v", k, ps(c.Name), pb(c.Declaration)), parents: parents(c.Parents)}
}
func sz(c *metadb.CommonType) string { return fmt.Sprintf("size%d,%d", p64(c.ByteSize), p64(c.Alignment)) }

func show(db *metadb.MetaDb, fail func(string, string, ...interface{})) map[string]*shown {
	r := map[string]*shown{}
	put := func(k string, id metadb.CommonId, own metadb.CommonId, s *shown) {
		if id != own {
			fail("id", "%s is stored as %s", own, id)
		}
		if _, ok := r[string(id)]; ok {
			fail("id", "%s names two entries", id)
		}
		r[string(id)] = s
	}
	for id, x := range db.BaseTypes {
		s := common(&x.CommonType, "BaseType")
		s.local += "|" + sz(&x.CommonType) + "|" + x.Encoding
		put("BaseType", id, x.GetId(), s)
	}
	for id, x := range db.EnumerationTypes {
		s := common(&x.CommonType, "EnumerationType")
		var es []enumerator
		for _, e := range x.Enumerators {
			es = append(es, enumerator{e.Key, e.Val})
		}
		s.local += "|" + sz(&x.CommonType) + fmt.Sprintf("|%v", es)
		put("EnumerationType", id, x.GetId(), s)
	}
	for id, x := range db.ArrayTypes {
		s := common(&x.CommonType, "ArrayType")
		s.local += fmt.Sprintf("|count%d|level%d|lower%d|stride%d|", x.Count, x.Level, p64(x.LowerBound), p64(x.StrideBitSize)) + sz(&x.CommonType)
		s.refs = append(s.refs, x.Type)
		put("ArrayType", id, x.GetId(), s)
	}
	for id, x := range db.PointerTypes {
		s := common(&x.CommonType, "PointerType")
		s.local += "|" + sz(&x.CommonType)
		s.refs = append(s.refs, x.Type)
		put("PointerType", id, x.GetId(), s)
	}
	for id, x := range db.ReferenceTypes {
		s := common(&x.CommonType, "ReferenceType")
		s.local += "|" + x.Tag + "|" + sz(&x.CommonType)
		s.refs = append(s.refs, x.Type)
		put("ReferenceType", id, x.GetId(), s)
	}
	for id, x := range db.UnspecifiedTypes {
		put("UnspecifiedType", id, x.GetId(), common(&x.CommonType, "UnspecifiedType"))
	}
	for id, x := range db.SubroutineTypes {
		s := common(&x.CommonType, "SubroutineType")
		s.local += "|"
		s.refs = append(s.refs, x.Type)
		for _, p := range x.Param {
			s.refs = append(s.refs, p.Type)
			s.local += fmt.Sprintf("(%v)", pb(p.UnspecifiedParam))
		}
		put("SubroutineType", id, x.GetId(), s)
	}
	for id, x := range db.QualTypes {
		s := common(&x.CommonType, "QualType")
		s.local += "|" + x.Qual + "|" + sz(&x.CommonType)
		s.refs = append(s.refs, x.Type)
		put("QualType", id, x.GetId(), s)
	}
	for id, x := range db.Typedefs {
		s := common(&x.CommonType, "Typedef")
		s.local += "|" + sz(&x.CommonType)
		s.refs = append(s.refs, x.Type)
		put("Typedef", id, x.GetId(), s)
	}
	for k, m := range map[string]map[metadb.CommonId]*metadb.StructType{"StructType": db.StructTypes, "UnionType": db.UnionTypes, "ClassType": db.ClassTypes} {
		for id, x := range m {
			s := common(&x.CommonType, k)
			s.local += "|" + sz(&x.CommonType) + "|"
			for _, f := range x.Fields {
				s.refs = append(s.refs, f.Type)
				s.local += fmt.Sprintf("(%s,%d,%d,%d,%d,%d,%d)", ps(f.Name), p64(f.ByteSize), p64(f.Alignment), p64(f.BitOffset), p64(f.DataBitOffset), p64(f.BitSize), f.ByteOffset)
			}
			s.hier = x.Hierarchy
			put(k, id, x.GetId(), s)
		}
	}
	obj := func(k string, c *metadb.CommonObj) *shown {
		return &shown{kind: k, local: fmt.Sprintf("%s|%s|%v|%d|%s", k, ps(c.Name), pb(c.Declaration), ptri(c.External), ps(c.LinkageName)), parents: []metadb.CommonLink{c.Parent}}
	}
	for id, x := range db.Variables {
		s := obj("Variable", &x.CommonObj)
		s.refs = append(s.refs, x.Type)
		put("Variable", id, x.GetId(), s)
	}
	for id, x := range db.Subprograms {
		s := obj("Subprogram", &x.CommonObj)
		s.refs = append(s.refs, x.Type)
		for _, p := range x.Param {
			s.refs = append(s.refs, p.Type)
			s.local += fmt.Sprintf("(%s,%v)", ps(p.Name), pb(p.UnspecifiedParam))
		}
		s.hier = x.Hierarchy
		put("Subprogram", id, x.GetId(), s)
	}
	for id, x := range db.LexBlocks {
		put("LexBlock", id, x.GetId(), &shown{kind: "LexBlock", local: "LexBlock|" + ps(x.Name) + fmt.Sprintf("|%v|0|", pb(x.Declaration)), parents: []metadb.CommonLink{x.Parent}, hier: x.Hierarchy})
	}
	for id, x := range db.Namespaces {
		put("Namespace", id, x.GetId(), &shown{kind: "Namespace", local: "Namespace|" + ps(x.Name) + fmt.Sprintf("|%v|0|", pb(x.Declaration)), parents: []metadb.CommonLink{x.Parent}, hier: x.Hierarchy})
	}
	for id, x := range db.CompileUnits {
		put("CompileUnit", id, x.GetId(), &shown{kind: "CompileUnit", local: "CompileUnit|" + x.Name, hier: x.Hierarchy})
	}
	return r
}

func TestMetaDb(t *testing.T) {
	log.SetOutput(io.Discard)
	vf.Check(t, func(vt *vf.T) {
		t := vt.T
		nu := 1 + uniform(t, 4, "units")
		var us []*unit
		for i := 0; i < nu; i++ {
			var u *unit
			if i > 0 && !chance(t, 4, "new unit") {
				u = clone(us[uniform(t, i, "of")])
				u.name = fmt.Sprintf("u%d.c", i)
				for k := uniform(t, 4, "mutations"); k > 0; k-- {
					mutate(t, u)
				}
			} else {
				u = genUnit(t, i)
			}
			for _, x := range u.types {
				if x.name == "complex" && x.size < 8 { // the sizes compilers use
					x.size = 8
				}
			}
			u.files = nil
			for k := uniform(t, 3, "files"); k > 0; k-- {
				u.files = append(u.files, pick(t, "file", "/abs/x.c", "rel/y.h", "", "/abs/../z.c"))
			}
			u.objs = u.genObjs(t, 0, u.lang == 33)
			us = append(us, u)
		}
		im := build(t, us)
		im.classes()
		damage := ""
		if chance(t, 12, "damage") {
			damage = im.damage(t)
		}
		text, _ := im.data.ToYamlBuffer()
		vt.Note("%s%s", damage, text)
		if damage != "" {
			vt.Label("damaged")
			if db, err := metadb.NewMetaDb(im.data); err == nil || db != nil {
				vt.Failf("damaged", "%s: accepted", damage)
			}
			return
		}
		db, err := metadb.NewMetaDb(im.data)
		if err != nil {
			vt.Failf("refused", "well-formed debug information is refused: %v", err)
		}
		if after, _ := im.data.ToYamlBuffer(); !bytes.Equal(after, text) {
			vt.Failf("input", "the debug information has been changed")
		}
		sh := show(db, vt.Failf)
		// walk both together
		seen := map[dwarfy.Offset]string{}
		link := func(l metadb.CommonLink, what string) *shown {
			s, ok := sh[string(l.Id)]
			if !ok || s.kind != l.Kind {
				vt.Failf("link", "%s: link to %s %s, which does not exist", what, l.Kind, l.Id)
			}
			return s
		}
		var visit func(off dwarfy.Offset, l metadb.CommonLink, what string)
		visit = func(off dwarfy.Offset, l metadb.CommonLink, what string) {
			s := link(l, what)
			if id, ok := seen[off]; ok {
				if id != string(l.Id) {
					vt.Failf("identity", "%s: entry %d is shown as %s and as %s", what, off, id, l.Id)
				}
				return
			}
			seen[off] = string(l.Id)
			nd := im.objs[off]
			if nd == nil {
				nd = im.nodes[im.of[off]]
			}
			if nd.local != s.local {
				vt.Failf("contents", "%s: entry %d is %q, the database has %s as %q", what, off, nd.local, l.Id, s.local)
			}
			if len(nd.refs) != len(s.refs) {
				vt.Failf("contents", "%s: entry %d refers to %d types, %s to %d", what, off, len(nd.refs), l.Id, len(s.refs))
			}
			for i, r := range nd.refs {
				if r < 0 {
					if s.refs[i].Kind != "" || s.refs[i].Id != "void" {
						vt.Failf("contents", "%s: entry %d refers to nothing at %d, %s to %s", what, off, i, l.Id, s.refs[i].Id)
					}
					continue
				}
				visit(im.nodes[r].off, s.refs[i], fmt.Sprintf("%s of %d", l.Id, off))
			}
			if im.objs[off] == nil {
				return
			}
			if len(s.hier) != len(im.hier[off]) {
				vt.Failf("hierarchy", "entry %d has %d visible children, %s shows %d", off, len(im.hier[off]), l.Id, len(s.hier))
			}
			for i, h := range im.hier[off] {
				visit(h, s.hier[i].CommonLink, fmt.Sprintf("child of %s", l.Id))
			}
		}
		if len(db.CompileUnits) != len(us) {
			vt.Failf("units", "%d compile units, shown %d", len(us), len(db.CompileUnits))
		}
		for i, cu := range im.cus {
			id := metadb.CommonId(fmt.Sprintf("cu_%04d", i))
			c := db.CompileUnits[id]
			if c == nil || c.Name != us[i].name || c.Lang == nil || int64(*c.Lang) != us[i].lang {
				vt.Failf("units", "unit %d is not shown as %s", i, id)
			}
			if want := map[int64]string{29: "C", 12: "C", 33: "C_plus_plus"}[us[i].lang]; c.LangFamily == nil || *c.LangFamily != want {
				vt.Failf("units", "unit %d has language family %v, expected %s", i, ps(c.LangFamily), want)
			}
			if len(c.DeclFiles) != len(us[i].files) {
				vt.Failf("units", "files of unit %d: %q", i, c.DeclFiles)
			}
			for k, f := range us[i].files {
				if a, err := filepath.Abs(f); err == nil && c.DeclFiles[k] != a {
					vt.Failf("units", "file %q of unit %d is shown as %q", f, i, c.DeclFiles[k])
				}
			}
			seen[cu] = string(id)
			if len(c.Hierarchy) != len(im.hier[cu]) {
				vt.Failf("hierarchy", "unit %d has %d children, shown %d", i, len(im.hier[cu]), len(c.Hierarchy))
			}
			for k, h := range im.hier[cu] {
				visit(h, c.Hierarchy[k].CommonLink, fmt.Sprintf("child of %s", id))
			}
		}
		// locations of the declarations
		for p, hs := range im.hier {
			s := sh[seen[p]]
			if _, isType := im.of[p]; isType {
				continue
			}
			for i, h := range hs {
				e := im.data.Entries[h]
				for a, v := range map[string]*int64{"DeclFile": s.hier[i].DeclFile, "DeclLine": s.hier[i].DeclLine, "DeclColumn": s.hier[i].DeclColumn} {
					want := int64(-1)
					if x, ok := e.Val(dwarfy.Attr(a)).(int64); ok {
						want = x
					}
					if p64(v) != want {
						vt.Failf("location", "entry %d has %s %d, shown %d", h, a, want, p64(v))
					}
				}
				if pb(s.hier[i].Declaration) != (e.Val("Declaration") != nil) {
					vt.Failf("location", "entry %d: declaration is shown as %v", h, pb(s.hier[i].Declaration))
				}
			}
		}
		// equal types are one, different ones are not
		byClass := map[int]string{}
		classOf := map[string]int{}
		merged, types := 0, 0
		for _, n := range im.nodes {
			id, ok := seen[n.off]
			if !ok {
				continue
			}
			types++
			if o, ok := byClass[n.class]; ok && o != id {
				vt.Failf("duplicate", "the same type (%s) is shown as %s and as %s", n.local, o, id)
			} else if ok {
				merged++
			}
			byClass[n.class] = id
			if c, ok := classOf[id]; ok && c != n.class {
				vt.Failf("merged", "different types are shown as one, %s: entry %d %s", id, n.off, n.local)
			}
			classOf[id] = n.class
		}
		if len(seen) != len(im.nodes)+len(im.objs)+len(im.cus) {
			for _, n := range im.nodes {
				if _, ok := seen[n.off]; !ok {
					vt.Failf("lost", "entry %d %s is not reachable", n.off, n.local)
				}
			}
		}
		ids := map[string]bool{}
		for _, id := range seen {
			ids[id] = true
		}
		if len(ids) != len(sh) {
			for id := range sh {
				if !ids[id] {
					vt.Failf("extra", "%s corresponds to nothing", id)
				}
			}
		}
		// parents: those of all the merged entries
		want := map[string]map[string]bool{}
		addp := func(n *node) {
			id := seen[n.off]
			if want[id] == nil {
				want[id] = map[string]bool{}
			}
			want[id][seen[n.parent]] = true
		}
		for _, n := range im.nodes {
			addp(n)
		}
		for _, n := range im.objs {
			addp(n)
		}
		for id, s := range sh {
			got := map[string]bool{}
			for _, l := range s.parents {
				link(l, "parent of "+id)
				got[string(l.Id)] = true
			}
			if a, b := keys(got), keys(want[id]); a != b {
				vt.Failf("parents", "parents of %s are %s, expected %s", id, a, b)
			}
		}
		// always the same, however the debug information came
		ref := dump(db)
		again := func(what string, d *dwarfy.Data, err error) {
			if err != nil {
				vt.Failf("source", "%s: %v", what, err)
			}
			b, err := metadb.NewMetaDb(d)
			if err != nil {
				vt.Failf("source", "%s: %v", what, err)
			}
			if x := dump(b); x != ref {
				vt.Failf("source", "%s gives another database: %s", what, diff(ref, x))
			}
		}
		again("the same once more", im.data, nil)
		switch uniform(t, 3, "source") {
		case 0:
			d, err := dwarfy.NewDataFromYamlBuffer(text)
			again("yaml", d, err)
		case 1:
			js, err := im.data.ToJsonBuffer()
			if err != nil {
				vt.Failf("source", "json: %v", err)
			}
			d, err := dwarfy.NewDataFromJsonBuffer(js)
			again("json", d, err)
		case 2:
			d, err := dwarfy.NewDataFromUnstructured(im.data.ToUnstructured())
			again("unstructured", d, err)
		}
		if nu > 1 {
			vt.Label("several units")
		}
		if merged > 0 {
			vt.Label("merges types")
		}
		if merged >= 3 && types > merged+3 && nu > 1 {
			vt.NonTrivial()
		}
	})
}

func keys(m map[string]bool) string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func dump(db *metadb.MetaDb) string {
	y, err := yaml.Marshal(db)
	if err != nil {
		return err.Error()
	}
	j, err := json.Marshal(db)
	if err != nil {
		return err.Error()
	}
	return string(y) + string(j)
}

func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			s := "end"
			if i < len(y) {
				s = y[i]
			}
			if len(s) > 300 {
				s = s[:300]
			}
			return fmt.Sprintf("line %d: %.300q, expected %.300q", i, s, x[i])
		}
	}
	return "longer"
}
