// Random debug information, byte for byte, taken over and written in all representations.
package dwarfy

import (
	"debug/dwarf"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"text/template"
	"unicode"
	"unicode/utf8"

	"github.com/aodinokov/metac/pkg/dwarfy"
	"github.com/aodinokov/metac/pkg/module/gotemplate/funcs"
	"github.com/aodinokov/metac/zz_verif/vf"
	"pgregory.net/rapid"
)

func uniform(t *rapid.T, n int, what string) int {
	v := 0
	for i := 0; i < 6; i++ {
		v *= 2
		if rapid.Bool().Draw(t, what) {
			v++
		}
	}
	return v * n / 64
}
func pick(t *rapid.T, what string, s ...string) string { return s[uniform(t, len(s), what)] }
func chance(t *rapid.T, n int, what string) bool        { return uniform(t, n, what) == n-1 }

type attr struct {
	num   uint64
	name  string
	form  uint64
	class string
	bytes []byte
	fix   int // >0: size of a reference to be filled in, relative to the unit (abs: from the start)
	abs   bool
	impl  int64
	val   interface{} // expected; references: target die
	to    *die
}
type die struct {
	tag   uint64
	name  string
	attrs []*attr
	kids  []*die
	has   bool // the children flag
	off   uint32
	up    *die
	sib   *attr
}

var tagNames = map[uint64]string{0x01: "ArrayType", 0x02: "ClassType", 0x04: "EnumerationType", 0x05: "FormalParameter", 0x0b: "LexDwarfBlock", 0x0d: "Member", 0x0f: "PointerType", 0x13: "StructType",
	0x16: "Typedef", 0x17: "UnionType", 0x21: "SubrangeType", 0x24: "BaseType", 0x26: "ConstType", 0x28: "Enumerator", 0x2e: "Subprogram", 0x34: "Variable", 0x35: "VolatileType", 0x1d: "InlinedSubroutine",
	0x0a: "Label", 0x18: "UnspecifiedParameters", 0x39: "Namespace", 0x3a: "ImportedModule", 0x15: "SubroutineType", 0x3b: "UnspecifiedType"}
var tagList = func() []uint64 {
	var r []uint64
	for i := uint64(0); i < 256; i++ {
		if tagNames[i] != "" {
			r = append(r, i)
		}
	}
	return r
}()

func uleb(v uint64) []byte {
	var r []byte
	for {
		b := byte(v & 0x7f)
		v >>= 7
		if v != 0 {
			r = append(r, b|0x80)
		} else {
			return append(r, b)
		}
	}
}
func sleb(v int64) []byte {
	var r []byte
	for {
		b := byte(v & 0x7f)
		v >>= 7
		if v == 0 && b&0x40 == 0 || v == -1 && b&0x40 != 0 {
			return append(r, b)
		}
		r = append(r, b|0x80)
	}
}
func le(n int, v uint64) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], v)
	return append([]byte{}, b[:n]...)
}

type gen struct {
	t       *rapid.T
	version int
	str     []byte
	all     []*die
}

var words = []string{"x", "yes", "~", "0x10", "1e5", "a: b", "", " s ", "é", "- x", "<<", "2001-01-01", "null", "\"q\"", "{}", "<&>", "012", ".inf", "%", "long name with several words", "'", "#", "true"}

func (g *gen) string() string {
	if chance(g.t, 3, "long") {
		return rapid.StringN(0, 12, 24).Filter(func(s string) bool { return utf8.ValidString(s) && strings.IndexFunc(s, func(r rune) bool { return !unicode.IsPrint(r) }) < 0 }).Draw(g.t, "string")
	}
	if chance(g.t, 20, "very long") {
		return strings.Repeat(pick(g.t, "word", words...), 100) + "."
	}
	return pick(g.t, "word", words...)
}

func (g *gen) integer() uint64 {
	switch uniform(g.t, 6, "integer") {
	case 0:
		return uint64(uniform(g.t, 64, "small"))
	case 1:
		return math.MaxUint64 - uint64(uniform(g.t, 64, "small"))
	case 2:
		return 1 << uint(uniform(g.t, 64, "bit"))
	case 3:
		return 1<<uint(uniform(g.t, 64, "bit")) - 1
	case 4:
		return 1<<53 + uint64(uniform(g.t, 16, "small"))
	}
	return rapid.Uint64().Draw(g.t, "any")
}

func (g *gen) stringAttr(num uint64, name string) *attr {
	a := &attr{num: num, name: name, class: "ClassString"}
	s := g.string()
	a.val = s
	if rapid.Bool().Draw(g.t, "strp") {
		a.form = 0x0e
		a.bytes = le(4, uint64(len(g.str)))
		g.str = append(append(g.str, s...), 0)
	} else {
		a.form = 0x08
		a.bytes = append([]byte(s), 0)
	}
	return a
}

func (g *gen) constAttr(num uint64, name string) *attr {
	a := &attr{num: num, name: name, class: "ClassConstant"}
	v := g.integer()
	n := 6
	if g.version >= 5 {
		n = 7
	}
	k := uniform(g.t, n, "form")
	if (name == "UpperBound" || name == "DataMemberLoc" || name == "StartScope") && g.version < 4 && (k == 2 || k == 3) {
		k = 1 // data4 and data8 can also be a position in another section there
	}
	switch k {
	case 0:
		a.form, a.bytes, a.val = 0x0b, le(1, v), int64(v&0xff)
	case 1:
		a.form, a.bytes, a.val = 0x05, le(2, v), int64(v&0xffff)
	case 2:
		a.form, a.bytes, a.val = 0x06, le(4, v), int64(v&0xffffffff)
	case 3:
		a.form, a.bytes, a.val = 0x07, le(8, v), int64(v)
	case 4:
		a.form, a.bytes, a.val = 0x0d, sleb(int64(v)), int64(v)
	case 5:
		a.form, a.bytes, a.val = 0x0f, uleb(v), int64(v)
	case 6:
		a.form, a.impl, a.val = 0x21, int64(v), int64(v)
	}
	return a
}

func (g *gen) block(num uint64, name string) *attr {
	n := uniform(g.t, 6, "block")
	if chance(g.t, 12, "long block") {
		n = 100 + uniform(g.t, 60, "block")
	}
	b := make([]byte, n)
	var v []int
	for i := range b {
		b[i] = byte(i * 37)
		if n < 10 {
			b[i] = byte(uniform(g.t, 64, "byte") * 5)
		}
		v = append(v, int(b[i]))
	}
	a := &attr{num: num, name: name, class: "ClassBlock", form: 0x0a, bytes: append([]byte{byte(n)}, b...), val: v}
	if name == "Location" { // an expression in any form
		a.class = "ClassExprLoc"
	}
	switch uniform(g.t, 3, "block form") {
	case 1:
		a.form, a.bytes = 0x09, append(uleb(uint64(n)), b...)
	case 2:
		if g.version >= 4 {
			a.form, a.class, a.bytes = 0x18, "ClassExprLoc", append(uleb(uint64(n)), b...)
		} else {
			a.form, a.bytes = 0x03, append(le(2, uint64(n)), b...)
		}
	}
	return a
}

var pointers = []struct {
	num         uint64
	name, class string
}{
	{0x02, "Location", "ClassLocListPtr"}, {0x40, "FrameBase", "ClassLocListPtr"}, {0x55, "Ranges", "ClassRangeListPtr"}, {0x2c, "StartScope", "ClassRangeListPtr"},
	{0x43, "MacroInfo", "ClassMacPtr"}, {0x79, "Macros", "ClassUnknown"}, {0x0b, "ByteSize", "ClassUnknown"},
}

var pointers5 = []struct {
	num         uint64
	name, class string
}{
	{0x72, "StrOffsetsBase", "ClassStrOffsetsPtr"}, {0x73, "AddrBase", "ClassAddrPtr"}, {0x74, "RnglistsBase", "ClassRngListsPtr"}, {0x8c, "LoclistsBase", "ClassLocListPtr"},
}

func (g *gen) attrs(d *die) {
	add := func(a *attr) { d.attrs = append(d.attrs, a) }
	for k := uniform(g.t, 6, "attributes"); k > 0; k-- {
		switch uniform(g.t, 13, "attribute") {
		case 0, 1:
			add(g.stringAttr(0x03, "Name"))
		case 2:
			add(g.constAttr(0x0b, "ByteSize"))
		case 3:
			switch uniform(g.t, 4, "const value") {
			case 0:
				add(g.stringAttr(0x1c, "ConstValue"))
			case 1:
				add(g.block(0x1c, "ConstValue"))
			default:
				add(g.constAttr(0x1c, "ConstValue"))
			}
		case 4:
			a := &attr{num: 0x3f, name: "External", class: "ClassFlag", form: 0x0c}
			v := uniform(g.t, 3, "flag")
			a.val, a.bytes = v > 0, []byte{byte((v + 1) / 2)}
			if g.version >= 4 && v == 2 {
				a.form, a.bytes = 0x19, nil
			}
			add(a)
		case 5, 6:
			a := &attr{num: 0x49, name: "Type", class: "ClassReference", form: 0x13, fix: 4}
			switch uniform(g.t, 3, "reference") {
			case 1:
				a.form, a.fix = 0x12, 2
			case 2:
				a.form, a.abs = 0x10, true
				if g.version <= 2 {
					a.fix = 8
				}
			}
			add(a)
		case 7:
			v := g.integer()
			add(&attr{num: 0x11, name: "Lowpc", class: "ClassAddress", form: 0x01, bytes: le(8, v), val: v})
		case 8:
			add(g.block(0x02, "Location"))
		case 9:
			if g.version >= 4 {
				v := g.integer()
				add(&attr{num: 0x69, name: "Signature", class: "ClassReferenceSig", form: 0x20, bytes: le(8, v), val: v})
			}
		case 10:
			add(g.constAttr(pickAttr(g.t)))
		case 11: // offsets into other sections, each kind of them
			if g.version >= 4 {
				p := pointers[uniform(g.t, len(pointers), "section")]
				v := uint32(g.integer())
				add(&attr{num: p.num, name: p.name, class: p.class, form: 0x17, bytes: le(4, uint64(v)), val: int64(v)})
			}
		case 12:
			if g.version >= 5 && chance(g.t, 2, "list") {
				v := g.integer()
				add(&attr{num: 0x02, name: "Location", class: "ClassLocList", form: 0x22, bytes: uleb(v), val: v})
			} else if g.version >= 5 {
				b := make([]byte, 16)
				var v []int
				for i := range b {
					b[i] = byte(uniform(g.t, 64, "byte") * 5)
					v = append(v, int(b[i]))
				}
				add(&attr{num: 0x1c, name: "ConstValue", class: "ClassConstant", form: 0x1e, bytes: b, val: v})
			}
		}
	}
	if d.has && chance(g.t, 2, "sibling") {
		d.sib = &attr{num: 0x01, name: "Sibling", class: "ClassReference", form: 0x13, fix: 4}
		d.attrs = append([]*attr{d.sib}, d.attrs...)
	}
}

func pickAttr(t *rapid.T) (uint64, string) {
	switch uniform(t, 6, "constant") {
	case 0:
		return 0x3b, "DeclLine"
	case 1:
		return 0x3a, "DeclFile"
	case 2:
		return 0x0d, "BitSize"
	case 3:
		return 0x2f, "UpperBound"
	case 4:
		return 0x3e, "Encoding"
	}
	return 0x13, "Language"
}

func (g *gen) tree(depth, budget int) []*die {
	var r []*die
	n := uniform(g.t, 5, "children")
	if budget > 60 && chance(g.t, 4, "many children") {
		n = 12 + uniform(g.t, 20, "children")
	}
	for k := n; k > 0 && len(g.all) < budget; k-- {
		n := tagList[uniform(g.t, len(tagList), "tag")]
		d := &die{tag: n, name: tagNames[n]}
		g.all = append(g.all, d)
		if (depth < 6 || budget > 60 && depth < 24) && (chance(g.t, 2, "has children") || budget > 60 && depth > 5) {
			d.has = true
			d.kids = g.tree(depth+1, budget)
			for _, k := range d.kids {
				k.up = d
			}
		}
		g.attrs(d)
		r = append(r, d)
	}
	return r
}

func lineTable(t *rapid.T, version int) []byte {
	if version > 5 {
		version = 5
	}
	var h []byte // after header_length
	h = append(h, 1)
	if version >= 4 {
		h = append(h, 1)
	}
	h = append(h, 1, 0xfb, 14, 13)
	h = append(h, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1)
	nf := uniform(t, 4, "files")
	if chance(t, 20, "many files") {
		nf = 10 + uniform(t, 60, "files")
	}
	if version >= 5 {
		nf++
		h = append(h, 1, 1, 0x08) // directory format: path, string
		h = append(h, 2)
		h = append(h, "/comp\x00inc\x00"...)
		h = append(h, 2, 1, 0x08, 2, 0x0b) // files: path string, directory data1
		h = append(h, byte(nf))
		for i := 0; i < nf; i++ {
			h = append(h, pick(t, "file", "a.c", "/abs/b.h", "sub/c.h")...)
			h = append(h, 0, byte(uniform(t, 2, "dir")))
		}
	} else {
		h = append(h, "inc\x00"...)
		h = append(h, 0)
		for i := 0; i < nf; i++ {
			h = append(h, pick(t, "file", "a.c", "/abs/b.h", "sub/c.h")...)
			h = append(h, 0, byte(uniform(t, 2, "dir")), 0, 0)
		}
		h = append(h, 0)
	}
	var b []byte
	b = append(b, le(2, uint64(version))...)
	if version >= 5 {
		b = append(b, 8, 0)
	}
	b = append(b, le(4, uint64(len(h)))...)
	b = append(b, h...)
	return append(le(4, uint64(len(b))), b...)
}

type file struct {
	abbrev, info, line, str []byte
	units                   []*die
	versions                []int
}

func build(t *rapid.T) *file {
	f := &file{}
	nu := 1 + uniform(t, 3, "units")
	if chance(t, 20, "many units") {
		nu = 5 + uniform(t, 6, "units")
	}
	code := uint64(1)
	type fixup struct {
		at, n int
		base  int
		a     *attr
	}
	var fixups []fixup
	var dies []*die
	for u := 0; u < nu; u++ {
		g := &gen{t: t, version: 2 + uniform(t, 4, "version"), str: f.str}
		cu := &die{tag: 0x11, name: "CompileUnit", has: true}
		if g.version >= 5 && u > 0 && chance(t, 6, "partial") {
			cu.tag, cu.name = 0x3c, "PartialUnit"
		}
		g.all = append(g.all, cu)
		budget := 5 + uniform(t, 40, "budget")
		if nu < 4 && chance(t, 25, "large unit") {
			budget = 150
		}
		far := u == 0 && nu > 1 && chance(t, 20, "far") // everything that follows has large offsets
		if far {
			budget = 0
		}
		cu.kids = g.tree(0, budget)
		for _, k := range cu.kids {
			k.up = cu
		}
		if len(cu.kids) == 0 && chance(t, 2, "no children") {
			cu.has = false
		}
		g.attrs(cu)
		if g.version >= 5 && chance(t, 3, "bases") {
			for _, p := range pointers5 {
				v := uint32(g.integer())
				cu.attrs = append(cu.attrs, &attr{num: p.num, name: p.name, class: p.class, form: 0x17, bytes: le(4, uint64(v)), val: int64(v)})
			}
		}
		if far {
			s := strings.Repeat("far ", 17500)
			cu.attrs = append(cu.attrs, &attr{num: 0x25, name: "Producer", class: "ClassString", form: 0x08, bytes: append([]byte(s), 0), val: s})
		}
		if cu.sib != nil { // units have none
			cu.attrs, cu.sib = cu.attrs[1:], nil
		}
		if !chance(t, 8, "no line table") {
			a := &attr{num: 0x10, name: "StmtList", class: "ClassLinePtr", form: 0x17, bytes: le(4, uint64(len(f.line))), val: int64(len(f.line))}
			if g.version < 4 {
				a.form = 0x06
			}
			cu.attrs = append(cu.attrs, a, &attr{num: 0x1b, name: "CompDir", class: "ClassString", form: 0x08, bytes: []byte("/comp\x00"), val: "/comp"})
			f.line = append(f.line, lineTable(t, g.version)...)
		}
		f.str = g.str
		// header
		base := len(f.info)
		hdr := append(le(4, 0), le(2, uint64(g.version))...)
		aoff := len(f.abbrev)
		if g.version >= 5 {
			ut := byte(1)
			if cu.tag == 0x3c {
				ut = 3
			}
			hdr = append(hdr, ut, 8)
			hdr = append(hdr, le(4, uint64(aoff))...)
		} else {
			hdr = append(hdr, le(4, uint64(aoff))...)
			hdr = append(hdr, 8)
		}
		f.info = append(f.info, hdr...)
		// references: inside the unit, or anywhere when absolute
		for _, d := range g.all {
			for _, a := range d.attrs {
				if a.fix > 0 && a != d.sib {
					pool := g.all
					if a.abs {
						pool = append(append([]*die{}, dies...), g.all...)
					}
					a.to = pool[uniform(t, len(pool), "target")]
				}
			}
		}
		dies = append(dies, g.all...)
		var emit func(d *die)
		emit = func(d *die) {
			d.off = uint32(len(f.info))
			// each entry has its own abbreviation
			f.abbrev = append(f.abbrev, uleb(code)...)
			f.abbrev = append(f.abbrev, uleb(d.tag)...)
			if d.has {
				f.abbrev = append(f.abbrev, 1)
			} else {
				f.abbrev = append(f.abbrev, 0)
			}
			f.info = append(f.info, uleb(code)...)
			code++
			for _, a := range d.attrs {
				f.abbrev = append(f.abbrev, uleb(a.num)...)
				f.abbrev = append(f.abbrev, uleb(a.form)...)
				if a.form == 0x21 {
					f.abbrev = append(f.abbrev, sleb(a.impl)...)
				}
				if a.fix > 0 {
					b := base
					if a.abs {
						b = 0
					}
					fixups = append(fixups, fixup{len(f.info), a.fix, b, a})
					f.info = append(f.info, make([]byte, a.fix)...)
				}
				f.info = append(f.info, a.bytes...)
			}
			f.abbrev = append(f.abbrev, 0, 0)
			if d.has {
				for _, k := range d.kids {
					emit(k)
				}
				f.info = append(f.info, 0)
				if d.sib != nil {
					d.sib.val = dwarfy.Offset(len(f.info))
					d.sib.impl = int64(len(f.info))
				}
			}
		}
		emit(cu)
		for k := 0; k < 3 && chance(t, 4, "padding"); k++ {
			f.info = append(f.info, 0)
		}
		f.abbrev = append(f.abbrev, 0)
		binary.LittleEndian.PutUint32(f.info[base:], uint32(len(f.info)-base-4))
		f.units = append(f.units, cu)
		f.versions = append(f.versions, g.version)
	}
	for _, x := range fixups {
		v := uint64(x.a.impl)
		if x.a.to != nil {
			v = uint64(x.a.to.off)
			x.a.val = dwarfy.Offset(x.a.to.off)
		}
		copy(f.info[x.at:x.at+x.n], le(8, v-uint64(x.base))[:x.n])
	}
	return f
}

func (f *file) open() (*dwarf.Data, error) {
	return dwarf.New(f.abbrev, nil, nil, f.info, f.line, nil, nil, f.str)
}

func norm(d *dwarfy.Data) map[dwarfy.Offset]string {
	r := map[dwarfy.Offset]string{}
	for o, e := range d.Entries {
		if e == nil {
			r[o] = "nil"
			continue
		}
		s := string(e.Tag)
		if e.Parent != nil {
			s += fmt.Sprintf(" parent %d", *e.Parent)
		}
		s += fmt.Sprint(" children ", e.Children)
		if e.DeclFiles != nil {
			s += fmt.Sprintf(" files %q", *e.DeclFiles)
		} else {
			s += " files []"
		}
		for _, f := range e.Fields {
			v := fmt.Sprintf("%T %#v", f.Val, f.Val)
			if rv := reflect.ValueOf(f.Val); f.Val == nil && (f.Class == "ClassBlock" || f.Class == "ClassExprLoc") || rv.Kind() == reflect.Slice && rv.Len() == 0 {
				v = "[]"
			}
			s += fmt.Sprintf("; %s %s %s", f.Attr, f.Class, v)
		}
		r[o] = s
	}
	return r
}

func diff(a, b map[dwarfy.Offset]string) string {
	for o, s := range a {
		x, ok := b[o]
		if !ok {
			return fmt.Sprintf("entry %d %s is missing", o, s)
		}
		if x != s {
			return fmt.Sprintf("entry %d is %s, expected %s", o, x, s)
		}
	}
	for o, s := range b {
		if _, ok := a[o]; !ok {
			return fmt.Sprintf("entry %d %s is new", o, s)
		}
	}
	return ""
}

func fileNames(d *dwarf.Data, e *dwarf.Entry) ([]string, error) {
	lr, err := d.LineReader(e)
	if err != nil || lr == nil {
		return nil, err
	}
	r := []string{}
	for _, f := range lr.Files() {
		if f == nil {
			r = append(r, "")
		} else {
			r = append(r, f.Name)
		}
	}
	return r, nil
}

func (f *file) expected(dd *dwarf.Data, vt *vf.T) map[dwarfy.Offset]string {
	d := &dwarfy.Data{Entries: map[dwarfy.Offset]*dwarfy.Entry{0: {}}}
	var walk func(x *die, parent dwarfy.Offset)
	walk = func(x *die, parent dwarfy.Offset) {
		p := parent
		o := dwarfy.Offset(x.off)
		e := &dwarfy.Entry{Parent: &p, Tag: dwarfy.Tag(x.name)}
		for _, a := range x.attrs {
			e.Fields = append(e.Fields, &dwarfy.Field{Attr: dwarfy.Attr(a.name), Class: dwarfy.Class(a.class), Val: a.val})
		}
		d.Entries[o] = e
		d.Entries[parent].Children = append(d.Entries[parent].Children, o)
		if x.name == "CompileUnit" {
			r := dd.Reader()
			r.Seek(dwarf.Offset(x.off))
			de, err := r.Next()
			if err != nil {
				vt.T.Fatalf("generator: %v", err)
			}
			n, err := fileNames(dd, de)
			if err != nil {
				vt.T.Fatalf("generator: line table: %v", err)
			}
			e.DeclFiles = &n
		}
		for _, k := range x.kids {
			walk(k, o)
		}
	}
	for _, u := range f.units {
		walk(u, 0)
	}
	return norm(d)
}

func (f *file) text() string {
	s := ""
	var walk func(d *die, in string)
	walk = func(d *die, in string) {
		s += fmt.Sprintf("%s%d %s children %v", in, d.off, d.name, d.has)
		for _, a := range d.attrs {
			s += fmt.Sprintf(" %s(form %#x)=%#v", a.name, a.form, a.val)
		}
		s += "\n"
		for _, k := range d.kids {
			walk(k, in+" ")
		}
	}
	for i, u := range f.units {
		s += fmt.Sprintf("unit of version %d\n", f.versions[i])
		walk(u, " ")
	}
	return s
}

func TestDwarfy(t *testing.T) {
	dir := t.TempDir()
	fm := template.FuncMap{}
	funcs.AppendTemplateFuncMap(&fm)
	call := func(vt *vf.T, name string, args ...interface{}) (*dwarfy.Data, interface{}, error) {
		fn, ok := fm[name]
		if !ok {
			vt.Failf("function", "there is no function %s", name)
		}
		var in []reflect.Value
		for _, a := range args {
			in = append(in, reflect.ValueOf(a))
		}
		out := reflect.ValueOf(fn).Call(in)
		var err error
		var d *dwarfy.Data
		var any interface{}
		for _, o := range out {
			switch x := o.Interface().(type) {
			case nil:
			case *dwarfy.Data:
				d = x
			case error:
				err = x
			default:
				any = x
			}
		}
		return d, any, err
	}
	vf.Check(t, func(vt *vf.T) {
		t := vt.T
		f := build(t)
		if chance(t, 8, "corrupt") {
			f.corrupt(vt)
			return
		}
		vt.Note("%s", f.text())
		dd, err := f.open()
		if err != nil {
			t.Fatalf("generator: %v", err)
		}
		want := f.expected(dd, vt)
		data, err := dwarfy.NewData(dd)
		if err != nil {
			vt.Failf("refused", "well-formed debug information is refused: %v", err)
		}
		if s := diff(want, norm(data)); s != "" {
			vt.Failf("contents", "%s", s)
		}
		check := func(what string, d *dwarfy.Data, err error) {
			if err != nil {
				vt.Failf("roundtrip", "%s: %v", what, err)
			}
			if s := diff(want, norm(d)); s != "" {
				vt.Failf("roundtrip", "%s: %s", what, s)
			}
			if s := diff(want, norm(data)); s != "" {
				vt.Failf("roundtrip", "%s changes the original: %s", what, s)
			}
		}
		y, err := data.ToYamlBuffer()
		if err != nil {
			vt.Failf("roundtrip", "yaml: %v", err)
		}
		d1, err := dwarfy.NewDataFromYamlBuffer(y)
		check("yaml", d1, err)
		j, err := data.ToJsonBuffer()
		if err != nil {
			vt.Failf("roundtrip", "json: %v", err)
		}
		d2, err := dwarfy.NewDataFromJsonBuffer(j)
		check("json", d2, err)
		d3, err := dwarfy.NewDataFromUnstructured(data.ToUnstructured())
		check("unstructured", d3, err)
		// one after another
		y2, err := d2.ToYamlBuffer()
		if err != nil {
			vt.Failf("roundtrip", "yaml after json: %v", err)
		}
		d4, err := dwarfy.NewDataFromYamlBuffer(y2)
		check("json, then yaml", d4, err)
		d5, err := dwarfy.NewDataFromUnstructured(d4.ToUnstructured())
		check("json, yaml, unstructured", d5, err)
		// what templates use
		switch uniform(t, 4, "functions") {
		case 0:
			p := filepath.Join(dir, "d.yaml")
			os.Remove(p)
			if _, _, err := call(vt, "dwarfToYamlFile", data, p); err != nil {
				vt.Failf("function", "dwarfToYamlFile: %v", err)
			}
			d, _, err := call(vt, "dwarfFromYamlFile", p)
			check("yaml file", d, err)
			s, any, _ := call(vt, "dwarfToYaml", data)
			_ = s
			d, _, err = call(vt, "dwarfFromYaml", []byte(any.(string)))
			check("yaml text", d, err)
		case 1:
			p := filepath.Join(dir, "d.json")
			os.Remove(p)
			if _, _, err := call(vt, "dwarfToJsonFile", data, p); err != nil {
				vt.Failf("function", "dwarfToJsonFile: %v", err)
			}
			d, _, err := call(vt, "dwarfFromJsonFile", p)
			check("json file", d, err)
			_, any, _ := call(vt, "dwarfToJson", data)
			d, _, err = call(vt, "dwarfFromJson", []byte(any.(string)))
			check("json text", d, err)
		case 2:
			_, any, _ := call(vt, "dwarfToUnstructured", data)
			d, _, err := call(vt, "dwarfFromUnstructured", any)
			check("unstructured by function", d, err)
		case 3:
			for _, n := range []string{"dwarfFromYamlFile", "dwarfFromJsonFile", "dwarfFromElf", "dwarfFromPE", "dwarfFromMacho"} {
				if d, _, err := call(vt, n, filepath.Join(dir, "absent")); err == nil || d != nil {
					vt.Failf("function", "%s of an absent file: %v", n, err)
				}
			}
		}
		if len(f.units) > 1 {
			vt.Label("several units")
		}
		if len(want) > 12 {
			vt.NonTrivial()
		}
	})
}

// bytes changed at random: the same entries as debug/dwarf reads, or an error
func (f *file) corrupt(vt *vf.T) {
	t := vt.T
	vt.Label("corrupted")
	where := &f.info
	if chance(t, 3, "abbreviations") {
		where = &f.abbrev
	}
	for k := 1 + uniform(t, 4, "changes"); k > 0; k-- {
		if len(*where) > 12 {
			i := 11 + rapid.IntRange(0, len(*where)-12).Draw(t, "at")
			(*where)[i] = byte(rapid.IntRange(0, 255).Draw(t, "byte"))
		}
	}
	vt.Note("info % x abbrev % x", f.info, f.abbrev)
	dd, err := f.open()
	if err != nil {
		return
	}
	// independent walk
	type rec struct {
		off    dwarf.Offset
		tag    string
		fields int
	}
	var recs []rec
	bad := false
	r := dd.Reader()
	for len(recs) < 100000 {
		e, err := r.Next()
		if err != nil {
			bad = true
			break
		}
		if e == nil {
			break
		}
		if e.Tag == 0 {
			continue
		}
		if e.Tag == dwarf.TagCompileUnit {
			if _, err := fileNames(dd, e); err != nil {
				bad = true
				break
			}
		}
		recs = append(recs, rec{e.Offset, e.Tag.String(), len(e.Field)})
	}
	data, err := dwarfy.NewData(dd)
	if (err != nil) != bad {
		vt.Failf("corrupted", "debug/dwarf fails: %v, NewData returns %v", bad, err)
	}
	if err != nil {
		return
	}
	if len(data.Entries) != len(recs)+1 {
		vt.Failf("corrupted", "%d entries instead of %d", len(data.Entries), len(recs)+1)
	}
	for _, x := range recs {
		e := data.Entries[dwarfy.Offset(x.off)]
		if e == nil || string(e.Tag) != x.tag || len(e.Fields) != x.fields {
			vt.Failf("corrupted", "entry %d %s is lost or different", x.off, x.tag)
		}
		if e.Parent == nil || data.Entries[*e.Parent] == nil || *e.Parent >= dwarfy.Offset(x.off) {
			vt.Failf("corrupted", "entry %d has no proper parent", x.off)
		}
	}
}
