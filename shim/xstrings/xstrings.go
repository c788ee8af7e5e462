// Package xstrings is an offline stand-in for github.com/huandu/xstrings: only
// the helpers aodinokov/metac reaches (directly or through sprig).
package xstrings

import (
	"strings"
	"unicode"
)

type class int

const (
	other class = iota
	lower
	upper
	digit
	sep
)

func classOf(r rune) class {
	switch {
	case r == '_' || r == '-' || unicode.IsSpace(r):
		return sep
	case unicode.IsUpper(r):
		return upper
	case unicode.IsDigit(r):
		return digit
	case unicode.IsLetter(r):
		return lower
	}
	return other
}

func toDelim(str string, d rune) string {
	rs := []rune(str)
	var b strings.Builder
	for i, r := range rs {
		c := classOf(r)
		if c == sep {
			b.WriteRune(d)
			continue
		}
		if c == upper && i > 0 {
			p := classOf(rs[i-1])
			nextLower := i+1 < len(rs) && classOf(rs[i+1]) == lower
			if p == lower || p == digit || (p == upper && nextLower) {
				b.WriteRune(d)
			}
		}
		b.WriteRune(unicode.ToLower(r))
	}
	return b.String()
}

// ToSnakeCase converts FirstName / HTTPServer / "GO PATH" to snake case.
func ToSnakeCase(str string) string { return toDelim(str, '_') }

// ToKebabCase is ToSnakeCase with '-'.
func ToKebabCase(str string) string { return toDelim(str, '-') }

// ToCamelCase converts some_words to SomeWords.
func ToCamelCase(str string) string {
	var b strings.Builder
	up := true
	for _, r := range str {
		if classOf(r) == sep {
			up = true
			continue
		}
		if up {
			b.WriteRune(unicode.ToUpper(r))
		} else {
			b.WriteRune(r)
		}
		up = false
	}
	return b.String()
}

// FirstRuneToUpper upper-cases the first rune.
func FirstRuneToUpper(s string) string {
	rs := []rune(s)
	if len(rs) > 0 {
		rs[0] = unicode.ToUpper(rs[0])
	}
	return string(rs)
}

// FirstRuneToLower lower-cases the first rune.
func FirstRuneToLower(s string) string {
	rs := []rune(s)
	if len(rs) > 0 {
		rs[0] = unicode.ToLower(rs[0])
	}
	return string(rs)
}
