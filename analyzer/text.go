package main

import (
	"go/types"
	"strconv"
	"strings"
)

// The text that identifiers are turned into, as a concatenation of constants,
// text{d}(n) (decimal), text{xn}(n) and text{xb}(b) (hexadecimal), and strings.

func textOf(full string, args []*Term) *Term {
	switch full {
	case "encoding/hex.EncodeToString":
		return mk("text", "xb", args[0])
	case "strconv.Itoa":
		return mk("text", "d", args[0])
	case "strconv.FormatUint", "strconv.FormatInt":
		if b, ok := intVal(args[1]); ok && b.IsInt64() {
			switch b.Int64() {
			case 10:
				return mk("text", "d", args[0])
			case 16:
				return mk("text", "xn", args[0])
			}
		}
	case "fmt.Sprint":
		if args[0].op != "lit" || len(args[0].args) != 1 {
			return nil
		}
		return textVerb('v', args[0].args[0])
	case "fmt.Sprintf":
		if args[0].op != "const" {
			return nil
		}
		f, err := strconv.Unquote(args[0].aux)
		if err != nil {
			return nil
		}
		var ops []*Term
		if args[1].op == "lit" {
			ops = args[1].args
		} else if args[1].op != "nil" {
			return nil
		}
		var out []*Term
		text := ""
		flush := func() {
			if text != "" {
				out = append(out, tStr(text))
				text = ""
			}
		}
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				text += f[i : i+1]
				continue
			}
			i++
			if i == len(f) {
				return nil
			}
			if f[i] == '%' {
				text += "%"
				continue
			}
			if len(ops) == 0 {
				return nil
			}
			v := textVerb(f[i], ops[0])
			if v == nil {
				return nil
			}
			ops = ops[1:]
			flush()
			out = append(out, v)
		}
		flush()
		if len(ops) > 0 {
			return nil
		}
		return joinText(out)
	}
	return nil
}

func joinText(xs []*Term) *Term {
	switch len(xs) {
	case 0:
		return tStr("")
	case 1:
		return xs[0]
	}
	return cat(xs...)
}

func textVerb(v byte, t *Term) *Term {
	if t.op != "iface" || t.typ == nil {
		return nil
	}
	x := t.args[0]
	if ms := types.NewMethodSet(t.typ); ms.Len() > 0 {
		return nil
	}
	switch u := t.typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0 && (v == 'd' || v == 'v'):
			return mk("text", "d", x)
		case u.Info()&types.IsInteger != 0 && v == 'x':
			return mk("text", "xn", x)
		case u.Info()&types.IsString != 0 && (v == 's' || v == 'v'):
			return x
		case u.Info()&types.IsString != 0 && v == 'x':
			return mk("text", "xb", x)
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			switch v {
			case 'x':
				return mk("text", "xb", x)
			case 's':
				return x
			}
		}
	}
	return nil
}

// textItem is a part of a text: a character, or any number of characters of a class.
type textItem struct {
	char  byte
	class string // "d", "x" or "*"
	t     *Term
}

func textItems(t *Term) ([]textItem, bool) {
	switch t.op {
	case "const":
		s, err := strconv.Unquote(t.aux)
		if err != nil {
			return nil, false
		}
		var out []textItem
		for i := range len(s) {
			out = append(out, textItem{char: s[i]})
		}
		return out, true
	case "text":
		return []textItem{{class: t.aux[:1], t: t}}, true
	case "cat":
		var out []textItem
		for _, a := range t.args {
			x, ok := textItems(a)
			if !ok {
				return nil, false
			}
			out = append(out, x...)
		}
		return out, true
	case "p", "sym", "elem", "ld":
		return []textItem{{class: "*", t: t}}, true
	}
	return nil, false
}

func inClass(c byte, class string) bool {
	switch class {
	case "d":
		return '0' <= c && c <= '9'
	case "x":
		return strings.IndexByte("0123456789abcdef", c) >= 0
	}
	return true
}

// textMeet reports whether some text has both shapes.
func textMeet(a, b []textItem) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	if len(a) > 0 && a[0].class != "" {
		if textMeet(a[1:], b) {
			return true
		}
		if len(b) == 0 {
			return false
		}
		if b[0].class != "" {
			return textMeet(a, b[1:])
		}
		return inClass(b[0].char, a[0].class) && textMeet(a, b[1:])
	}
	if len(b) > 0 && b[0].class != "" {
		return textMeet(b, a)
	}
	return len(a) > 0 && len(b) > 0 && a[0].char == b[0].char && textMeet(a[1:], b[1:])
}

// textInjective reports whether a text determines what it was made of: each part
// of variable length ends where a character follows that it can not contain, or
// at the end.
func textInjective(xs []textItem) bool {
	for i, x := range xs {
		if x.class == "" || i == len(xs)-1 {
			continue
		}
		if n := xs[i+1]; n.class != "" || inClass(n.char, x.class) {
			return false
		}
	}
	return true
}
