package props

import (
	"encoding/base64"
	"fmt"
	"path/filepath"
	"regexp"
	"strings"
	"text/template"
	"unicode"
	"unicode/utf8"

	"github.com/Masterminds/sprig/v3"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// FuncCase is a list of strings the helper functions of templates are applied to.
type FuncCase struct {
	S   [][]byte // the strings
	Old [][]byte // for replace, as many
	New [][]byte
}

// sprigs are sprig functions of one string that must stay what they are.
var sprigs = []string{"trim", "upper", "lower", "title", "untitle", "nospace", "camelcase", "snakecase", "kebabcase", "quote", "squote", "b64enc", "sha256sum", "toString", "trimAll \"_\"", "trimPrefix \"a\"",
	"trimSuffix \"b\"", "contains \"a\"", "hasPrefix \"_\"", "indent 2", "trunc 3", "repeat 2", "swapcase", "initials", "splitList \"_\"", "default \"x\"", "empty", "len", "cat \"a\"", "nindent 1", "plural \"one\" \"many\" | printf \"%v\""}

// allSprigs lists every function the templates were promised.
func allSprigs() []string { return sortedKeys(sprig.TxtFuncMap()) }

var overridden = map[string]bool{"replace": true, "plural \"one\" \"many\" | printf \"%v\"": true}

func funcTemplate() string {
	var sb strings.Builder
	sb.WriteString("type Deco struct{}\n")
	sb.WriteString("{{ if false }}")
	for _, f := range allSprigs() {
		sb.WriteString("{{ " + f + " }}")
	}
	sb.WriteString("{{ end }}\n")
	sb.WriteString("{{ $old := splitList \",\" .Vars.old }}{{ $new := splitList \",\" .Vars.new }}{{ range $i, $e := splitList \",\" .Vars.s }}{{ $s := b64dec $e }}{{ $o := b64dec (index $old $i) }}{{ $n := b64dec (index $new $i) }}")
	for _, f := range []string{"up", "down", "upFirst", "downFirst", "snake"} {
		sb.WriteString("// " + f + "|{{ $i }}|{{ " + f + " $s | b64enc }}|{{ $s | " + f + " | b64enc }}|\n")
	}
	sb.WriteString("// replace|{{ $i }}|{{ replace $s $o $n | b64enc }}|{{ $n | replace $s $o | b64enc }}|\n")
	for k, f := range sprigs {
		if !overridden[f] {
			fmt.Fprintf(&sb, "// sprig%d|{{ $i }}|{{ %s $s | toString | b64enc }}|{{ $s | %s | toString | b64enc }}|\n", k, f, f)
		}
	}
	sb.WriteString("{{ end }}\n")
	return sb.String()
}

var sprigRef *template.Template

// sprigWant renders the sprig functions with sprig itself.
func sprigWant(s string) []string {
	if sprigRef == nil {
		var sb strings.Builder
		for _, f := range sprigs {
			if !overridden[f] {
				sb.WriteString("{{ " + f + " . | toString | b64enc }}\n")
			} else {
				sb.WriteString("\n")
			}
		}
		sprigRef = template.Must(template.New("").Funcs(sprig.TxtFuncMap()).Parse(sb.String()))
	}
	var out strings.Builder
	must(sprigRef.Execute(&out, s))
	return strings.Split(out.String(), "\n")
}

// Reference implementations, written from the documentation.

func refMap(f func(rune) rune, s string) string {
	var out []byte
	for _, r := range s {
		out = utf8.AppendRune(out, f(r))
	}
	return string(out)
}

func refFirst(f func(rune) rune, s string) string {
	for _, r := range s {
		if n := utf8.RuneLen(r); r != utf8.RuneError && n > 0 {
			return string(utf8.AppendRune(nil, f(r))) + s[n:]
		}
		break
	}
	return s
}

func refReplace(s, old, new string) string {
	var out []byte
	for i := 0; i < len(s); {
		if i+len(old) <= len(s) && s[i:i+len(old)] == old {
			out = append(out, new...)
			i += len(old)
		} else {
			out = append(out, s[i])
			i++
		}
	}
	return string(out)
}

func isUpper(c byte) bool { return c >= 'A' && c <= 'Z' }
func isLower(c byte) bool { return c >= 'a' && c <= 'z' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// plainIdent says whether the words of a string are beyond doubt: an ASCII
// identifier without underscores.
func plainIdent(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isUpper(s[i]) && !isLower(s[i]) && !(isDigit(s[i]) && i > 0) {
			return false
		}
	}
	return true
}

// refSnake joins the words of an identifier: a word starts at an upper-case
// letter after a lower-case one or a digit, and at the last upper-case letter
// of a run that a lower-case letter follows.
func refSnake(s string) string {
	var out []byte
	for i := 0; i < len(s); i++ {
		if i > 0 && isUpper(s[i]) && (isLower(s[i-1]) || isDigit(s[i-1]) || i+1 < len(s) && isLower(s[i+1])) {
			out = append(out, '_')
		}
		c := s[i]
		if isUpper(c) {
			c += 'a' - 'A'
		}
		out = append(out, c)
	}
	return string(out)
}

var lineRe = regexp.MustCompile(`(?m)^// (\w+)\|(\d+)\|([^|\n]*)\|([^|\n]*)\|$`)

func checkFuncs(e *core.Env, c *FuncCase) core.Result {
	r := core.Result{Evals: len(c.S), Key: fmt.Sprint(*c), Features: []string{}}
	var enc [3][]string
	seen := map[string]bool{}
	for i := range c.S {
		for k, b := range [][]byte{c.S[i], c.Old[i], c.New[i]} {
			enc[k] = append(enc[k], base64.StdEncoding.EncodeToString(b))
		}
		s := string(c.S[i])
		f := "plain-identifier"
		switch {
		case s == "":
			f = "empty"
		case !utf8.ValidString(s):
			f = "invalid-utf8"
		case !plainIdent(s):
			f = "ascii"
			if len(s) != utf8.RuneCountInString(s) {
				f = "unicode"
			}
		}
		r.Features = append(r.Features, f)
		seen[f] = true
	}
	r.Nontrivial = len(seen) > 2
	if len(c.S) > 0 {
		r.Sample = fmt.Sprintf("%q ... (%d strings)", c.S[:min(12, len(c.S))], len(c.S))
	}
	must(writeFiles(e.Scratch, map[string]string{"go.mod": "module example.com/m\n\ngo 1.24\n", "src/src.go": "package src\n\ntype I interface{ M() }\n", "t": funcTemplate()}))
	bad := func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf(f, a...)
		if len(c.S) < 6 {
			r.Violation += fmt.Sprintf("\nstrings %q, replace %q by %q", c.S, c.Old, c.New)
		}
		return r
	}
	err, pan := genRun(e.Scratch, noRemote{}, "-p", "./src", "-i", "I", "-t", "t", "-o", "out/zz.go", "-v", "s="+strings.Join(enc[0], ","), "-v", "old="+strings.Join(enc[1], ","), "-v", "new="+strings.Join(enc[2], ","), "-g")
	if pan != "" {
		return bad("a helper function panics: %s", pan)
	}
	if err != nil {
		return bad("a helper function fails: %s", errLine(err))
	}
	got := map[string][2]string{}
	for _, m := range lineRe.FindAllStringSubmatch(read(filepath.Join(e.Scratch, "out/zz.go")), -1) {
		var v [2]string
		for k := range v {
			b, err := base64.StdEncoding.DecodeString(m[3+k])
			must(err)
			v[k] = string(b)
		}
		got[m[1]+"|"+m[2]] = v
	}
	for i := range c.S {
		s, old, new := string(c.S[i]), string(c.Old[i]), string(c.New[i])
		get := func(f string) string {
			v, ok := got[fmt.Sprintf("%s|%d", f, i)]
			if !ok {
				panic("no result of " + f)
			}
			if v[0] != v[1] && r.Violation == "" {
				bad("%s gives %q when called and %q in a pipeline for %q", f, v[0], v[1], s)
			}
			return v[0]
		}
		want := func(f, w string) {
			if g := get(f); g != w && r.Violation == "" {
				bad("%s %q is %q, want %q", f, s, g, w)
			}
		}
		want("up", refMap(unicode.ToUpper, s))
		want("down", refMap(unicode.ToLower, s))
		want("upFirst", refFirst(unicode.ToUpper, s))
		want("downFirst", refFirst(unicode.ToLower, s))
		if old != "" {
			if g, w := get("replace"), refReplace(s, old, new); g != w && r.Violation == "" {
				bad("replace %q %q %q is %q, want %q", s, old, new, g, w)
			}
		}
		if g := get("snake"); plainIdent(s) {
			want("snake", refSnake(s))
		} else if a, b := strings.ReplaceAll(g, "_", ""), strings.ReplaceAll(refMap(unicode.ToLower, s), "_", ""); a != b && r.Violation == "" {
			bad("snake %q is %q: characters other than underscores differ from the lower-cased string", s, g)
		} else if refMap(unicode.ToLower, g) != g && r.Violation == "" {
			bad("snake %q is %q, which is not lower case", s, g)
		} else if strings.Count(g, "_") < strings.Count(s, "_") && r.Violation == "" {
			bad("snake %q is %q: an underscore is lost", s, g)
		}
		ref := sprigWant(s)
		for k, f := range sprigs {
			if overridden[f] {
				continue
			}
			w, err := base64.StdEncoding.DecodeString(ref[k])
			must(err)
			if g := get(fmt.Sprintf("sprig%d", k)); g != string(w) && r.Violation == "" {
				bad("sprig function %s gives %q for %q, want %q", f, g, s, w)
			}
		}
		if r.Violation != "" {
			return r
		}
	}
	return r
}

func drawText(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 9).Draw(t, label+"Kind") {
	case 0, 1, 2, 3:
		// words as in identifiers
		parts := []string{"ID", "HTTP", "Get", "User", "x", "a", "B", "url", "2", "64", "V1", "foo", "Bar", "JSON", "s", "I", "OK", "iOS", "UTF8"}
		if rapid.IntRange(0, 3).Draw(t, label+"Odd") == 3 {
			parts = append(parts, "_", "__", "É", "ß", "ñ", "Ж", "世", "-", " ", ".", "\n")
		}
		n := rapid.IntRange(0, 5).Draw(t, label+"N")
		var s string
		for i := 0; i < n; i++ {
			s += rapid.SampledFrom(parts).Draw(t, label)
		}
		return []byte(s)
	case 4, 5:
		return []byte(rapid.StringMatching(`[A-Za-z_][A-Za-z0-9_]{0,12}`).Draw(t, label))
	case 6:
		// case pairs of different width and other special letters
		rs := []rune("ⱥȺⱦȾıİſKÅßẞǅǆǄŉΐﬀάΆςΣσⅰⅠⓐⓐꭰᎠɐⱯɽⱤɑⱭ𐐀𐐨ჿა\ufffd\u0301\u2028\x00\x7f_aZ9")
		n := rapid.IntRange(0, 6).Draw(t, label+"N")
		var s string
		for i := 0; i < n; i++ {
			s += string(rapid.SampledFrom(rs).Draw(t, label))
		}
		return []byte(s)
	case 7:
		return []byte(rapid.String().Draw(t, label))
	case 8:
		return rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, label)
	default:
		// incomplete and malformed encodings between letters
		parts := []string{"\xff", "\xc3", "\xe4\xb8", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "a", "B", "é", "\ufffd", "_"}
		n := rapid.IntRange(1, 5).Draw(t, label+"N")
		var s string
		for i := 0; i < n; i++ {
			s += rapid.SampledFrom(parts).Draw(t, label)
		}
		return []byte(s)
	}
}

func init() {
	register(&core.Prop{
		ID: "C11",
		Rule: "rapid draws lists of strings (words of identifiers, random identifiers, letters whose case changes their width, arbitrary Unicode, arbitrary bytes, malformed UTF-8) with patterns and substitutes for replace; one gowrap run renders up, down, upFirst, downFirst, replace, snake and 30 sprig functions of each through a template that also names every sprig function. " +
			"The results are compared with references written from the documentation and with sprig itself. Each string is one evaluation. Non-trivial: a list of strings of at least three of the kinds empty, plain identifier, other ASCII, Unicode, malformed.",
		Quick: 2400, Deep: 60000,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &FuncCase{}
			n := rapid.IntRange(1, 40).Draw(t, "n")
			for i := 0; i < n; i++ {
				s := drawText(t, "s")
				var old []byte
				if len(s) > 0 && rapid.IntRange(0, 2).Draw(t, "sub") > 0 {
					// a part of the string, cut anywhere
					a := rapid.IntRange(0, len(s)-1).Draw(t, "from")
					b := rapid.IntRange(a+1, min(len(s), a+3)).Draw(t, "to")
					old = s[a:b]
				} else {
					old = drawText(t, "old")
				}
				c.S, c.Old, c.New = append(c.S, s), append(c.Old, old), append(c.New, drawText(t, "new"))
			}
			return c
		},
		New:         func() any { return &FuncCase{} },
		Check:       func(e *core.Env, x any) core.Result { return checkFuncs(e, x.(*FuncCase)) },
		Assumptions: []string{"up and down treat malformed UTF-8 the way package strings does", "snake is fully specified for ASCII identifiers without underscores; for other strings only that nothing but underscores is added and nothing is lost"},
	})
}
