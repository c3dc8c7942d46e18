package props

import (
	"bytes"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/hexdigest/gowrap"
	"pgregory.net/rapid"

	"verif/harness/core"
)

// CommandCase is a use of the command line.
type CommandCase struct {
	Kind string
	Args []string // kind top: arguments of the command

	Misuse bool // the arguments are a misuse of gen or template

	// kind spelling: one command line, written in two ways
	Values map[string]string // of flags given once
	Vars   []string          // values of -v, in order
	Plain  []string
	Other  []string

	// kind registry: commands registered by a program of one's own
	Commands []OwnCommand
	Limit    int // of the writer, -1 for none
}

// OwnCommand is a registered command.
type OwnCommand struct {
	Name, Short string
	Flags       []string
	NoFlagSet   bool
}

var topNames = []string{"gen", "template"}

var helpFlags = map[string][]string{"gen": {"g", "i", "l", "o", "p", "t", "v"}, "template": nil}

func checkTop(e *core.Env, c *CommandCase) core.Result {
	r := core.Result{Nontrivial: len(c.Args) > 0, Key: fmt.Sprint(c.Args), Sample: fmt.Sprintf("gowrap %q", c.Args), Features: []string{"kind:top"}}
	before := snapshot(e.Scratch)
	status, stdout, stderr := runCLI(e, e.Scratch, c.Args...)
	bad := func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf("gowrap %q: %s\nstatus %d\n-- stdout --\n%s\n-- stderr --\n%s", c.Args, fmt.Sprintf(f, a...), status, stdout, stderr)
		return r
	}
	if d := treeDiff(before, snapshot(e.Scratch)); d != "" {
		return bad("files changed: %s", d)
	}
	args := c.Args
	if len(args) > 0 && args[0] == "--" {
		args = args[1:]
	}
	known := func(s string) bool { return s == "gen" || s == "template" }
	want, out, hint := 2, "", "gowrap help"
	switch {
	case c.Misuse:
		// every misuse of a command points to its help
		hint = "gowrap help " + args[0]
	case len(args) == 0:
		r.Features = append(r.Features, "no arguments")
		hint = ""
		for _, n := range topNames {
			if !strings.Contains(stderr, n) {
				return bad("the usage does not name the command %s", n)
			}
		}
	case args[0] == "help" && len(args) == 1:
		want, out = 0, "usage"
	case args[0] == "help" && len(args) == 2 && known(args[1]):
		want, out = 0, args[1]
	case args[0] == "help":
		if len(args) == 2 && !strings.Contains(stderr, fmt.Sprintf("%q", args[1])) {
			return bad("the message does not name the unknown command")
		}
	case strings.HasPrefix(args[0], "-") && len(args[0]) > 1 && args[0] != "--":
	case !known(args[0]):
		if !strings.Contains(stderr, fmt.Sprintf("%q", args[0])) {
			return bad("the message does not name the unknown command")
		}
	}
	if status != want {
		return bad("want status %d", want)
	}
	if want != 0 {
		if stdout != "" {
			return bad("something is written to the standard output though it fails")
		}
		if strings.TrimSpace(stderr) == "" {
			return bad("it fails without a message")
		}
		if !strings.Contains(stderr, hint) {
			return bad("the message does not point to %q", hint)
		}
		return r
	}
	if stderr != "" {
		return bad("something is written to the standard error though it succeeds")
	}
	if out == "usage" {
		for i, n := range topNames {
			short := gowrap.NewGenerateCommand(noRemote{}).ShortDescription()
			if i == 1 {
				short = gowrap.NewTemplateCommand(noRemote{}).ShortDescription()
			}
			if !regexp.MustCompile(`(?m)^\s*` + n + `\s+` + regexp.QuoteMeta(short) + `\s*$`).MatchString(stdout) {
				return bad("the usage does not list the command %s with its description %q", n, short)
			}
		}
		return r
	}
	usage := map[string]string{"gen": gowrap.NewGenerateCommand(noRemote{}).UsageLine(), "template": gowrap.NewTemplateCommand(noRemote{}).UsageLine()}[out]
	if !strings.Contains(stdout, "gowrap "+out+" "+usage) {
		return bad("the help does not show the usage line %q", usage)
	}
	for _, f := range helpFlags[out] {
		if !regexp.MustCompile(`(?m)^\s*-` + f + `\b`).MatchString(stdout) {
			return bad("the help does not describe the flag -%s", f)
		}
	}
	if out == "template" {
		for _, s := range []string{"list", "copy"} {
			if !regexp.MustCompile(`(?m)^\s*` + s + `\b`).MatchString(stdout) {
				return bad("the help does not describe the subcommand %s", s)
			}
		}
	}
	return r
}

const spellSource = `package src

import "context"

type Target interface {
	Do(ctx context.Context, a int) error
	Put(b ...string) (int, error)
}

type Other interface{ Other() }
`

const spellTemplate = `{{ $d := (or .Vars.DecoratorName (printf "%sDeco" .Interface.Name)) }}
// {{$d}} {{range $k, $v := .Vars}}{{$k | printf "%q"}}={{$v | printf "%#v"}} {{end}}
type {{$d}} struct { base {{.Interface.Type}} }
{{range .Interface.Methods}}
func (_d {{$d}}) {{.Declaration}} { {{.Pass "_d.base."}} }
{{end}}
`

func checkSpelling(e *core.Env, c *CommandCase) core.Result {
	r := core.Result{Nontrivial: len(c.Plain) > 4, Key: fmt.Sprint(c.Plain, c.Other), Sample: fmt.Sprintf("gowrap gen %q\ngowrap gen %q", c.Plain, c.Other), Features: []string{"kind:spelling"}, Evals: 2}
	must(writeFiles(e.Scratch, map[string]string{"go.mod": "module example.com/m\n\ngo 1.24\n", "src/a.go": spellSource, "t": spellTemplate, "t2": "// other\n" + spellTemplate}))
	run := func(args []string) (string, string) {
		err, pan := genRun(e.Scratch, noRemote{}, args...)
		if pan != "" {
			return "panic", pan
		}
		got := ""
		for _, f := range []string{"o.go", "src/o.go", "x/y.go"} {
			p := filepath.Join(e.Scratch, f)
			if b, err := os.ReadFile(p); err == nil {
				got += "-- " + f + " --\n" + string(b)
				must(os.Remove(p))
			}
		}
		if err != nil {
			return "error", errLine(err) + got
		}
		return "ok", got
	}
	k1, o1 := run(c.Plain)
	k2, o2 := run(c.Other)
	r.Features = append(r.Features, "result:"+k1)
	if k1 != k2 || k1 == "ok" && o1 != o2 {
		r.Violation = fmt.Sprintf("gowrap gen %q: %s\n%s\ngowrap gen %q, which says the same: %s\n%s", c.Plain, k1, o1, c.Other, k2, o2)
	}
	if k1 == "panic" {
		r.Violation = fmt.Sprintf("gowrap gen %q panics: %s", c.Plain, o1)
	}
	return r
}

// own is a command of a program that uses gowrap as a library.
type own struct {
	OwnCommand
	fs *flag.FlagSet
}

func (o *own) FlagSet() *flag.FlagSet {
	if o.NoFlagSet {
		return nil
	}
	return o.fs
}
func (o *own) Run(args []string, w io.Writer) error { return nil }
func (o *own) ShortDescription() string             { return o.Short }
func (o *own) UsageLine() string                    { return "own" }
func (o *own) HelpMessage(w io.Writer) error        { return nil }

var registered = map[string]*own{}

func checkRegistry(e *core.Env, c *CommandCase) core.Result {
	r := core.Result{Nontrivial: len(c.Commands) > 1, Key: fmt.Sprint(c.Commands, c.Limit), Sample: fmt.Sprintf("%+v", c.Commands), Features: []string{"kind:registry"}}
	fail := func(f string, a ...any) core.Result {
		r.Violation = fmt.Sprintf("after registering %+v: %s", c.Commands, fmt.Sprintf(f, a...))
		return r
	}
	for _, x := range c.Commands {
		o := &own{x, flag.NewFlagSet("own", flag.PanicOnError)}
		for _, f := range x.Flags {
			if o.fs.Lookup(f) == nil {
				o.fs.String(f, "", "about "+f)
			}
		}
		gowrap.RegisterCommand(x.Name, o)
		registered[x.Name] = o
		if !x.NoFlagSet {
			// errors of flags are for the command to return, not to print or to die of
			var err error
			func() {
				defer func() {
					if p := recover(); p != nil {
						err = nil
					}
				}()
				err = o.fs.Parse([]string{"-no-such-flag"})
			}()
			if err == nil {
				return fail("an unknown flag of %q is not reported as an error", x.Name)
			}
			if o.fs.Output() != io.Discard {
				return fail("the flags of %q are not silent", x.Name)
			}
		}
	}
	for n, o := range registered {
		if got := gowrap.GetCommand(n); got != gowrap.Command(o) {
			return fail("GetCommand(%q) is %v", n, got)
		}
	}
	if got := gowrap.GetCommand("no such command"); got != nil {
		return fail("GetCommand of an unknown name is %v", got)
	}
	w := &cutWriter{left: c.Limit}
	err := gowrap.Usage(w)
	var full bytes.Buffer
	must(gowrap.Usage(&full))
	if c.Limit >= 0 && c.Limit < full.Len() {
		if err == nil {
			return fail("Usage succeeds though the writer fails after %d bytes", c.Limit)
		}
		return r
	}
	if err != nil {
		return fail("Usage fails: %v", err)
	}
	var names []string
	for n := range registered {
		names = append(names, n)
	}
	sort.Strings(names)
	at := 0
	for _, n := range names {
		want := fmt.Sprintf("\t%-10s%s\n", n, registered[n].Short)
		// names are listed in order, so that the usage is the same every time
		i := strings.Index(full.String()[at:], want)
		if i < 0 {
			return fail("the usage does not list %q with its description %q, or not in order:\n%s", n, registered[n].Short, full.String())
		}
		at += i
	}
	return r
}

func drawSpelling(t *rapid.T, c *CommandCase) {
	c.Values = map[string]string{
		"p": rapid.SampledFrom([]string{"./src", "example.com/m/src", "./nosuch"}).Draw(t, "p"),
		"i": rapid.SampledFrom([]string{"Target", "Target", "Other", "Missing"}).Draw(t, "i"),
		"t": rapid.SampledFrom([]string{"t", "./t", "t2"}).Draw(t, "t"),
		"o": rapid.SampledFrom([]string{"o.go", "src/o.go", "x/y.go"}).Draw(t, "o"),
	}
	if rapid.Bool().Draw(t, "local") {
		c.Values["l"] = rapid.SampledFrom([]string{"", "example.com", "a,b", "x=y"}).Draw(t, "l")
	}
	if rapid.Bool().Draw(t, "nogen") {
		c.Values["g"] = rapid.SampledFrom([]string{"true", "true", "false"}).Draw(t, "g")
	}
	if rapid.IntRange(0, 7).Draw(t, "incomplete") == 7 {
		delete(c.Values, rapid.SampledFrom([]string{"p", "i", "t", "o"}).Draw(t, "missing"))
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "vars"); i < n; i++ {
		c.Vars = append(c.Vars, rapid.SampledFrom([]string{"DecoratorName=Deco", "DecoratorName=Other", "a=b", "a=b=c", "flag", "a", "x=", "k=with space", "k=-v", "n=1"}).Draw(t, "var"))
	}
	one := func(f, v, label string) []string {
		dash := []string{"-", "--"}[rapid.IntRange(0, 1).Draw(t, label+"dash")]
		if f == "g" {
			if v == "false" {
				return []string{dash + "g=" + rapid.SampledFrom([]string{"false", "0", "F"}).Draw(t, label)}
			}
			return []string{dash + rapid.SampledFrom([]string{"g", "g=true", "g=1", "g=T"}).Draw(t, label)}
		}
		if rapid.Bool().Draw(t, label) {
			return []string{dash + f + "=" + v}
		}
		return []string{dash + f, v}
	}
	write := func(vary bool) (out []string) {
		var fs []string
		for _, f := range sortedKeys(c.Values) {
			fs = append(fs, f)
		}
		for range c.Vars {
			fs = append(fs, "v")
		}
		if vary {
			fs = rapid.Permutation(fs).Draw(t, "order")
		}
		k := 0
		for i, f := range fs {
			v := c.Values[f]
			if f == "v" {
				v = c.Vars[k]
				k++
			} else if vary && rapid.IntRange(0, 5).Draw(t, "twice") == 5 {
				// the last one counts
				out = append(out, one(f, map[string]string{"g": "true"}[f]+map[bool]string{true: "", false: "./other"}[f == "g"], fmt.Sprint("first", i))...)
			}
			switch {
			case vary:
				out = append(out, one(f, v, fmt.Sprint("spell", i))...)
			case f == "g":
				out = append(out, "-g="+v)
			default:
				out = append(out, "-"+f, v)
			}
		}
		if vary && rapid.IntRange(0, 4).Draw(t, "end") == 4 {
			out = append(out, "--")
		}
		return out
	}
	c.Plain, c.Other = write(false), write(true)
}

func init() {
	register(&core.Prop{
		ID: "C31",
		Rule: "rapid draws uses of the command line: top-level arguments (help, unknown commands, nothing), run with the built command and compared with what the help promises; command lines of gen written in two ways (order, -f v, -f=v, --f, overridden values), " +
			"which must have the same effect; and sets of commands registered by a program of one's own, whose usage must list them. Non-trivial: there is an argument, more than two flags, or more than one command.",
		Quick: 600, Deep: 16000,
		Draw: func(t *rapid.T, e *core.Env) any {
			c := &CommandCase{Kind: rapid.SampledFrom([]string{"top", "spelling", "spelling", "registry"}).Draw(t, "kind")}
			word := rapid.OneOf(rapid.SampledFrom([]string{"gen", "template", "help", "Gen", "generate", "", "list", "gen ", "%d", "-x", "ünï"}), rapid.StringMatching(`[a-z]{1,8}`))
			switch c.Kind {
			case "top":
				switch rapid.IntRange(0, 5).Draw(t, "shape") {
				case 0:
				case 5:
					c.Misuse = true
					c.Args = rapid.SampledFrom([][]string{{"gen"}, {"gen", "-x"}, {"gen", "-h"}, {"gen", "--help"}, {"gen", "-p"}, {"gen", "-g=maybe"}, {"gen", "-p", ".", "-i", "I"},
						{"template"}, {"template", "remove"}, {"template", "-x"}, {"template", "copy"}, {"template", "copy", "a"}, {"template", ""}}).Draw(t, "misuse")
				case 1:
					c.Args = []string{"help"}
				case 2:
					c.Args = []string{"help", word.Draw(t, "command")}
				case 3:
					c.Args = append([]string{"help"}, rapid.SliceOfN(word, 2, 4).Draw(t, "too many")...)
				default:
					if w := word.Draw(t, "command"); w != "gen" && w != "template" && w != "help" {
						c.Args = []string{w}
						if !strings.HasPrefix(w, "-") {
							c.Args = append(c.Args, rapid.SliceOfN(word, 0, 2).Draw(t, "more")...)
						}
					}
				}
				if rapid.IntRange(0, 5).Draw(t, "dashes") == 5 && (len(c.Args) == 0 || !strings.HasPrefix(c.Args[0], "-")) {
					c.Args = append([]string{"--"}, c.Args...)
				}
			case "spelling":
				drawSpelling(t, c)
			default:
				c.Limit = -1
				if rapid.IntRange(0, 3).Draw(t, "limited") == 3 {
					c.Limit = rapid.IntRange(0, 400).Draw(t, "limit")
				}
				for i, n := 0, rapid.IntRange(1, 4).Draw(t, "commands"); i < n; i++ {
					c.Commands = append(c.Commands, OwnCommand{Name: rapid.StringMatching(`[a-z]{1,12}`).Draw(t, "name"), Short: rapid.SampledFrom([]string{"does it", "", "100% {{.}}", "ünï", "<b>&"}).Draw(t, "short"),
						Flags: rapid.SliceOfN(rapid.StringMatching(`[a-z]{1,3}`), 0, 3).Draw(t, "flags"), NoFlagSet: rapid.IntRange(0, 3).Draw(t, "none") == 3})
				}
			}
			return c
		},
		New: func() any { return &CommandCase{} },
		Check: func(e *core.Env, x any) core.Result {
			c := x.(*CommandCase)
			switch c.Kind {
			case "top":
				return checkTop(e, c)
			case "spelling":
				return checkSpelling(e, c)
			}
			return checkRegistry(e, c)
		},
		Assumptions: []string{"what gen and template do with their own arguments is the subject of other properties"},
	})
}
