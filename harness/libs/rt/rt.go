// Package rt drives generated decorators at run time: it makes argument and
// result values from seeds, records the calls that reach wrapped values, and
// searches for scenarios that break a property.
package rt

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Method of the interface.
type Method struct {
	Name    string
	Fn      reflect.Value // method expression
	Params  []string      // names declared in the source, "" or "_" when there are none
	Results []string
	Where   string // package path of the declaration of the context type etc. is not needed

	in, out    []reflect.Type
	AcceptsCtx bool
	ReturnsErr bool
	Variadic   bool
}

// Entry is a generated decorator with what is needed to use it.
type Entry struct {
	Template, Iface, Spelled, Decorator string
	Same                                bool
	Vars                                map[string]string
	IfaceT                              reflect.Type
	Methods                             []*Method
	Spy                                 func(h Handler) any // a value of the interface
	New                                 any                 // the constructor
	Extra                               map[string]any      // other things of the output
	Stubs                               map[reflect.Type]func(n int) any
	Fresh                               func() reflect.Value
}

var (
	ctxT = reflect.TypeFor[context.Context]()
	errT = reflect.TypeFor[error]()
)

// Init derives what follows from the types.
func (e *Entry) Init() *Entry {
	for _, m := range e.Methods {
		t := m.Fn.Type()
		for i := 1; i < t.NumIn(); i++ {
			m.in = append(m.in, t.In(i))
		}
		for i := 0; i < t.NumOut(); i++ {
			m.out = append(m.out, t.Out(i))
		}
		m.Variadic = t.IsVariadic()
		m.AcceptsCtx = len(m.in) > 0 && m.in[0] == ctxT
		m.ReturnsErr = len(m.out) > 0 && m.out[len(m.out)-1] == errT
	}
	return e
}

// In and Out are the types of parameters (without the receiver) and results.
func (m *Method) In() []reflect.Type  { return m.in }
func (m *Method) Out() []reflect.Type { return m.out }

// Index of a method by name, -1 if there is none.
func (e *Entry) Index(name string) int {
	for i, m := range e.Methods {
		if m.Name == name {
			return i
		}
	}
	return -1
}

// Where lists the indices of the methods with a property.
func (e *Entry) Where(f func(m *Method) bool) (out []int) {
	for i, m := range e.Methods {
		if f(m) {
			out = append(out, i)
		}
	}
	return
}

// Handler answers the calls a spy gets.
type Handler interface {
	Handle(method int, args []reflect.Value) []reflect.Value
}

// HandlerFunc is a Handler.
type HandlerFunc func(method int, args []reflect.Value) []reflect.Value

// Handle implements Handler.
func (f HandlerFunc) Handle(m int, a []reflect.Value) []reflect.Value { return f(m, a) }

// Args turns pointers to parameters into their values.
func Args(ptrs ...any) []reflect.Value {
	out := make([]reflect.Value, len(ptrs))
	for i, p := range ptrs {
		out[i] = reflect.ValueOf(p).Elem()
	}
	return out
}

// Set stores results.
func Set(vals []reflect.Value, ptrs ...any) {
	for i, p := range ptrs {
		if vals != nil {
			reflect.ValueOf(p).Elem().Set(vals[i])
		}
	}
}

// Make calls a constructor. Arguments are converted to the parameter types; a
// value of the interface may be given as any.
func Make(fn any, args ...any) reflect.Value {
	f := reflect.ValueOf(fn)
	t := f.Type()
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 {
			pt = t.In(t.NumIn() - 1).Elem()
		} else {
			pt = t.In(i)
		}
		v := reflect.New(pt).Elem()
		if rv := reflect.ValueOf(a); rv.IsValid() {
			if rv.Type().AssignableTo(pt) {
				v.Set(rv)
			} else {
				v.Set(rv.Convert(pt))
			}
		}
		in[i] = v
	}
	return f.Call(in)[0]
}

// AsIface converts a decorator to the interface.
func (e *Entry) AsIface(d reflect.Value) reflect.Value {
	v := reflect.New(e.IfaceT).Elem()
	if d.Kind() == reflect.Interface {
		d = d.Elem()
	}
	v.Set(d)
	return v
}

// Panicked is the panic of a call.
type Panicked struct{ Val any }

// Invoke calls a method of a value of the interface with the arguments; the last
// one is a slice if the method is variadic.
func (e *Entry) Invoke(v reflect.Value, m int, args []reflect.Value) (res []reflect.Value, pan *Panicked) {
	defer func() {
		if x := recover(); x != nil {
			pan = &Panicked{x}
		}
	}()
	in := append([]reflect.Value{v}, args...)
	if e.Methods[m].Variadic {
		return e.Methods[m].Fn.CallSlice(in), nil
	}
	return e.Methods[m].Fn.Call(in), nil
}

// ---- values ----

// Rand is a small deterministic generator.
type Rand struct{ s uint64 }

// NewRand seeds a generator.
func NewRand(seed int) *Rand { return &Rand{uint64(seed)*0x9E3779B97F4A7C15 + 1} }

func (r *Rand) next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N draws from 0..n-1.
func (r *Rand) N(n int) int { return int(r.next() % uint64(n)) }

// Err is an error with an identity.
type Err struct{ N int }

func (e *Err) Error() string { return fmt.Sprintf("failure %d", e.N) }

// NilErr is an error whose nil pointer is one, too.
type NilErr struct{}

func (e *NilErr) Error() string { return "nil failure" }

// ErrFor is one of the errors methods return.
func ErrFor(n int) error {
	switch n % 10 {
	case 1:
		return context.Canceled
	case 2:
		return fmt.Errorf("wrapped: %w", context.DeadlineExceeded)
	case 3:
		return io.EOF
	case 4:
		return (*NilErr)(nil)
	case 5:
		return errors.Join(&Err{n}, io.EOF)
	case 6:
		return errors.New("")
	case 7:
		return fmt.Errorf("100%%d {{.}}: %w", &Err{n})
	}
	return &Err{n}
}

type strs string

func (s strs) String() string { return string(s) }

var words = []string{"", "a", "hello", "with space", "100%d", "ünï", "quote\"d", "line\nbreak", "{}", "ctx"}

// Value makes a value of type t. Seed 0 gives zero values.
func (e *Entry) Value(t reflect.Type, seed int) reflect.Value {
	if seed == 0 && t != ctxT {
		return reflect.Zero(t)
	}
	return e.value(t, NewRand(seed), 4)
}

func (e *Entry) value(t reflect.Type, r *Rand, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	if depth <= 0 {
		return v
	}
	switch t {
	case reflect.TypeFor[time.Time]():
		v.Set(reflect.ValueOf(time.Unix(int64(r.N(1e9)), 0).UTC()))
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.N(2) == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(r.N(200) - 50))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(r.N(200)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.N(1000)) / 8)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(r.N(100)), float64(r.N(100))))
	case reflect.String:
		v.SetString(words[r.N(len(words))])
	case reflect.Slice:
		if n := r.N(4); n > 0 {
			s := reflect.MakeSlice(t, n-1, n+1)
			for i := 0; i < n-1; i++ {
				s.Index(i).Set(e.value(t.Elem(), r, depth-1))
			}
			v.Set(s)
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(e.value(t.Elem(), r, depth-1))
		}
	case reflect.Map:
		if n := r.N(4); n > 0 {
			m := reflect.MakeMap(t)
			for i := 0; i < n-1; i++ {
				if k, x := e.value(t.Key(), r, depth-1), e.value(t.Elem(), r, depth-1); k.Comparable() {
					m.SetMapIndex(k, x)
				}
			}
			v.Set(m)
		}
	case reflect.Pointer:
		if r.N(4) > 0 {
			p := reflect.New(t.Elem())
			if t.Elem().Kind() != reflect.Struct || strings.HasPrefix(t.Elem().PkgPath(), "example.com/") || t.Elem().PkgPath() == "" {
				p.Elem().Set(e.value(t.Elem(), r, depth-1))
			}
			v.Set(p)
		}
	case reflect.Struct:
		if t.PkgPath() == "" || strings.HasPrefix(t.PkgPath(), "example.com/") {
			for i := 0; i < t.NumField(); i++ {
				if t.Field(i).IsExported() {
					v.Field(i).Set(e.value(t.Field(i).Type, r, depth-1))
				}
			}
		}
	case reflect.Chan:
		if r.N(4) > 0 {
			v.Set(reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), r.N(3)).Convert(t))
		}
	case reflect.Func:
		if r.N(4) > 0 {
			n := t.NumOut()
			v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
				out := make([]reflect.Value, n)
				for i := range out {
					out[i] = reflect.Zero(t.Out(i))
				}
				return out
			}))
		}
	case reflect.Interface:
		switch {
		case t == ctxT:
			v.Set(reflect.ValueOf(context.WithValue(context.Background(), Key{}, r.N(1000))))
		case t == errT:
			switch r.N(5) {
			case 0:
			case 1:
				v.Set(reflect.ValueOf(fmt.Errorf("wrapped: %w", &Err{r.N(1000)})))
			default:
				v.Set(reflect.ValueOf(&Err{r.N(1000)}))
			}
		case t.NumMethod() == 0:
			xs := []any{nil, r.N(100), words[r.N(len(words))], &Err{r.N(100)}, []int{1, 2}, map[string]int{"k": r.N(9)}, struct{ A, b int }{r.N(9), 2}, (*Err)(nil)}
			if x := xs[r.N(len(xs))]; x != nil {
				v.Set(reflect.ValueOf(x))
			}
		case r.N(4) == 0:
		case reflect.TypeFor[strs]().Implements(t):
			v.Set(reflect.ValueOf(strs(words[r.N(len(words))])))
		default:
			if f := e.Stubs[t]; f != nil {
				v.Set(reflect.ValueOf(f(r.N(1000))))
			}
		}
	}
	return v
}

// Key is the key contexts of the harness carry a number under.
type Key struct{}

// ArgsFor makes the arguments of a method; ctx is the first one if it takes a context.
func (e *Entry) ArgsFor(m int, ctx context.Context, seed int) []reflect.Value {
	var out []reflect.Value
	for i, t := range e.Methods[m].in {
		if i == 0 && e.Methods[m].AcceptsCtx {
			v := reflect.New(ctxT).Elem()
			if ctx != nil {
				v.Set(reflect.ValueOf(ctx))
			}
			out = append(out, v)
			continue
		}
		s := seed
		if s != 0 {
			s = s*31 + i + 1
		}
		out = append(out, e.Value(t, s))
	}
	return out
}

// ResultsFor makes the results of a method, ending with err if it returns an error.
func (e *Entry) ResultsFor(m int, err error, seed int) []reflect.Value {
	var out []reflect.Value
	mm := e.Methods[m]
	for i, t := range mm.out {
		s := seed
		if s != 0 {
			s = s*37 + i + 1
		}
		if i == len(mm.out)-1 && mm.ReturnsErr {
			v := reflect.New(errT).Elem()
			if err != nil {
				v.Set(reflect.ValueOf(err))
			}
			out = append(out, v)
			continue
		}
		out = append(out, e.Value(t, s))
	}
	return out
}

// ErrOf is the error among results.
func (m *Method) ErrOf(res []reflect.Value) error {
	if !m.ReturnsErr || len(res) == 0 {
		return nil
	}
	err, _ := res[len(res)-1].Interface().(error)
	return err
}

// Same says whether two values are the same: equal, and for references
// referring to the same thing.
func Same(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.Complex64, reflect.Complex128:
		return a.Complex() == b.Complex()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Slice:
		return a.IsNil() == b.IsNil() && a.Len() == b.Len() && a.Cap() == b.Cap() && (a.Cap() == 0 || a.Pointer() == b.Pointer())
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !Same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !Same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return Same(a.Elem(), b.Elem())
	case reflect.Func:
		return funcPtr(a) == funcPtr(b)
	case reflect.Map, reflect.Chan, reflect.Pointer, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	}
	return false
}

// funcPtr identifies a closure.
func funcPtr(v reflect.Value) uintptr {
	p := reflect.New(v.Type())
	if !v.CanInterface() {
		return v.Pointer()
	}
	p.Elem().Set(v)
	return *(*uintptr)(p.UnsafePointer())
}

// SameVariadic compares variadic arguments element by element.
func SameVariadic(a, b reflect.Value) bool {
	if a.Len() != b.Len() {
		return false
	}
	for i := 0; i < a.Len(); i++ {
		if !Same(a.Index(i), b.Index(i)) {
			return false
		}
	}
	return true
}

// DiffArgs says how the arguments the wrapped value got differ from those of
// the caller; the leading context is left to the caller if skipCtx.
func (m *Method) DiffArgs(want, got []reflect.Value, skipCtx bool) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d arguments, want %d", len(got), len(want))
	}
	for i := range want {
		switch {
		case i == 0 && skipCtx && m.AcceptsCtx:
		case i == len(want)-1 && m.Variadic:
			if !SameVariadic(want[i], got[i]) {
				return fmt.Sprintf("variadic argument %d is %s, want %s", i, Show(got[i]), Show(want[i]))
			}
		case !Same(want[i], got[i]):
			return fmt.Sprintf("argument %d is %s, want %s", i, Show(got[i]), Show(want[i]))
		}
	}
	return ""
}

// DiffResults says how results differ.
func DiffResults(want, got []reflect.Value) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d results, want %d", len(got), len(want))
	}
	for i := range want {
		if !Same(want[i], got[i]) {
			return fmt.Sprintf("result %d is %s, want %s", i, Show(got[i]), Show(want[i]))
		}
	}
	return ""
}

// Show prints a value.
func Show(v reflect.Value) (s string) {
	defer func() {
		if recover() != nil {
			s = v.Type().String()
		}
	}()
	s = fmt.Sprintf("%#v", v)
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return s
}

// ---- search ----

// Result of a scenario.
type Result struct {
	Violation  string
	Discard    string
	Nontrivial bool
	Features   []string
}

// Fail makes a violation.
func Fail(f string, a ...any) Result { return Result{Violation: fmt.Sprintf(f, a...)} }

// Prop is a property of a decorator.
type Prop struct {
	Draw  func(t *rapid.T, e *Entry) any // nil if the entry has nothing to check
	New   func() any
	Check func(t *testing.T, e *Entry, scenario any) Result
	// Synctest properties run every scenario in a bubble of their own accord.
	Setup func(entries []*Entry)
}

// Job says what to do.
type Job struct {
	Seed     uint64
	Checks   int
	Deadline int64 // unix
	Out      string
	Journal  string
	Entries  []string        // names
	Scenario json.RawMessage // check only this with the first entry
}

// Found is a violation.
type Found struct {
	Entry    int
	Message  string
	Scenario json.RawMessage
}

// Out is the report of a run.
type Out struct {
	Evaluations int
	Discards    map[string]int
	Features    map[string]int
	Hashes      []uint64
	Samples     []string
	Found       *Found
	HarnessErr  string
	Result      *Result // of a single scenario
}

type tb struct {
	failed bool
	last   string
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "vh" }
func (t *tb) Logf(string, ...any)       {}
func (t *tb) Log(...any)                {}
func (t *tb) Skipf(string, ...any)      { runtime.Goexit() }
func (t *tb) Skip(...any)               { runtime.Goexit() }
func (t *tb) SkipNow()                  { runtime.Goexit() }
func (t *tb) Errorf(f string, a ...any) { t.failed = true; t.last = fmt.Sprintf(f, a...) }
func (t *tb) Error(a ...any)            { t.failed = true; t.last = fmt.Sprint(a...) }
func (t *tb) Fatalf(f string, a ...any) {
	t.failed = true
	t.last = fmt.Sprintf(f, a...)
	runtime.Goexit()
}
func (t *tb) Fatal(a ...any) { t.failed = true; t.last = fmt.Sprint(a...); runtime.Goexit() }
func (t *tb) FailNow()       { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()          { t.failed = true }
func (t *tb) Failed() bool   { return t.failed }

// Main runs the job named by VH_JOB.
func Main(t *testing.T, p *Prop, entries []*Entry) {
	b, err := os.ReadFile(os.Getenv("VH_JOB"))
	if err != nil {
		t.Fatal(err)
	}
	var j Job
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	if p.Setup != nil {
		p.Setup(entries)
	}
	out := &Out{Discards: map[string]int{}, Features: map[string]int{}}
	write := func() {
		b, err := json.Marshal(out)
		if err == nil {
			err = os.WriteFile(j.Out, b, 0o644)
		}
		if err != nil {
			t.Fatal(err)
		}
	}
	if j.Scenario != nil {
		sc := p.New()
		if err := json.Unmarshal(j.Scenario, sc); err != nil {
			t.Fatal(err)
		}
		r, herr := safe(t, p, entries[0], sc)
		out.Result, out.HarnessErr = &r, herr
		write()
		return
	}
	flag.Parse()
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			t.Fatal(err)
		}
	}
	set("rapid.checks", fmt.Sprint(j.Checks))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "10s")
	seen := map[uint64]bool{}
	var began atomic.Int64 // of the current scenario
	go func() {
		for {
			time.Sleep(time.Second)
			if b := began.Load(); b != 0 && time.Now().Unix()-b > 30 {
				buf := make([]byte, 1<<16)
				fmt.Fprintf(os.Stderr, "a scenario does not end\n%s\n", buf[:runtime.Stack(buf, true)])
				os.Exit(3)
			}
		}
	}()
	for i, e := range entries {
		set("rapid.seed", fmt.Sprint(1+(j.Seed+uint64(i)*7919)>>1))
		var found *Found
		var harness string
		x := &tb{}
		done := make(chan bool)
		var shrinkEnd time.Time
		go func() {
			defer close(done)
			rapid.Check(x, func(rt *rapid.T) {
				if found == nil && time.Now().Unix() > j.Deadline || harness != "" {
					return
				}
				if found != nil && time.Now().After(shrinkEnd) {
					rt.Skip()
				}
				sc := p.Draw(rt, e)
				if sc == nil {
					return
				}
				b, err := json.Marshal(sc)
				if err != nil {
					harness = err.Error()
					return
				}
				if j.Journal != "" {
					jb, _ := json.Marshal(Found{Entry: i, Scenario: b})
					os.WriteFile(j.Journal, jb, 0o644)
				}
				began.Store(time.Now().Unix())
				r, herr := safe(t, p, e, sc)
				began.Store(0)
				if herr != "" {
					harness = herr
					return
				}
				if r.Discard != "" {
					if found == nil {
						out.Discards[r.Discard]++
					}
					rt.Skip()
				}
				if found == nil {
					out.Evaluations++
					for _, f := range r.Features {
						out.Features[f]++
					}
					if r.Nontrivial {
						h := fnv.New64a()
						fmt.Fprintf(h, "%s %d %d", b, i, j.Seed)
						if s := h.Sum64(); !seen[s] {
							seen[s] = true
							out.Hashes = append(out.Hashes, s)
							if n := len(out.Hashes); n == 1 || n == 25 {
								out.Samples = append(out.Samples, fmt.Sprintf("%s: %s", j.Entries[i], b))
							}
						}
					}
				}
				if r.Violation != "" {
					if found == nil {
						shrinkEnd = time.Now().Add(10 * time.Second)
					}
					found = &Found{i, r.Violation, b}
					rt.Fatalf("violation")
				}
			})
		}()
		<-done
		switch {
		case harness != "":
			out.HarnessErr = harness
		case found != nil:
			out.Found = found
		case x.failed:
			out.HarnessErr = "generator failed: " + x.last
		}
		if out.HarnessErr != "" || out.Found != nil {
			break
		}
	}
	write()
}

func safe(t *testing.T, p *Prop, e *Entry, sc any) (r Result, harness string) {
	defer func() {
		if x := recover(); x != nil {
			stack := string(debug.Stack())
			if strings.Contains(stack, "zz_generated.go") {
				r = Fail("panic in the generated code: %v\n%s", x, stack)
				return
			}
			harness = fmt.Sprintf("panic in the harness: %v\n%s", x, stack)
		}
	}()
	return p.Check(t, e, sc), ""
}

// Names for samples.
func Names(entries []*Entry) (out []string) {
	for _, e := range entries {
		out = append(out, e.Decorator)
	}
	return
}

// ErrBoom is what panicking methods panic with.
var ErrBoom = errors.New("boom")
