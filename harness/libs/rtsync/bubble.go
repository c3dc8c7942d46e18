//go:build go1.25

package rtsync

import (
	"fmt"
	"reflect"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verif/libs/rt"
)

// bubble runs f under virtual time. left says what remained when f had returned,
// if the goroutines it started could not end.
func bubble(t *testing.T, f func()) (left string) {
	var inner any
	var stack []byte
	func() {
		defer func() {
			if x := recover(); x != nil {
				left = fmt.Sprint(x)
			}
		}()
		synctest.Test(t, func(*testing.T) {
			defer func() {
				if x := recover(); x != nil {
					inner, stack = x, debug.Stack()
				}
			}()
			f()
		})
	}()
	if inner != nil {
		panic(fmt.Sprintf("%v\n%s", inner, stack))
	}
	return left
}

// clock measures virtual time from a moment.
type clock struct{ base time.Time }

func newClock() clock { return clock{time.Now()} }

func (c clock) now() time.Duration    { return time.Since(c.base) }
func (c clock) until(d time.Duration) { time.Sleep(d - c.now()) }

// outcomes of wrapped methods
const (
	ok = iota
	fails
	panics
)

func results(e *rt.Entry, m, seed, outcome int) []reflect.Value {
	var err error
	if outcome == fails {
		err = rt.ErrFor(seed)
	}
	return e.ResultsFor(m, err, seed)
}

func list(xs []string) string { return strings.Join(xs, "\n") }
