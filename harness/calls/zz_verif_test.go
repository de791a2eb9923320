//go:build go1.21

// Package calls explores histories and pairs of concurrent calls of functions that promise to depend on nothing but
// their arguments: every sequence of calls up to a depth, with results kept or overwritten by the caller, and every
// pair of calls at the same time under the race detector.
package calls

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

// A result: show renders all that the call returned or was given, spoil overwrites what the caller owns of it.
type res struct {
	show  func() string
	spoil func()
}

type op struct {
	name string
	call func() res
}

type group struct {
	ops            func() []op
	quick, through int // depths
}

var groups = map[string]group{}

func fixed(s string) res { return res{show: func() string { return s }} }

func text(format string, a ...interface{}) res { return fixed(fmt.Sprintf(format, a...)) }

// bytesOf keeps a byte slice.
func bytesOf(b []byte, err error) res {
	return res{
		show: func() string {
			if err != nil {
				return "refused"
			}
			return fmt.Sprintf("%x", b)
		},
		spoil: func() {
			b = b[:cap(b)]
			for i := range b {
				b[i] ^= 0x5a
			}
		},
	}
}

// The system fills buffers where the race detector cannot see it; this reader fills them where it can.
type plain struct{ r io.Reader }

func (s plain) Read(p []byte) (int, error) {
	b := make([]byte, len(p))
	n, err := s.r.Read(b)
	for i := 0; i < n; i++ {
		p[i] = b[i]
	}
	return n, err
}

const mark = "zz_verif result: "

func one(o op) (s string) {
	if p := vlib.Try(func() { s = o.call().show() }); p != "" {
		s = "panic: " + p
	}
	return
}

// alone is the result of call i in a process of its own.
func alone(i int) string {
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CALLS_ONE="+strconv.Itoa(i))
	out, err := cmd.CombinedOutput()
	at := bytes.Index(out, []byte(mark))
	if err != nil || at < 0 {
		return fmt.Sprintf("panic: the process making one call ends with %v: %s", err, out)
	}
	l := string(out[at+len(mark):])
	if l, err = strconv.Unquote(l[:strings.IndexByte(l, '\n')]); err != nil {
		panic(err)
	}
	return l
}

func TestVerif(t *testing.T) {
	name := strings.TrimPrefix(os.Getenv("VERIF_PHASE"), "calls-")
	g, ok := groups[name]
	if !ok {
		t.Fatal("no such group")
	}
	rand.Reader = plain{rand.Reader}
	ops := g.ops()
	if k, err := strconv.Atoi(os.Getenv("VERIF_CALLS_ONE")); err == nil {
		fmt.Printf("\n%s%q\n", mark, one(ops[k]))
		os.Exit(0)
	}
	c := vlib.New(name)
	n := len(ops)
	// 1. The result of every call in a process of its own.
	want := make([]string, n)
	c.Each("calls in a process of their own", n, func(w, i int) {
		c.Set(w, "first call: "+ops[i].name)
		want[i] = alone(i)
		if strings.HasPrefix(want[i], "panic") {
			c.Fail("first call: "+ops[i].name, "%s", want[i])
		}
		c.Distinct(want[i])
		c.Eval(1)
	})
	for i := range ops {
		c.Sample(ops[i].name + " -> " + clip(want[i]))
	}
	// 2. Every sequence.
	depth := g.quick
	if c.Thorough {
		depth = g.through
	}
	radix := make([]int, depth)
	for i := range radix {
		radix[i] = n
	}
	seqs := vlib.Size(radix)
	kept := make([]res, depth)
	for i := 0; i < seqs; i++ {
		if i%256 == 0 && c.Expired() {
			c.Cap(fmt.Sprintf("sequences of %d calls: stopped after %d of %d", depth, i, seqs))
			break
		}
		ix := vlib.Unrank(i, radix)
		for mode := 0; mode < 2; mode++ {
			desc := ""
			for k, x := range ix {
				if desc != "" {
					desc += ", then "
				}
				desc += ops[x].name
				if mode == 1 {
					desc += " (its result overwritten)"
				}
				c.Set(0, desc)
				c.Guard(0, desc, func() { kept[k] = ops[x].call() })
				c.Eval(1)
				if s := kept[k].show(); s != want[x] {
					c.Fail(desc, "the last call gives %s, in a process of its own %s", clip(s), clip(want[x]))
				}
				if mode == 1 && kept[k].spoil != nil {
					kept[k].spoil()
				}
			}
			if mode == 0 {
				for k, x := range ix {
					if s := kept[k].show(); s != want[x] {
						c.Fail(desc, "after the last call, the result of call %d has become %s, it was %s", k+1, clip(s), clip(want[x]))
					}
				}
			}
		}
		c.Transition(depth * 2)
	}
	c.Clear(0)
	// 3. Every pair at the same time, then all at once.
	together := func(desc string, ix []int) {
		c.Set(0, desc)
		start := make(chan bool)
		var wg sync.WaitGroup
		got := make([]res, len(ix))
		said := make([]string, len(ix))
		died := make([]string, len(ix))
		for k, x := range ix {
			wg.Add(1)
			go func(k, x int) {
				defer wg.Done()
				<-start
				for r := 0; r < 2; r++ {
					died[k] = vlib.Try(func() { got[k] = ops[x].call(); said[k] = got[k].show() })
					if died[k] != "" || said[k] != want[x] {
						return
					}
				}
			}(k, x)
		}
		close(start)
		wg.Wait()
		for k, x := range ix {
			if died[k] != "" {
				c.Fail(desc, "panic in %s: %s", ops[x].name, died[k])
			}
			if said[k] != want[x] {
				c.Fail(desc, "%s gives %s, in a process of its own %s", ops[x].name, clip(said[k]), clip(want[x]))
			}
			if s := got[k].show(); s != want[x] {
				c.Fail(desc, "the result of %s has become %s, it was %s", ops[x].name, clip(s), clip(want[x]))
			}
			c.Eval(2)
		}
		c.Trace(1)
		c.Clear(0)
	}
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			together("at the same time: "+ops[i].name+" and "+ops[j].name, []int{i, j})
		}
	}
	all := []int{}
	for i := range ops {
		all = append(all, i)
	}
	together("all calls at the same time", all)
	c.Cov("calls", n)
	c.Cov("depth", depth)
	c.Done()
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}
