//go:build go1.21

// Package c32p runs the daemon's real program, each case in a network namespace of its own where there are such.
package c32p

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/nodew"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
)

const (
	addr     = "127.0.0.1:32447"
	patience = 60 * time.Second // real time: generous, the machine may be busy
)

var (
	network = []byte{0xd6, 0x48, 0x2c, 0x89, 0xbc, 0x2d, 0x5b, 0x81, 0xaa, 0x9a, 0xbd, 0xf1, 0xd7, 0x31, 0x7d, 0xc3}
	genesis = chainm.Hash{0x31, 0x25, 0xb7, 0x9e, 0x4a, 0x42, 0xf8, 0xd4, 0xd2, 0xfc, 0x4d, 0xff, 0xea, 0x84, 0x42, 0xe1,
		0x85, 0xeb, 0xda, 0x94, 0x0e, 0xcd, 0x4d, 0x3b, 0x44, 0x90, 0x56, 0xa4, 0xea, 0x0e, 0xfe, 0xa4}
)

// Case is one run of the program.
type Case struct {
	Config string // contents of the configuration file in the home directory; "": none
	Flag   bool   // the file is named on the command line instead
	Events []int
	End    int // 0: interrupted at once, 1: served somebody before, 2: interrupted three times, 3: not interrupted by itself but twice after a probe
}

var eventNames = []string{"connect", "handshake", "handshake of one ahead", "wrong network", "half a frame", "garbage", "an answer nobody asked for", "close", "reset"}

var configs = []string{"", "network: testnet\nport: 1\n", "\tnot: [yaml", "bindaddr: 0.0.0.0:1\nconfig: x\nhelp: true\nversion: true\n"}

func (x Case) String() string {
	var l []string
	for _, e := range x.Events {
		l = append(l, eventNames[e])
	}
	return fmt.Sprintf("%s; end %d; configuration %q, by flag %v", strings.Join(l, ", "), x.End, x.Config, x.Flag)
}

func hello(net []byte, id uint64, height uint32, top chainm.Hash) []byte {
	return nodew.Command(nodew.Handshake, nodew.Encode("HandshakeRequest", nodew.NodeData(net, 4, id), nodew.SyncData(height, top))).Bytes()
}

// answer reads messages until the answer to a command.
func answer(conn net.Conn, cmd uint32) ([]byte, error) {
	_ = conn.SetReadDeadline(time.Now().Add(patience))
	for {
		h := make([]byte, 33)
		if _, err := io.ReadFull(conn, h); err != nil {
			return nil, err
		}
		b := make([]byte, binary.LittleEndian.Uint64(h[8:]))
		if _, err := io.ReadFull(conn, b); err != nil {
			return nil, err
		}
		if binary.LittleEndian.Uint32(h[17:]) == cmd && h[25]&2 != 0 {
			return b, nil
		}
	}
}

func probe() error {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		return fmt.Errorf("no connection: %w", err)
	}
	defer conn.Close()
	if _, err = conn.Write(hello(network, 77, 1, genesis)); err != nil {
		return err
	}
	b, err := answer(conn, nodew.Handshake)
	if err != nil {
		return fmt.Errorf("no answer to a handshake: %w", err)
	}
	v, ok := nodew.Decode("HandshakeResponse", b)
	if !ok {
		return errors.New("malformed answer to a handshake")
	}
	if s := nodew.L(v[1]); !bytes.Equal(nodew.B(nodew.L(v[0])[0]), network) || nodew.U(s[0]) != 1 || !bytes.Equal(nodew.B(s[1]), genesis[:]) {
		return fmt.Errorf("the daemon announces network %x, height %d, top %x", nodew.B(nodew.L(v[0])[0]), nodew.U(s[0]), nodew.B(s[1]))
	}
	return nil
}

// errOther is a failure of the check, not of the daemon.
type errOther struct{ error }

func loopback() error {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return err
	}
	defer syscall.Close(fd)
	var req [40]byte
	copy(req[:], "lo")
	binary.LittleEndian.PutUint16(req[16:], syscall.IFF_UP|syscall.IFF_RUNNING|syscall.IFF_LOOPBACK)
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req))); e != 0 {
		return e
	}
	return nil
}

type output struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (o *output) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.b.Len() < 1<<20 {
		o.b.Write(p)
	}
	return len(p), nil
}

func (o *output) tail() string {
	o.mu.Lock()
	defer o.mu.Unlock()
	s := o.b.String()
	if len(s) > 3000 {
		s = s[len(s)-3000:]
	}
	return s
}

func listing(dir string) (out []string) {
	_ = filepath.Walk(dir, func(p string, _ os.FileInfo, _ error) error {
		out = append(out, p)
		return nil
	})
	return
}

// run starts the program, goes through the case and stops it.
func run(prog, dir string, x Case) error {
	home, cwd := filepath.Join(dir, "home"), filepath.Join(dir, "cwd")
	for _, d := range []string{home, cwd} {
		if err := os.MkdirAll(d, 0755); err != nil {
			return errOther{err}
		}
	}
	var args []string
	if x.Config != "" {
		if err := os.WriteFile(filepath.Join(home, ".krbd.yml"), []byte(x.Config), 0644); err != nil {
			return errOther{err}
		}
		if x.Flag {
			args = []string{"--config", filepath.Join(home, ".krbd.yml")}
		}
	} else if x.Flag {
		args = []string{"--config", filepath.Join(home, "none.yml")}
	}
	files := fmt.Sprint(listing(dir))
	cmd := exec.Command(prog, args...)
	out := &output{}
	cmd.Dir = cwd
	cmd.Env = []string{"HOME=" + home, "PATH=" + os.Getenv("PATH")}
	cmd.Stdout, cmd.Stderr = out, out
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return errOther{err}
	}
	ended := make(chan error, 1)
	go func() { ended <- cmd.Wait() }()
	defer func() { _ = cmd.Process.Kill() }()
	early := func(err error, what string) error {
		return fmt.Errorf("the daemon ended by itself %s: %v; output: %s", what, err, out.tail())
	}
	for t := time.Now(); ; time.Sleep(20 * time.Millisecond) {
		if conn, err := net.Dial("tcp", addr); err == nil {
			conn.Close()
			break
		} else if time.Since(t) > patience {
			return fmt.Errorf("the daemon does not listen: %v; output: %s", err, out.tail())
		}
		select {
		case err := <-ended:
			return early(err, "at the start")
		default:
		}
	}
	time.Sleep(200 * time.Millisecond) // it waits for the interrupt in a goroutine of its own
	var conn net.Conn
	for _, e := range x.Events {
		if e == 0 || conn == nil && e < 7 {
			k, err := net.Dial("tcp", addr)
			if err != nil {
				return fmt.Errorf("connection refused: %w", err)
			}
			defer k.Close()
			conn = k
		}
		switch eventNames[e] {
		case "handshake":
			_, _ = conn.Write(hello(network, 5, 1, genesis))
		case "handshake of one ahead":
			_, _ = conn.Write(hello(network, 6, 1000000, chainm.Hash{7}))
		case "wrong network":
			_, _ = conn.Write(hello(append([]byte{1}, network[1:]...), 6, 1, genesis))
		case "half a frame":
			_, _ = conn.Write(hello(network, 5, 1, genesis)[:50])
		case "garbage":
			_, _ = conn.Write(bytes.Repeat([]byte{0xab}, 40))
		case "an answer nobody asked for":
			_, _ = conn.Write(nodew.Notify(nodew.ChainEntry, nodew.Encode("NotificationResponseChainEntry", uint64(0), uint64(3), nodew.Hashes(genesis, chainm.Hash{1}))).Bytes())
		case "close", "reset":
			if conn != nil {
				if t, ok := conn.(*net.TCPConn); ok && eventNames[e] == "reset" {
					_ = t.SetLinger(0)
				}
				_ = conn.Close()
				conn = nil
			}
		}
	}
	if x.End == 1 || x.End == 3 {
		if err := probe(); err != nil {
			return fmt.Errorf("%w; output: %s", err, out.tail())
		}
	}
	select {
	case err := <-ended:
		return early(err, "before it was interrupted")
	default:
	}
	_ = cmd.Process.Signal(os.Interrupt)
	if x.End >= 2 {
		time.Sleep(30 * time.Millisecond)
		_ = cmd.Process.Signal(os.Interrupt)
	}
	select {
	case err := <-ended:
		if err != nil {
			return fmt.Errorf("the interrupted daemon ends with %v; output: %s", err, out.tail())
		}
	case <-time.After(patience):
		return fmt.Errorf("the daemon does not end within %v after the interrupt; output: %s", patience, out.tail())
	}
	if now := fmt.Sprint(listing(dir)); now != files {
		return fmt.Errorf("the daemon changed files: %s, were %s", now, files)
	}
	return nil
}

type verdict struct{ Bad, Other string }

func judge(prog, dir string, x Case) (v verdict) {
	err := run(prog, dir, x)
	var o errOther
	switch {
	case errors.As(err, &o):
		v.Other = err.Error()
	case err != nil:
		v.Bad = err.Error()
	}
	return
}

// inner is one case in its namespace.
func inner(spec string) {
	var in struct {
		Prog, Dir, Out string
		Case           Case
	}
	if err := json.Unmarshal([]byte(spec), &in); err != nil {
		panic(err)
	}
	var v verdict
	if err := loopback(); err != nil {
		v.Other = "no loopback: " + err.Error()
	} else {
		v = judge(in.Prog, in.Dir, in.Case)
	}
	b, _ := json.Marshal(v)
	_ = os.WriteFile(in.Out, b, 0644)
	os.Exit(0)
}

func TestVerif(t *testing.T) {
	if s := os.Getenv("VERIF_INNER"); s != "" {
		inner(s)
	}
	c := vlib.New("C32")
	base, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "krbd")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	prog := filepath.Join(base, "krbd")
	build := exec.Command("go", "build", "-o", prog, ".")
	build.Dir = os.Getenv("REPO")
	if b, err := build.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("krbd does not build: %v %s", err, b))
	}

	var cases []Case
	K := len(eventNames)
	ends := []int{0, 1, 2, 3}
	for end := range ends {
		cases = append(cases, Case{End: end})
		for a := 0; a < K; a++ {
			cases = append(cases, Case{Events: []int{a}, End: end})
			for b := 0; b < K; b++ {
				if end < 2 || c.Thorough {
					cases = append(cases, Case{Events: []int{a, b}, End: end})
				}
				for d := 0; d < K && c.Thorough; d++ {
					cases = append(cases, Case{Events: []int{a, b, d}, End: end})
				}
			}
		}
	}
	for _, cfg := range configs {
		for _, flag := range []bool{false, true} {
			if cfg != "" || flag {
				cases = append(cases, Case{Config: cfg, Flag: flag, Events: []int{1}, End: 1})
			}
		}
	}
	isolated := exec.Command("unshare", "-Urn", "true").Run() == nil
	c.Cov("a network namespace for each run", isolated)
	workers := 1
	if isolated {
		workers = 40 // they mostly wait
	}
	var mu sync.Mutex
	next, others := 0, 0
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= len(cases) {
					return
				}
				if c.Expired() {
					c.Cap("time")
					return
				}
				x := cases[i]
				dir := filepath.Join(base, fmt.Sprint("case", i))
				_ = os.MkdirAll(dir, 0755)
				var v verdict
				once := func() {
					if !isolated {
						v = judge(prog, dir, x)
						return
					}
					out := filepath.Join(base, fmt.Sprint("out", i))
					spec, _ := json.Marshal(map[string]interface{}{"Prog": prog, "Dir": dir, "Out": out, "Case": x})
					cmd := exec.Command("unshare", "-Urn", os.Args[0], "-test.run=^TestVerif$", "-test.timeout=0")
					cmd.Env = append(os.Environ(), "VERIF_INNER="+string(spec))
					cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
					b, err := cmd.CombinedOutput()
					v = verdict{Other: fmt.Sprint("no verdict: ", err, " ", string(b))}
					if r, err := os.ReadFile(out); err == nil {
						v = verdict{}
						_ = json.Unmarshal(r, &v)
					}
				}
				once()
				if v.Bad != "" { // what the machine's load may have caused does not come back
					_ = os.RemoveAll(dir)
					_ = os.MkdirAll(dir, 0755)
					once()
				}
				if v.Bad != "" {
					c.Fail(x.String(), "%s", v.Bad)
				}
				if v.Other != "" {
					mu.Lock()
					others++
					mu.Unlock()
					c.Cap("some runs could not be made: " + v.Other)
				}
				_ = os.RemoveAll(dir)
				c.Eval(1)
				c.Trace(1)
				c.Transition(len(x.Events) + 1)
				c.Distinct(x.String())
			}
		}(w)
	}
	wg.Wait()
	c.Sample(Case{Events: []int{2, 4}, End: 1}.String())
	c.Done()
}
