// The server executes one plan of calls of the Go binding and prints what they returned.
package main

/*
extern int (*sim_random)(unsigned char *, unsigned long long);
extern int (*sim_entropy)(unsigned char *, unsigned long long);
extern int goRandom(unsigned char *, unsigned long long);
extern int goEntropy(unsigned char *, unsigned long long);
static void hooks(int r, int e) {
	sim_random = r ? goRandom : 0;
	sim_entropy = e ? goEntropy : 0;
}
*/
import "C"

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verifgo/falcon"
	"verifgo/sim"
)

type Op struct {
	Kind    string // kp sg op scribble
	RS      uint64
	Fail    []int // request that fails, how much it fills, whether later ones fail too
	A, B, C string // arguments: pN (pool), rN.pk/sk/sm (result of call N of this task), nil
}

type Plan struct {
	Pool  []Buf
	Tasks [][]Op
	First int
	Sws   []sim.Switch
	Chaos []uint64 // seed, switches per 1000 yields, collections per 1000 yields
	Boot  *Boot
	Mute  int // standard output: 0 works, 1 closed, 2 broken pipe
}

// Boot: the library uses its own generator, over this entropy.
type Boot struct {
	Entropy uint64
	Fail    []int // requests to the system that fail
	Fix     []int // bytes that are the same in every boot: offset and number, modulo 48
}

type Buf struct {
	Hex   string
	Spare int
}

type Res struct {
	Task, Op           int
	Panic, Err         string
	Failed, Verdict    bool
	PK, SK, SM         string
	InputChanged       bool // when the call returned
	Outside            bool // it wrote behind the end of an input slice
	ResultChangedLater bool
	InputChangedLater  bool
	NYield, NRand      int
	Skipped            bool
	Gas                uint64

	pk, sk, sm    []byte
	sum           [3][32]byte
	scribbled     bool
	ins           [][]byte
	insum         [][32]byte
}

// the precompile of geth, where it was built in
var gethRun func([]byte) (uint64, []byte, error)

func splitmix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

var lost uint64 = 77

//export goRandom
func goRandom(x *C.uchar, n C.ulonglong) C.int {
	b := unsafe.Slice((*byte)(unsafe.Pointer(x)), int(n))
	t := sim.Me()
	if t == nil {
		// a goroutine of the library's own
		for i := range b {
			b[i] = byte(splitmix(&lost) >> 11)
		}
		return 0
	}
	sim.Yield(0)
	k := t.NRand
	t.NRand++
	if t.FailAt >= 0 && (k == t.FailAt || t.FailRest && k > t.FailAt) {
		for i := 0; i < len(b) && i < t.FailFill; i++ {
			b[i] = byte(0xE0 + i%16)
		}
		sim.Yield(0)
		return -4
	}
	for i := range b {
		b[i] = byte(splitmix(&t.RNG) >> 11)
	}
	sim.Yield(0)
	return 0
}

var (
	osState uint64
	osCalls int
	osFail  map[int]bool
	osFired int
	osPos   int
	osFix   []int
)

//export goEntropy
func goEntropy(x *C.uchar, n C.ulonglong) C.int {
	k := osCalls
	osCalls++
	b := unsafe.Slice((*byte)(unsafe.Pointer(x)), int(n))
	if osFail[k] {
		osFired++
		return -1
	}
	for i := range b {
		b[i] = byte(splitmix(&osState) >> 13)
		at := osPos % 48
		osPos++
		if len(osFix) == 2 && (at+48-osFix[0])%48 < osFix[1] {
			b[i] = 0x5A
		}
	}
	return 0
}

const mark = 0xC5

// buffer makes a slice with spare capacity and a canary behind it.
func buffer(b Buf) []byte {
	c, err := hex.DecodeString(b.Hex)
	if err != nil {
		panic(err)
	}
	x := make([]byte, len(c)+b.Spare)
	copy(x, c)
	for i := len(c); i < len(x); i++ {
		x[i] = mark
	}
	return x[:len(c)]
}

func sum(b []byte) [32]byte { return sha256.Sum256(b) }

func main() {
	var p Plan
	d := json.NewDecoder(os.Stdin)
	if err := d.Decode(&p); err != nil {
		panic(err)
	}
	C.hooks(b2i(p.Boot == nil), b2i(p.Boot != nil))
	if p.Boot != nil {
		osState = p.Boot.Entropy
		osFix = p.Boot.Fix
		osFail = map[int]bool{}
		for _, k := range p.Boot.Fail {
			osFail[k] = true
		}
	}
	stdout := os.Stdout
	if p.Mute > 0 {
		x, y, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		signal.Ignore(syscall.SIGPIPE)
		x.Close()
		if p.Mute == 1 {
			y.Close()
		}
		os.Stdout = y
	}
	pool := make([][]byte, len(p.Pool))
	for i, b := range p.Pool {
		pool[i] = buffer(b)
	}
	var all []*Res
	byTask := make([][]*Res, len(p.Tasks))
	for t := range p.Tasks {
		for j := range p.Tasks[t] {
			r := &Res{Task: t, Op: j}
			byTask[t] = append(byTask[t], r)
			all = append(all, r)
		}
	}
	var bodies []func(*sim.Task)
	for t := range p.Tasks {
		ops := p.Tasks[t]
		rs := byTask[t]
		bodies = append(bodies, func(k *sim.Task) {
			for j, o := range ops {
				k.Op, k.N, k.NRand = j, 0, 0
				k.RNG = o.RS
				k.FailAt, k.FailFill, k.FailRest = -1, 0, false
				if len(o.Fail) == 3 {
					k.FailAt, k.FailFill, k.FailRest = o.Fail[0], o.Fail[1], o.Fail[2] != 0
				}
				sim.Yield(0)
				exec(o, rs[j], rs[:j], pool)
				rs[j].NYield, rs[j].NRand = k.N, k.NRand
			}
		})
	}
	chaos := append(append([]uint64{}, p.Chaos...), 0, 0, 0)
	done := make(chan bool)
	go func() {
		sim.Run(bodies, p.First, p.Sws, chaos[0], chaos[1], chaos[2])
		close(done)
	}()
	stuck := false
	for wait := true; wait; {
		select {
		case <-done:
			wait = false
		case <-time.After(20 * time.Millisecond):
			if sim.Stuck.Load() {
				stuck, wait = true, false
			}
		}
	}
	for _, r := range all {
		if stuck {
			break
		}
		if !r.scribbled && r.sum != [3][32]byte{sum(r.pk), sum(r.sk), sum(r.sm)} {
			r.ResultChangedLater = true
		}
		for i, b := range r.ins {
			if r.insum[i] != sum(b[:cap(b)]) {
				r.InputChangedLater = true
			}
		}
	}
	out := struct {
		Res      []*Res
		Switched [][4]int
		Yields   int64
		GCs      int
		Astray   int
		Stuck    bool
		OSCalls  int
		OSFired  int
	}{all, sim.Switched, sim.Total.Load(), sim.GCs, sim.Astray, stuck, osCalls, osFired}
	if stuck {
		out.Res = nil
	}
	j, err := json.Marshal(out)
	if err != nil {
		panic(err)
	}
	stdout.Write(append(append([]byte{'\n'}, j...), '\n'))
}

func b2i(b bool) C.int {
	if b {
		return 1
	}
	return 0
}

func arg(s string, before []*Res, pool [][]byte) ([]byte, bool) {
	switch {
	case s == "nil" || s == "":
		return nil, true
	case s[0] == 'p':
		i, _ := strconv.Atoi(s[1:])
		return pool[i], true
	case s[0] == 'r':
		f := strings.SplitN(s[1:], ".", 2)
		i, _ := strconv.Atoi(f[0])
		if i >= len(before) || before[i].Failed || before[i].Skipped || before[i].Panic != "" {
			return nil, false
		}
		r := before[i]
		b := map[string][]byte{"pk": r.pk, "sk": r.sk, "sm": r.sm}[f[1]]
		return b, b != nil
	}
	panic("bad argument " + s)
}

func exec(o Op, r *Res, before []*Res, pool [][]byte) {
	r.sum = [3][32]byte{sum(nil), sum(nil), sum(nil)}
	var args [][]byte
	for _, s := range []string{o.A, o.B, o.C} {
		b, ok := arg(s, before, pool)
		if !ok {
			r.Skipped = true
			return
		}
		args = append(args, b)
	}
	if o.Kind == "scribble" || o.Kind == "refill" {
		// the caller does with a slice it owns what it likes
		for i, s := range []string{o.A} {
			if s == "" {
				continue
			}
			if s[0] == 'p' {
				// and with the input of a call that has ended
				for _, r := range before {
					var ins [][]byte
					var sums [][32]byte
					for k, in := range r.ins {
						if cap(in) == 0 || unsafe.SliceData(in) != unsafe.SliceData(args[i]) {
							ins, sums = append(ins, in), append(sums, r.insum[k])
						}
					}
					r.ins, r.insum = ins, sums
				}
			} else if s[0] != 'r' {
				continue
			}
			if o.Kind == "refill" {
				copy(args[i], args[1])
				continue
			}
			b := args[i][:cap(args[i])]
			for k := range b {
				b[k] = byte(o.RS) + byte(k)
			}
			if s[0] == 'p' {
				continue
			}
			j, _ := strconv.Atoi(strings.SplitN(s[1:], ".", 2)[0])
			before[j].scribbled = true
		}
		return
	}
	// (inputs that are results of earlier calls are watched as such)
	for i, s := range []string{o.A, o.B, o.C} {
		if len(s) > 0 && s[0] == 'p' {
			r.ins = append(r.ins, args[i])
		}
	}
	var copies [][]byte
	for _, b := range args {
		copies = append(copies, bytes.Clone(b[:cap(b)]))
	}
	for _, b := range r.ins {
		r.insum = append(r.insum, sum(b[:cap(b)]))
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Panic = fmt.Sprint(e)
			}
		}()
		var err error
		switch o.Kind {
		case "kp":
			r.pk, r.sk, err = falcon.GenerateKeypair()
		case "sg":
			r.sm, err = falcon.SignMessage(args[0], args[1])
		case "gr":
			r.Gas, r.sm, err = gethRun(args[0])
		case "op":
			r.Verdict, err = falcon.VerifySignature(args[0], args[1], args[2])
		}
		if err != nil {
			r.Failed, r.Err = true, err.Error()
		}
	}()
	for i, b := range args {
		if !bytes.Equal(copies[i][:len(b)], b) {
			r.InputChanged = true
		} else if !bytes.Equal(copies[i], b[:cap(b)]) {
			r.Outside = true
		}
	}
	r.PK, r.SK, r.SM = hex.EncodeToString(r.pk), hex.EncodeToString(r.sk), hex.EncodeToString(r.sm)
	r.sum = [3][32]byte{sum(r.pk), sum(r.sk), sum(r.sm)}
}
