// Package h is the driver shared by the contract-replay programs: it runs
// generated cases of a property against the real code, and reports the first
// case in which the observable behaviour differs from the contract.
package h

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
)

// T is the state of one run.
type T struct {
	Prop     string
	Rand     *rand.Rand
	Tier     string
	Seed     int64
	end      time.Time
	out      string
	known    map[string]bool
	cases    int
	distinct map[string]int
	phase    string
	knownArg string
	again    bool
	base     int

	mu      sync.Mutex
	cur     interface{}
	started time.Time
}

type failure struct {
	Property string      `json:"property"`
	Phase    string      `json:"phase"`
	Case     interface{} `json:"case"`
	Error    string      `json:"error"`
	Seed     int64       `json:"seed"`
	CaseNo   int         `json:"case_no"`
	How      string      `json:"how_to_replay"`
}

// Main runs f as the replay program of a property.
func Main(prop string, f func(t *T)) {
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Duration("budget", 5*time.Second, "time budget")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "", "file for the failing case")
	known := flag.String("known", "", "known finding ids")
	base := flag.Int("base", 0, "cases run by earlier processes of this run")
	flag.Parse()
	t := &T{Prop: prop, Rand: rand.New(rand.NewSource(*seed)), Tier: *tier, Seed: *seed, end: time.Now().Add(*budget), out: *out, known: map[string]bool{}, distinct: map[string]int{}}
	t.cases = *base
	t.base = *base
	t.knownArg = *known
	for _, k := range strings.Split(*known, ",") {
		if k != "" {
			t.known[k] = true
		}
	}
	go t.watchdog()
	f(t)
	b, _ := json.Marshal(map[string]interface{}{"cases": t.cases, "phases": t.distinct})
	fmt.Printf("REPLAY-OK %s\n", b)
}

func (t *T) watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		t.mu.Lock()
		s, c := t.started, t.cur
		t.mu.Unlock()
		if !s.IsZero() && time.Since(s) > 20*time.Second {
			t.fail(c, "does not terminate within 20 s")
		}
	}
}

func (t *T) fail(c interface{}, msg string) {
	fl := failure{t.Prop, t.phase, c, msg, t.Seed, t.cases, fmt.Sprintf("cd /verif/replay && go run ./cmd/%s -seed %d -tier %s", strings.ToLower(t.Prop), t.Seed, t.Tier)}
	b, err := json.MarshalIndent(fl, "", " ")
	if err != nil {
		fl.Case = fmt.Sprintf("%+v", c)
		b, _ = json.MarshalIndent(fl, "", " ")
	}
	if t.out != "" {
		os.WriteFile(t.out, b, 0644)
	}
	if len(b) > 6000 {
		b = append(b[:6000], "..."...)
	}
	fmt.Printf("REPLAY-FAIL %s\n", b)
	os.Exit(3)
}

// Respawn continues the run in a new process (package level counters of the
// code under test start again); it does nothing in the last 200 ms.
func (t *T) Respawn() {
	left := time.Until(t.end)
	if left < 200*time.Millisecond {
		t.again = true
		return
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	args := []string{exe, "-seed", fmt.Sprint(t.Seed + 1000003), "-budget", left.String(), "-tier", t.Tier, "-out", t.out, "-known", t.knownArg, "-base", fmt.Sprint(t.cases)}
	panic(syscall.Exec(exe, args, os.Environ()))
}

// More reports whether there is time for more cases of the current phase.
func (t *T) More() bool { return time.Now().Before(t.end) }

// Phase names the following cases; frac of the remaining time may be used.
func (t *T) Phase(name string) { t.phase = name }

// Base is the number of cases run by earlier processes.
func (t *T) Base() int { return t.base }

// For runs f repeatedly for at most frac of the remaining budget, at least min times.
func (t *T) For(name string, frac float64, min int, f func()) {
	t.phase = name
	end := time.Now().Add(time.Duration(float64(time.Until(t.end)) * frac))
	for n := 0; !t.again && (n < min && t.Base() == 0 || time.Now().Before(end)); n++ {
		f()
	}
}

// Case runs one case; a returned error or a panic is a violation.
func (t *T) Case(desc interface{}, f func() error) {
	if err := t.try(desc, f); err != "" {
		t.fail(desc, err)
	}
}

func (t *T) try(desc interface{}, f func() error) (msg string) {
	t.cases++
	t.distinct[t.phase]++
	t.mu.Lock()
	t.cur, t.started = desc, time.Now()
	t.mu.Unlock()
	defer func() {
		t.mu.Lock()
		t.started = time.Time{}
		t.mu.Unlock()
		if r := recover(); r != nil {
			msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	if err := f(); err != nil {
		return err.Error()
	}
	return ""
}

// Known runs the specific input of a recorded finding: while it is listed and
// still fails, this is reported as a known finding; if it is not listed, a
// failure is a violation.
func (t *T) Known(id, what string, desc interface{}, f func() error) {
	t.phase = "known-finding"
	err := t.try(desc, f)
	if err == "" {
		return
	}
	if t.known[id] {
		if t.base == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", t.Prop, id, what)
		}
		return
	}
	t.fail(desc, err)
}

// Bytes returns n random bytes over an alphabet.
func (t *T) Bytes(n int, alphabet string) []byte {
	b := make([]byte, n)
	for i := range b {
		if alphabet == "" {
			b[i] = byte(t.Rand.Intn(256))
		} else {
			b[i] = alphabet[t.Rand.Intn(len(alphabet))]
		}
	}
	return b
}
