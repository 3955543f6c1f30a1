// Package vrt is the harness runtime. Under the solver engine every function
// here is intercepted; natively it replays a recorded assignment.
package vrt

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// RuntimeError stands for Go run-time errors inside the engine.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }

// RuntimeError marks run-time errors.
func (e RuntimeError) RuntimeError() {}

type input struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	Val  uint64 `json:"val"`
}

type file struct {
	Harness  string  `json:"harness"`
	Thorough bool    `json:"thorough"`
	Inputs   []input `json:"inputs"`
}

var (
	mu      sync.Mutex
	rec     file
	pos     int
	asserts int
	reached = map[string]bool{}
)

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	for pos < len(rec.Inputs) && (rec.Inputs[pos].Name == "sched" || strings.HasPrefix(rec.Inputs[pos].Name, "switch@")) {
		pos++
	}
	if pos >= len(rec.Inputs) {
		fmt.Printf("VRT-MISMATCH input %q requested after the recorded ones\n", name)
		debug.PrintStack()
		os.Exit(13)
	}
	in := rec.Inputs[pos]
	if in.Name != name {
		fmt.Printf("VRT-MISMATCH input %d is %q, recorded %q\n", pos, name, in.Name)
		debug.PrintStack()
		os.Exit(13)
	}
	pos++
	return in.Val
}

func U8(name string) uint8   { return uint8(next(name)) }
func U16(name string) uint16 { return uint16(next(name)) }
func U32(name string) uint32 { return uint32(next(name)) }
func U64(name string) uint64 { return next(name) }
func I8(name string) int8    { return int8(next(name)) }
func I16(name string) int16  { return int16(next(name)) }
func I32(name string) int32  { return int32(next(name)) }
func I64(name string) int64  { return int64(next(name)) }
func Bool(name string) bool  { return next(name) != 0 }

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int { return int(next(name)) }

// Choose forks over 0..n-1.
func Choose(name string, n int) int { return int(next(name)) }

// Bytes is an arbitrary byte slice of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name))
	}
	return b
}

// Str is an arbitrary string of n bytes.
func Str(name string, n int) string { return string(Bytes(name, n)) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("VRT-ASSUME violated")
		debug.PrintStack()
		os.Exit(12)
	}
}

// Assert states the property.
func Assert(c bool, id string) {
	mu.Lock()
	asserts++
	mu.Unlock()
	if !c {
		fmt.Println("VRT-FAIL " + id)
		debug.PrintStack()
		os.Exit(10)
	}
}

// Reach is a reachability witness.
func Reach(id string) {
	mu.Lock()
	reached[id] = true
	mu.Unlock()
}

// Concrete forks over the feasible values of x.
func Concrete(x int) int { return x }

// Symbolic reports whether the engine is running.
func Symbolic() bool { return false }

// Thorough reports the tier.
func Thorough() bool { return rec.Thorough }

// Settle lets background goroutines run until they wait.
func Settle() {
	if Symbolic() {
		for i := 0; i < 24; i++ {
			runtime.Gosched()
		}
		return
	}
	ms, _ := strconv.Atoi(os.Getenv("VRT_SETTLE"))
	if ms == 0 {
		ms = 30
	}
	time.Sleep(time.Duration(ms) * time.Millisecond)
}

// goid is the number of the running goroutine.
func goid() string {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	return strings.Fields(s)[1]
}

var (
	pointMu  sync.Mutex
	pointG   string
	raceB    func()
	raceEnd  bool
	raceOn   bool
	raceN    map[string]int
	raceWait bool
	pointBg  bool
	raceC    chan bool
)

// PointsOn turns on the scheduling points of this goroutine.
func PointsOn() {
	pointMu.Lock()
	pointG, pointBg = goid(), false
	pointMu.Unlock()
}

// PointsBg turns on the scheduling points of all other goroutines.
func PointsBg() {
	pointMu.Lock()
	pointG, pointBg = goid(), true
	pointMu.Unlock()
}

// PointsOff turns them off.
func PointsOff() {
	pointMu.Lock()
	pointG = ""
	pointMu.Unlock()
}

// Point is a scheduling point.
func Point(at string) {
	pointMu.Lock()
	g, bg := pointG, pointBg
	pointMu.Unlock()
	switch {
	case g == "" || (g != goid()) != bg:
	case bg:
		AtPointBg(at)
	default:
		AtPoint()
	}
}

// AtPointBg is AtPoint of a background goroutine. Its name tells where it is, as several of them run.
func AtPointBg(at string) {
	pointMu.Lock()
	raceN[at]++
	name := "switch@" + at + "#" + strconv.Itoa(raceN[at])
	pointMu.Unlock()
	if Symbolic() {
		if !Bool(name) {
			return
		}
	} else if !recorded(name) {
		return
	}
	pointMu.Lock()
	on := raceOn
	raceOn = false
	pointMu.Unlock()
	PointsOff()
	if !on {
		return
	}
	raceWait = true
	switchAt()
	racePause()
	go other()
	wait(40)
	raceWait = false
	raceResume()
}

// recorded tells whether a switch was recorded.
func recorded(name string) bool {
	for _, in := range rec.Inputs {
		if in.Name == name && in.Val != 0 {
			return true
		}
	}
	return false
}

// AtPoint lets the other function of Race run here, or not.
func AtPoint() {
	if !Bool("switch") {
		return
	}
	PointsOff()
	raceOn = false
	switchAt()
	racePause()
	go other()
	wait(40)
	raceResume()
}

// racePause tells the engine that the goroutine waits at a statement.
func racePause() {}

// raceResume tells that the statement is next.
func raceResume() {}

// switchAt tells where the switch is.
func switchAt() {
	if !Symbolic() {
		fmt.Println("VRT-SWITCH")
		for _, l := range strings.Split(string(debug.Stack()), "\n") {
			if strings.HasPrefix(l, "\t") && !strings.Contains(l, "zz_verif") && !strings.Contains(l, "debug/stack") {
				fmt.Println(l)
			}
		}
	}
}

func other() {
	raceB()
	pointMu.Lock()
	raceEnd = true
	pointMu.Unlock()
	raceC <- true
}

// wait lets other goroutines run until the other function of Race has ended or waits for this one.
func wait(n int) {
	if !Symbolic() && os.Getenv("VRT_RACE") != "" {
		// for the race detector: without synchronisation with the other function.
		for i := 0; i < 4; i++ {
			Settle()
		}
		return
	}
	for i := 0; i < n; i++ {
		pointMu.Lock()
		end := raceEnd
		pointMu.Unlock()
		if end {
			return
		}
		Settle()
	}
}

// Race runs a, and b at any one scheduling point of a or after it: as far as it gets, or completely.
func Race(a, b func()) {
	raceB, raceEnd, raceC, raceOn = b, false, make(chan bool, 1), true
	PointsOn()
	a()
	PointsOff()
	if raceOn {
		go other()
	}
	<-raceC
	Settle()
}

// RaceBg runs a, and b at any one scheduling point of the goroutines that a lets run or after it.
func RaceBg(a, b func()) {
	raceB, raceEnd, raceC, raceOn, raceN = b, false, make(chan bool, 1), true, map[string]int{}
	PointsBg()
	a()
	for raceWait {
		Settle()
	}
	PointsOff()
	if raceOn {
		go other()
	}
	<-raceC
	Settle()
}

// IsFunc tells whether i holds a function.
func IsFunc(i interface{}) bool { return reflect.ValueOf(i).Kind() == reflect.Func }

// CallFunc calls a function without parameters.
func CallFunc(i interface{}) interface{} { return reflect.ValueOf(i).Call(nil)[0].Interface() }

// Log prints natively.
func Log(a ...interface{}) {
	if os.Getenv("VRT_LOG") != "" {
		fmt.Println(a...)
	}
}

// Sched enables schedule exploration (engine only).
func Sched(n int) {}

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Not(a bool) bool    { return !a }

// EqBytes compares without branching.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// SortImpl is the engine's model of sort.Slice.
func SortImpl(n int, less func(i, j int) bool, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}

// Main replays one recorded assignment natively.
func Main(hs map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(14)
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		fmt.Println(err)
		os.Exit(14)
	}
	h := hs[rec.Harness]
	if h == nil {
		fmt.Println("unknown harness", rec.Harness)
		os.Exit(14)
	}
	h()
	mu.Lock()
	var rs []string
	for r := range reached {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	fmt.Printf("VRT-OK asserts=%d reach=%s\n", asserts, strings.Join(rs, ","))
	os.Exit(0)
}
