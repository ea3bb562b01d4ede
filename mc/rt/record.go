package rt

import "fmt"

// Recording facilities for harnesses. They live here, outside the instrumented code, so
// that what a harness notes down never adds scheduling points of its own.

type recorder struct {
	counts map[string]int
	lists  map[string][]string
}

func rec() *recorder {
	return Val("recorder", func() any { return &recorder{counts: map[string]int{}, lists: map[string][]string{}} }).(*recorder)
}

// Count adds d to a named counter. Increments commute: their order is not part of the
// state. Read counters only once everything they count is ordered before.
func Count(name string, d int) {
	x := cx
	if x == nil || x.abort {
		return
	}
	progress()
	rec().counts[name] += d
	x.evLocal(x.cur, mix(hashStr(name), uint64(d)+3))
	x.effect()
}

// Counted reads a counter.
func Counted(name string) int { return rec().counts[name] }

// Log appends to a named list; the order within one list is part of the state.
func Log(list, format string, a ...any) {
	x := cx
	if x == nil || x.abort {
		return
	}
	// what the scenario observes is a visible operation like any other
	Yield("log " + list)
	s := fmt.Sprintf(format, a...)
	r := rec()
	r.lists[list] = append(r.lists[list], s)
	Touch("list:"+list, true)
	x.evLocal(x.cur, hashStr(s))
	Note("%s <- %s", list, s)
}

// Logged returns a named list.
func Logged(list string) []string { return rec().lists[list] }

// Enter and Leave bracket a region that must not overlap with itself; Enter reports how
// many are inside including the caller.
func Enter(region string) int {
	x := cx
	if x == nil || x.abort {
		return 1
	}
	Yield("enter " + region)
	r := rec()
	r.counts["in:"+region]++
	Touch("region:"+region, true)
	return r.counts["in:"+region]
}

func Leave(region string) {
	x := cx
	if x == nil || x.abort {
		return
	}
	rec().counts["in:"+region]--
	Touch("region:"+region, true)
}

// Inside is the number of goroutines in the region.
func Inside(region string) int { return rec().counts["in:"+region] }

// Yield is a scheduling point without any effect.
func Yield(what string) {
	x := cx
	if x == nil || x.abort {
		return
	}
	g := x.cur
	g.pd = pend{kind: opStep, what: what}
	x.point(g)
	x.evLocal(g, 31)
}

// Check fails the execution when the condition does not hold.
func Check(ok bool, label, format string, a ...any) {
	progress()
	if !ok {
		Fail(label, format, a...)
	}
}

// progress marks that the current goroutine is not spinning.
func progress() {
	if cx != nil && cx.cur != nil {
		cx.cur.noeff = 0
		cx.cur.yielded = false
	}
}
