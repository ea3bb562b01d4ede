package rt

import (
	"bufio"
	"encoding/gob"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	osexec "os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Scenario is one closed program over the code under check: Body runs as the main
// goroutine of every execution, and every execution within Cfg's bounds is explored.
type Scenario struct {
	Name  string
	Cfg   Config
	Body  func()
	About string
}

// ---------------------------------------------------------------- shared table of visited states

const (
	shHungry = iota
	shStop
	shFull
	shCount
	shHdr = 16
)

const taskSlot = 8192

type shared struct {
	mem   []byte
	words []uint64
	mask  uint64
	nproc int
}

func sharedSize(bits, nproc int) int {
	return shHdr*8 + nproc*(8+taskSlot) + (16 << bits)
}

func mapShared(fd int, bits, nproc int) (*shared, error) {
	n := sharedSize(bits, nproc)
	m, err := syscall.Mmap(fd, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &shared{mem: m, words: unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), n/8), mask: 1<<bits - 1, nproc: nproc}, nil
}

func (s *shared) hdr(i int) *uint64      { return &s.words[i] }
func (s *shared) progress(p int) *uint64 { return &s.words[shHdr+p*(1+taskSlot/8)] }
func (s *shared) slot(p int) []byte {
	o := (shHdr + p*(1+taskSlot/8) + 1) * 8
	return s.mem[o : o+taskSlot]
}
func (s *shared) entry(i uint64) (*uint64, *uint64) {
	o := uint64(shHdr+s.nproc*(1+taskSlot/8)) + 2*(i&s.mask)
	return &s.words[o], &s.words[o+1]
}

// visit registers (h, sused, fused); it reports whether a visit with no larger use exists.
// The mask has, per fault level (8 levels, 8 bits), 1 + the smallest schedule use seen.
func (s *shared) visit(h uint64, sused, fused int) (pruned, fresh bool) {
	if h == 0 {
		h = 1
	}
	if sused > 250 {
		sused = 250
	}
	if fused > 7 {
		fused = 7
	}
	for i, k := h, 0; k < 128; i, k = i+1, k+1 {
		kp, vp := s.entry(i)
		cur := atomic.LoadUint64(kp)
		if cur == 0 {
			if atomic.LoadUint64(s.hdr(shFull)) != 0 {
				return false, false
			}
			if atomic.CompareAndSwapUint64(kp, 0, h) {
				if n := atomic.AddUint64(s.hdr(shCount), 1); n > s.mask/8*7 {
					atomic.StoreUint64(s.hdr(shFull), 1)
				}
				cur = h
				fresh = true
			} else {
				cur = atomic.LoadUint64(kp)
			}
		}
		if cur != h {
			continue
		}
		for {
			v := atomic.LoadUint64(vp)
			for f := 0; f <= fused; f++ {
				b := v >> (8 * f) & 255
				if b != 0 && int(b)-1 <= sused {
					return true, fresh
				}
			}
			nv := v&^(255<<(8*fused)) | uint64(sused+1)<<(8*fused)
			if atomic.CompareAndSwapUint64(vp, v, nv) {
				return false, fresh
			}
		}
	}
	return false, false
}

// ---------------------------------------------------------------- tasks

type task struct {
	up   *task
	d    Dev
	cost int // total budget used
	n    int
}

func (t *task) devs() []Dev {
	if t == nil || t.n == 0 {
		return nil
	}
	r := make([]Dev, t.n)
	for p := t; p != nil && p.n > 0; p = p.up {
		r[p.n-1] = p.d
	}
	return r
}

type wireTask struct {
	Devs []Dev
	Cost int
}

type buckets struct {
	b [][]*task
	n int
}

func (q *buckets) push(t *task) {
	for len(q.b) <= t.cost {
		q.b = append(q.b, nil)
	}
	q.b[t.cost] = append(q.b[t.cost], t)
	q.n++
}

func (q *buckets) pop() *task {
	for c := range q.b {
		if k := len(q.b[c]); k > 0 {
			t := q.b[c][k-1]
			q.b[c][k-1] = nil
			q.b[c] = q.b[c][:k-1]
			q.n--
			return t
		}
	}
	return nil
}

// half removes half of every bucket, oldest first.
func (q *buckets) half() []*task {
	var r []*task
	for c := range q.b {
		k := (len(q.b[c]) + 1) / 2
		if k > 4000 {
			k = 4000
		}
		r = append(r, q.b[c][:k]...)
		q.b[c] = append([]*task(nil), q.b[c][k:]...)
		q.n -= k
		if len(r) > 8000 {
			break
		}
	}
	return r
}

// ---------------------------------------------------------------- messages

type stats struct {
	Execs, Full, Pruned, Ops, Diverged, Choices, Cut int64
	MaxDepth                                         int64
	MaxVtime                                         int64
	MaxGs                                            int64
	Outcomes                                         map[uint64]int64
	Sample                                           []string
	SampleN                                          int
	DivMsg                                           string
}

func (s *stats) add(o *stats) {
	s.Execs += o.Execs
	s.Full += o.Full
	s.Pruned += o.Pruned
	s.Ops += o.Ops
	s.Diverged += o.Diverged
	s.Choices += o.Choices
	s.Cut += o.Cut
	if o.MaxDepth > s.MaxDepth {
		s.MaxDepth = o.MaxDepth
	}
	if o.MaxVtime > s.MaxVtime {
		s.MaxVtime = o.MaxVtime
	}
	if o.MaxGs > s.MaxGs {
		s.MaxGs = o.MaxGs
	}
	if s.Outcomes == nil {
		s.Outcomes = map[uint64]int64{}
	}
	for k, v := range o.Outcomes {
		s.Outcomes[k] += v
	}
	if s.Sample == nil || (o.Sample != nil && o.SampleN > s.SampleN) {
		s.Sample, s.SampleN = o.Sample, o.SampleN
	}
	if s.DivMsg == "" {
		s.DivMsg = o.DivMsg
	}
}

type foundViol struct {
	Label, Detail string
	Trace         []string
	Devs          []Dev
	Cost          int
	Repro         int
}

type toWorker struct {
	Kind  string // "start", "tasks", "quit"
	Scen  string
	Sched int
	Promo []uint32
	Known []string
	Tasks []wireTask
}

type toMaster struct {
	Kind     string // "idle", "give", "viol", "sites"
	Gen      int
	Tasks    []wireTask
	Left     int
	Stats    stats
	Viol     *foundViol
	NewSites []uint32
}

// ---------------------------------------------------------------- worker

func fullDevs(pts []choicePoint) []Dev {
	var d []Dev
	for i, p := range pts {
		if p.pick != 0 {
			d = append(d, Dev{i, p.pick, p.hash})
		}
	}
	return d
}

type worker struct {
	id    int
	sh    *shared
	own   map[uint64]bool
	scen  *Scenario
	promo map[uint32]bool
	known map[string]int
	q     buckets
	st    stats
	enc   *gob.Encoder
	out   *bufio.Writer
}

func (w *worker) seen(h uint64, sused, fused int) bool {
	pr, _ := w.sh.visit(h, sused, fused)
	if pr && !w.own[h] {
		return true
	}
	w.own[h] = true
	return false
}

func (w *worker) send(m *toMaster) {
	if err := w.enc.Encode(m); err != nil {
		os.Exit(3)
	}
	w.out.Flush()
}

func (w *worker) run(t *task) {
	devs := t.devs()
	clear(w.own)
	buf, _ := json.Marshal(devs)
	sl := w.sh.slot(w.id)
	if len(buf) < taskSlot-4 {
		*(*uint32)(unsafe.Pointer(&sl[0])) = uint32(len(buf))
		copy(sl[4:], buf)
	}
	atomic.AddUint64(w.sh.progress(w.id), 1)
	r := runExec(w.scen.Cfg, w.scen.Body, devs, w.promo, w.seen)
	w.st.Execs++
	w.st.Ops += int64(r.Ops)
	if r.Diverged != "" {
		w.st.Diverged++
		if w.st.DivMsg == "" {
			w.st.DivMsg = r.Diverged
		}
		return
	}
	if len(r.NewSites) > 0 {
		w.send(&toMaster{Kind: "sites", NewSites: r.NewSites})
	}
	if r.Pruned {
		w.st.Pruned++
	} else {
		w.st.Full++
		if w.st.Outcomes == nil {
			w.st.Outcomes = map[uint64]int64{}
		}
		if len(w.st.Outcomes) < 4096 {
			w.st.Outcomes[r.Outcome]++
		}
		if r.Viol == nil && (w.st.Sample == nil || (len(r.Points) > w.st.SampleN && w.st.Full < 200)) {
			w.st.Sample, w.st.SampleN = append([]string{fmt.Sprintf("deviations %v", devString(fullDevs(r.Points)))}, r.Trace...), len(r.Points)
			if len(w.st.Sample) > 60 {
				w.st.Sample = w.st.Sample[:60]
			}
		}
	}
	if int64(len(r.Points)) > w.st.MaxDepth {
		w.st.MaxDepth = int64(len(r.Points))
	}
	if int64(r.Vtime) > w.st.MaxVtime {
		w.st.MaxVtime = int64(r.Vtime)
	}
	if int64(r.Gs) > w.st.MaxGs {
		w.st.MaxGs = int64(r.Gs)
	}
	if r.Viol != nil {
		n := w.known[r.Viol.Label]
		w.known[r.Viol.Label]++
		if n == 0 {
			fd := fullDevs(r.Points)
			v := &foundViol{Label: r.Viol.Label, Detail: r.Viol.Detail, Trace: r.Viol.Trace, Devs: fd, Cost: t.cost}
			for i := 0; i < 5; i++ {
				r2 := runExec(w.scen.Cfg, w.scen.Body, fd, w.promo, nil)
				if r2.Viol != nil && r2.Viol.Label == r.Viol.Label {
					v.Repro++
				} else if r2.Diverged != "" {
					v.Detail += "\n[re-run: " + r2.Diverged + "]"
				}
			}
			w.send(&toMaster{Kind: "viol", Viol: v})
		}
	}
	first := 0
	if len(devs) > 0 {
		first = devs[len(devs)-1].Idx + 1
	}
	for i := len(r.Points) - 1; i >= first; i-- {
		p := &r.Points[i]
		w.st.Choices++
		switch p.cls {
		case clsSched:
			if int(p.sused)+int(p.cost) > w.scen.Cfg.Sched {
				w.st.Cut++
				continue
			}
		case clsFault:
			if int(p.fused)+int(p.cost) > w.scen.Cfg.Fault {
				continue
			}
		}
		// the prefix includes the non-zero picks the run took by itself: none, since
		// beyond the prefix every pick is the default
		for k := p.n - 1; k >= 1; k-- {
			w.q.push(&task{up: t, d: Dev{i, k, p.hash}, cost: t.cost + int(p.cost), n: len(devs) + 1})
		}
	}
}

func devString(d []Dev) string {
	var s []string
	for _, e := range d {
		s = append(s, fmt.Sprintf("%d:%d", e.Idx, e.Pick))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func toWire(ts []*task) []wireTask {
	r := make([]wireTask, len(ts))
	for i, t := range ts {
		r[i] = wireTask{t.devs(), t.cost}
	}
	return r
}

func fromWire(w wireTask) *task {
	t := &task{}
	for i, d := range w.Devs {
		t = &task{up: t, d: d, n: i + 1}
	}
	t.cost = w.Cost
	return t
}

func workerMain(id, nproc, bits int, lookup func(string) *Scenario) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	sh, err := mapShared(3, bits, nproc)
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker: mmap:", err)
		os.Exit(3)
	}
	SnapshotGlobals()
	bw := bufio.NewWriterSize(os.Stdout, 1<<16)
	os.Stdout, _ = os.OpenFile("/dev/null", os.O_WRONLY, 0)
	w := &worker{id: id, sh: sh, own: map[uint64]bool{}, enc: gob.NewEncoder(bw), out: bw}
	dec := gob.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<16))
	for {
		var m toWorker
		if err := dec.Decode(&m); err != nil {
			os.Exit(0)
		}
		switch m.Kind {
		case "quit":
			os.Exit(0)
		case "start":
			w.scen = lookup(m.Scen)
			if w.scen == nil {
				fmt.Fprintln(os.Stderr, "worker: unknown scenario", m.Scen)
				os.Exit(3)
			}
			sc := *w.scen
			sc.Cfg.Sched = m.Sched
			w.scen = &sc
			w.promo = map[uint32]bool{}
			for _, p := range m.Promo {
				w.promo[p] = true
			}
			w.known = map[string]int{}
			w.q = buckets{}
			continue
		case "tasks":
			for _, t := range m.Tasks {
				w.q.push(fromWire(t))
			}
		}
		last := time.Now()
		for w.q.n > 0 {
			if atomic.LoadUint64(sh.hdr(shStop)) != 0 {
				break
			}
			w.run(w.q.pop())
			if w.q.n > 1 && atomic.LoadUint64(sh.hdr(shHungry)) > 0 && time.Since(last) > 2*time.Millisecond {
				last = time.Now()
				w.send(&toMaster{Kind: "give", Tasks: toWire(w.q.half())})
			}
		}
		left := w.q.n
		w.q = buckets{}
		w.send(&toMaster{Kind: "idle", Left: left, Stats: w.st})
		w.st = stats{}
	}
}

// ---------------------------------------------------------------- master

type wproc struct {
	cmd  *osexec.Cmd
	in   *bufio.Writer
	inc  io.Closer
	enc  *gob.Encoder
	msgs chan *toMaster
	busy bool
	prog uint64
	at   time.Time
	err  *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 16384 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

type scenResult struct {
	Name       string   `json:"scenario"`
	About      string   `json:"about,omitempty"`
	Sched      int      `json:"schedule_bound"`
	Fault      int      `json:"fault_bound"`
	Executions int64    `json:"executions"`
	Completed  int64    `json:"executions_run_to_the_end"`
	Pruned     int64    `json:"executions_pruned_at_a_visited_state"`
	Cut        int64    `json:"alternatives_beyond_the_schedule_bound"`
	States     int64    `json:"states"`
	Trans      int64    `json:"transitions"`
	Outcomes   int      `json:"distinct_outcomes"`
	MaxChoices int64    `json:"max_choice_points"`
	MaxGs      int64    `json:"max_goroutines"`
	VTime      string   `json:"max_virtual_time"`
	Promoted   int      `json:"shared_memory_sites_scheduled"`
	Restarts   int      `json:"restarts_for_new_shared_sites"`
	Left       int      `json:"unexplored_tasks"`
	Diverged   int64    `json:"diverged_replays"`
	DivMsg     string   `json:"diverged_example,omitempty"`
	Exhaustive bool     `json:"exhaustive"`
	WallS      float64  `json:"wall_s"`
	Partial    int64    `json:"executions_beyond_the_schedule_bound"`
	Sample     []string `json:"-"`
	viols      []*foundViol
	promo      []string
	sites      map[uint32]bool
	grow       float64
}

type Known struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

type master struct {
	nproc, bits int
	sh          *shared
	ws          []*wproc
	shf         *os.File
	self        string
	args        []string
	deadline    time.Time
	verbose     bool
	reportAll   bool
	promo       []string
}

func (m *master) spawn(i int) error {
	cmd := osexec.Command(m.self, append([]string{"-worker", strconv.Itoa(i), "-nproc", strconv.Itoa(m.nproc), "-bits", strconv.Itoa(m.bits)}, m.args...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
	cmd.ExtraFiles = []*os.File{m.shf}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return err
	}
	p := &wproc{cmd: cmd, inc: in, msgs: make(chan *toMaster, 64), err: &tailBuf{}}
	cmd.Stderr = p.err
	p.in = bufio.NewWriterSize(in, 1<<16)
	p.enc = gob.NewEncoder(p.in)
	if err := cmd.Start(); err != nil {
		return err
	}
	go func() {
		dec := gob.NewDecoder(bufio.NewReaderSize(out, 1<<16))
		for {
			t := &toMaster{}
			if err := dec.Decode(t); err != nil {
				close(p.msgs)
				return
			}
			p.msgs <- t
		}
	}()
	m.ws[i] = p
	return nil
}

func (p *wproc) send(t *toWorker) {
	if p.enc.Encode(t) == nil {
		p.in.Flush()
	}
}

func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 13 {
			u, _ := strconv.Atoi(f[11])
			k, _ := strconv.Atoi(f[12])
			return time.Duration(u+k) * 10 * time.Millisecond
		}
	}
	return 0
}

const hangCPU = 40 * time.Second

// explore runs one scenario to the end of its bounds or to the deadline.
func (m *master) explore(s *Scenario, known map[string]bool, until time.Time, sites0 map[uint32]bool) *scenResult {
	res := &scenResult{Name: s.Name, About: s.About, Sched: s.Cfg.Sched, Fault: s.Cfg.Fault}
	t0 := time.Now()
	promo := map[uint32]bool{}
	for x := range sites0 {
		promo[x] = true
	}
	for {
		st, sites, left, done, viols := m.pass(s, promo, known, until)
		if len(sites) > 0 && len(viols) == 0 && time.Now().Before(until) {
			for _, x := range sites {
				promo[x] = true
			}
			res.Restarts++
			continue
		}
		res.Executions, res.Completed, res.Pruned = st.Execs, st.Full, st.Pruned
		res.Cut = st.Cut
		res.Trans, res.Outcomes, res.MaxChoices, res.MaxGs = st.Ops, len(st.Outcomes), st.MaxDepth, st.MaxGs
		res.States = int64(atomic.LoadUint64(m.sh.hdr(shCount)))
		if res.Trans == 0 { // no scheduled operation: each combination of inputs is one state, one step away
			res.States, res.Trans = st.Full, st.Full
		}
		res.VTime = time.Duration(st.MaxVtime).String()
		res.Promoted, res.Left, res.Diverged, res.DivMsg = len(promo), left, st.Diverged, st.DivMsg
		res.Exhaustive = done && st.Diverged == 0 && left == 0
		res.Sample = st.Sample
		res.viols = viols
		res.promo, res.sites = m.promo, promo
		break
	}
	res.WallS = time.Since(t0).Seconds()
	return res
}

func (m *master) pass(s *Scenario, promo map[uint32]bool, known map[string]bool, until time.Time) (st stats, newSites []uint32, left int, done bool, viols []*foundViol) {
	m.zero()
	for i := 0; i < shHdr; i++ {
		atomic.StoreUint64(m.sh.hdr(i), 0)
	}
	var pl []uint32
	for p := range promo {
		pl = append(pl, p)
	}
	sort.Slice(pl, func(i, j int) bool { return pl[i] < pl[j] })
	m.promo = nil
	for _, p := range pl {
		m.promo = append(m.promo, SiteName(p))
	}
	for i := range m.ws {
		if m.ws[i] == nil {
			if err := m.spawn(i); err != nil {
				fmt.Fprintln(os.Stderr, "cannot start worker:", err)
				return
			}
		}
		m.ws[i].busy = false
		m.ws[i].send(&toWorker{Kind: "start", Scen: s.Name, Sched: s.Cfg.Sched, Promo: pl})
	}
	queue := []wireTask{{}}
	seenLabels := map[string]bool{}
	sites := map[uint32]bool{}
	tick := time.NewTicker(20 * time.Millisecond)
	defer tick.Stop()
	stopping := false
	var siteStop time.Time
	stop := func() {
		stopping = true
		atomic.StoreUint64(m.sh.hdr(shStop), 1)
	}
	for {
		// hand out work
		busy, idle := 0, 0
		for i, w := range m.ws {
			if w == nil {
				continue
			}
			if w.busy {
				busy++
				continue
			}
			if len(queue) > 0 && !stopping {
				k := (len(queue) + m.nproc - 1) / m.nproc
				if k < 1 {
					k = 1
				}
				batch := queue[len(queue)-k:]
				w.busy = true
				w.at = time.Time{}
				w.prog = 0
				w.send(&toWorker{Kind: "tasks", Tasks: batch})
				queue = queue[:len(queue)-k]
				busy++
				_ = i
			} else {
				idle++
			}
		}
		atomic.StoreUint64(m.sh.hdr(shHungry), uint64(idle))
		if busy == 0 {
			left += len(queue)
			done = left == 0 && len(sites) == 0
			for x := range sites {
				newSites = append(newSites, x)
			}
			return
		}
		got := false
		for i, w := range m.ws {
			if w == nil {
				continue
			}
			for {
				var t *toMaster
				ok := true
				select {
				case t, ok = <-w.msgs:
				default:
					t = nil
				}
				if !ok {
					// the worker died: what was it doing?
					w.cmd.Wait()
					m.ws[i] = nil
					v := m.autopsy(i, s, w, "fatal")
					if v != nil && !known[v.Label] {
						viols = append(viols, v)
						stop()
					}
					left++
					got = true
					break
				}
				if t == nil {
					break
				}
				got = true
				switch t.Kind {
				case "idle":
					w.busy = false
					left += t.Left
					st.add(&t.Stats)
				case "give":
					queue = append(queue, t.Tasks...)
				case "sites":
					for _, x := range t.NewSites {
						sites[x] = true
					}
					// the pass restarts once the sites are known; let it collect some more
					if !stopping && siteStop.IsZero() {
						siteStop = time.Now().Add(150 * time.Millisecond)
					}
				case "viol":
					if seenLabels[t.Viol.Label] {
						break
					}
					if t.Viol.Repro == 5 {
						seenLabels[t.Viol.Label] = true
						viols = append(viols, t.Viol)
						if !known[t.Viol.Label] && !m.reportAll {
							stop()
						}
					} else {
						fmt.Fprintf(os.Stderr, "note: %s: %s reproduced %d/5 only\n%s\n", s.Name, t.Viol.Label, t.Viol.Repro, t.Viol.Detail)
						st.Diverged++
						st.DivMsg = "unreproducible violation: " + t.Viol.Label
					}
				}
			}
		}
		if !stopping && !siteStop.IsZero() && time.Now().After(siteStop) {
			stop()
		}
		if got {
			continue
		}
		// idle moment: watchdog and deadline
		select {
		case <-tick.C:
		case <-time.After(500 * time.Microsecond):
			continue
		}
		if !stopping && time.Now().After(until) {
			stop()
		}
		for i, w := range m.ws {
			if w == nil || !w.busy {
				continue
			}
			p := atomic.LoadUint64(m.sh.progress(i))
			if p != w.prog || w.at.IsZero() {
				w.prog = p
				w.at = time.Now()
				continue
			}
			if time.Since(w.at) > 20*time.Second {
				c0 := cpuTime(w.cmd.Process.Pid)
				if c0 == 0 {
					continue
				}
				// a busy loop without any scheduling point: the operation bound cannot end it
				if time.Since(w.at) > hangCPU {
					w.cmd.Process.Kill()
					w.cmd.Wait()
					m.ws[i] = nil
					v := m.autopsy(i, s, w, "hang")
					if v != nil && !known[v.Label] {
						viols = append(viols, v)
						stop()
					}
					left++
				}
			}
		}
	}
}

// zero empties the table of visited states.
func (m *master) zero() {
	a := (sharedHdrEnd(m.nproc) + 4095) &^ 4095
	b := len(m.sh.mem) &^ 4095
	if syscall.Fallocate(int(m.shf.Fd()), 3, int64(a), int64(b-a)) != nil {
		clear(m.sh.mem[a:b])
	}
	clear(m.sh.mem[sharedHdrEnd(m.nproc):a])
	clear(m.sh.mem[b:])
}

func sharedHdrEnd(nproc int) int { return (shHdr + nproc*(1+taskSlot/8)) * 8 }

// autopsy re-runs the task of a dead worker in fresh processes.
func (m *master) autopsy(i int, s *Scenario, w *wproc, kind string) *foundViol {
	sl := m.sh.slot(i)
	n := *(*uint32)(unsafe.Pointer(&sl[0]))
	var devs []Dev
	if n < taskSlot-4 {
		json.Unmarshal(sl[4:4+n], &devs)
	}
	if stop := atomic.LoadUint64(m.sh.hdr(shStop)); stop != 0 && kind == "fatal" && len(w.err.b) == 0 {
		return nil
	}
	first := firstFatal(string(w.err.b))
	v := &foundViol{Label: kind + ":" + first, Detail: fmt.Sprintf("the process running this execution ended (%s)\n%s", kind, string(w.err.b)), Devs: devs}
	f, err := os.CreateTemp("", "mcreplay")
	if err != nil {
		return nil
	}
	f.Close()
	defer os.Remove(f.Name())
	writeReplay(f.Name(), "", s.Name, "", v, m.promo)
	for k := 0; k < 2; k++ {
		c := osexec.Command(m.self, append([]string{"-replay", f.Name()}, m.args...)...)
		var tb tailBuf
		c.Stdout, c.Stderr = &tb, &tb
		if c.Start() != nil {
			return nil
		}
		ch := make(chan error, 1)
		go func() { ch <- c.Wait() }()
		select {
		case err := <-ch:
			if kind == "fatal" && err != nil && firstFatal(string(tb.b)) == first {
				v.Repro++
			}
		case <-time.After(hangCPU / 2):
			c.Process.Kill()
			<-ch
			if kind == "hang" {
				v.Repro++
			}
		}
	}
	if v.Repro < 2 {
		fmt.Fprintf(os.Stderr, "note: worker %d ended (%s) but its task does not reproduce that\n%s\n", i, kind, string(w.err.b))
		return nil
	}
	return v
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			if len(l) > 90 {
				l = l[:90]
			}
			return l
		}
	}
	return ""
}

type replayFile struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Label    string   `json:"label"`
	Detail   string   `json:"detail"`
	Trace    []string `json:"trace"`
	Devs     []Dev    `json:"deviations"`
	Promo    []string `json:"scheduled_sites"`
	Tier     string   `json:"tier"`
	How      string   `json:"how_to_replay"`
}

func writeReplay(path, prop, scen, tier string, v *foundViol, promo []string) {
	b, _ := json.MarshalIndent(replayFile{prop, scen, v.Label, v.Detail, v.Trace, v.Devs, promo, tier,
		"/verif/check.sh " + prop + " replay " + path}, "", " ")
	os.WriteFile(path, b, 0o644)
}

// Main is the entry point of the checker binary.
func Main(build func(prop, tier string) []Scenario, conform func(prop string, tier string) (int64, error), props []string) {
	fProp := flag.String("prop", "", "property")
	fTier := flag.String("tier", "quick", "quick or thorough")
	fWorker := flag.Int("worker", -1, "")
	fNproc := flag.Int("nproc", 8, "worker processes")
	fBits := flag.Int("bits", 0, "log2 of the table of visited states")
	fReplay := flag.String("replay", "", "replay file")
	fScen := flag.String("scen", "", "only scenarios whose name contains this")
	fOut := flag.String("evidence", "", "evidence directory")
	fRep := flag.String("replays", "", "directory for replay files")
	fKnown := flag.String("known", "", "known findings")
	fDeadline := flag.Duration("deadline", 0, "stop after this long")
	fDeepen := flag.Duration("deepen", -1, "raise the schedule bounds while this much time is left since the start")
	fList := flag.Bool("list", false, "list scenarios")
	fVerbose := flag.Bool("v", false, "")
	fAll := flag.Bool("all", false, "report every violation of a scenario instead of stopping at the first")
	fS := flag.Int("sched", -1, "override the schedule bound")
	flag.Parse()
	if *fBits == 0 {
		*fBits = 24
		if *fTier == "thorough" {
			*fBits = 28
		}
	}
	scens := build(*fProp, *fTier)
	if *fS >= 0 {
		for i := range scens {
			scens[i].Cfg.Sched = *fS
		}
	}
	lookup := func(n string) *Scenario {
		for i := range scens {
			if scens[i].Name == n {
				return &scens[i]
			}
		}
		return nil
	}
	if *fWorker >= 0 {
		workerMain(*fWorker, *fNproc, *fBits, lookup)
		return
	}
	if *fList {
		if *fProp == "" {
			for _, p := range props {
				for _, s := range build(p, *fTier) {
					fmt.Printf("%s\t%s\t%d\t%d\t%s\n", p, s.Name, s.Cfg.Sched, s.Cfg.Fault, s.About)
				}
			}
			return
		}
		for _, s := range scens {
			fmt.Printf("%s\t%s\t%d\t%d\t%s\n", *fProp, s.Name, s.Cfg.Sched, s.Cfg.Fault, s.About)
		}
		return
	}
	if *fReplay != "" {
		os.Exit(replay(*fReplay, *fTier, build))
	}
	if len(scens) == 0 {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	os.Exit(check(*fProp, *fTier, scens, *fScen, *fNproc, *fBits, *fOut, *fRep, *fKnown, *fDeadline, *fDeepen, *fVerbose, *fAll, *fS, conform))
}

func replay(path, tier string, build func(prop, tier string) []Scenario) int {
	runtime.GOMAXPROCS(1)
	debug.SetMaxStack(64 << 20)
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	prop := rf.Property
	if prop == "" {
		prop = flag.Lookup("prop").Value.String()
	}
	if rf.Tier != "" {
		tier = rf.Tier
	}
	for _, t := range []string{tier, "thorough"} {
		for _, s := range build(prop, t) {
			if s.Name == rf.Scenario {
				SnapshotGlobals()
				promo := map[uint32]bool{}
				for _, n := range rf.Promo {
					if id := SiteByName(n); id != 0 {
						promo[id] = true
					}
				}
				r := runExec(s.Cfg, s.Body, rf.Devs, promo, nil)
				for _, l := range r.Trace {
					fmt.Println(l)
				}
				if r.Diverged != "" {
					fmt.Println("DIVERGED:", r.Diverged)
				}
				if r.Viol != nil {
					fmt.Printf("VIOLATED %s\n%s\n", r.Viol.Label, r.Viol.Detail)
					return 1
				}
				return 0
			}
		}
	}
	fmt.Fprintln(os.Stderr, "no such scenario:", rf.Scenario)
	return 2
}

func loadKnown(path, prop string) []Known {
	var ks []Known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == prop && k.Fixed == "" {
			ks = append(ks, k)
		}
	}
	return ks
}

func check(prop, tier string, scens []Scenario, only string, nproc, bits int, evDir, repDir, knownPath string, limit, deepen time.Duration, verbose, all bool, schedOv int, conform func(string, string) (int64, error)) int {
	t0 := time.Now()
	if limit == 0 {
		limit = 300 * time.Second
		if tier == "thorough" {
			limit = 3000 * time.Second
		}
	}
	end := t0.Add(limit)
	if deepen < 0 {
		deepen = 25 * time.Second
		if tier == "thorough" {
			deepen = 1500 * time.Second
		}
	}
	known := loadKnown(knownPath, prop)
	fd, _, errno := syscall.Syscall(319, uintptr(unsafe.Pointer(&[]byte("mc\x00")[0])), 0, 0) // memfd_create
	var shf *os.File
	if errno != 0 {
		f, err := os.CreateTemp("", "mcshared")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		os.Remove(f.Name())
		shf = f
	} else {
		shf = os.NewFile(fd, "mc")
	}
	if err := shf.Truncate(int64(sharedSize(bits, nproc))); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sh, err := mapShared(int(shf.Fd()), bits, nproc)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	self, _ := os.Executable()
	m := &master{nproc: nproc, bits: bits, sh: sh, ws: make([]*wproc, nproc), shf: shf, self: self, verbose: verbose, reportAll: all,
		args: []string{"-prop", prop, "-tier", tier, "-sched", strconv.Itoa(schedOv)}}
	defer func() {
		for _, w := range m.ws {
			if w != nil {
				w.cmd.Process.Kill()
				w.cmd.Wait()
			}
		}
	}()
	var sel []Scenario
	for _, s := range scens {
		if only == "" || strings.Contains(s.Name, only) {
			sel = append(sel, s)
		}
	}
	rc := 0
	var results []*scenResult
	nk := map[string]bool{}
	knownOf := func(s *Scenario) map[string]bool {
		kn := map[string]bool{}
		for _, k := range known {
			if k.Scenario == s.Name || k.Scenario == "*" {
				kn[k.Label] = true
			}
		}
		return kn
	}
	report := func(s *Scenario, r *scenResult) {
		if verbose {
			fmt.Printf("  %-34s sched=%d fault=%d execs=%d full=%d pruned=%d cut=%d states=%d trans=%d outcomes=%d promoted=%d restarts=%d depth=%d gs=%d vt=%s exh=%v left=%d div=%d %.1fs %s\n", r.Name, r.Sched, r.Fault, r.Executions, r.Completed, r.Pruned, r.Cut, r.States, r.Trans, r.Outcomes, r.Promoted, r.Restarts, r.MaxChoices, r.MaxGs, r.VTime, r.Exhaustive, r.Left, r.Diverged, r.WallS, r.DivMsg)
		}
		kn := knownOf(s)
		for _, v := range r.viols {
			if kn[v.Label] {
				if !nk[s.Name+v.Label] {
					nk[s.Name+v.Label] = true
					for _, k := range known {
						if (k.Scenario == s.Name || k.Scenario == "*") && k.Label == v.Label {
							fmt.Printf("KNOWN-FINDING: property=%s %s [%s %s]\n", prop, k.What, s.Name, v.Label)
							break
						}
					}
				}
				continue
			}
			rc = 1
			dir := repDir
			if dir == "" {
				dir = os.TempDir()
			}
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", prop, s.Name, hashStr(v.Label)&0xffffff))
			writeReplay(path, prop, s.Name, tier, v, r.promo)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  scenario %s, %s\n  %s\n", s.Name, v.Label, strings.ReplaceAll(v.Detail, "\n", "\n  "))
			for _, l := range v.Trace {
				fmt.Println("    " + l)
			}
		}
	}
	for i := range sel {
		s := &sel[i]
		if i == 0 {
			SnapshotGlobals()
		}
		until := end
		if n := len(sel) - i; n > 1 {
			until = time.Now().Add(2 * time.Until(end) / time.Duration(n+1))
		}
		r := m.explore(s, knownOf(s), until, nil)
		results = append(results, r)
		report(s, r)
		if rc != 0 && !all {
			break
		}
	}
	// deepening: raise the schedule bound of one scenario after the other while time is left
	deepEnd := t0.Add(deepen)
	if deepEnd.After(end) {
		deepEnd = end
	}
	skip := map[int]bool{}
	for rc == 0 && schedOv < 0 && len(results) == len(sel) {
		best, cost := -1, 0.0
		for i, r := range results {
			if skip[i] || !r.Exhaustive || r.Cut == 0 {
				continue
			}
			g := r.grow
			if g == 0 {
				g = 5
			}
			if c := r.WallS*g + 0.02; best < 0 || c < cost {
				best, cost = i, c
			}
		}
		if best < 0 || time.Until(deepEnd).Seconds() < cost*0.7 {
			break
		}
		s := sel[best]
		old := results[best]
		s.Cfg.Sched = old.Sched + 1
		r := m.explore(&s, knownOf(&s), deepEnd, old.sites)
		report(&s, r)
		if !r.Exhaustive {
			old.Partial += r.Executions
			skip[best] = true
			continue
		}
		r.grow = r.WallS / (old.WallS + 0.01)
		if r.grow < 1.5 {
			r.grow = 1.5
		}
		if r.grow > 20 {
			r.grow = 20
		}
		r.Partial = old.Partial
		results[best] = r
	}
	var conf int64
	if conform != nil && rc == 0 {
		n, err := conform(prop, tier)
		conf = n
		if err != nil {
			// the model of the environment is wrong: nothing it says may be believed
			fmt.Fprintln(os.Stderr, "environment model does not conform:", err)
		}
	}
	if evDir != "" {
		writeEvidence(evDir, prop, tier, sel, results, conf, time.Since(t0), rc)
	}
	if rc == 0 {
		ex := true
		var st, tr int64
		for _, r := range results {
			ex = ex && r.Exhaustive
			st += r.States
			tr += r.Trans
		}
		fmt.Printf("%s %s: held on everything explored: %d scenarios, %d states, %d transitions, exhaustive within bounds: %v (%.1fs)\n", prop, tier, len(results), st, tr, ex, time.Since(t0).Seconds())
	}
	return rc
}

func writeEvidence(dir, prop, tier string, sel []Scenario, rs []*scenResult, conf int64, wall time.Duration, rc int) {
	os.MkdirAll(dir, 0o755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var states, trans, full, execs int64
	exh := true
	var samples []any
	for _, r := range rs {
		states += r.States
		trans += r.Trans
		full += r.Completed
		execs += r.Executions
		exh = exh && r.Exhaustive
		if len(samples) < 3 && len(r.Sample) > 0 {
			samples = append(samples, map[string]any{"scenario": r.Name, "execution": r.Sample})
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no execution ran to its end")
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(),
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": full,
			"executions": execs, "exhaustive": exh && rc == 0, "samples": samples, "scenarios": rs,
			"scenarios_planned":                     len(sel),
			"environment_model_traces_conformance":  conf,
			"rule":                                  "every execution is an execution of the repository's own code (instrumented for scheduling); a state is a distinct happens-before history, a transition one scheduled operation (without scheduled operations, one combination of inputs each); exhaustive means every schedule, input choice and fault within each scenario's bounds was explored",
			"traces_validated_against_impl_meaning": "executions of the real code run to their end under the controlled scheduler",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), b, 0o644)
}
