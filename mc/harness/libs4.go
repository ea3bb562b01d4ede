package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/pojol/braid/lib/log"
	"github.com/pojol/braid/zzmc/rt"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// logged is a place where log lines go, with the standard output beside it.
type logged struct {
	dir, std string
	out      *os.File
	old      *os.File
}

func logPlace() *logged {
	dir, err := os.MkdirTemp("", "mc-log-")
	if err != nil {
		rt.Fail("setup", "%v", err)
	}
	l := &logged{dir: dir, std: filepath.Join(dir, "stdout"), old: os.Stdout}
	if l.out, err = os.Create(l.std); err != nil {
		rt.Fail("setup", "%v", err)
	}
	os.Stdout = l.out
	return l
}

func (l *logged) close() {
	os.Stdout = l.old
	l.out.Close()
	log.SetSLog(&log.ServerLog{Helper: quiet{}})
	os.RemoveAll(l.dir)
}

// use makes a logger with the options the one of the package's functions.
func (l *logged) use(tag string, opts ...log.Option) {
	s, err := log.NewServerLogger(tag, append([]log.Option{log.WithGlobPattern(filepath.Join(l.dir, "log"))}, opts...)...)
	if err != nil {
		rt.Fail("setup", "%v", err)
	}
	log.SetSLog(s)
}

// lines reads the JSON lines of the files.
func (l *logged) lines(pattern string) []map[string]any {
	fs, _ := filepath.Glob(filepath.Join(l.dir, pattern))
	sort.Strings(fs)
	var res []map[string]any
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, s := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(s, "{") {
				rt.Check(s == "" || pattern == "stdout", "lines", "%q is no log line", s)
				continue
			}
			m := map[string]any{}
			if err := json.Unmarshal([]byte(s), &m); err != nil {
				rt.Check(pattern == "stdout", "lines", "%q: %v", s, err)
				continue
			}
			res = append(res, m)
		}
	}
	return res
}

// logCall is a function of the package and the line it writes.
type logCall struct {
	name  string
	level zapcore.Level
	call  func(n int, s string)
	sys   bool
	code  bool
	stack bool
}

func logCalls() []logCall {
	sys := func(f func(log.LogECode, log.LogAccID, log.LogPath, log.LogToken, log.LogRealIP, string, ...interface{})) func(int, string) {
		return func(n int, s string) { f(7, "acc", "/p", "tok", "10.0.0.1", "%d-%s", n, s) }
	}
	short := func(f func(string, ...interface{})) func(int, string) {
		return func(n int, s string) { f("%d-%s", n, s) }
	}
	return []logCall{
		{"DebugF", zapcore.DebugLevel, short(log.DebugF), false, false, false},
		{"InfoF", zapcore.InfoLevel, short(log.InfoF), false, false, false},
		{"WarnF", zapcore.WarnLevel, short(log.WarnF), false, false, true},
		{"ErrorF", zapcore.ErrorLevel, short(log.ErrorF), false, false, true},
		{"SystemDebug", zapcore.DebugLevel, sys(log.SystemDebug), true, true, false},
		{"SystemInfo", zapcore.InfoLevel, sys(log.SystemInfo), true, true, false},
		{"SystemWarn", zapcore.WarnLevel, sys(log.SystemWarn), true, true, false},
		{"SystemError", zapcore.ErrorLevel, sys(log.SystemError), true, true, false},
		{"SystemReqInfo", zapcore.InfoLevel, func(n int, s string) { log.SystemReqInfo("acc", "/p", "tok", "10.0.0.1", "%d-%s", n, s) }, true, false, false},
		{"PanicF", zapcore.PanicLevel, func(n int, s string) {
			defer func() {
				rt.Check(recover() == fmt.Sprintf("%d-%s", n, s), "panic", "PanicF does not panic with its text")
			}()
			log.PanicF("%d-%s", n, s)
		}, false, false, false},
	}
}

func (c logCall) expect(m map[string]any, tag string, n int, s string) string {
	want := map[string]any{"Level": c.level.CapitalString(), "Msg": fmt.Sprintf("%d-%s", n, s), log.ServerTagKey: tag}
	if c.sys {
		want[log.AccIDKey], want[log.PathKey], want[log.TokenKey], want[log.RealIPKey] = "acc", "/p", "tok", "10.0.0.1"
	}
	if c.code {
		want[log.ECodeKey] = 7.0
	}
	for k, v := range want {
		if m[k] != v {
			return fmt.Sprintf("%v is %q, want %q", k, m[k], v)
		}
	}
	for k, v := range m {
		if _, ok := want[k]; ok || k == "Time" || (k == "stack_trace" && c.stack) {
			continue
		}
		return fmt.Sprintf("%v is %q, want none", k, v)
	}
	if _, ok := m["Time"]; !ok {
		return "no time"
	}
	if st, _ := m["stack_trace"].(string); c.stack && !strings.Contains(st, "main.logCalls") {
		return "no stack trace of the caller"
	}
	return ""
}

func logNamed(n int, s string) { log.InfoF("%d-%s", n, s) }

func init() {
	register("L12", func(tier string) []rt.Scenario {
		levels := []zapcore.Level{zapcore.DebugLevel, zapcore.InfoLevel, zapcore.WarnLevel, zapcore.ErrorLevel, zapcore.PanicLevel}
		texts := []string{"", "a\"\nb {}", "%d 100%"}
		big := func(c *rt.Config) { c.MaxOps = 1 << 20 }
		return []rt.Scenario{
			S("levels", "every sequence of log calls at every level: the lines at or above it, once, in order, with their fields", 0, func() {
				l := logPlace()
				defer l.close()
				lv := levels[rt.Choose(len(levels), "level")]
				std := rt.Choose(2, "stdout") == 1
				l.use("tag", log.WithLevel(lv), log.WithOutStd(std))
				calls := logCalls()
				type line struct {
					c logCall
					n int
					s string
				}
				var want []line
				for i := 0; i < pick(tier, 2, 3); i++ {
					c := calls[rt.Choose(len(calls), "call")]
					s := texts[i%len(texts)]
					c.call(i, s)
					if lv <= c.level {
						want = append(want, line{c, i, s})
					}
				}
				log.Sync()
				for _, at := range []string{"log", "stdout"} {
					got := l.lines(at)
					if at == "stdout" && !std {
						rt.Check(len(got) == 0, "output", "%d lines on the standard output", len(got))
						break
					}
					rt.Check(len(got) == len(want), "output", "%s: %d lines, want %d", at, len(got), len(want))
					for i, m := range got {
						if e := want[i].c.expect(m, "tag", want[i].n, want[i].s); e != "" {
							rt.Fail("fields", "%s: %s: %s", at, want[i].c.name, e)
						}
					}
				}
			}, noMem, big),
			S("switch", "after the logger is exchanged, lines go to the new one, with its tag", 0, func() {
				l := logPlace()
				defer l.close()
				l.use("one", log.WithLevel(zapcore.DebugLevel))
				calls := logCalls()
				c := calls[rt.Choose(len(calls), "call")]
				c.call(1, "x")
				z, err := log.NewLogger(log.WithGlobPattern(filepath.Join(l.dir, "new")), log.WithLevel(zapcore.DebugLevel))
				if err != nil {
					rt.Fail("setup", "%v", err)
				}
				log.ExportSLog(z, "two")
				c.call(2, "y")
				log.Sync()
				a, b := l.lines("log"), l.lines("new")
				rt.Check(len(a) == 1 && len(b) == 1, "output", "%d and %d lines, want one each", len(a), len(b))
				for i, m := range append(a, b...) {
					if e := c.expect(m, []string{"one", "two"}[i], i+1, []string{"x", "y"}[i]); e != "" {
						rt.Fail("fields", "%s: %s", c.name, e)
					}
				}
				func() {
					defer func() { rt.Check(recover() != nil, "nil", "a nil logger is taken") }()
					log.ExportSLog(nil, "three")
				}()
			}, noMem, big),
			S("caller", "the caller of a line is the code that logged it, with its function if that is asked for", 0, func() {
				l := logPlace()
				defer l.close()
				on, fn := rt.Choose(2, "caller") == 1, rt.Choose(2, "function") == 1
				skip := 0
				if on {
					skip = 2
				}
				l.use("tag", log.WithLevel(zapcore.DebugLevel), log.WithCaller(on), log.WithCallerFunc(fn), log.WithCallerSkip(skip))
				calls := append(logCalls(), logCall{name: "named", call: logNamed})
				c := calls[rt.Choose(len(calls), "call")]
				c.call(1, "x")
				log.Sync()
				got := l.lines("log")
				rt.Check(len(got) == 1, "output", "%d lines", len(got))
				at, _ := got[0]["Caller"].(string)
				if !on {
					rt.Check(got[0]["Caller"] == nil, "caller", "a caller %q nobody asked for", at)
					return
				}
				rt.Check(strings.HasPrefix(at, "libs4.go:"), "caller", "%s: the caller is %q", c.name, at)
				rt.Check(strings.HasSuffix(at, "()") == fn && (!fn || c.name != "named" || strings.HasSuffix(at, " logNamed()")), "function", "%s: the caller is %q", c.name, at)
			}, noMem, big),
			S("rotation", "a log that outgrows its file goes on in the next one; every line is in one of them", 0, func() {
				l := logPlace()
				defer l.close()
				size := []int64{1, 200, 1 << 20}[rt.Choose(3, "size")]
				l.use("tag", log.WithLevel(zapcore.DebugLevel), log.WithRotationSize(size), log.WithLinkName(filepath.Join(l.dir, "current")))
				n := rt.Choose(pick(tier, 5, 9), "lines") + 1
				for i := 0; i < n; i++ {
					log.InfoF("line %d", i)
				}
				log.Sync()
				seen := map[string]int{}
				for _, m := range l.lines("log*") {
					seen[fmt.Sprint(m["Msg"])]++
				}
				for i := 0; i < n; i++ {
					rt.Check(seen[fmt.Sprintf("line %d", i)] == 1, "output", "line %d is there %d times", i, seen[fmt.Sprintf("line %d", i)])
				}
				fs, _ := filepath.Glob(filepath.Join(l.dir, "log*"))
				rt.Check((size > 1 || len(fs) == n) && (size < 1<<20 || len(fs) == 1), "rotation", "%d files for %d lines, at a size of %d", len(fs), n, size)
				last := l.lines("current")
				rt.Check(len(last) > 0 && last[len(last)-1]["Msg"] == fmt.Sprintf("line %d", n-1), "link", "the link is not the current file")
			}, noMem, big),
			S("flow", "the fields of a flow are the common ones, then its own; some of them grouped under a key on request", 0, func() {
				f := &log.BaseFlow{}
				keys := []string{"a", "b", "c", "d"}
				var want []string
				add := func(to *[]zap.Field, n int) {
					for i := 0; i < n; i++ {
						k := keys[len(want)]
						*to = append(*to, zap.String(k, "v"+k))
						want = append(want, k)
					}
				}
				if rt.Choose(2, "common") == 1 {
					c := &log.CommonFlow{}
					add(&c.Fields, rt.Choose(3, "common fields"))
					f.SetCommon(c)
				}
				add(&f.BaseFields, rt.Choose(3, "own fields"))
				names := func(l []zap.Field) (r []string) {
					for _, x := range l {
						r = append(r, x.Key)
					}
					return
				}
				rt.Check(fmt.Sprint(names(f.ZapFields())) == fmt.Sprint(want), "order", "%v, want %v", names(f.ZapFields()), want)
				set := rt.Choose(16, "grouped")
				in := func(k string) bool { return set&(1<<strings.Index("abcd", k)) != 0 }
				key := []string{"", "props"}[rt.Choose(2, "key")]
				enc := zapcore.NewMapObjectEncoder()
				for _, x := range f.TaDataFields(key, in) {
					x.AddTo(enc)
				}
				exp := map[string]any{}
				sub := map[string]any{}
				for _, k := range want {
					if key != "" && in(k) {
						sub[k] = "v" + k
					} else {
						exp[k] = "v" + k
					}
				}
				if len(sub) > 0 {
					exp[key] = sub
				}
				a, _ := json.Marshal(enc.Fields)
				b, _ := json.Marshal(exp)
				rt.Check(string(a) == string(b), "group", "%s, want %s", a, b)
			}, noMem, big),
		}
	})
}
