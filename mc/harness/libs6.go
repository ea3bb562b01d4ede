package main

import (
	"errors"
	"fmt"
	"strings"

	perrors "github.com/pkg/errors"
	"github.com/pojol/braid/lib/errcode"
	"github.com/pojol/braid/zzmc/rt"
)

func init() {
	// L13: error codes.
	register("L13", func(tier string) []rt.Scenario {
		type sample struct {
			err  error // nil: none
			code int
			msg  string
			own  bool // a code, not any other error
		}
		// base chooses an error and says what its code is.
		base := func(name string) sample {
			switch k := rt.Choose(10, name); k {
			case 0:
				return sample{nil, 0, "", true}
			case 1:
				return sample{errcode.OK, 0, "", true}
			case 2, 3, 4:
				n, m := []int{1, 2, 1 << 40}[k-2], []string{"a", "a", "界 %d"}[k-2]
				return sample{errcode.New(n, m), n, m, true}
			case 5:
				return sample{errcode.New(1, "other"), 1, "other", true}
			case 6:
				e := errcode.Unknow("x", 1)
				return sample{e, -1, e.Message(), true}
			case 7:
				return sample{errcode.Add(-7, "minus"), -7, "minus", true}
			case 8:
				return sample{errors.New("plain"), -1, "plain", false}
			}
			return sample{fmt.Errorf("1"), -1, "1", false}
		}
		wrap := func(s sample) sample {
			for i, n := 0, rt.Choose(pick(tier, 4, 5), "wraps"); i < n && s.err != nil; i++ {
				switch rt.Choose(4, "wrap") {
				case 0:
					s.err = perrors.Wrap(s.err, "w")
				case 1:
					s.err = perrors.WithMessage(s.err, "m: ")
				case 2:
					s.err = perrors.WithStack(s.err)
				case 3:
					s.err = fmt.Errorf("f: %w", s.err)
				}
				if !s.own {
					s.msg = s.err.Error()
				}
			}
			return s
		}
		return []rt.Scenario{
			S("cause", "every error in every wrapping: its code and message are found", 0, func() {
				s := wrap(base("error"))
				c := errcode.Cause(s.err)
				rt.Check(c.Code() == s.code && c.Message() == s.msg && c.Error() == s.msg, "cause", "%v: %d %q, want %d %q", s.err, c.Code(), c.Message(), s.code, s.msg)
				for _, x := range []errcode.Codes{errcode.OK, errcode.New(1, "z"), errcode.New(2, "a"), errcode.Unknow(), errcode.String("plain")} {
					rt.Check(errcode.EqualError(x, s.err) == (x.Code() == s.code), "equal", "EqualError(%d, %v), which is %d", x.Code(), s.err, s.code)
					rt.Check(x.Equal(s.err) == (x.Code() == s.code), "equal", "%d.Equal(%v), which is %d", x.Code(), s.err, s.code)
				}
			}, noMem),
			S("equal", "every pair of codes, and none, is equal exactly if the numbers are", 0, func() {
				a, b := base("a"), base("b")
				var x, y errcode.Codes
				if a.err != nil {
					x = errcode.Cause(a.err)
				}
				if b.err != nil {
					y = errcode.Cause(b.err)
				}
				rt.Check(errcode.Equal(x, y) == (a.code == b.code), "equal", "Equal(%v, %v)", x, y)
				rt.Check(x == nil || y == nil || x.Equal(y) == (a.code == b.code), "equal", "%v.Equal(%v)", x, y)
			}, noMem),
			S("new", "codes of one's own are positive, and their details name code and message", 0, func() {
				n := []int{-2, -1, 0, 1, 2, 1000}[rt.Choose(6, "code")]
				m := []string{"", "m", "%s%d"}[rt.Choose(3, "message")]
				panics := true
				func() {
					defer func() { recover() }()
					c := errcode.New(n, m)
					panics = false
					rt.Check(c.Code() == n && c.Message() == m && strings.Contains(c.Details(), fmt.Sprint(n)) && strings.Contains(c.Details(), m), "new", "%d %q %q", c.Code(), c.Message(), c.Details())
				}()
				rt.Check(panics == (n <= 0), "new", "New(%d) panics: %v", n, panics)
				s := errcode.String(m)
				rt.Check(s.Message() == m && (s.Code() == 0) == (m == "") && (s.Code() == -1) == (m != ""), "string", "String(%q): %d %q", m, s.Code(), s.Message())
			}, noMem),
		}
	})
}
