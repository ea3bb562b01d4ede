package rt

import (
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"unsafe"
)

type epoch struct {
	g    int
	c    uint32
	site uint32
}

type shadow struct {
	w    epoch
	hasW bool
	r    []epoch
	aw   []epoch // atomic writes: they conflict with plain accesses only
	ar   []epoch // atomic reads
}

func note(l []epoch, e epoch) []epoch {
	for i := range l {
		if l[i].g == e.g {
			l[i] = e
			return l
		}
	}
	return append(l, e)
}

// atomic notes an atomic access of *p by g, which races with unordered plain ones.
func (x *exec) atomic(g *G, p unsafe.Pointer, write bool) {
	if !x.cfg.Mem {
		return
	}
	s := x.shadow[p]
	if s == nil {
		s = &shadow{}
		x.shadow[p] = s
	}
	if s.hasW && s.w.g != g.id && s.w.c > g.vc.get(s.w.g) {
		x.race(s.w.site, s.w.site)
	}
	e := epoch{g.id, g.vc.get(g.id), 0}
	if !write {
		s.ar = note(s.ar, e)
		return
	}
	for _, r := range s.r {
		if r.g != g.id && r.c > g.vc.get(r.g) {
			x.race(r.site, r.site)
		}
	}
	s.aw = note(s.aw, e)
}

// R notes a read of *p and returns p; W notes a write.
func R[T any](p *T, site uint32) *T {
	if x := cx; x != nil && x.cfg.Mem {
		x.access(unsafe.Pointer(p), site, false, unsafe.Sizeof(*p))
	}
	return p
}

func W[T any](p *T, site uint32) *T {
	if x := cx; x != nil {
		x.wrote(unsafe.Pointer(p), site, unsafe.Sizeof(*p))
	}
	return p
}

// Set returns the function that writes *p: its argument is evaluated before the write.
func Set[T any](p *T, site uint32) func(T) {
	return func(v T) {
		if x := cx; x != nil {
			x.wrote(unsafe.Pointer(p), site, unsafe.Sizeof(*p))
		}
		*p = v
	}
}

// ReadDeep notes reads of the exported fields of *v and of the structs they point to: what code that is not
// instrumented does with a value that is passed to it.
func ReadDeep(v any) {
	x := cx
	if x == nil || x.abort {
		return
	}
	if reflect.TypeOf(v) != nil && reflect.TypeOf(v).Kind() == reflect.Pointer && x.pooled[v] {
		x.fail("read-after-put", fmt.Sprintf("a %T is read after it was put back in a pool", v))
	}
	if x.cfg.Mem {
		x.readDeep(reflect.ValueOf(v), 0)
	}
}

func (x *exec) readDeep(v reflect.Value, depth int) {
	if depth > 4 || v.Kind() != reflect.Pointer || v.IsNil() || v.Elem().Kind() != reflect.Struct {
		return
	}
	s := v.Elem()
	for i := 0; i < s.NumField(); i++ {
		if f := s.Field(i); s.Type().Field(i).IsExported() {
			x.access(f.Addr().UnsafePointer(), 0, false, f.Type().Size())
			x.readDeep(f, depth+1)
		}
	}
}

func (x *exec) wrote(p unsafe.Pointer, site uint32, size uintptr) {
	if x.cfg.Mem {
		x.access(p, site, true, size)
	} else if !x.abort {
		x.effect() // not spinning
	}
}

func (x *exec) access(p unsafe.Pointer, site uint32, write bool, size uintptr) {
	if size == 0 || p == nil {
		return
	}
	if x.abort {
		return
	}
	g := x.cur
	if x.promo[site] {
		g.pd = pend{kind: opStep, what: SiteName(site)}
		x.point(g)
		o := x.objAt(p)
		if write {
			x.evW(g, o, 90)
		} else {
			x.evR(g, o, 91)
		}
	}
	if write {
		x.effect()
	}
	s := x.shadow[p]
	if s == nil {
		s = &shadow{}
		x.shadow[p] = s
	}
	if s.hasW && s.w.g != g.id && s.w.c > g.vc.get(s.w.g) {
		x.race(s.w.site, site)
	}
	for _, a := range s.aw {
		if a.g != g.id && a.c > g.vc.get(a.g) {
			x.race(site, site)
		}
	}
	e := epoch{g.id, g.vc.get(g.id), site}
	if write {
		for _, a := range s.ar {
			if a.g != g.id && a.c > g.vc.get(a.g) {
				x.race(site, site)
			}
		}
		for _, r := range s.r {
			if r.g != g.id && r.c > g.vc.get(r.g) {
				x.race(r.site, site)
			}
		}
		s.w, s.hasW = e, true
		s.r = s.r[:0]
		return
	}
	for i := range s.r {
		if s.r[i].g == g.id {
			s.r[i] = e
			return
		}
	}
	s.r = append(s.r, e)
}

func (x *exec) race(a, b uint32) {
	if !x.promo[a] {
		x.newSites[a] = true
	}
	if !x.promo[b] {
		x.newSites[b] = true
	}
}

// ---------------------------------------------------------------- maps

func (x *exec) mapAccess(p unsafe.Pointer, site uint32, write bool) {
	if p == nil || x.abort {
		return
	}
	g := x.cur
	if x.promo[site] {
		g.pd = pend{kind: opStep, what: SiteName(site)}
		x.point(g)
		o := x.objAt(p)
		if write {
			x.evW(g, o, 92)
		} else {
			x.evR(g, o, 93)
		}
	}
	if write {
		x.effect()
	}
	s := x.shadow[p]
	if s == nil {
		s = &shadow{}
		x.shadow[p] = s
	}
	bad := func(o epoch) {
		a, b := SiteFunc(o.site), SiteFunc(site)
		if b < a {
			a, b = b, a
		}
		x.fail("map-race:"+a+"|"+b, fmt.Sprintf("concurrent map access (the Go runtime aborts the process on it): %s and %s", SiteName(o.site), SiteName(site)))
	}
	if s.hasW && s.w.g != g.id && s.w.c > g.vc.get(s.w.g) {
		bad(s.w)
	}
	e := epoch{g.id, g.vc.get(g.id), site}
	if write {
		for _, r := range s.r {
			if r.g != g.id && r.c > g.vc.get(r.g) {
				bad(r)
			}
		}
		s.w, s.hasW = e, true
		s.r = s.r[:0]
		return
	}
	for i := range s.r {
		if s.r[i].g == g.id {
			s.r[i] = e
			return
		}
	}
	s.r = append(s.r, e)
}

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

func (x *exec) mapWrote(p unsafe.Pointer, site uint32) {
	if x.cfg.Mem {
		x.mapAccess(p, site, true)
	} else if !x.abort {
		x.effect()
	}
}

// MR notes a read of map m.
func MR[M ~map[K]V, K comparable, V any](m M, site uint32) M {
	if x := cx; x != nil && x.cfg.Mem {
		x.mapAccess(mapPtr(m), site, false)
	}
	return m
}

// MW notes a write to map m.
func MW[M ~map[K]V, K comparable, V any](m M, site uint32) M {
	if x := cx; x != nil {
		x.mapWrote(mapPtr(m), site)
	}
	return m
}

// MapSet implements m[k] = v.
func MapSet[M ~map[K]V, K comparable, V any](m M, site uint32) func(K, V) {
	return func(k K, v V) {
		if x := cx; x != nil {
			x.mapWrote(mapPtr(m), site)
			x.keySeen(k)
		}
		m[k] = v
	}
}

// MapDel implements delete(m, k).
func MapDel[M ~map[K]V, K comparable, V any](m M, k K, site uint32) {
	if x := cx; x != nil {
		x.mapWrote(mapPtr(m), site)
	}
	delete(m, k)
}

// MapClear implements clear(m).
func MapClear[M ~map[K]V, K comparable, V any](m M, site uint32) {
	if x := cx; x != nil {
		x.mapWrote(mapPtr(m), site)
	}
	clear(m)
}

func simpleKey(k any) bool {
	switch reflect.TypeOf(k).Kind() {
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return true
	}
	return false
}

func (x *exec) keySeen(k any) {
	if k == nil || simpleKey(k) {
		return
	}
	if _, ok := x.mapser[k]; !ok {
		x.mapser[k] = len(x.mapser) + 1
	}
}

func lessKey(a, b any) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	switch va.Kind() {
	case reflect.String:
		return va.String() < vb.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return va.Int() < vb.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return va.Uint() < vb.Uint()
	case reflect.Bool:
		return !va.Bool() && vb.Bool()
	case reflect.Float32, reflect.Float64:
		return va.Float() < vb.Float()
	}
	return false
}

// Keys returns the keys of m in an order the explorer controls: sorted by default,
// every other order for up to three keys, every rotation beyond, as deviations.
func Keys[M ~map[K]V, K comparable, V any](m M, site uint32) []K {
	ks := make([]K, 0, len(m))
	x := cx
	if x != nil && x.cfg.Mem {
		x.mapAccess(mapPtr(m), site, false)
	}
	for k := range m {
		ks = append(ks, k)
	}
	if x == nil || len(ks) < 2 {
		return ks
	}
	sort.SliceStable(ks, func(i, j int) bool {
		a, b := any(ks[i]), any(ks[j])
		sa, sb := x.mapser[a], x.mapser[b]
		if sa != 0 || sb != 0 {
			return sa < sb
		}
		return lessKey(a, b)
	})
	if x.abort {
		return ks
	}
	if len(ks) <= 3 {
		perms := [][]int{{0, 1}, {1, 0}}
		if len(ks) == 3 {
			perms = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
		}
		p := perms[Deviate(len(perms), "map order")]
		out := make([]K, len(ks))
		for i, j := range p {
			out[i] = ks[j]
		}
		return out
	}
	r := Deviate(len(ks), "map order")
	return append(append([]K(nil), ks[r:]...), ks[:r]...)
}

// MapKeys, MapValues and MapAll are those of package maps.
func MapKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range Keys(m, 0) {
			if MapHas(m, k) && !yield(k) {
				return
			}
		}
	}
}

func MapValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, k := range Keys(m, 0) {
			if MapHas(m, k) && !yield(m[k]) {
				return
			}
		}
	}
}

func MapAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range Keys(m, 0) {
			if MapHas(m, k) && !yield(k, m[k]) {
				return
			}
		}
	}
}

// MapHas reports whether k is still in m during an iteration.
func MapHas[M ~map[K]V, K comparable, V any](m M, k K) bool { _, ok := m[k]; return ok }

// ---------------------------------------------------------------- sites

var siteNames = []string{"?"}
var siteFuncs = []string{"?"}

// Sites registers the source positions of one instrumented package and returns their base number.
func Sites(base uint32, names []string, funcs []string) {
	for len(siteNames) < int(base)+len(names) {
		siteNames = append(siteNames, "")
		siteFuncs = append(siteFuncs, "")
	}
	copy(siteNames[base:], names)
	copy(siteFuncs[base:], funcs)
}

func SiteName(s uint32) string {
	if int(s) < len(siteNames) {
		return siteNames[s]
	}
	return fmt.Sprint("site", s)
}

func SiteFunc(s uint32) string {
	if int(s) < len(siteFuncs) {
		return siteFuncs[s]
	}
	return fmt.Sprint("site", s)
}

// SiteByName finds the number of a site (they may differ between builds).
func SiteByName(n string) uint32 {
	for i, s := range siteNames {
		if s == n {
			return uint32(i)
		}
	}
	return 0
}

var _ = strings.Contains
var _ = runtime.Goexit
