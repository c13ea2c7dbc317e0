package zzsim

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// Pointers get serial numbers in the order in which the program first shows
// them to us, so that orders that depend on addresses repeat exactly.
// The table is an open-addressing hash of plain slices so that the race
// detector sees nothing of it, and it keeps the pointers alive.
var (
	ptrKeys  []unsafe.Pointer
	ptrVals  []uint32
	ptrCount uint32
	mapSeed  uint64
	mapMode  int // 0 ascending, 1 descending, 2 hashed
)

//go:norace
func resetPtrs() {
	if len(ptrKeys) > 1<<14 || ptrKeys == nil {
		ptrKeys = make([]unsafe.Pointer, 1<<12)
		ptrVals = make([]uint32, 1<<12)
	} else {
		for i := range ptrKeys {
			ptrKeys[i] = nil
		}
	}
	ptrCount = 0
}

//go:norace
func ptrSlot(p unsafe.Pointer) int {
	h := uint64(uintptr(p)) * 0x9e3779b97f4a7c15
	mask := uint64(len(ptrKeys) - 1)
	i := (h >> 20) & mask
	for ptrKeys[i] != nil && ptrKeys[i] != p {
		i = (i + 1) & mask
	}
	return int(i)
}

//go:norace
func serial(p unsafe.Pointer) uint32 {
	if p == nil {
		return 0
	}
	if ptrKeys == nil { // in an initialiser
		resetPtrs()
	}
	i := ptrSlot(p)
	if ptrKeys[i] == p {
		return ptrVals[i]
	}
	if int(ptrCount)*2 >= len(ptrKeys) {
		ok, ov := ptrKeys, ptrVals
		ptrKeys = make([]unsafe.Pointer, 2*len(ok))
		ptrVals = make([]uint32, 2*len(ok))
		for j := range ok {
			if ok[j] != nil {
				k := ptrSlot(ok[j])
				ptrKeys[k] = ok[j]
				ptrVals[k] = ov[j]
			}
		}
		i = ptrSlot(p)
	}
	ptrCount++
	ptrKeys[i] = p
	ptrVals[i] = ptrCount
	return ptrCount
}

// Addr replaces uintptr(p): a number that orders and distinguishes pointers
// but does not depend on where the allocator put them.
//
//go:norace
func Addr(p unsafe.Pointer) uintptr {
	if p == nil {
		return 0
	}
	return uintptr(serial(p)) * 16
}

// Note gives a pointer-like map key its serial number at insertion.
//
//go:norace
func Note(v any) {
	if !on {
		return
	}
	switch v.(type) {
	case string, int, int64, uint64, bool, float64:
		return
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Map, reflect.Func:
		serial(rv.UnsafePointer())
	}
}

// Ent is one map entry of a deterministic iteration.
type Ent[K comparable, V any] struct {
	K K
	m map[K]V
	v V
	h uint64
}

// Live reports whether the entry is still in the map, and loads its value.
func (e *Ent[K, V]) Live() bool {
	v, ok := e.m[e.K]
	e.v = v
	return ok
}

func (e *Ent[K, V]) Val() V { return e.v }

// Ents lists the entries of m in an order chosen by the simulator.
func Ents[M ~map[K]V, K comparable, V any](m M) []*Ent[K, V] {
	if len(m) == 0 {
		return nil
	}
	es := make([]Ent[K, V], 0, len(m))
	for k := range m {
		es = append(es, Ent[K, V]{K: k, m: m})
	}
	ps := make([]*Ent[K, V], len(es))
	for i := range es {
		ps[i] = &es[i]
	}
	if len(es) == 1 {
		return ps
	}
	var z K
	switch any(z).(type) {
	case string:
		sort.Slice(ps, func(i, j int) bool { return any(ps[i].K).(string) < any(ps[j].K).(string) })
		for _, p := range ps {
			p.h = HashString(any(p.K).(string))
		}
	default:
		names := make(map[*Ent[K, V]]string, len(es))
		for _, p := range ps {
			names[p] = keyName(p.K)
			p.h = HashString(names[p])
		}
		sort.SliceStable(ps, func(i, j int) bool { return names[ps[i]] < names[ps[j]] })
	}
	switch mapMode {
	case 1:
		for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
			ps[i], ps[j] = ps[j], ps[i]
		}
	case 2:
		sort.SliceStable(ps, func(i, j int) bool { return Mix(ps[i].h, mapSeed) < Mix(ps[j].h, mapSeed) })
	}
	return ps
}

func keyName(k any) string {
	switch v := k.(type) {
	case string:
		return "s" + v
	case int:
		return fmt.Sprintf("i%020d", v+1<<40)
	}
	if k == nil {
		return "n"
	}
	// different types can look the same
	return "v" + reflect.TypeOf(k).String() + valName(reflect.ValueOf(k), 0)
}

func valName(v reflect.Value, depth int) string {
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer, reflect.Map, reflect.Func:
		return fmt.Sprintf("p%010d", serial(v.UnsafePointer()))
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + valName(v.Elem(), depth+1)
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += valName(v.Field(i), depth+1) + ","
		}
		return s + "}"
	case reflect.Array:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += valName(v.Index(i), depth+1) + ","
		}
		return s + "]"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i%020d", v.Int()+1<<40)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("u%020d", v.Uint())
	case reflect.String:
		return "s" + v.String()
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("f%v", v.Float())
	case reflect.Complex64, reflect.Complex128:
		return fmt.Sprintf("c%v", v.Complex())
	default:
		return v.String()
	}
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

var resets []func()

func RegisterReset(f func()) { resets = append(resets, f) }

// ResetAll re-runs the package variable initialisers of the instrumented
// packages, so that a run does not depend on earlier runs in the process.
func ResetAll() {
	EndSolo()
	tasks, spawned = nil, 0
	now, runStart, doneOps, simTime, clockOff = 0, 0, 0, 0, 0
	clockJump, poolEvict, replay, strat, freezeT = false, false, false, Strategy{}, nil
	simRand.Seed(1)
	raceAcquire(unsafe.Pointer(&joinAddr))
	mapMode = 0 // the initialisers may range over maps
	for _, f := range resets {
		f()
	}
}
