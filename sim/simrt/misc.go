package simrt

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"os"
	"reflect"
	"sort"
)

// --- randomness

func randOf() *PRNG {
	s := S
	if s == nil {
		return outside
	}
	if s.cur != nil && s.cur.Node != nil {
		return s.cur.Node.rng
	}
	return s.RandR
}

// mathOf is the generator behind package math/rand: a process may have seeded it.
func mathOf() *PRNG {
	if s := S; s != nil && s.cur != nil && s.cur.Node != nil && s.cur.Node.mathRng != nil {
		return s.cur.Node.mathRng
	}
	return randOf()
}

var outside = NewPRNG(42)

// CryptoReader replaces crypto/rand.Reader.
type CryptoReader struct{}

func (CryptoReader) Read(b []byte) (int, error) { return CryptoRead(b) }

// CryptoRead is crypto/rand.Read.
func CryptoRead(b []byte) (int, error) {
	if n := CurNode(); n != nil && n.Entropy != nil {
		return n.Entropy(b)
	}
	return randOf().Read(b)
}

var _ io.Reader = CryptoReader{}

func RandInt63() int64         { return int64(mathOf().U64() >> 1) }
func RandInt31() int32         { return int32(mathOf().U64() >> 33) }
func RandInt() int             { return int(mathOf().U64() >> 1) }
func RandUint32() uint32       { return uint32(mathOf().U64() >> 32) }
func RandUint64() uint64       { return mathOf().U64() }
func RandFloat64() float64     { return mathOf().F() }
func RandFloat32() float32     { return float32(mathOf().F()) }
func RandIntn(n int) int       { mustPos(n > 0); return mathOf().N(n) }
func RandInt31n(n int32) int32 { mustPos(n > 0); return int32(mathOf().N(int(n))) }
func RandInt63n(n int64) int64 { mustPos(n > 0); return mathOf().I64(n) }
func RandPerm(n int) []int     { return mathOf().Perm(n) }
func RandRead(b []byte) (int, error) {
	return mathOf().Read(b)
}

// RandSeed is rand.Seed: the same seed gives the same sequence.
func RandSeed(seed int64) {
	if s := S; s != nil && s.cur != nil && s.cur.Node != nil {
		s.cur.Node.mathRng = NewPRNG(uint64(seed))
	}
}
func RandShuffle(n int, swap func(i, j int)) {
	r := mathOf()
	for i := n - 1; i > 0; i-- {
		swap(i, r.N(i+1))
	}
}
func mustPos(ok bool) {
	if !ok {
		panic("invalid argument to rand.Intn")
	}
}

// --- process environment

func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}

func LookupEnv(k string) (string, bool) {
	if n := CurNode(); n != nil {
		v, ok := n.Env[k]
		return v, ok
	}
	if S != nil {
		return "", false
	}
	return os.LookupEnv(k)
}

func Hostname() (string, error) {
	if n := CurNode(); n != nil {
		return n.Name, nil
	}
	return "simhost", nil
}

func MkdirAll(p string, m os.FileMode) error { return nil }

// Exit ends the current process.
func Exit(code int) {
	s := live()
	if s == nil {
		return
	}
	if s.cur.Node == nil {
		panic(fmt.Sprintf("harness called os.Exit(%d)", code))
	}
	s.processDied(s.cur.Node, fmt.Sprintf("os.Exit(%d)", code), "")
}

func LogFatal(a ...any)            { log.Print(a...); fatalMsg(fmt.Sprint(a...)) }
func LogFatalf(f string, a ...any) { fatalMsg(fmt.Sprintf(f, a...)) }
func LogFatalln(a ...any)          { fatalMsg(fmt.Sprintln(a...)) }

func fatalMsg(m string) {
	s := live()
	if s == nil {
		return
	}
	s.Fatal("log.Fatal: " + m)
}

// Log replaces the bodies of the repository's logging functions.
func Log(level int, f string, a ...any) {
	s := S
	if s == nil {
		if level == 6 {
			panic(fmt.Sprintf(f, a...))
		}
		return
	}
	if s.tearing {
		return
	}
	if level >= 5 || s.Cfg.LogTo != nil {
		m := fmt.Sprintf(f, a...)
		if s.Cfg.LogTo != nil {
			if len(m) > 400 {
				m = m[:400] + "..."
			}
			s.Note("log%d %s", level, m)
		}
		if level == 5 {
			s.Fatal("logging.Fatal: " + m)
		}
		if level == 6 {
			panic(m)
		}
	}
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {}

// Interfaces is net.Interfaces.
func Interfaces() ([]net.Interface, error) {
	n := CurNode()
	name := "x"
	if n != nil {
		if n.HW != nil {
			return []net.Interface{{Index: 1, Name: "eth0", HardwareAddr: append(net.HardwareAddr{}, n.HW...)}}, nil
		}
		name = n.Name
	}
	h := uint64(1469598103934665603)
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	return []net.Interface{{Index: 1, Name: "eth0", HardwareAddr: net.HardwareAddr{2, byte(h), byte(h >> 8), byte(h >> 16), byte(h >> 24), byte(h >> 32)}}}, nil
}

// --- package-level variables

// Globals returns the state a package has in the current process, creating it with mk (and initialising with init) on
// first use. Outside any process the harness has its own instance.
func Globals[T any](pkg string, init func(*T)) *T {
	var m map[string]any
	if n := CurNode(); n != nil {
		m = n.Globals
	} else {
		if S != nil && S != hostSim {
			hostSim = S
			hostGlobals = map[string]any{}
		}
		m = hostGlobals
	}
	if g, ok := m[pkg]; ok {
		return g.(*T)
	}
	g := new(T)
	m[pkg] = g
	if s := live(); s != nil {
		s.cur.nopre++
		init(g)
		s.cur.nopre--
	} else {
		init(g)
	}
	return g
}

var hostGlobals = map[string]any{}
var hostSim *Sim

// --- maps

// MapIt iterates over a map in a seeded order, tolerating changes as Go does.
type MapIt[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func (it *MapIt[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		x, ok := it.m[key]
		if !ok {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = x
		}
		return true
	}
	return false
}

// MapStart begins a range over m; k and v are zero values to declare the loop variables from.
func MapStart[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K, V) {
	var k K
	var v V
	return MapIter(m), k, v
}

func MapStartK[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], K) {
	var k K
	return MapIter(m), k
}

func MapStartV[M ~map[K]V, K comparable, V any](m M) (*MapIt[K, V], V) {
	var v V
	return MapIter(m), v
}

func MapIter[M ~map[K]V, K comparable, V any](m M) *MapIt[K, V] {
	it := &MapIt[K, V]{m: m, keys: make([]K, 0, len(m))}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		sortKeys(it.keys)
		if s := live(); s != nil {
			p := s.Sched.Perm(len(it.keys))
			o := append([]K{}, it.keys...)
			for i, j := range p {
				it.keys[i] = o[j]
			}
		}
	}
	return it
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	t := reflect.TypeOf(keys).Elem()
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() })
		return
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() })
		return
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer, reflect.Func:
		panic("simrt: range over a map keyed by pointers has no reproducible order")
	}
	type kv struct {
		s string
		k K
	}
	l := make([]kv, len(keys))
	for i, k := range keys {
		l[i] = kv{fmt.Sprintf("%#v", k), k}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
	for i := range l {
		keys[i] = l[i].k
	}
}

type mapUse struct {
	r, w int
	node *Node
}

// MapR / MapW model the runtime's detection of conflicting map accesses: the access is given an extent in which other
// tasks may run; a conflicting access in that extent kills the process, as the Go runtime does.
func MapR(f func() any) { mapAccess(f, false) }
func MapW(f func() any) { mapAccess(f, true) }

func mapPtr(f func() any) (p uintptr) {
	defer func() { recover() }()
	v := reflect.ValueOf(f())
	if v.Kind() != reflect.Map {
		return 0
	}
	return v.Pointer()
}

func mapAccess(f func() any, w bool) {
	s := live()
	if s == nil || s.inHook || s.cur.Node == nil && s.cur.Name == "main" {
		return
	}
	if len(s.runq) == 0 && len(s.mapw) == 0 {
		return
	}
	p := mapPtr(f)
	if p == 0 {
		return
	}
	u := s.mapw[p]
	if u != nil {
		if u.w > 0 {
			if w {
				s.Fatal("fatal error: concurrent map writes")
			}
			s.Fatal("fatal error: concurrent map read and map write")
		}
		if w && u.r > 0 {
			s.Fatal("fatal error: concurrent map read and map write")
		}
	}
	if s.Cfg.MeanGap <= 0 || len(s.runq) == 0 || s.cur.nopre > 0 || s.Sched.N(3) != 0 {
		return
	}
	i := s.preIdx
	s.preIdx++
	if s.Cfg.MaskPre[i] || i >= s.Cfg.KeepPre {
		return
	}
	if u == nil {
		u = &mapUse{}
		s.mapw[p] = u
	}
	if w {
		u.w++
	} else {
		u.r++
	}
	s.yield()
	if w {
		u.w--
	} else {
		u.r--
	}
	if u.r == 0 && u.w == 0 {
		delete(s.mapw, p)
	}
}

// ECDSAGenerateKey is ecdsa.GenerateKey (the legacy curves' way): the coin that decides whether one byte more is read
// comes from the simulation.
func ECDSAGenerateKey(c elliptic.Curve, rand io.Reader) (*ecdsa.PrivateKey, error) {
	if randOf().U64()&1 == 0 {
		var b [1]byte
		_, _ = rand.Read(b[:])
	}
	n := c.Params().N
	for {
		b := make([]byte, (n.BitLen()+7)/8)
		if _, err := io.ReadFull(rand, b); err != nil {
			return nil, err
		}
		if x := len(b)*8 - n.BitLen(); x > 0 {
			b[0] >>= x
		}
		k := new(big.Int).SetBytes(b)
		if k.Sign() == 0 || k.Cmp(n) >= 0 {
			continue
		}
		key := &ecdsa.PrivateKey{D: k}
		key.PublicKey.Curve = c
		key.PublicKey.X, key.PublicKey.Y = c.ScalarBaseMult(k.Bytes())
		return key, nil
	}
}
