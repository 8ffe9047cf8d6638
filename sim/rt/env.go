package rt

import (
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"sort"
	"time"
)

// MapSeq2 and MapSeq1 replace ranging over a map in the code under test: the
// simulator chooses the iteration order.
func MapSeq2[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range mapOrder[M, K, V](m) {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

func MapSeq1[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range mapOrder[M, K, V](m) {
			if _, ok := m[k]; !ok {
				continue
			}
			if !yield(k) {
				return
			}
		}
	}
}

func mapOrder[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sortKeys(keys)
	Permute(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	return keys
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	strs := make([]string, len(keys))
	for i, k := range keys {
		v := reflect.ValueOf(k)
		switch v.Kind() {
		case reflect.String:
			strs[i] = v.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			strs[i] = fmt.Sprintf("%021d", v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			strs[i] = fmt.Sprintf("%021d", v.Uint())
		default:
			strs[i] = fmt.Sprintf("%#v", k)
		}
	}
	sort.Sort(&both[K]{keys, strs})
}

type both[K any] struct {
	k []K
	s []string
}

func (b *both[K]) Len() int           { return len(b.k) }
func (b *both[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *both[K]) Swap(i, j int) {
	b.k[i], b.k[j] = b.k[j], b.k[i]
	b.s[i], b.s[j] = b.s[j], b.s[i]
}

// Permute applies the run's iteration-order choice to n elements.
func Permute(n int, swap func(i, j int)) {
	mode, r := envMap()
	if n < 2 || r == nil {
		return
	}
	switch mode {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			swap(i, j)
		}
	case 2:
		for i := n - 1; i > 0; i-- {
			swap(i, r.Intn(i+1))
		}
	}
}

//go:norace
func envMap() (int, *Rng) { mapIters++; return mapMode, env }

// Perm is the order in which a select statement of the code under test looks at
// its n cases.
//
//go:norace
func Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	selects++
	if env == nil {
		return p
	}
	switch selMode {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
	case 2:
		for i := n - 1; i > 0; i-- {
			j := env.Intn(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	return p
}

// RecvZero and SendPair give the variables that a rewritten select needs.
func RecvZero[T any](<-chan T) (v T, ok bool)       { return }
func SendPair[T any](c chan<- T, v T) (chan<- T, T) { return c, v }

// PoolPick chooses what a pool holding n items does on Get: an index, or -1 for
// "the pool was emptied".
//
//go:norace
func PoolPick(n int) int {
	poolGets++
	if n == 0 || env == nil {
		return n - 1
	}
	switch poolMode {
	case 1:
		return -1
	case 2:
		if env.Chance(30) {
			return -1
		}
		poolHits++
		return env.Intn(n)
	}
	poolHits++
	return n - 1
}

// EnvUint64 is the simulator's answer to a request for randomness.
//
//go:norace
func EnvUint64() uint64 {
	if env == nil {
		return 4
	}
	return env.Next()
}

// ---- the host the process runs on ----------------------------------------------

var hostSeed uint64 // 0: the reference host

//go:norace
func hostPick(key string, n int) int {
	if hostSeed == 0 {
		return 0
	}
	h := hostSeed
	for i := 0; i < len(key); i++ {
		h = (h ^ uint64(key[i])) * 1099511628211
	}
	r := Rng{h}
	r.Next()
	return r.Intn(n)
}

var (
	envValues = [...]string{"", "", "", "1", "0", "true", "C", "ja_JP.UTF-8", "debug", "x", "mysql", "PostgreSQL", "strict", "10"}
	hostWords []string
)

// HostWords tells the simulator which words the code under test compares with.
func HostWords(w ...string) {
	if hostWords = append(hostWords, w...); len(hostWords) > 40 {
		hostWords = hostWords[:40]
	}
}

func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}

//go:norace
func LookupEnv(k string) (string, bool) {
	if v, ok := envSet[k]; ok {
		if v == nil {
			return "", false
		}
		return *v, true
	}
	return hostEnv(k)
}

//go:norace
func hostEnv(k string) (string, bool) {
	if len(hostWords) > 0 && hostPick("words "+k, 3) == 1 {
		return hostWords[hostPick("word "+k, len(hostWords))], true
	}
	i := hostPick("env "+k, len(envValues))
	return envValues[i], i > 1
}

func Environ() []string { return nil }

func Getpid() int  { return 4711 + hostPick("pid", 30000) }
func Getppid() int { return 1 + hostPick("ppid", 3) }

func Hostname() (string, error) {
	return [...]string{"host", "localhost", "db-1", "b"}[hostPick("hostname", 4)], nil
}

func Getwd() (string, error) {
	if cwd != "" {
		return cwd, nil
	}
	return hostWd(), nil
}

func hostWd() string { return [...]string{"/", "/home/x", "/tmp"}[hostPick("wd", 3)] }

func NumCPU() int { return [...]int{4, 1, 2, 3, 8, 64}[hostPick("cpu", 6)] }

func GOMAXPROCS(n int) int {
	if n <= 0 {
		return int(get("runtime.GOMAXPROCS", int64(NumCPU())))
	}
	return int(set("runtime.GOMAXPROCS", int64(NumCPU()), int64(n)))
}

func NumGoroutine() int {
	return [...]int{2, 5, 12, 40, 150, 1200, 30000}[hostPick("goroutines", 7)]
}

// ReadMemStats: a heap whose size is the host's.
func ReadMemStats(m *runtime.MemStats) {
	*m = runtime.MemStats{}
	n := uint64(1+hostPick("mem", 1000)) << 20
	m.Alloc, m.HeapAlloc, m.HeapInuse = n, n, n
	m.Sys, m.HeapSys, m.TotalAlloc = 2*n, 2*n, 10*n
	m.NumGC = uint32(hostPick("gc", 5000))
	m.Mallocs, m.Frees = n/64, n/128
	m.HeapObjects = m.Mallocs - m.Frees
}

// localZone sets the host's time zone.
func localZone() {
	h := [...]int{0, 9, -8, 5, -3, 14}[hostPick("zone", 6)]
	if h == 0 {
		time.Local = time.UTC
	} else {
		time.Local = time.FixedZone("X", h*3600)
	}
}

// CryptoReader stands in for crypto/rand.Reader.
var CryptoReader cryptoReader

type cryptoReader struct{}

func (cryptoReader) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(EnvUint64())
	}
	return len(b), nil
}

func CryptoRead(b []byte) (int, error) { return CryptoReader.Read(b) }
