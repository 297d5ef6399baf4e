package main

// In-process harness of check P12: compiles the sources of VERIF_IN many times, one after
// another and concurrently, and compares every module with the one in the .ll file beside
// the source (absent: the source is ill-formed). Run under the race detector.

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type verifSrc struct {
	name string
	data []byte
	want string
	ok   bool
}

// slowReader returns short reads and yields now and then
type slowReader struct {
	r    *bytes.Reader
	rng  *rand.Rand
	slow bool
}

func (s *slowReader) Read(p []byte) (int, error) {
	if s.slow && s.rng.Intn(200) == 0 {
		time.Sleep(time.Duration(s.rng.Intn(50)) * time.Microsecond)
	}
	return s.r.Read(p)
}

func verifModule(s *verifSrc, rng *rand.Rand, slow bool) (string, error) {
	args := NewCompileOptions("blang", []string{s.name})
	args.OutputType = OutputIR
	c := NewCompiler(args)
	l := NewLexer(args, &slowReader{bytes.NewReader(s.data), rng, slow})
	if err := ParseDeclarations(l, c); err != nil {
		return "", err
	}
	return c.GetModule().String(), nil
}

func TestVerifIsolation(t *testing.T) {
	in, out := os.Getenv("VERIF_IN"), os.Getenv("VERIF_OUT")
	if in == "" {
		t.Skip("VERIF_IN not set")
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	rounds, _ := strconv.Atoi(os.Getenv("VERIF_ROUNDS"))
	names, _ := filepath.Glob(filepath.Join(in, "*.b"))
	sort.Strings(names)
	var srcs []*verifSrc
	for _, n := range names {
		d, err := os.ReadFile(n)
		if err != nil {
			t.Fatal(err)
		}
		w, err := os.ReadFile(strings.TrimSuffix(n, ".b") + ".ll")
		srcs = append(srcs, &verifSrc{n, d, string(w), err == nil})
	}
	var compiled, refused, overlapped, maxRunning int64
	var running int64
	var mu sync.Mutex
	orders := map[string]bool{}
	bad := 0
	report := func(format string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		bad++
		if bad <= 5 {
			fmt.Printf("VERIF-MISMATCH "+format+"\n", a...)
		}
	}
	one := func(s *verifSrc, rng *rand.Rand, slow bool, how string) {
		n := atomic.AddInt64(&running, 1)
		if n > 1 {
			atomic.AddInt64(&overlapped, 1)
		}
		for {
			m := atomic.LoadInt64(&maxRunning)
			if n <= m || atomic.CompareAndSwapInt64(&maxRunning, m, n) {
				break
			}
		}
		defer atomic.AddInt64(&running, -1)
		defer func() {
			if r := recover(); r != nil {
				report("%s: panic compiling %s: %v", how, s.name, r)
			}
		}()
		got, err := verifModule(s, rng, slow)
		if (err == nil) != s.ok {
			report("%s: %s: verdict differs (%v)", how, s.name, err)
		} else if got != s.want {
			report("%s: %s: module differs from the one of the command", how, s.name)
		}
		if err == nil {
			atomic.AddInt64(&compiled, 1)
		} else {
			atomic.AddInt64(&refused, 1)
		}
	}
	rng := rand.New(rand.NewSource(seed))
	// one after another, any history
	for r := 0; r < rounds; r++ {
		for _, i := range rng.Perm(len(srcs)) {
			one(srcs[i], rng, false, "in sequence")
		}
	}
	// concurrently
	for r := 0; r < rounds; r++ {
		var wg sync.WaitGroup
		k := 2 + rng.Intn(14)
		var order []string
		for g := 0; g < k; g++ {
			wg.Add(1)
			go func(g int, seed int64) {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed))
				for j := 0; j < 4; j++ {
					one(srcs[rng.Intn(len(srcs))], rng, true, "concurrently")
					mu.Lock()
					order = append(order, strconv.Itoa(g))
					mu.Unlock()
				}
			}(g, rng.Int63())
		}
		wg.Wait()
		orders[strings.Join(order, ",")] = true
	}
	// whole compilations to files, concurrently, several inputs each
	for r := 0; r < rounds; r++ {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int, seed int64) {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed))
				s := srcs[rng.Intn(len(srcs))]
				f := filepath.Join(out, fmt.Sprintf("o%d.ll", g))
				os.Remove(f)
				args := NewCompileOptions("blang", []string{s.name})
				args.OutputType = OutputIR
				args.OutputFile = f
				err := Compile(args)
				got, rerr := os.ReadFile(f)
				if (err == nil) != s.ok || (rerr == nil) != s.ok || string(got) != s.want {
					report("Compile concurrently: %s: verdict %v, output differs", s.name, err)
				}
				atomic.AddInt64(&compiled, 1)
			}(g, rng.Int63())
		}
		wg.Wait()
	}
	fmt.Printf("VERIF-STATS sources=%d compiled=%d refused=%d overlapped=%d max_running=%d interleavings=%d mismatches=%d\n",
		len(srcs), compiled, refused, overlapped, maxRunning, len(orders), bad)
	if bad > 0 {
		t.Fail()
	}
}
