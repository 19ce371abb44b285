// Searches for a concrete input on which the real code breaks a property.
// Run by the checks only after a proof obligation has failed (and by the
// thorough tier): it never decides a property, it supplies failing inputs.
package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"time"
)

var (
	rng      *rand.Rand
	deadline time.Time
	evals    int
	quota    = -1 // when not negative: remaining evaluations of a sub-search
	current  map[string]interface{}
)

func more() bool {
	evals++
	if quota >= 0 {
		quota--
		return quota >= 0
	}
	return time.Now().Before(deadline)
}

type kv = map[string]interface{}

func show(x interface{}) interface{} {
	switch v := x.(type) {
	case *big.Int:
		return "0x" + v.Text(16)
	case []byte:
		return hex.EncodeToString(v)
	case [32]byte:
		return hex.EncodeToString(v[:])
	case fmt.Stringer:
		return v.String()
	}
	return fmt.Sprint(x)
}

func fail(what string, m kv) {
	out := kv{"what": what}
	for k, v := range m {
		out[k] = show(v)
	}
	b, _ := json.Marshal(out)
	fmt.Println("VERIF-FAIL " + string(b))
	os.Exit(1)
}

var props = map[string]func(){}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Float64("budget", 20, "seconds")
	flag.Parse()
	rng = rand.New(rand.NewSource(*seed))
	deadline = time.Now().Add(time.Duration(*budget * float64(time.Second)))
	f, ok := props[*prop]
	if !ok {
		fmt.Println("no falsifier for " + *prop)
		os.Exit(0)
	}
	defer func() {
		if e := recover(); e != nil {
			m := kv{"panic": fmt.Sprint(e), "stack": string(debug.Stack())}
			for k, v := range current {
				m[k] = v
			}
			fail("panic", m)
		}
	}()
	f()
	fmt.Printf("VERIF-OK evaluations=%d\n", evals)
}
