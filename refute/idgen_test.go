package refute

import (
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"testing"
	"time"
	"unsafe"

	wampproto "github.com/xconnio/wampproto-go"
)

const topID = uint64(1) << 53

// counterAt gives a generator whose last id was n; its only number is the counter.
func counterAt(r *R, n uint64) *wampproto.SessionScopeIDGenerator {
	g := &wampproto.SessionScopeIDGenerator{}
	v := reflect.ValueOf(g).Elem()
	var at []int
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Uint64 {
			at = append(at, i)
		}
	}
	if len(at) != 1 {
		return nil
	}
	*(*uint64)(unsafe.Pointer(v.Field(at[0]).UnsafeAddr())) = n
	return g
}

func TestRefuteI01(t *testing.T) {
	if os.Getenv("REFUTE_IDS") != "" {
		for i := 0; i < 32; i++ {
			fmt.Printf("ID %d\n", wampproto.GenerateID())
		}
		return
	}
	run(t, "I01", "a run of a generator, or a batch of global ids", 4*time.Second, func(r *R) {
		g := &wampproto.SessionScopeIDGenerator{}
		for i := uint64(1); i <= 70000; i++ {
			if id := g.NextID(); id != i {
				r.Fail("sequence", "call %d of NextID on a new generator gives %d", i, id)
				break
			}
			if i%1000 == 0 {
				r.Eval(fmt.Sprintf("seq %d", i))
			}
		}
		starts := []uint64{topID - 3, topID - 2, topID - 1, topID, 1<<31 - 2, 1<<32 - 2, 1<<52 - 2, 1<<48 - 2}
		for i := 0; i < r.N(2000); i++ {
			starts = append(starts, uint64(r.rng.Int63n(int64(topID)))>>uint(r.rng.Intn(53)))
		}
		for _, s := range starts {
			g := counterAt(r, s)
			if g == nil {
				break
			}
			want := s
			for i := 0; i < 5; i++ {
				want++
				if want > topID {
					want = 1
				}
				if id := g.NextID(); id != want {
					r.Fail("step", "after id %d NextID gives %d, not %d", s+uint64(i), id, want)
				}
			}
			r.Eval(fmt.Sprintf("from %d", s))
		}
		seen := map[uint64]bool{}
		var high, low bool
		for i := 0; i < r.N(200000) && r.More(); i++ {
			id := wampproto.GenerateID()
			if id < 1 || id > topID {
				r.Fail("range", "GenerateID gives %d", id)
			}
			high = high || id > topID/2
			low = low || id <= topID/2
			if i < 2000 {
				if seen[id] {
					r.Fail("repeat", "GenerateID gives %d twice within 2000 ids", id)
				}
				seen[id] = true
			}
			if i%1000 == 0 {
				r.Eval(fmt.Sprintf("ids %d", i))
			}
		}
		if !high || !low {
			r.Fail("spread", "GenerateID uses only half of 1..2^53 (high %v, low %v)", high, low)
		}
		var runs []string
		for i := 0; i < 3; i++ {
			cmd := exec.Command(os.Args[0], "-test.run", "^TestRefuteI01$")
			cmd.Env = append(os.Environ(), "REFUTE_IDS=1")
			out, err := cmd.CombinedOutput()
			if err != nil {
				r.Fail("process", "a process that draws ids ends with %v\n%s", err, out)
				return
			}
			var ids []string
			for _, l := range strings.Split(string(out), "\n") {
				if strings.HasPrefix(l, "ID ") {
					ids = append(ids, l[3:])
				}
			}
			s := strings.Join(ids, " ")
			for _, o := range runs {
				if o == s {
					r.Fail("same-sequence", "two processes draw the same ids: %s", s)
				}
			}
			runs = append(runs, s)
			r.Eval("process " + s)
		}
	})
}
