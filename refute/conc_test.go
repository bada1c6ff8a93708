package refute

import (
	"fmt"
	"runtime"
	"sync"
	"testing"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

// together runs f n times at once and waits.
func together(n int, f func(i int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f(i)
		}()
	}
	close(start)
	wg.Wait()
}

// TestRefuteC01 drives the shared objects from many goroutines, under the race
// detector, in rounds whose outcome is fixed if the operations take effect one
// at a time.
func TestRefuteC01(t *testing.T) {
	run(t, "C01", "rounds of concurrent operations on one broker, one dealer and one id generator under the race detector; each round has an outcome that any one-at-a-time order gives", 12*time.Second, func(r *R) {
		var rmu sync.Mutex
		fail := func(key, f string, a ...any) {
			rmu.Lock()
			defer rmu.Unlock()
			r.Fail(key, f, a...)
		}
		for round := 0; round < r.N(120) && r.More(); round++ {
			n := 2 + r.rng.Intn(10)
			for _, sc := range []struct {
				name string
				f    func(n int, fail func(key, f string, a ...any))
			}{{"broker", brokerRound}, {"dealer", dealerRound}, {"ids", idRound}, {"mixed", mixedRound}} {
				what := func() string { return fmt.Sprintf("%s round with %d goroutines", sc.name, n) }
				r.Guard("panic", what, func() { sc.f(n, fail) })
				r.Eval(fmt.Sprintf("%s %d %d", sc.name, round, n))
			}
		}
	})
}

func count(n int, f func(i int) bool) int {
	var mu sync.Mutex
	c := 0
	together(n, func(i int) {
		if f(i) {
			mu.Lock()
			c++
			mu.Unlock()
		}
	})
	return c
}

func brokerRound(n int, fail func(key, f string, a ...any)) {
	b := wampproto.NewBroker()
	if c := count(n, func(int) bool { return b.AddSession(details(1)) == nil }); c != 1 {
		fail("broker-attach", "%d of %d concurrent AddSession(1) succeed", c, n)
	}
	together(n, func(i int) { _ = b.AddSession(details(uint64(i + 2))) })
	ids := make([]uint64, n)
	together(n, func(i int) {
		out, err := b.ReceiveMessage(uint64(i+2), messages.NewSubscribe(1, map[string]any{"match": "prefix"}, "a"))
		if err == nil {
			if s, ok := out.Message.(*messages.Subscribed); ok {
				ids[i] = s.SubscriptionID()
			}
		}
	})
	for i := range ids {
		if ids[i] == 0 || ids[i] != ids[0] {
			fail("broker-subscribe", "concurrent SUBSCRIBE of one topic gives ids %v", ids)
			return
		}
	}
	pubs := make([]uint64, n)
	together(n, func(i int) {
		p, err := b.ReceivePublish(1, messages.NewPublish(uint64(i), map[string]any{"acknowledge": true}, "a", nil, nil))
		if err == nil && p.Event != nil {
			pubs[i] = p.Event.PublicationID()
			if len(p.Recipients) != n {
				fail("broker-publish", "publication reaches %d of %d subscribers", len(p.Recipients), n)
			}
		}
	})
	seen := map[uint64]bool{}
	for _, p := range pubs {
		if p == 0 || seen[p] {
			fail("broker-pub-id", "concurrent PUBLISH gives publication ids %v", pubs)
			return
		}
		seen[p] = true
	}
	if c := count(n, func(i int) bool {
		_, err := b.ReceiveMessage(2, messages.NewUnsubscribe(uint64(i), ids[0]))
		return err == nil
	}); c != 1 {
		fail("broker-unsubscribe", "%d of %d concurrent UNSUBSCRIBE of one subscription succeed", c, n)
	}
	if c := count(n, func(i int) bool { return b.RemoveSession(2) == nil }); c != 1 {
		fail("broker-leave", "%d of %d concurrent RemoveSession(2) succeed", c, n)
	}
	together(n, func(i int) { _ = b.RemoveSession(uint64(i + 2)) })
	if b.HasSubscription("a") {
		fail("broker-left", "subscription survives its subscribers")
	}
}

func dealerRound(n int, fail func(key, f string, a ...any)) {
	d := wampproto.NewDealer()
	if c := count(n, func(int) bool { return d.AddSession(details(1)) == nil }); c != 1 {
		fail("dealer-attach", "%d of %d concurrent AddSession(1) succeed", c, n)
	}
	together(n, func(i int) { _ = d.AddSession(details(uint64(i + 2))) })
	if c := count(n, func(i int) bool {
		out, err := d.ReceiveMessage(uint64(i+2), messages.NewRegister(1, nil, "single"))
		if err != nil {
			return false
		}
		_, ok := out.Message.(*messages.Registered)
		return ok
	}); c != 1 {
		fail("dealer-register", "%d of %d concurrent REGISTER of one procedure succeed", c, n)
	}
	reg := make([]uint64, n)
	together(n, func(i int) {
		out, err := d.ReceiveMessage(uint64(i+2), messages.NewRegister(2, map[string]any{"invoke": "roundrobin"}, "shared"))
		if err == nil {
			if g, ok := out.Message.(*messages.Registered); ok {
				reg[i] = g.RegistrationID()
			}
		}
	})
	for i := range reg {
		if reg[i] == 0 || reg[i] != reg[0] {
			fail("dealer-shared", "concurrent REGISTER of a shared procedure gives ids %v", reg)
			return
		}
	}
	var mu sync.Mutex
	turns, invs := map[uint64]int{}, map[uint64]uint64{}
	together(3*n, func(i int) {
		out, err := d.ReceiveMessage(1, messages.NewCall(uint64(i+1), nil, "shared", nil, nil))
		if err == nil {
			if v, ok := out.Message.(*messages.Invocation); ok {
				mu.Lock()
				turns[out.Recipient]++
				invs[v.RequestID()] = out.Recipient
				mu.Unlock()
			}
		}
	})
	if len(invs) != 3*n {
		fail("dealer-invocations", "%d concurrent calls give %d different invocations", 3*n, len(invs))
	}
	for c, k := range turns {
		if k != 3 {
			fail("dealer-turns", "round-robin over %d callees in %d concurrent calls gives callee %d %d turns", n, 3*n, c, k)
		}
	}
	for inv, callee := range invs {
		if c := count(n, func(int) bool {
			_, err := d.ReceiveMessage(callee, messages.NewYield(inv, nil, nil, nil))
			return err == nil
		}); c != 1 {
			fail("dealer-answers", "%d of %d concurrent answers to one invocation are forwarded", c, n)
			return
		}
		break
	}
	if c := count(n, func(i int) bool {
		_, err := d.ReceiveMessage(2, messages.NewUnregister(uint64(i), reg[0]))
		return err == nil
	}); c != 1 {
		fail("dealer-unregister", "%d of %d concurrent UNREGISTER of one registration succeed", c, n)
	}
	if c := count(n, func(i int) bool { return d.RemoveSession(2) == nil }); c != 1 {
		fail("dealer-leave", "%d of %d concurrent RemoveSession(2) succeed", c, n)
	}
	together(n, func(i int) { _ = d.RemoveSession(uint64(i + 2)) })
	if d.HasProcedure("shared") || d.HasProcedure("single") {
		fail("dealer-left", "registration survives its callees")
	}
}

func idRound(n int, fail func(key, f string, a ...any)) {
	g := &wampproto.SessionScopeIDGenerator{}
	var mu sync.Mutex
	seen := map[uint64]bool{}
	together(n, func(int) {
		for k := 0; k < 50; k++ {
			id := g.NextID()
			mu.Lock()
			seen[id] = true
			mu.Unlock()
		}
	})
	for i := 1; i <= 50*n; i++ {
		if !seen[uint64(i)] {
			fail("ids", "%d concurrent NextID give %d different ids, %d is missing", 50*n, len(seen), i)
			return
		}
	}
}

// mixedRound: every operation against every other, for the race detector.
func mixedRound(n int, _ func(key, f string, a ...any)) {
	b, d := wampproto.NewBroker(), wampproto.NewDealer()
	topics := []string{"a", "a.b", "a.*", "b"}
	match := []string{"exact", "prefix", "wildcard", "exact"}
	together(n, func(i int) {
		id := uint64(i%4 + 1)
		for k := 0; k < 12; k++ {
			t := topics[(i+k)%4]
			o := map[string]any{"match": match[(i+k)%4], "invoke": "roundrobin", "acknowledge": true, "progress": k%2 == 0, "receive_progress": true}
			switch (i + k) % 6 {
			case 0:
				_ = b.AddSession(details(id))
				_ = d.AddSession(details(id))
			case 1:
				_, _ = b.ReceiveMessage(id, messages.NewSubscribe(uint64(k), o, t))
				_, _ = d.ReceiveMessage(id, messages.NewRegister(uint64(k), o, t))
			case 2:
				_, _ = b.ReceivePublish(id, messages.NewPublish(uint64(k), o, t, nil, nil))
				if out, err := d.ReceiveMessage(id, messages.NewCall(uint64(k), o, t, nil, nil)); err == nil {
					if v, ok := out.Message.(*messages.Invocation); ok {
						_, _ = d.ReceiveMessage(out.Recipient, messages.NewYield(v.RequestID(), o, nil, nil))
						_, _ = d.ReceiveMessage(out.Recipient, messages.NewError(messages.MessageTypeInvocation, v.RequestID(), nil, "e", nil, nil))
					}
				}
			case 3:
				b.HasSubscription(t)
				d.HasProcedure(t)
			case 4:
				b.AutoDisclosePublisher(k%2 == 0)
				d.AutoDiscloseCaller(k%2 == 0)
				_, _ = b.ReceiveMessage(id, messages.NewUnsubscribe(uint64(k), uint64(k%3+1)))
				_, _ = d.ReceiveMessage(id, messages.NewUnregister(uint64(k), uint64(k%3+1)))
			case 5:
				_ = b.RemoveSession(id)
				_ = d.RemoveSession(id)
			}
			runtime.Gosched()
		}
	})
}
