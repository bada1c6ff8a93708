package refute

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// A model of the client session: requests in flight and what is held.

// flaky serializes like another serializer, unless told to fail.
type flaky struct {
	serializers.Serializer
	fail bool
}

func (f *flaky) Serialize(m messages.Message) ([]byte, error) {
	if f.fail {
		return []byte("x"), errors.New("told to fail")
	}
	return f.Serializer.Serialize(m)
}

type sessRun struct {
	r     *R
	s     *wampproto.Session
	ser   *flaky
	reqs  map[string]map[uint64]uint64 // kind -> request id -> what it names
	regs  map[uint64]bool
	subs  map[uint64]bool
	hist  []string
	fails bool
}

const (
	kCall, kReg, kUnreg, kPub, kSub, kUnsub = "call", "register", "unregister", "publish", "subscribe", "unsubscribe"
)

var errTypes = map[string]uint64{kCall: messages.MessageTypeCall, kReg: messages.MessageTypeRegister, kUnreg: messages.MessageTypeUnregister,
	kPub: messages.MessageTypePublish, kSub: messages.MessageTypeSubscribe, kUnsub: messages.MessageTypeUnsubscribe}

func (m *sessRun) fail(props, key, f string, a ...any) {
	m.fails = true
	h := m.hist
	if len(h) > 50 {
		h = append([]string{"..."}, h[len(h)-50:]...)
	}
	for _, p := range strings.Fields(props) {
		if p == m.r.prop {
			m.r.Fail(key, "%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(h, "\n  "))
			return
		}
	}
	m.r.Sibling(props, key, "%s\nhistory:\n  %s", fmt.Sprintf(f, a...), strings.Join(h, "\n  "))
}

func show(m messages.Message) string { return fmt.Sprintf("%T%v", m, m.Marshal()) }

func (m *sessRun) send(msg messages.Message) {
	m.hist = append(m.hist, fmt.Sprintf("Send %s serializer fails: %v", show(msg), m.ser.fail))
	data, err := m.s.SendMessage(msg)
	ok := !m.ser.fail
	kind, id, names := "", uint64(0), uint64(0)
	switch v := msg.(type) {
	case *messages.Call:
		kind, id = kCall, v.RequestID()
	case *messages.Register:
		kind, id = kReg, v.RequestID()
	case *messages.Unregister:
		kind, id, names = kUnreg, v.RequestID(), v.RegistrationID()
	case *messages.Publish:
		if a, _ := v.Options()["acknowledge"].(bool); a {
			kind, id = kPub, v.RequestID()
		}
	case *messages.Subscribe:
		kind, id = kSub, v.RequestID()
	case *messages.Unsubscribe:
		kind, id, names = kUnsub, v.RequestID(), v.SubscriptionID()
		ok = ok && m.subs[names]
	case *messages.Error:
		ok = ok && v.MessageType() == messages.MessageTypeInvocation
	case *messages.Yield, *messages.GoodBye:
	default:
		ok = false
	}
	if (err == nil) != ok {
		m.fail("S03", "send", "sending %s gives error %v, expected success: %v", show(msg), err, ok)
		return
	}
	if err != nil {
		return
	}
	want, err := m.ser.Serializer.Serialize(msg)
	if err != nil || !bytes.Equal(want, data) && len(want) != len(data) {
		m.fail("S03", "data", "sending %s gives %q, serialized it is %q", show(msg), data, want)
	}
	if kind != "" {
		m.reqs[kind][id] = names
	}
}

func (m *sessRun) receive(msg messages.Message, wire bool) {
	m.hist = append(m.hist, fmt.Sprintf("Receive %s", show(msg)))
	var got messages.Message
	var err error
	if wire {
		data, e := m.ser.Serializer.Serialize(msg)
		if e != nil {
			return
		}
		got, err = m.s.Receive(data)
	} else {
		got, err = m.s.ReceiveMessage(msg)
	}
	ok, prop := false, "S01 S03" // accepted is what was sent: either may be at fault
	answer := func(kind string, id uint64, keep bool) bool {
		_, sent := m.reqs[kind][id]
		if sent && !keep {
			delete(m.reqs[kind], id)
		}
		return sent
	}
	switch v := msg.(type) {
	case *messages.Result:
		p, _ := v.Details()["progress"].(bool)
		ok = answer(kCall, v.RequestID(), p)
	case *messages.Registered:
		ok = answer(kReg, v.RequestID(), false)
		if ok {
			m.regs[v.RegistrationID()] = true
		}
	case *messages.Unregistered:
		reg := m.reqs[kUnreg][v.RequestID()]
		ok = answer(kUnreg, v.RequestID(), false) && m.regs[reg]
		if ok {
			delete(m.regs, reg)
		}
	case *messages.Published:
		ok = answer(kPub, v.RequestID(), false)
	case *messages.Subscribed:
		ok = answer(kSub, v.RequestID(), false)
		if ok {
			m.subs[v.SubscriptionID()] = true
		}
	case *messages.Unsubscribed:
		sub := m.reqs[kUnsub][v.RequestID()]
		ok = answer(kUnsub, v.RequestID(), false) && m.subs[sub]
		if ok {
			delete(m.subs, sub)
		}
	case *messages.Error:
		for kind, t := range errTypes {
			if t == v.MessageType() {
				ok = answer(kind, v.RequestID(), false)
			}
		}
	case *messages.Event:
		ok, prop = m.subs[v.SubscriptionID()], "S02"
	case *messages.Invocation:
		ok, prop = m.regs[v.RegistrationID()], "S02"
	case *messages.GoodBye, *messages.Abort:
		ok, prop = true, "S02"
	default:
		prop = "S02"
	}
	if (err == nil) != ok {
		m.fail(prop, fmt.Sprintf("receive %T", msg), "receiving %s gives %v, %v, expected to be accepted: %v", show(msg), got, err, ok)
		return
	}
	if err == nil && (got == nil || !wire && got != msg || wire && got.Type() != msg.Type()) {
		m.fail("S01 S02", "other-message", "receiving %s gives %v", show(msg), got)
	}
	if err != nil && got != nil && !reflect.ValueOf(got).IsNil() {
		m.fail("S01 S02", "message-with-error", "receiving %s gives %v and %v", show(msg), got, err)
	}
}

// probe checks everything that is held, which is observable without a change.
func (m *sessRun) probe() {
	for _, id := range sessIDs {
		if m.fails {
			return
		}
		n := len(m.hist)
		m.receive(messages.NewEvent(id, 1, nil, nil, nil), false)
		m.receive(messages.NewInvocation(1, id, nil, nil, nil), false)
		m.receive(messages.NewResult(id, map[string]any{"progress": true}, nil, nil), false)
		if !m.fails {
			m.hist = m.hist[:n]
		}
	}
}

// drain answers every request in flight, each twice.
func (m *sessRun) drain() {
	for _, id := range sessIDs {
		for k := 0; k < 2 && !m.fails; k++ {
			switch m.r.rng.Intn(2) {
			case 0:
				m.receive(messages.NewUnregistered(id), false)
				m.receive(messages.NewUnsubscribed(id), false)
				m.receive(messages.NewRegistered(id, id), false)
				m.receive(messages.NewSubscribed(id, id), false)
				m.receive(messages.NewPublished(id, id), false)
				m.receive(messages.NewResult(id, nil, nil, nil), false)
			default:
				for _, kind := range []string{kCall, kReg, kUnreg, kPub, kSub, kUnsub} {
					m.receive(messages.NewError(errTypes[kind], id, nil, "e.f", nil, nil), false)
				}
			}
			m.probe()
		}
	}
}

var sessIDs = []uint64{1, 2, 3, 1 << 53}
var sessFlags = []map[string]any{nil, {}, {"progress": true, "acknowledge": true}, {"progress": true, "acknowledge": true}, {"progress": false, "acknowledge": false}, {"progress": 1, "acknowledge": 1}, {"progress": "true", "acknowledge": "true"}}

func sessHistory(r *R, ser serializers.Serializer, steps int) {
	f := &flaky{Serializer: ser}
	m := &sessRun{r: r, s: wampproto.NewSession(f), ser: f, reqs: map[string]map[uint64]uint64{}, regs: map[uint64]bool{}, subs: map[uint64]bool{}}
	for k := range errTypes {
		m.reqs[k] = map[uint64]uint64{}
	}
	id := func() uint64 { return sessIDs[r.rng.Intn(len(sessIDs))] }
	opt := func() map[string]any { return clone(sessFlags[r.rng.Intn(len(sessFlags))]) }
	typ := func() uint64 {
		return []uint64{messages.MessageTypeCall, messages.MessageTypeRegister, messages.MessageTypeUnregister, messages.MessageTypePublish, messages.MessageTypeSubscribe,
			messages.MessageTypeUnsubscribe, messages.MessageTypeInvocation, 0, 1, messages.MessageTypeYield, messages.MessageTypeCancel}[r.rng.Intn(11)]
	}
	for i := 0; i < steps && !m.fails; i++ {
		if r.rng.Intn(2) == 0 {
			f.fail = r.rng.Intn(10) == 0
			m.send([]messages.Message{messages.NewCall(id(), opt(), "a.b", nil, nil), messages.NewCall(id(), opt(), "a.b", nil, nil), messages.NewRegister(id(), opt(), "a.b"), messages.NewUnregister(id(), id()),
				messages.NewPublish(id(), opt(), "a.b", nil, nil), messages.NewSubscribe(id(), opt(), "a.b"), messages.NewUnsubscribe(id(), id()), messages.NewYield(id(), opt(), nil, nil),
				messages.NewError(typ(), id(), nil, "e.f", nil, nil), messages.NewGoodBye("a.b", nil), messages.NewEvent(id(), id(), nil, nil, nil), messages.NewInvocation(id(), id(), nil, nil, nil),
				messages.NewResult(id(), opt(), nil, nil), messages.NewSubscribed(id(), id()), messages.NewRegistered(id(), id()), messages.NewPublished(id(), id()), messages.NewUnregistered(id()), messages.NewUnsubscribed(id()),
				messages.NewWelcome(id(), nil), messages.NewAbort(nil, "a.b", nil, nil), messages.NewChallenge("ticket", nil)}[r.rng.Intn(21)])
			f.fail = false
		} else {
			m.receive([]messages.Message{messages.NewResult(id(), opt(), nil, nil), messages.NewResult(id(), opt(), nil, nil), messages.NewRegistered(id(), id()), messages.NewRegistered(id(), id()), messages.NewUnregistered(id()), messages.NewUnregistered(id()),
				messages.NewInvocation(id(), id(), nil, nil, nil), messages.NewPublished(id(), id()), messages.NewSubscribed(id(), id()), messages.NewSubscribed(id(), id()), messages.NewUnsubscribed(id()), messages.NewUnsubscribed(id()),
				messages.NewEvent(id(), id(), nil, nil, nil), messages.NewError(typ(), id(), nil, "e.f", nil, nil), messages.NewError(typ(), id(), nil, "e.f", nil, nil), messages.NewGoodBye("a.b", nil), messages.NewAbort(map[string]any{}, "a.b", nil, nil),
				messages.NewCall(id(), nil, "a.b", nil, nil), messages.NewYield(id(), nil, nil, nil), messages.NewSubscribe(id(), nil, "a.b"), messages.NewUnsubscribe(id(), id()), messages.NewRegister(id(), nil, "a.b"), messages.NewUnregister(id(), id()),
				messages.NewPublish(id(), nil, "a.b", nil, nil), messages.NewWelcome(id(), nil), messages.NewChallenge("ticket", nil), messages.NewCancel(id(), nil), messages.NewInterrupt(id(), nil)}[r.rng.Intn(28)], r.rng.Intn(8) == 0)
		}
		if r.rng.Intn(3) == 0 {
			m.probe()
		}
	}
	if !m.fails {
		m.drain()
	}
	r.Eval(strings.Join(m.hist, "; "))
}

func refuteSession(t *testing.T, id string) {
	run(t, id, "seeded histories of sent and received messages of every kind over few ids, with failing serializations, against a model of the requests in flight", 6*time.Second, func(r *R) {
		sers := []serializers.Serializer{&serializers.JSONSerializer{}, &serializers.CBORSerializer{}, &serializers.MsgPackSerializer{}}
		for k := 0; k < r.N(6000) && r.More(); k++ {
			steps := 5 + r.rng.Intn(80)
			r.Guard("panic", func() string { return fmt.Sprintf("history %d of %d steps", k, steps) }, func() { sessHistory(r, sers[k%3], steps) })
		}
	})
}

func TestRefuteS01(t *testing.T) { refuteSession(t, "S01") }
func TestRefuteS02(t *testing.T) { refuteSession(t, "S02") }
func TestRefuteS03(t *testing.T) { refuteSession(t, "S03") }
