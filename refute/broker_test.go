package refute

import (
	"fmt"
	"path"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

// A model of the broker: who is subscribed to which topic or pattern.

type bsub struct {
	id    uint64
	match string
	subs  map[uint64]bool
}

type brokerRun struct {
	r        *R
	b        *wampproto.Broker
	sessions map[uint64]*wampproto.SessionDetails
	topics   map[string]*bsub
	subIDs   map[uint64]string // subscription ids ever given out
	pubIDs   map[uint64]bool
	disclose bool
	hist     []string
	req      uint64
	failed   bool
	events   []sentEvent
}

// sentEvent is an event given out, and what it said then.
type sentEvent struct {
	e       *messages.Event
	details map[string]any
	args    []any
	kw      map[string]any
}

const observer = 9999

var brokerTopics = []string{"a", "a.b", "a.b.c", "a.bc", "a.b.c.d", "b", "b.c", "ab", "", "a.*", "a.*.c", "*.b", "?.b", "*", "[ab]", "[", "a.", "x/y", "x/*", "\xff"}

func newBrokerRun(r *R) *brokerRun {
	m := &brokerRun{r: r, b: wampproto.NewBroker(), sessions: map[uint64]*wampproto.SessionDetails{}, topics: map[string]*bsub{},
		subIDs: map[uint64]string{}, pubIDs: map[uint64]bool{}}
	return m
}

func (m *brokerRun) log(f string, a ...any) { m.hist = append(m.hist, fmt.Sprintf(f, a...)) }

func (m *brokerRun) desc() string {
	h := m.hist
	if len(h) > 60 {
		h = append([]string{"..."}, h[len(h)-60:]...)
	}
	return "history:\n  " + strings.Join(h, "\n  ")
}

// fail reports a violation of the named properties.
func (m *brokerRun) fail(props, key, f string, a ...any) {
	m.failed = true
	for _, p := range strings.Fields(props) {
		if p == m.r.prop {
			m.r.Fail(key, "%s\n%s", fmt.Sprintf(f, a...), m.desc())
			return
		}
	}
	m.r.Sibling(props, key, "%s\n%s", fmt.Sprintf(f, a...), m.desc())
}

func details(id uint64) *wampproto.SessionDetails {
	return wampproto.NewSessionDetails(id, "realm", fmt.Sprintf("user%d", id), fmt.Sprintf("role%d", id), "ticket", id%2 == 0, nil, nil)
}

func (m *brokerRun) add(id uint64) {
	d := details(id)
	m.log("AddSession(%d)", id)
	err := m.b.AddSession(d)
	_, known := m.sessions[id]
	if (err != nil) != known {
		m.fail("B03", "attach", "AddSession(%d), attached before: %v, gives %v", id, known, err)
	}
	if !known {
		m.sessions[id] = d
	}
}

func (m *brokerRun) remove(id uint64) {
	m.log("RemoveSession(%d)", id)
	err := m.b.RemoveSession(id)
	_, known := m.sessions[id]
	if (err == nil) != known {
		m.fail("B02", "leave", "RemoveSession(%d), attached before: %v, gives %v", id, known, err)
	}
	delete(m.sessions, id)
	for t, s := range m.topics {
		delete(s.subs, id)
		if len(s.subs) == 0 {
			delete(m.topics, t)
		}
	}
}

func (m *brokerRun) subscribe(id uint64, topic string, opts map[string]any) {
	m.req++
	m.log("Subscribe(session %d, request %d, %q, %v)", id, m.req, topic, opts)
	out, err := m.b.ReceiveMessage(id, messages.NewSubscribe(m.req, opts, topic))
	if _, ok := m.sessions[id]; !ok {
		if err == nil || out != nil {
			m.fail("B03", "unknown-session", "SUBSCRIBE from unknown session %d gives %v, %v", id, out, err)
		}
		return
	}
	if err != nil || out == nil {
		m.fail("B03", "subscribe-refused", "SUBSCRIBE of attached session %d gives %v, %v", id, out, err)
		return
	}
	s, ok := out.Message.(*messages.Subscribed)
	if !ok || out.Recipient != id || s.RequestID() != m.req {
		m.fail("B03", "subscribed", "SUBSCRIBE answered by %#v to %d", out.Message, out.Recipient)
		return
	}
	t := m.topics[topic]
	if t == nil {
		if _, used := m.subIDs[s.SubscriptionID()]; used {
			m.fail("B03", "id-reused", "subscription id %d of %q was given before, to %q", s.SubscriptionID(), topic, m.subIDs[s.SubscriptionID()])
		}
		if m.pubIDs[s.SubscriptionID()] {
			m.fail("B03", "id-reused-pub", "subscription id %d of %q is a publication id", s.SubscriptionID(), topic)
		}
		t = &bsub{id: s.SubscriptionID(), match: "exact", subs: map[uint64]bool{}}
		if v, ok := opts["match"].(string); ok && (v == "prefix" || v == "wildcard") {
			t.match = v
		}
		m.topics[topic] = t
		m.subIDs[t.id] = topic
	} else if t.id != s.SubscriptionID() {
		m.fail("B03", "id-not-shared", "session %d gets subscription id %d for %q, others have %d", id, s.SubscriptionID(), topic, t.id)
	}
	t.subs[id] = true
}

func (m *brokerRun) unsubscribe(id, sub uint64) {
	m.req++
	m.log("Unsubscribe(session %d, request %d, subscription %d)", id, m.req, sub)
	out, err := m.b.ReceiveMessage(id, messages.NewUnsubscribe(m.req, sub))
	topic, held := "", false
	for t, s := range m.topics {
		if s.id == sub && s.subs[id] {
			topic, held = t, true
		}
	}
	if _, ok := m.sessions[id]; !ok {
		held = false
	}
	if !held {
		if err == nil || out != nil {
			m.fail("B02", "unsubscribe-not-held", "UNSUBSCRIBE by %d of %d, which it does not hold, gives %v, %v", id, sub, out, err)
		}
		return
	}
	if err != nil || out == nil {
		m.fail("B02", "unsubscribe-refused", "UNSUBSCRIBE by %d of %d gives %v, %v", id, sub, out, err)
		return
	}
	u, ok := out.Message.(*messages.Unsubscribed)
	if !ok || out.Recipient != id || u.RequestID() != m.req {
		m.fail("B02", "unsubscribed", "UNSUBSCRIBE answered by %#v to %d", out.Message, out.Recipient)
	}
	t := m.topics[topic]
	delete(t.subs, id)
	if len(t.subs) == 0 {
		delete(m.topics, topic)
	}
}

// best gives the subscriptions one of which must be selected.
func (m *brokerRun) best(topic string) (out []string) {
	if m.topics[topic] != nil {
		return []string{topic}
	}
	longest := -1
	for t, s := range m.topics {
		if s.match == "prefix" && strings.HasPrefix(topic, t) && len(t) > longest {
			longest = len(t)
			out = []string{t}
		}
	}
	if longest >= 0 {
		return
	}
	for t, s := range m.topics {
		if s.match == "wildcard" {
			if ok, err := path.Match(t, topic); ok && err == nil {
				out = append(out, t)
			}
		}
	}
	return
}

// publish checks one publication; after says what just happened to the subscriptions.
func (m *brokerRun) publish(id uint64, topic string, opts map[string]any, args []any, kw map[string]any, after string) {
	m.req++
	m.log("Publish(session %d, request %d, %q, %v, %v, %v)", id, m.req, topic, opts, args, kw)
	p, err := m.b.ReceivePublish(id, messages.NewPublish(m.req, opts, topic, args, kw))
	if _, ok := m.sessions[id]; !ok {
		if err == nil || p != nil {
			m.fail("B01", "publish-unknown", "PUBLISH from unknown session %d gives %v, %v", id, p, err)
		}
		return
	}
	if err != nil || p == nil {
		m.fail("B01", "publish-refused", "PUBLISH from session %d gives %v, %v", id, p, err)
		return
	}
	route := "B01"
	if after == "removal" {
		route = "B01 B02"
	}
	if after == "disclosure" {
		route = "B01 B05"
	}
	best := m.best(topic)
	if (p.Event != nil) != (len(best) > 0) {
		m.fail(route, "event-"+after, "publication on %q: event %v, matching subscriptions %q", topic, p.Event != nil, best)
		return
	}
	var pub uint64
	if p.Event != nil {
		got := append([]uint64{}, p.Recipients...)
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		found := false
		for _, t := range best {
			s := m.topics[t]
			if s.id != p.Event.SubscriptionID() {
				continue
			}
			found = true
			want := []uint64{}
			for k := range s.subs {
				want = append(want, k)
			}
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			if !reflect.DeepEqual(got, want) {
				m.fail(route, "recipients-"+after, "publication on %q is delivered to %v, subscribed are %v", topic, got, want)
			}
		}
		if !found {
			m.fail(route+" B04 B03", "subscription-"+after, "publication on %q is an event of subscription %d (%q), best match is %q", topic, p.Event.SubscriptionID(), m.subIDs[p.Event.SubscriptionID()], best)
		}
		if !sameContent(p.Event.Args(), args) || !reflect.DeepEqual(p.Event.KwArgs(), kw) {
			m.fail("B04", "content", "published %v %v, event has %v %v", args, kw, p.Event.Args(), p.Event.KwArgs())
		}
		pub = p.Event.PublicationID()
		want := map[string]any{}
		if m.disclose {
			d := m.sessions[id]
			want = map[string]any{"topic": topic, "publisher": id, "publisher_authid": d.AuthID(), "publisher_authrole": d.AuthRole()}
		}
		if len(p.Event.Details()) != len(want) || len(want) > 0 && !reflect.DeepEqual(p.Event.Details(), want) {
			m.fail("B05", "details", "disclosure %v: event details %v, expected %v", m.disclose, p.Event.Details(), want)
		}
		m.events = append(m.events, sentEvent{p.Event, want, args, kw})
	} else if len(p.Recipients) > 0 {
		m.fail("B01", "recipients-no-event", "no event but recipients %v", p.Recipients)
	}
	ack, _ := opts["acknowledge"].(bool)
	if (p.Ack != nil) != ack {
		m.fail("B04", "ack", "acknowledge option %v: acknowledgement %v", opts["acknowledge"], p.Ack)
	} else if ack {
		a, ok := p.Ack.Message.(*messages.Published)
		if !ok || p.Ack.Recipient != id || a.RequestID() != m.req {
			m.fail("B04", "ack-to", "acknowledgement %#v to %d for request %d of %d", p.Ack.Message, p.Ack.Recipient, m.req, id)
		} else if p.Event != nil && a.PublicationID() != pub {
			m.fail("B04", "ack-id", "acknowledged publication %d, event has %d", a.PublicationID(), pub)
		} else {
			pub = a.PublicationID()
		}
	}
	if p.Event != nil || ack {
		if m.pubIDs[pub] {
			m.fail("B04", "pub-id-reused", "publication id %d was used before", pub)
		}
		if _, ok := m.subIDs[pub]; ok || pub == 0 {
			m.fail("B04", "pub-id", "publication id %d", pub)
		}
		m.pubIDs[pub] = true
	}
}

func sameContent(a, b []any) bool {
	return len(a) == len(b) && (len(a) == 0 || reflect.DeepEqual(a, b))
}

// probe compares everything observable with the model.
func (m *brokerRun) probe(topics []string, after string) {
	if m.sessions[observer] == nil {
		return
	}
	for _, t := range topics {
		if m.failed {
			return
		}
		has := m.b.HasSubscription(t)
		if has != (m.topics[t] != nil) {
			m.fail("B03", "has-subscription", "HasSubscription(%q) = %v, subscribers: %v", t, has, m.topics[t] != nil)
		}
		m.publish(observer, t, nil, nil, nil, after)
		m.hist = m.hist[:len(m.hist)-1]
	}
}

// recheck tells whether events given out earlier still say the same.
func (m *brokerRun) recheck() {
	for _, s := range m.events {
		if len(s.e.Details()) != len(s.details) || len(s.details) > 0 && !reflect.DeepEqual(s.e.Details(), s.details) {
			m.fail("B05", "details-later", "event %d had details %v, later %v", s.e.PublicationID(), s.details, s.e.Details())
		}
		if !sameContent(s.e.Args(), s.args) || len(s.e.KwArgs()) != len(s.kw) || len(s.kw) > 0 && !reflect.DeepEqual(s.e.KwArgs(), s.kw) {
			m.fail("B04", "content-later", "event %d had content %v %v, later %v %v", s.e.PublicationID(), s.args, s.kw, s.e.Args(), s.e.KwArgs())
		}
	}
	if len(m.events) > 8 {
		m.events = append([]sentEvent{}, m.events[len(m.events)-4:]...)
	}
}

func (m *brokerRun) setDisclose(v bool) {
	m.log("AutoDisclosePublisher(%v)", v)
	m.b.AutoDisclosePublisher(v)
	m.disclose = v
}

var brokerOpts = []map[string]any{nil, {}, {"match": "exact"}, {"match": "prefix"}, {"match": "prefix"}, {"match": "wildcard"}, {"match": "wildcard"}, {"match": "other"}, {"match": 1}, {"match": nil}}
var brokerPub = []map[string]any{nil, {}, {"acknowledge": true}, {"acknowledge": true}, {"acknowledge": false}, {"acknowledge": 1}, {"acknowledge": "true"}, {"acknowledge": nil}, {"exclude_me": false, "acknowledge": true}}
var brokerArgs = [][]any{nil, {}, {1}, {"x", nil, []any{1}}, {map[string]any{"k": 1}}}
var brokerKw = []map[string]any{nil, {}, {"k": 1}, {"a": nil, "b": []any{}}}

func brokerHistory(r *R, steps int) {
	m := newBrokerRun(r)
	pool := []uint64{0, 1, 2, 3, 4, 1 << 53}
	topics := brokerTopics
	if r.rng.Intn(2) == 0 { // few topics: more sharing
		k := r.rng.Intn(len(topics) - 4)
		topics = topics[k : k+4]
	}
	m.add(observer)
	for _, id := range pool {
		if r.rng.Intn(4) > 0 {
			m.add(id)
		}
	}
	pick := func() uint64 { return pool[r.rng.Intn(len(pool))] }
	for i := 0; i < steps && !m.failed; i++ {
		after := "publish"
		switch n := r.rng.Intn(20); {
		case n < 7:
			m.subscribe(pick(), topics[r.rng.Intn(len(topics))], brokerOpts[r.rng.Intn(len(brokerOpts))])
			after = "subscribe"
		case n < 11:
			id := pick()
			sub := uint64(r.rng.Intn(8))
			var ids []uint64
			for _, t := range sortedTopics(m.topics) {
				ids = append(ids, m.topics[t].id)
			}
			if len(ids) > 0 && r.rng.Intn(5) > 0 {
				sub = ids[r.rng.Intn(len(ids))]
			}
			m.unsubscribe(id, sub)
			after = "removal"
		case n < 12:
			m.remove(pick())
			after = "removal"
		case n < 14:
			m.add(pick())
			after = "attach"
		case n < 15:
			m.setDisclose(r.rng.Intn(2) == 0)
			after = "disclosure"
		default:
			m.publish(pick(), topics[r.rng.Intn(len(topics))], brokerPub[r.rng.Intn(len(brokerPub))], brokerArgs[r.rng.Intn(len(brokerArgs))], brokerKw[r.rng.Intn(len(brokerKw))], "publish")
		}
		m.probe(topics, after)
		m.recheck()
	}
	r.Eval(strings.Join(m.hist, "; "))
}

func sortedTopics[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// brokerCrowd: many subscribers of one topic, leaving one by one.
func brokerCrowd(r *R, n int) {
	m := newBrokerRun(r)
	m.add(observer)
	for i := 1; i <= n; i++ {
		m.add(uint64(i))
		m.subscribe(uint64(i), "a.b", brokerOpts[r.rng.Intn(len(brokerOpts))])
		if i%3 == 0 {
			m.subscribe(uint64(i), "a", map[string]any{"match": "prefix"})
		}
	}
	m.probe(brokerTopics, "subscribe")
	for i := 1; i <= n && !m.failed; i++ {
		if i%2 == 0 {
			m.remove(uint64(i))
		} else if t := m.topics["a.b"]; t != nil {
			m.unsubscribe(uint64(i), t.id)
		}
		m.probe([]string{"a.b", "a", "a.b.c"}, "removal")
	}
	r.Eval(strings.Join(m.hist, "; "))
}

func refuteBroker(t *testing.T, id string) {
	run(t, id, "seeded histories of attach, leave, subscribe, unsubscribe, publish and disclosure over overlapping topics and patterns, every topic probed after every step", 6*time.Second, func(r *R) {
		var cur *brokerRun
		_ = cur
		for _, n := range []int{1, 2, 5, 33} {
			r.Guard("panic", func() string { return fmt.Sprintf("%d subscribers of one topic", n) }, func() { brokerCrowd(r, n) })
		}
		for k := 0; k < r.N(4000) && r.More(); k++ {
			steps := 5 + r.rng.Intn(60)
			r.Guard("panic", func() string { return fmt.Sprintf("history %d of %d steps", k, steps) }, func() { brokerHistory(r, steps) })
		}
	})
}

func TestRefuteB01(t *testing.T) { refuteBroker(t, "B01") }
func TestRefuteB02(t *testing.T) { refuteBroker(t, "B02") }
func TestRefuteB03(t *testing.T) { refuteBroker(t, "B03") }
func TestRefuteB04(t *testing.T) { refuteBroker(t, "B04") }
func TestRefuteB05(t *testing.T) { refuteBroker(t, "B05") }
