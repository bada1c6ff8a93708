package refute

import (
	"fmt"
	"path"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/messages"
)

// A model of the dealer: registrations, their callees in order, and the
// invocations in flight.

type dproc struct {
	id      uint64
	policy  string
	match   string
	callees []uint64
	next    int
	round   bool // a round was just completed: whoever joins now may come next or last
}

func (p *dproc) has(id uint64) bool {
	for _, c := range p.callees {
		if c == id {
			return true
		}
	}
	return false
}

func (p *dproc) drop(id uint64) {
	for i, c := range p.callees {
		if c == id {
			p.callees = append(append([]uint64{}, p.callees[:i]...), p.callees[i+1:]...)
			if i < p.next {
				p.next--
			}
			return
		}
	}
}

type dflight struct{ caller, req uint64 }

type dpending struct {
	flight   dflight
	callee   uint64
	progress bool
	receive  bool
}

type dealerRun struct {
	r        *R
	d        *wampproto.Dealer
	sessions map[uint64]*wampproto.SessionDetails
	procs    map[string]*dproc
	regIDs   map[uint64]string
	invIDs   map[uint64]bool
	left     map[uint64]bool // invocations forgotten because a party left
	pending  map[uint64]*dpending
	flights  map[dflight]uint64
	disclose bool
	hist     []string
	req      uint64
	failed   bool
	after    string
}

var dealerProcs = []string{"a", "a.b", "a.b.c", "a.bc", "a.b.c.d", "b", "b.c", "ab", "", "a.*", "a.*.c", "*.b", "?.b", "*", "[ab]", "[", "a.", "x/y", "x/*", "\xff"}

func newDealerRun(r *R) *dealerRun {
	return &dealerRun{r: r, d: wampproto.NewDealer(), sessions: map[uint64]*wampproto.SessionDetails{}, procs: map[string]*dproc{},
		regIDs: map[uint64]string{}, invIDs: map[uint64]bool{}, left: map[uint64]bool{}, pending: map[uint64]*dpending{}, flights: map[dflight]uint64{}}
}

func (m *dealerRun) log(f string, a ...any) { m.hist = append(m.hist, fmt.Sprintf(f, a...)) }

func (m *dealerRun) desc() string {
	h := m.hist
	if len(h) > 60 {
		h = append([]string{"..."}, h[len(h)-60:]...)
	}
	return "history:\n  " + strings.Join(h, "\n  ")
}

func (m *dealerRun) fail(props, key, f string, a ...any) {
	m.failed = true
	for _, p := range strings.Fields(props) {
		if p == m.r.prop {
			m.r.Fail(key, "%s\n%s", fmt.Sprintf(f, a...), m.desc())
			return
		}
	}
	m.r.Sibling(props, key, "%s\n%s", fmt.Sprintf(f, a...), m.desc())
}

func (m *dealerRun) add(id uint64) {
	d := details(id)
	m.log("AddSession(%d)", id)
	err := m.d.AddSession(d)
	_, known := m.sessions[id]
	if (err != nil) != known {
		m.fail("D09", "attach", "AddSession(%d), attached before: %v, gives %v", id, known, err)
	}
	if !known {
		m.sessions[id] = d
	}
}

func (m *dealerRun) forget(inv uint64) {
	p := m.pending[inv]
	delete(m.pending, inv)
	if m.flights[p.flight] == inv {
		delete(m.flights, p.flight)
	}
}

func (m *dealerRun) remove(id uint64) {
	m.log("RemoveSession(%d)", id)
	err := m.d.RemoveSession(id)
	_, known := m.sessions[id]
	if (err == nil) != known {
		m.fail("D09", "leave", "RemoveSession(%d), attached before: %v, gives %v", id, known, err)
	}
	if !known {
		return
	}
	delete(m.sessions, id)
	for t, p := range m.procs {
		p.drop(id)
		if len(p.callees) == 0 {
			delete(m.procs, t)
		}
	}
	for inv, p := range m.pending {
		if p.callee == id || p.flight.caller == id {
			m.left[inv] = true
			m.forget(inv)
		}
	}
}

// to checks that an answer to an attached session goes to an attached one.
func (m *dealerRun) to(from uint64, out *wampproto.MessageWithRecipient) {
	if m.sessions[from] != nil && out != nil && m.sessions[out.Recipient] == nil {
		m.fail("D09", "addressed-to-nobody", "%#v is addressed to %d, which is not attached", out.Message, out.Recipient)
	}
}

func (m *dealerRun) register(id uint64, proc string, opts map[string]any) {
	m.req++
	m.log("Register(session %d, request %d, %q, %v)", id, m.req, proc, opts)
	out, err := m.d.ReceiveMessage(id, messages.NewRegister(m.req, opts, proc))
	m.to(id, out)
	if _, ok := m.sessions[id]; !ok {
		if err == nil || out != nil {
			m.fail("D02", "unknown-session", "REGISTER from unknown session %d gives %v, %v", id, out, err)
		}
		return
	}
	if err != nil || out == nil || out.Recipient != id {
		m.fail("D02", "register-refused", "REGISTER of attached session %d gives %v, %v", id, out, err)
		return
	}
	policy, _ := opts["invoke"].(string)
	p := m.procs[proc]
	if p != nil && (p.policy == "" || p.policy == "single" || p.policy != policy) {
		e, ok := out.Message.(*messages.Error)
		if !ok || e.MessageType() != messages.MessageTypeRegister || e.RequestID() != m.req || e.URI() != "wamp.error.procedure_already_exists" {
			m.fail("D02", "not-exclusive", "REGISTER of %q, registered with policy %q, by %d with policy %q gives %#v", proc, p.policy, id, policy, out.Message)
		}
		return
	}
	g, ok := out.Message.(*messages.Registered)
	if !ok || g.RequestID() != m.req {
		m.fail("D02", "registered", "REGISTER of %q answered by %#v", proc, out.Message)
		return
	}
	if p == nil {
		if old, used := m.regIDs[g.RegistrationID()]; used {
			m.fail("D02", "id-reused", "registration id %d of %q was given before, to %q", g.RegistrationID(), proc, old)
		}
		p = &dproc{id: g.RegistrationID(), policy: policy, match: "exact"}
		if v, ok := opts["match"].(string); ok && (v == "prefix" || v == "wildcard") {
			p.match = v
		}
		m.procs[proc] = p
		m.regIDs[p.id] = proc
	} else if p.id != g.RegistrationID() {
		m.fail("D02", "id-not-shared", "session %d gets registration id %d for %q, others have %d", id, g.RegistrationID(), proc, p.id)
	}
	if !p.has(id) {
		p.callees = append(p.callees, id)
	}
}

func (m *dealerRun) unregister(id, reg uint64) {
	m.req++
	m.log("Unregister(session %d, request %d, registration %d)", id, m.req, reg)
	out, err := m.d.ReceiveMessage(id, messages.NewUnregister(m.req, reg))
	m.to(id, out)
	proc, held := "", false
	for t, p := range m.procs {
		if p.id == reg && p.has(id) && m.sessions[id] != nil {
			proc, held = t, true
		}
	}
	if !held {
		if err == nil || out != nil {
			m.fail("D03", "unregister-not-held", "UNREGISTER by %d of %d, which it does not hold, gives %v, %v", id, reg, out, err)
		}
		return
	}
	if err != nil || out == nil {
		m.fail("D03", "unregister-refused", "UNREGISTER by %d of %d gives %v, %v", id, reg, out, err)
		return
	}
	u, ok := out.Message.(*messages.Unregistered)
	if !ok || out.Recipient != id || u.RequestID() != m.req {
		m.fail("D03", "unregistered", "UNREGISTER answered by %#v to %d", out.Message, out.Recipient)
	}
	m.procs[proc].drop(id)
	if len(m.procs[proc].callees) == 0 {
		delete(m.procs, proc)
	}
}

func (m *dealerRun) best(proc string) (out []string) {
	if m.procs[proc] != nil {
		return []string{proc}
	}
	longest := -1
	for t, p := range m.procs {
		if p.match == "prefix" && strings.HasPrefix(proc, t) && len(t) > longest {
			longest = len(t)
			out = []string{t}
		}
	}
	if longest >= 0 {
		return
	}
	for t, p := range m.procs {
		if p.match == "wildcard" {
			if ok, err := path.Match(t, proc); ok && err == nil {
				out = append(out, t)
			}
		}
	}
	return
}

type payload struct {
	args   []any
	kw     map[string]any
	binary []byte
	ser    uint64
}

func (p payload) String() string {
	if p.binary != nil {
		return fmt.Sprintf("binary %x serializer %d", p.binary, p.ser)
	}
	return fmt.Sprintf("%v %v", p.args, p.kw)
}

type binaryPayload interface {
	PayloadIsBinary() bool
	Payload() []byte
	PayloadSerializer() uint64
	Args() []any
	KwArgs() map[string]any
}

// content checks that a forwarded message carries the payload.
func (m *dealerRun) content(what string, to uint64, p payload, got binaryPayload) {
	s := m.sessions[to]
	if s == nil {
		return
	}
	if p.binary != nil && s.StaticSerializer() {
		if !got.PayloadIsBinary() || !reflect.DeepEqual(got.Payload(), p.binary) || got.PayloadSerializer() != p.ser {
			m.fail("D08", "binary-content", "%s with %v is forwarded with binary %v, payload %x, serializer %d", what, p, got.PayloadIsBinary(), got.Payload(), got.PayloadSerializer())
		}
		return
	}
	if got.PayloadIsBinary() || !sameContent(got.Args(), p.args) || len(got.KwArgs()) != len(p.kw) || len(p.kw) > 0 && !reflect.DeepEqual(got.KwArgs(), p.kw) {
		m.fail("D08", "content", "%s with %v is forwarded with binary %v, %v %v", what, p, got.PayloadIsBinary(), got.Args(), got.KwArgs())
	}
}

// call checks one CALL and gives the invocation it led to.
func (m *dealerRun) call(id, req uint64, proc string, opts map[string]any, pl payload) (inv, callee uint64, ok bool) {
	opts = clone(opts)
	m.log("Call(session %d, request %d, %q, %v, %v)", id, req, proc, opts, pl)
	var c *messages.Call
	if pl.binary != nil {
		c = messages.NewCallBinary(req, opts, proc, pl.binary, pl.ser)
	} else {
		c = messages.NewCall(req, opts, proc, pl.args, pl.kw)
	}
	out, err := m.d.ReceiveMessage(id, c)
	m.to(id, out)
	if _, ok := m.sessions[id]; !ok {
		if err == nil || out != nil {
			m.fail("D01", "call-unknown", "CALL from unknown session %d gives %v, %v", id, out, err)
		}
		return 0, 0, false
	}
	route := "D01"
	if m.after == "removal" {
		route = "D01 D03"
	}
	if err != nil || out == nil {
		m.fail(route, "call-refused", "CALL of %q from session %d gives %v, %v", proc, id, out, err)
		return 0, 0, false
	}
	best := m.best(proc)
	if len(best) == 0 {
		e, ok := out.Message.(*messages.Error)
		if !ok || out.Recipient != id || e.MessageType() != messages.MessageTypeCall || e.RequestID() != req || e.URI() != "wamp.error.no_such_procedure" {
			m.fail(route, "no-such-procedure", "CALL of %q, which nobody registered, gives %#v to %d", proc, out.Message, out.Recipient)
		}
		return 0, 0, false
	}
	i, isInv := out.Message.(*messages.Invocation)
	if !isInv {
		m.fail(route, "not-invoked", "CALL of %q, registered as %q, gives %#v to %d", proc, best, out.Message, out.Recipient)
		return 0, 0, false
	}
	var p *dproc
	for _, t := range best {
		if m.procs[t].id == i.RegistrationID() {
			p = m.procs[t]
		}
	}
	if p == nil {
		m.fail(route+" D02", "registration", "CALL of %q goes to registration %d (%q), best match is %q", proc, i.RegistrationID(), m.regIDs[i.RegistrationID()], best)
		return 0, 0, false
	}
	inv, callee = i.RequestID(), out.Recipient
	if !p.has(callee) {
		m.fail(route+" D06", "callee", "CALL of %q is sent to %d, registered are %v", proc, callee, p.callees)
	}
	receive, _ := opts["receive_progress"].(bool)
	progress, _ := opts["progress"].(bool)
	fl := dflight{id, req}
	prev, flying := m.flights[fl]
	if flying && m.pending[prev].progress && p.has(m.pending[prev].callee) {
		if inv != prev || callee != m.pending[prev].callee {
			m.fail("D07", "not-continued", "CALL continues invocation %d at %d, but is sent as %d to %d", prev, m.pending[prev].callee, inv, callee)
		} else {
			m.pending[prev].progress = progress
		}
	} else {
		if m.pending[inv] != nil || m.invIDs[inv] {
			m.fail("D07 D04", "invocation-id-reused", "new CALL gets invocation id %d, used before", inv)
		}
		if len(p.callees) > 1 {
			want := p.callees
			switch p.policy {
			case "first":
				want = p.callees[:1]
			case "last":
				want = p.callees[len(p.callees)-1:]
			case "roundrobin":
				if p.next >= len(p.callees) {
					p.next = 0
				}
				want = p.callees[p.next : p.next+1]
				if p.round && callee == p.callees[0] {
					want, p.next = p.callees[:1], 0
				}
				p.next++
				p.round = p.next >= len(p.callees)
			}
			good := false
			for _, w := range want {
				good = good || w == callee
			}
			if !good {
				props := "D06"
				if m.after == "removal" {
					props = "D06 D03"
				}
				m.fail(props, "policy-"+p.policy, "CALL of %q with policy %q is sent to %d, turn of %v of %v", proc, p.policy, callee, want, p.callees)
			}
		}
		if !m.failed {
			m.invIDs[inv] = true
			m.pending[inv] = &dpending{flight: fl, callee: callee, progress: progress, receive: receive}
			m.flights[fl] = inv
		}
	}
	gr, gok := i.Details()["receive_progress"]
	gp, pok := i.Details()["progress"]
	if receive != (gok && gr == true) || progress != (pok && gp == true) {
		m.fail("D07", "announced", "CALL with options %v is sent with details %v", opts, i.Details())
	}
	want := map[string]any{}
	if m.disclose {
		d := m.sessions[id]
		want = map[string]any{"procedure": proc, "caller": id, "caller_authid": d.AuthID(), "caller_authrole": d.AuthRole()}
	}
	got := map[string]any{}
	for k, v := range i.Details() {
		if k != "progress" && k != "receive_progress" && k != "x_payload_serializer" {
			got[k] = v
		}
	}
	if !reflect.DeepEqual(got, want) {
		m.fail("D08", "details", "disclosure %v: invocation details %v, expected %v", m.disclose, i.Details(), want)
	}
	m.content("CALL", callee, pl, i)
	return inv, callee, !m.failed
}

// late names the properties that an answer to an invocation that is not pending breaks.
func (m *dealerRun) late(inv uint64) string {
	if m.left[inv] {
		return "D04 D09"
	}
	return "D04"
}

func (m *dealerRun) yield(id, inv uint64, opts map[string]any, pl payload) {
	opts = clone(opts)
	m.log("Yield(session %d, invocation %d, %v, %v)", id, inv, opts, pl)
	var y *messages.Yield
	if pl.binary != nil {
		y = messages.NewYieldBinary(inv, opts, pl.binary, pl.ser)
	} else {
		y = messages.NewYield(inv, opts, pl.args, pl.kw)
	}
	out, err := m.d.ReceiveMessage(id, y)
	m.to(id, out)
	p := m.pending[inv]
	if p == nil {
		if err == nil || out != nil {
			m.fail(m.late(inv), "late-answer", "YIELD to %d, which is not pending (a party left: %v), gives %v, %v", inv, m.left[inv], out, err)
		}
		return
	}
	progress, _ := opts["progress"].(bool)
	if p.callee != id {
		if err != nil && out == nil {
			return // refused, stays pending
		}
		m.r.Soft("D05", "yield-from-other-session", "YIELD from %d to invocation %d, sent to %d, gives %v, %v\n%s", id, inv, p.callee, out, err, m.desc())
		if out == nil {
			m.failed = true
			return
		}
	} else if err != nil || out == nil {
		m.fail("D04", "answer-refused", "YIELD from %d to its invocation %d gives %v, %v", id, inv, out, err)
		return
	}
	res, ok := out.Message.(*messages.Result)
	if !ok || out.Recipient != p.flight.caller || res.RequestID() != p.flight.req {
		m.fail("D04", "answer-to", "YIELD to invocation %d of call %d of %d gives %#v to %d", inv, p.flight.req, p.flight.caller, out.Message, out.Recipient)
		return
	}
	gp, has := res.Details()["progress"]
	if progress && p.receive {
		if !has || gp != true {
			m.fail("D04", "progressive", "progressive YIELD for a caller that asked for progress gives details %v", res.Details())
		}
	} else {
		if has && gp == true {
			m.fail("D04", "not-progressive", "YIELD %v, receive_progress %v, gives details %v", opts, p.receive, res.Details())
		}
		m.forget(inv)
	}
	for k := range res.Details() {
		if k != "progress" && k != "x_payload_serializer" {
			m.fail("D08", "result-details", "RESULT has details %v", res.Details())
		}
	}
	m.content("YIELD", p.flight.caller, pl, res)
}

func (m *dealerRun) error(id, inv, typ uint64, det map[string]any, uri string, pl payload) {
	m.log("Error(session %d, invocation %d, type %d, %v, %q, %v)", id, inv, typ, det, uri, pl)
	out, err := m.d.ReceiveMessage(id, messages.NewError(typ, inv, det, uri, pl.args, pl.kw))
	m.to(id, out)
	p := m.pending[inv]
	if p == nil || typ != messages.MessageTypeInvocation {
		if err == nil || out != nil {
			m.fail(m.late(inv), "late-error", "ERROR of type %d to %d, pending: %v, gives %v, %v", typ, inv, p != nil, out, err)
		}
		return
	}
	if p.callee != id {
		if err == nil || out != nil {
			m.fail("D05", "error-from-other-session", "ERROR from %d to invocation %d, sent to %d, gives %v, %v", id, inv, p.callee, out, err)
		}
		return
	}
	if err != nil || out == nil {
		m.fail("D04 D05", "error-refused", "ERROR from %d to its invocation %d gives %v, %v", id, inv, out, err)
		return
	}
	e, ok := out.Message.(*messages.Error)
	if !ok || out.Recipient != p.flight.caller || e.RequestID() != p.flight.req || e.MessageType() != messages.MessageTypeCall {
		m.fail("D04", "error-to", "ERROR to invocation %d of call %d of %d gives %#v to %d", inv, p.flight.req, p.flight.caller, out.Message, out.Recipient)
		return
	}
	if e.URI() != uri || !sameContent(e.Args(), pl.args) || len(e.KwArgs()) != len(pl.kw) || len(pl.kw) > 0 && !reflect.DeepEqual(e.KwArgs(), pl.kw) ||
		len(e.Details()) != len(det) || len(det) > 0 && !reflect.DeepEqual(e.Details(), det) {
		m.fail("D08", "error-content", "ERROR with %v %q %v is forwarded with %v %q %v %v", det, uri, pl, e.Details(), e.URI(), e.Args(), e.KwArgs())
	}
	m.forget(inv)
}

// clone protects the shared option maps: the constructors of binary messages write to them.
func clone(m map[string]any) map[string]any {
	if m == nil {
		return nil
	}
	out := map[string]any{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// probe calls every procedure once and answers.
func (m *dealerRun) probe(procs []string) {
	if m.sessions[observer] == nil {
		return
	}
	for _, t := range procs {
		if m.failed {
			return
		}
		if has := m.d.HasProcedure(t); has != (m.procs[t] != nil) {
			m.fail("D02 D03", "has-procedure", "HasProcedure(%q) = %v, registered: %v", t, has, m.procs[t] != nil)
			return
		}
		m.req++
		n := len(m.hist)
		inv, callee, ok := m.call(observer, m.req, t, nil, payload{})
		if ok && m.r.rng.Intn(8) > 0 {
			m.yield(callee, inv, nil, payload{})
		} else if m.procs[t] == nil && !m.failed {
			m.hist = m.hist[:n]
		}
	}
}

// drain checks that every invocation still pending can be answered, once.
func (m *dealerRun) drain() {
	var ids []uint64
	for i := range m.pending {
		ids = append(ids, i)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, i := range ids {
		if m.failed {
			return
		}
		callee := m.pending[i].callee
		m.yield(callee, i, nil, payload{})
		if !m.failed {
			m.yield(callee, i, nil, payload{})
		}
	}
}

var dealerReg = []map[string]any{nil, {}, {"invoke": "single"}, {"invoke": "first"}, {"invoke": "last"}, {"invoke": "roundrobin"}, {"invoke": "roundrobin"}, {"invoke": "roundrobin"}, {"invoke": "random"}, {"invoke": "other"}, {"invoke": 1},
	{"match": "prefix", "invoke": "roundrobin"}, {"match": "wildcard", "invoke": "roundrobin"}, {"match": "prefix"}, {"match": "wildcard"}, {"match": "exact"}, {"match": "prefix", "invoke": "last"}, {"match": "wildcard", "invoke": "first"}, {"match": 1}, {"match": "other", "invoke": "random"}}
var dealerCall = []map[string]any{nil, {}, {"progress": true}, {"progress": true, "receive_progress": true}, {"receive_progress": true}, {"progress": false}, {"progress": 1}, {"receive_progress": "true"}, {"progress": nil, "receive_progress": false}}
var dealerYield = []map[string]any{nil, {}, {"progress": true}, {"progress": true}, {"progress": false}, {"progress": 1}, {"progress": nil}}
var dealerPayloads = []payload{{}, {args: []any{}}, {args: []any{1}}, {args: []any{"x", nil}, kw: map[string]any{"k": 1}}, {kw: map[string]any{"k": []any{1}}}, {kw: map[string]any{}},
	{binary: []byte{1, 2, 3}, ser: 1}, {binary: []byte{}, ser: 2}, {binary: []byte("x"), ser: 3}}

func dealerHistory(r *R, steps int) {
	m := newDealerRun(r)
	pool := []uint64{0, 1, 2, 3, 4, 1 << 53}
	procs := dealerProcs
	if r.rng.Intn(3) > 0 { // few procedures: more sharing
		k := r.rng.Intn(len(procs) - 3)
		procs = procs[k : k+3]
	}
	regs := dealerReg
	if r.rng.Intn(2) == 0 {
		k := r.rng.Intn(len(regs))
		regs = regs[k : k+1]
	}
	every := r.rng.Intn(2) == 0
	m.add(observer)
	for _, id := range pool {
		if r.rng.Intn(5) > 0 {
			m.add(id)
		}
	}
	pick := func() uint64 { return pool[r.rng.Intn(len(pool))] }
	inv := func() uint64 {
		var ids []uint64
		for i := range m.pending {
			ids = append(ids, i)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		if len(ids) == 0 || r.rng.Intn(6) == 0 {
			return uint64(r.rng.Intn(12))
		}
		return ids[r.rng.Intn(len(ids))]
	}
	pl := func() payload { return dealerPayloads[r.rng.Intn(len(dealerPayloads))] }
	for i := 0; i < steps && !m.failed; i++ {
		m.after = "other"
		switch n := r.rng.Intn(24); {
		case n < 6:
			m.register(pick(), procs[r.rng.Intn(len(procs))], regs[r.rng.Intn(len(regs))])
		case n < 8:
			reg := uint64(r.rng.Intn(8))
			var ids []uint64
			for _, t := range sortedTopics(m.procs) {
				ids = append(ids, m.procs[t].id)
			}
			if len(ids) > 0 && r.rng.Intn(5) > 0 {
				reg = ids[r.rng.Intn(len(ids))]
			}
			m.unregister(pick(), reg)
			m.after = "removal"
		case n < 9:
			m.remove(pick())
			m.after = "removal"
		case n < 11:
			m.add(pick())
		case n < 12:
			v := r.rng.Intn(2) == 0
			m.log("AutoDiscloseCaller(%v)", v)
			m.d.AutoDiscloseCaller(v)
			m.disclose = v
		case n < 17:
			req := uint64(r.rng.Intn(3) + 1) // few request ids: many continuations
			if r.rng.Intn(3) == 0 {
				m.req++
				req = m.req + 100
			}
			id, proc := pick(), procs[r.rng.Intn(len(procs))]
			opts := dealerCall[r.rng.Intn(len(dealerCall))]
			m.call(id, req, proc, opts, pl())
			if _, fl := m.flights[dflight{id, req}]; fl && r.rng.Intn(2) == 0 && !m.failed {
				m.call(id, req, proc, dealerCall[r.rng.Intn(len(dealerCall))], pl())
			}
		case n < 22:
			i := inv()
			id := pick()
			if p := m.pending[i]; p != nil && r.rng.Intn(4) > 0 {
				id = p.callee
			}
			m.yield(id, i, dealerYield[r.rng.Intn(len(dealerYield))], pl())
		default:
			i := inv()
			id := pick()
			if p := m.pending[i]; p != nil && r.rng.Intn(4) > 0 {
				id = p.callee
			}
			typ := uint64(messages.MessageTypeInvocation)
			if r.rng.Intn(6) == 0 {
				typ = []uint64{messages.MessageTypeCall, messages.MessageTypeRegister, 0, 69}[r.rng.Intn(4)]
			}
			p := pl()
			p.binary = nil
			m.error(id, i, typ, []map[string]any{nil, {}, {"x": 1}}[r.rng.Intn(3)], []string{"wamp.error.x", "", "a.b"}[r.rng.Intn(3)], p)
		}
		if every || m.after == "removal" && r.rng.Intn(2) == 0 {
			m.probe(procs)
		}
	}
	if !m.failed {
		m.probe(procs)
		m.drain()
	}
	r.Eval(strings.Join(m.hist, "; "))
}

// dealerCrowd: many callees of one procedure, leaving one by one.
func dealerCrowd(r *R, n int, policy string) {
	m := newDealerRun(r)
	m.add(observer)
	for i := 1; i <= n; i++ {
		m.add(uint64(i))
		m.register(uint64(i), "a.b", map[string]any{"invoke": policy})
		if i%3 == 0 {
			m.register(uint64(i), "a", map[string]any{"match": "prefix", "invoke": policy})
			m.register(uint64(i), "a.b", map[string]any{"invoke": policy})
		}
	}
	for i := 0; i < 2*n+1; i++ {
		m.probe([]string{"a.b"})
	}
	m.after = "removal"
	for i := 1; i <= n && !m.failed; i++ {
		k := uint64((i*7)%n + 1)
		if i%2 == 0 {
			m.remove(k)
		} else if t := m.procs["a.b"]; t != nil {
			m.unregister(k, t.id)
		}
		m.probe([]string{"a.b", "a", "a.b.c"})
	}
	m.drain()
	r.Eval(strings.Join(m.hist, "; "))
}

// dealerStream: many calls of several parts open at once, continued and answered in turn.
func dealerStream(r *R, open int) {
	m := newDealerRun(r)
	callers := []uint64{observer, 1, 2}
	for _, id := range []uint64{observer, 1, 2, 3, 4, 5} {
		m.add(id)
	}
	procs := []string{"p", "q", "q.r"}
	m.register(3, "p", nil)
	for i := uint64(3); i <= 5; i++ {
		m.register(i, "q", map[string]any{"match": "prefix", "invoke": []string{"roundrobin", "random", "last"}[r.rng.Intn(3)]})
	}
	type flight struct {
		f    dflight
		proc string
	}
	var flights []flight
	next := map[uint64]uint64{}
	for i := 0; i < 6*open && !m.failed; i++ {
		pl := dealerPayloads[r.rng.Intn(len(dealerPayloads))]
		if len(flights) < open && r.rng.Intn(2) == 0 {
			c := callers[r.rng.Intn(len(callers))]
			next[c]++
			f := flight{dflight{c, next[c]}, procs[r.rng.Intn(len(procs))]}
			if _, _, ok := m.call(c, f.f.req, f.proc, map[string]any{"progress": r.rng.Intn(8) > 0, "receive_progress": r.rng.Intn(2) == 0}, pl); ok {
				flights = append(flights, f)
			}
			continue
		}
		if len(flights) == 0 {
			continue
		}
		k := r.rng.Intn(len(flights))
		f := flights[k]
		inv, up := m.flights[f.f]
		switch n := r.rng.Intn(8); {
		case n < 5 || !up:
			if up && !m.pending[inv].progress {
				break
			}
			m.call(f.f.caller, f.f.req, f.proc, map[string]any{"progress": r.rng.Intn(5) > 0, "receive_progress": r.rng.Intn(2) == 0}, pl)
		case n < 7:
			p := m.pending[inv]
			m.yield(p.callee, inv, dealerYield[r.rng.Intn(len(dealerYield))], pl)
		default:
			m.error(m.pending[inv].callee, inv, uint64(messages.MessageTypeInvocation), nil, "wamp.error.x", payload{args: []any{1}})
		}
		if _, up := m.flights[f.f]; !up {
			flights = append(flights[:k], flights[k+1:]...)
		}
	}
	m.drain()
	r.Eval(strings.Join(m.hist, "; "))
}

func refuteDealer(t *testing.T, id string) {
	run(t, id, "seeded histories of attach, leave, register, unregister, call, yield and error over overlapping procedures and patterns, all policies, progressive calls and binary payloads, against a model of the dealer", 8*time.Second, func(r *R) {
		for _, n := range []int{1, 2, 5, 33} {
			for _, pol := range []string{"roundrobin", "first", "last", "random"} {
				r.Guard("panic", func() string { return fmt.Sprintf("%d callees, policy %s", n, pol) }, func() { dealerCrowd(r, n, pol) })
			}
		}
		for k := 0; k < r.N(6000) && r.More(); k++ {
			steps := 5 + r.rng.Intn(60)
			r.Guard("panic", func() string { return fmt.Sprintf("history %d of %d steps", k, steps) }, func() { dealerHistory(r, steps) })
			if k%8 == 0 {
				open := 2 + r.rng.Intn(8)
				if k%128 == 0 {
					open = 70
				}
				r.Guard("panic", func() string { return fmt.Sprintf("%d calls open", open) }, func() { dealerStream(r, open) })
			}
		}
	})
}

func TestRefuteD01(t *testing.T) { refuteDealer(t, "D01") }
func TestRefuteD02(t *testing.T) { refuteDealer(t, "D02") }
func TestRefuteD03(t *testing.T) { refuteDealer(t, "D03") }
func TestRefuteD04(t *testing.T) { refuteDealer(t, "D04") }
func TestRefuteD05(t *testing.T) { refuteDealer(t, "D05") }
func TestRefuteD06(t *testing.T) { refuteDealer(t, "D06") }
func TestRefuteD07(t *testing.T) { refuteDealer(t, "D07") }
func TestRefuteD08(t *testing.T) { refuteDealer(t, "D08") }
func TestRefuteD09(t *testing.T) { refuteDealer(t, "D09") }
