package refute

import (
	"bytes"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/pbkdf2"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"

	wampproto "github.com/xconnio/wampproto-go"
	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
)

// plainResponse is a response of a foreign type.
type plainResponse struct{ id, role string }

func (p plainResponse) AuthID() string     { return p.id }
func (p plainResponse) AuthRole() string   { return p.role }
func (p plainResponse) TTL() time.Duration { return 0 }

type asked struct {
	req    auth.Request
	resp   auth.Response
	err    error
	secret string
	salt   string
	iters  int
	keylen int
	cra    bool
	id     string
	role   string
}

// server is an authenticator that records what it is asked and what it answers.
type server struct {
	r       *R
	methods []auth.Method
	n       int
	asked   []asked
}

func (s *server) Methods() []auth.Method { return s.methods }

func approvedTicket(id string) string { return "t-" + id }

func (s *server) Authenticate(req auth.Request) (auth.Response, error) {
	s.n++
	a := asked{req: req}
	id, role := fmt.Sprintf("%s#%d", req.AuthID(), s.n), fmt.Sprintf("role%d", s.r.rng.Intn(3))
	ok := req.AuthID() != "banned"
	a.id, a.role = id, role
	a.resp, _ = auth.NewResponse(id, role, 0)
	if s.r.rng.Intn(3) == 0 {
		a.resp = plainResponse{id, role}
	}
	switch req.AuthMethod() {
	case auth.Ticket:
		t, is := req.(*auth.TicketRequest)
		ok = ok && is && t.Ticket() == approvedTicket(req.AuthID())
	case auth.WAMPCRA:
		if s.r.rng.Intn(8) != 0 {
			a.cra, a.secret = true, "s-"+req.AuthID()
			if s.r.rng.Intn(3) == 0 {
				a.resp = auth.NewCRAResponse(id, role, a.secret, 0)
			} else {
				a.salt = []string{"", "pepper", "a\x00b", "sälz"}[s.r.rng.Intn(4)]
				a.iters = []int{-1, 0, 1, 2, 37, 1000}[s.r.rng.Intn(6)]
				a.keylen = []int{-5, 0, 1, 16, 31, 32, 33, 64}[s.r.rng.Intn(8)]
				a.resp = auth.NewCRAResponseSalted(id, role, a.secret, a.salt, a.iters, a.keylen, 0)
			}
		}
	case auth.CryptoSign:
		c, is := req.(*auth.RequestCryptoSign)
		ok = ok && is && !strings.HasPrefix(c.PublicKey(), "unknown")
	}
	if !ok {
		a.err = errors.New("not approved")
		if s.r.rng.Intn(2) == 0 {
			a.resp = nil
		}
	}
	s.asked = append(s.asked, a)
	return a.resp, a.err
}

// craKey is the key of a WAMP-CRA handshake, computed apart from the code under test.
func craKey(secret, salt string, iters, keylen int) []byte {
	if salt == "" {
		return []byte(secret)
	}
	if iters <= 0 {
		iters = 1000
	}
	if keylen <= 0 {
		keylen = 32
	}
	dk, err := pbkdf2.Key(sha256.New, secret, []byte(salt), iters, keylen)
	if err != nil {
		panic(err)
	}
	return []byte(base64.StdEncoding.EncodeToString(dk))
}

func craSign(challenge string, key []byte) []byte {
	m := hmac.New(sha256.New, key)
	m.Write([]byte(challenge))
	return m.Sum(nil)
}

// refMethod is the method selection as the property states it.
func refMethod(offered []auth.Method, proposed []string) (auth.Method, bool) {
	if len(proposed) == 0 {
		proposed = []string{"anonymous"}
	}
	for _, p := range proposed {
		for _, o := range offered {
			if string(o) == p {
				return o, true
			}
		}
	}
	return "", false
}

// the keys of a few clients
var authKeys = func() (ks []ed25519.PrivateKey) {
	for i := 0; i < 3; i++ {
		ks = append(ks, ed25519.NewKeyFromSeed(bytes.Repeat([]byte{byte(i + 1)}, 32)))
	}
	return
}()

func pubHex(i int) string { return hex.EncodeToString(authKeys[i].Public().(ed25519.PublicKey)) }

// what successive handshakes share: the challenges issued and the signatures given
type authPast struct {
	challenges map[string]bool
	sigs       []string
	chs        []string
}

type accRun struct {
	r       *R
	srv     *server
	acc     *wampproto.Acceptor
	ser     serializers.Serializer
	static  bool
	past    *authPast
	hist    []string
	hello   *messages.Hello
	method  auth.Method
	chal    string
	resp    asked
	key     string
	state   string // none, challenged, welcomed, aborted
	details *wampproto.SessionDetails
	snap    wampproto.SessionDetails
	broken  bool
}

func (a *accRun) fail(props, key, f string, x ...any) {
	a.broken = true
	for _, p := range strings.Fields(props) {
		if p == a.r.prop {
			a.r.Fail(key, "%s\nhistory:\n  %s", fmt.Sprintf(f, x...), strings.Join(a.hist, "\n  "))
		}
	}
}

func (a *accRun) stageProps() string {
	switch {
	case a.state == "challenged" && a.method == auth.WAMPCRA:
		return "A01 A02"
	case a.state == "challenged" && a.method == auth.CryptoSign:
		return "A01 A03"
	}
	return "A01"
}

// junk gives bytes to the acceptor that are no message.
func (a *accRun) junk() {
	data := make([]byte, a.r.rng.Intn(9))
	a.r.rng.Read(data)
	if _, err := a.ser.Deserialize(data); err == nil {
		return
	}
	a.hist = append(a.hist, fmt.Sprintf("bytes %x", data))
	asked0 := len(a.srv.asked)
	out, flag, err := a.acc.Receive(data)
	if err == nil || flag || len(out) > 0 || len(a.srv.asked) != asked0 {
		a.fail("A04", "junk", "bytes that are no message (%x) give %x, %v, %v", data, out, flag, err)
	}
}

// step gives one message to the acceptor and checks the answer.
func (a *accRun) step(msg messages.Message) {
	wire := a.r.rng.Intn(2) == 0
	a.hist = append(a.hist, fmt.Sprintf("%s (wire: %v)", show(msg), wire))
	var data []byte
	if wire {
		var err error
		if data, err = a.ser.Serialize(msg); err != nil {
			wire = false
		} else if msg, err = a.ser.Deserialize(data); err != nil {
			wire = false
			return
		}
	}
	asked0 := len(a.srv.asked)
	var out messages.Message
	var err error
	if wire {
		var payload []byte
		var flag bool
		payload, flag, err = a.acc.Receive(data)
		if err == nil {
			if out, err = a.ser.Deserialize(payload); err != nil {
				a.fail("A05", "undecodable", "the answer to %s does not decode: %v", show(msg), err)
				return
			}
			if flag != (out.Type() == messages.MessageTypeWelcome) {
				a.fail("A05", "flag", "the flag is %v with the answer %s", flag, show(out))
				return
			}
		} else if flag {
			a.fail("A05", "flag", "the flag is set with the error %v", err)
			return
		}
	} else {
		out, err = a.acc.ReceiveMessage(msg)
	}
	kind := "error"
	if err == nil {
		switch out.(type) {
		case *messages.Welcome:
			kind = "welcome"
		case *messages.Abort:
			kind = "abort"
		case *messages.Challenge:
			kind = "challenge"
		default:
			a.fail("A04", "answer", "%s is answered with %s", show(msg), show(out))
			return
		}
	}
	a.hist = append(a.hist, "  -> "+kind)
	now := a.srv.asked[asked0:]
	before := a.state
	switch {
	case before == "welcomed" || before == "aborted":
		if kind != "error" {
			a.fail("A04", "after-end", "after the end of the handshake %s is answered with %s", show(msg), show(out))
			return
		}
		if len(now) > 0 {
			a.fail("A04", "after-end-asked", "after the end of the handshake %s makes the authenticator be asked", show(msg))
			return
		}
	case msg.Type() == messages.MessageTypeHello && before == "none":
		a.onHello(msg.(*messages.Hello), kind, out, now)
	case msg.Type() == messages.MessageTypeAuthenticate && before == "challenged":
		a.onAuthenticate(msg.(*messages.Authenticate), kind, out, now)
	default:
		if kind == "welcome" {
			a.fail("A04 "+a.stageProps(), "welcome-wrong-message", "%s is answered with WELCOME while in state %s", show(msg), before)
		} else if kind != "error" {
			a.fail("A04", "accepted-wrong-message", "%s is answered with %s while in state %s", show(msg), kind, before)
		}
	}
	if a.broken {
		return
	}
	switch kind {
	case "welcome":
		a.state = "welcomed"
		a.onWelcome(out.(*messages.Welcome), asked0)
	case "abort":
		a.state = "aborted"
	case "challenge":
		a.state = "challenged"
	}
	if a.broken {
		return
	}
	d, derr := a.acc.SessionDetails()
	if a.state != "welcomed" {
		if derr == nil || d != nil {
			a.fail("A01", "details-without-welcome", "session details %v exist in state %s", d, a.state)
		}
		return
	}
	if derr != nil || d == nil {
		a.fail("A05", "no-details", "no session details after WELCOME: %v", derr)
		return
	}
	if a.details == nil {
		a.details, a.snap = d, *d
	} else if d != a.details || !reflect.DeepEqual(*d, a.snap) {
		a.fail("A04", "details-changed", "session details changed from %+v to %+v", a.snap, *d)
	}
}

func (a *accRun) checkRequest(q asked, method auth.Method) {
	r := q.req
	if r.AuthMethod() != method || r.Realm() != a.hello.Realm() || r.AuthID() != a.hello.AuthID() || !reflect.DeepEqual(r.AuthExtra(), a.hello.AuthExtra()) {
		a.fail("A01", "request", "the authenticator is asked about method %q, realm %q, id %q, extra %v, for the client's %s under method %q", r.AuthMethod(), r.Realm(), r.AuthID(), r.AuthExtra(), show(a.hello), method)
	}
}

func (a *accRun) onHello(h *messages.Hello, kind string, out messages.Message, now []asked) {
	m, ok := refMethod(a.srv.methods, h.AuthMethods())
	a.hello, a.method = h, m
	if !ok {
		if kind == "welcome" || kind == "challenge" {
			a.fail("A01 A06", "no-method", "%s is answered with %s though none of the offered methods %v was proposed", show(h), kind, a.srv.methods)
		}
		return
	}
	for _, q := range now {
		a.checkRequest(q, m)
	}
	if a.broken {
		return
	}
	refused := false
	for _, q := range now {
		refused = refused || q.err != nil
	}
	if refused && kind != "abort" {
		a.fail("A01", "refusal", "the authenticator refused %s, the answer is %s", show(h), kind)
		return
	}
	if kind == "welcome" && (m != auth.Anonymous || len(now) == 0) {
		a.fail("A01", "welcome-hello", "%s is answered with WELCOME under method %q, requests made: %d", show(h), m, len(now))
		return
	}
	if kind == "challenge" {
		c := out.(*messages.Challenge)
		if c.AuthMethod() != string(m) {
			a.fail("A06", "challenge-method", "the method of %s is %q, the first proposed and offered is %q", show(c), c.AuthMethod(), m)
			return
		}
		ch, _ := c.Extra()["challenge"].(string)
		a.chal = ch
		props := map[auth.Method]string{auth.WAMPCRA: "A02", auth.CryptoSign: "A03"}[m]
		if m == auth.WAMPCRA || m == auth.CryptoSign {
			if len(now) == 0 {
				a.fail("A01", "unasked", "CHALLENGE under %q without asking the authenticator", m)
				return
			}
			a.resp = now[len(now)-1]
			if ch == "" || a.past.challenges[ch] {
				a.fail(props, "challenge-again", "the challenge %q is empty or was issued before", ch)
				return
			}
			a.past.challenges[ch] = true
			a.past.chs = append(a.past.chs, ch)
		}
		if m == auth.CryptoSign {
			a.key, _ = h.AuthExtra()["pubkey"].(string)
			if q, is := a.resp.req.(*auth.RequestCryptoSign); !is || q.PublicKey() != a.key {
				a.fail("A01 A03", "pubkey", "the authenticator is asked about %#v for the public key %q", a.resp.req, a.key)
				return
			}
			if raw, err := hex.DecodeString(ch); err != nil || len(raw) != 32 {
				a.fail("A03", "challenge-form", "the cryptosign challenge is %q", ch)
			}
		}
	}
}

func (a *accRun) onAuthenticate(m *messages.Authenticate, kind string, out messages.Message, now []asked) {
	switch a.method {
	case auth.Ticket:
		approvedReq := false
		for _, q := range now {
			a.checkRequest(q, auth.Ticket)
			t, is := q.req.(*auth.TicketRequest)
			if !is || t.Ticket() != m.Signature() {
				a.fail("A01", "ticket", "the authenticator is asked about %#v for the ticket %q", q.req, m.Signature())
			}
			if q.err == nil {
				approvedReq = true
			} else if kind != "abort" {
				a.fail("A01", "refusal", "the authenticator refused the ticket %q, the answer is %s", m.Signature(), kind)
			}
		}
		if kind == "welcome" && !approvedReq {
			a.fail("A01", "welcome-ticket", "WELCOME for the ticket %q, which nothing approved", m.Signature())
		}
	case auth.WAMPCRA:
		want := craSign(a.chal, craKey(a.resp.secret, a.resp.salt, a.resp.iters, a.resp.keylen))
		got, derr := base64.StdEncoding.DecodeString(m.Signature())
		valid := derr == nil && bytes.Equal(got, want)
		if kind == "welcome" && !valid {
			a.fail("A01 A02", "welcome-cra", "WELCOME for the signature %q of challenge %q, expected %q", m.Signature(), a.chal, base64.StdEncoding.EncodeToString(want))
		}
		if kind != "welcome" && m.Signature() == base64.StdEncoding.EncodeToString(want) {
			a.fail("A02", "cra-refused", "the right signature %q of challenge %q is answered with %s", m.Signature(), a.chal, kind)
		}
	case auth.CryptoSign:
		pub, perr := hex.DecodeString(a.key)
		raw, serr := hex.DecodeString(m.Signature())
		ch, _ := hex.DecodeString(a.chal)
		valid := perr == nil && serr == nil && len(pub) == 32 && len(raw) == 96 && bytes.Equal(raw[64:], ch) && ed25519.Verify(pub, ch, raw[:64])
		if kind == "welcome" && !valid {
			a.fail("A01 A03", "welcome-cryptosign", "WELCOME for the signed message %q, key %q, challenge %q", m.Signature(), a.key, a.chal)
		}
		if kind != "welcome" && valid && m.Signature() == strings.ToLower(m.Signature()) {
			a.fail("A03", "cryptosign-refused", "the right signed message %q, key %q, challenge %q is answered with %s", m.Signature(), a.key, a.chal, kind)
		}
	}
}

func (a *accRun) onWelcome(w *messages.Welcome, asked0 int) {
	d, err := a.acc.SessionDetails()
	if err != nil || d == nil {
		a.fail("A05", "no-details", "no session details after WELCOME: %v", err)
		return
	}
	wd := w.Details()
	if w.SessionID() != d.ID() || w.SessionID() == 0 || w.SessionID() > 1<<53 {
		a.fail("A05", "session-id", "the WELCOME has id %d, the details %d", w.SessionID(), d.ID())
	}
	if wd["realm"] != a.hello.Realm() || d.Realm() != a.hello.Realm() {
		a.fail("A05", "realm", "the WELCOME has realm %v, the details %q, the HELLO %q", wd["realm"], d.Realm(), a.hello.Realm())
	}
	if wd["authmethod"] != string(a.method) || d.AuthMethod() != string(a.method) {
		a.fail("A05", "method", "the WELCOME has method %v, the details %q, it is %q", wd["authmethod"], d.AuthMethod(), a.method)
	}
	var resp auth.Response = a.resp.resp
	if a.method == auth.Anonymous || a.method == auth.Ticket {
		resp = a.srv.asked[len(a.srv.asked)-1].resp
	}
	if q := a.srv.asked[len(a.srv.asked)-1]; resp.AuthID() != q.id || resp.AuthRole() != q.role {
		a.fail("A05", "response", "a response made for %q/%q gives %q/%q", q.id, q.role, resp.AuthID(), resp.AuthRole())
	}
	if wd["authid"] != resp.AuthID() || d.AuthID() != resp.AuthID() || wd["authrole"] != resp.AuthRole() || d.AuthRole() != resp.AuthRole() {
		a.fail("A05", "identity", "the WELCOME has %v/%v, the details %q/%q, the authenticator gave %q/%q", wd["authid"], wd["authrole"], d.AuthID(), d.AuthRole(), resp.AuthID(), resp.AuthRole())
	}
}

var allMethods = []string{"anonymous", "ticket", "wampcra", "cryptosign", "scram", ""}

func (a *accRun) mkHello(likely string) *messages.Hello {
	rng := a.r.rng
	var ms []string
	for n := rng.Intn(4); n > 0; n-- {
		ms = append(ms, allMethods[rng.Intn(len(allMethods))])
	}
	if likely != "" && rng.Intn(3) > 0 {
		ms = append([]string{likely}, ms...)
	}
	extra := map[string]any{"x": fmt.Sprint(rng.Intn(3))}
	switch rng.Intn(8) {
	case 0:
	case 1:
		extra["pubkey"] = []any{int64(3), nil, true, "", "zz", "abcd", "unknown", strings.ToUpper(pubHex(0)), pubHex(0)[2:], pubHex(0) + "00"}[rng.Intn(10)]
	default:
		extra["pubkey"] = pubHex(rng.Intn(len(authKeys)))
	}
	id := []string{"alice", "bob", "banned", ""}[rng.Intn(8)%4]
	return messages.NewHello([]string{"realm1", "realm2", ""}[rng.Intn(3)], id, extra, map[string]any{"caller": map[string]any{}}, ms)
}

func mutateStr(rng *rand.Rand, s string) string {
	if s == "" {
		return "A"
	}
	b := []byte(s)
	switch rng.Intn(5) {
	case 0:
		return s[:rng.Intn(len(s))]
	case 1:
		return s + []string{"A", "=", "00", " ", "\n", s}[rng.Intn(6)]
	case 2:
		return strings.ToUpper(s)
	case 3:
		return ""
	default:
		i := rng.Intn(len(b))
		b[i] ^= byte(1 + rng.Intn(3))
		return string(b)
	}
}

// mkAuthenticate makes an answer to the current challenge, right or wrong.
func (a *accRun) mkAuthenticate() *messages.Authenticate {
	rng := a.r.rng
	sig := ""
	id := ""
	if a.hello != nil {
		id = a.hello.AuthID()
	}
	chal := a.chal
	if rng.Intn(10) == 0 && len(a.past.chs) > 0 {
		chal = a.past.chs[rng.Intn(len(a.past.chs))]
	}
	switch a.method {
	case auth.Ticket:
		sig = approvedTicket(id)
	case auth.WAMPCRA:
		q := a.resp
		switch rng.Intn(10) {
		case 0:
			q.salt = ""
		case 1:
			q.iters++
		case 2:
			q.keylen++
		case 3:
			q.secret = ""
		case 4:
			q.secret = "s-bob"
		}
		sig = base64.StdEncoding.EncodeToString(craSign(chal, craKey(q.secret, q.salt, q.iters, q.keylen)))
	case auth.CryptoSign:
		k := rng.Intn(len(authKeys))
		if rng.Intn(3) > 0 {
			for i := range authKeys {
				if strings.EqualFold(pubHex(i), a.key) {
					k = i
				}
			}
		}
		ch, _ := hex.DecodeString(chal)
		switch rng.Intn(12) {
		case 0: // signs something else in front of the challenge
			ch = append([]byte("x"), ch...)
		case 1:
			ch = nil
		}
		s := ed25519.Sign(authKeys[k], ch)
		if rng.Intn(12) == 0 { // the signature of another message with this challenge behind it
			s = ed25519.Sign(authKeys[k], []byte("other"))
		}
		sig = hex.EncodeToString(s) + hex.EncodeToString(ch)
	}
	switch rng.Intn(6) {
	case 0:
		sig = mutateStr(rng, sig)
	case 1:
		if len(a.past.sigs) > 0 {
			sig = a.past.sigs[rng.Intn(len(a.past.sigs))]
		}
	}
	a.past.sigs = append(a.past.sigs, sig)
	if len(a.past.sigs) > 200 {
		a.past.sigs = a.past.sigs[100:]
	}
	return messages.NewAuthenticate(sig, []map[string]any{nil, {}, {"k": "v"}}[rng.Intn(3)])
}

var authSers = []serializers.Serializer{&serializers.JSONSerializer{}, &serializers.CBORSerializer{}, &serializers.MsgPackSerializer{}}

func handshake(r *R, past *authPast) {
	rng := r.rng
	ser := authSers[rng.Intn(3)]
	srv := &server{r: r}
	for _, m := range allMethods[:4] {
		if rng.Intn(3) > 0 {
			srv.methods = append(srv.methods, auth.Method(m))
		}
	}
	if rng.Intn(10) == 0 {
		srv.methods = append(srv.methods, "scram")
	}
	rng.Shuffle(len(srv.methods), func(i, j int) { srv.methods[i], srv.methods[j] = srv.methods[j], srv.methods[i] })
	likely := ""
	if len(srv.methods) > 0 {
		likely = string(srv.methods[rng.Intn(len(srv.methods))])
	}
	a := &accRun{r: r, srv: srv, ser: ser, acc: wampproto.NewAcceptor(ser, srv), past: past, state: "none"}
	f := &flaky{Serializer: ser}
	for n := 2 + rng.Intn(6); n > 0 && !a.broken; n-- {
		var m messages.Message
		k := rng.Intn(10)
		if rng.Intn(12) == 0 {
			a.junk()
			continue
		}
		switch {
		case k == 0:
			m = []messages.Message{messages.NewWelcome(1, map[string]any{"roles": map[string]any{}}), messages.NewAbort(map[string]any{}, "a.b", nil, nil), messages.NewChallenge("ticket", map[string]any{}),
				messages.NewGoodBye("a.b", map[string]any{}), messages.NewCall(1, map[string]any{}, "a.b", nil, nil), messages.NewPublish(1, map[string]any{}, "a.b", nil, nil)}[rng.Intn(6)]
		case k == 1:
			m = a.mkHello(likely)
		case k == 2 || a.state == "challenged" || a.state == "welcomed" && k < 6:
			m = a.mkAuthenticate()
		default:
			m = a.mkHello(likely)
		}
		if data, err := ser.Serialize(m); err == nil && rng.Intn(24) == 0 {
			// the answer cannot be written: an error, and that is the end of it
			a.hist = append(a.hist, show(m)+", serializer fails")
			acc := wampproto.NewAcceptor(f, srv)
			f.fail = true
			if out, flag, err := acc.Receive(data); err == nil || flag || len(out) > 0 {
				a.fail("A04 A05", "unsent", "%s gives %q, %v, %v while nothing can be written", show(m), out, flag, err)
			}
			f.fail = false
			break
		}
		a.step(m)
	}
	r.Eval(strings.Join(a.hist, "; "))
}

// endToEnd lets a client of the library and a server of the library shake hands.
func endToEnd(r *R, method auth.Method) {
	rng := r.rng
	props := map[auth.Method]string{auth.WAMPCRA: "A02", auth.CryptoSign: "A03"}[method]
	ser := authSers[rng.Intn(3)]
	srv := &server{r: r, methods: []auth.Method{method}}
	acc := wampproto.NewAcceptor(ser, srv)
	var cl auth.ClientAuthenticator
	var extra map[string]any
	if rng.Intn(2) == 0 {
		extra = map[string]any{"y": "z"}
	}
	if method == auth.WAMPCRA {
		cl = auth.NewWAMPCRAAuthenticator("carol", "s-carol", extra)
	} else {
		k := rng.Intn(len(authKeys))
		var err error
		cl, err = auth.NewCryptoSignAuthenticator("carol", hex.EncodeToString(authKeys[k].Seed()), extra)
		if err != nil {
			r.Fail("constructor", "NewCryptoSignAuthenticator refuses a seed: %v", err)
			return
		}
	}
	j := wampproto.NewJoiner("realm1", ser, cl)
	data, err := j.SendHello()
	for i := 0; i < 2 && err == nil; i++ {
		var w bool
		data, w, err = acc.Receive(data)
		if err == nil && w {
			break
		}
		if err == nil {
			data, err = j.Receive(data)
		}
	}
	q := srv.asked
	if len(q) > 0 && method == auth.WAMPCRA && !q[0].cra {
		return // the authenticator gave no secret
	}
	if err == nil {
		_, err = j.Receive(data)
	}
	if err == nil {
		var jd, ad *wampproto.SessionDetails
		jd, err = j.SessionDetails()
		ad, err2 := acc.SessionDetails()
		if err == nil && err2 == nil && jd.ID() == ad.ID() {
			r.Eval(fmt.Sprintf("%s %T %v", method, ser, q))
			return
		}
		err = fmt.Errorf("%v %v", err, err2)
	}
	if props == r.prop {
		r.Fail("end-to-end", "a client with the right secret does not get in under %s with %T: %v; the authenticator's answers: %+v", method, ser, err, q)
	}
}

// craDirect compares the signing functions with the ones of the standard library.
func craDirect(r *R) {
	rng := r.rng
	str := func() string {
		b := make([]byte, rng.Intn(80))
		rng.Read(b)
		return string(b)
	}
	ch, secret, salt := str(), str(), []string{"", "x", str()}[rng.Intn(3)]
	ints := []int{math.MinInt64, -1, 0, 1, 2, 16, 31, 32, 33, 100}
	iters, keylen := ints[rng.Intn(len(ints))], ints[rng.Intn(len(ints))]
	if !bytes.Equal(auth.DeriveWAMPCRAKey("s"+salt, secret, iters, keylen), craKey(secret, "s"+salt, iters, keylen)) {
		r.Fail("derive", "DeriveWAMPCRAKey(%q, %q, %d, %d)", "s"+salt, secret, iters, keylen)
	}
	key := craKey(secret, salt, iters, keylen)
	mac := craSign(ch, key)
	b64 := base64.StdEncoding.EncodeToString(mac)
	if auth.SignWAMPCRAChallenge(ch, key) != b64 || !bytes.Equal(auth.SignWAMPCRAChallengeBytes(ch, key), mac) {
		r.Fail("sign", "SignWAMPCRAChallenge(%q, %q) = %q, expected %q", ch, key, auth.SignWAMPCRAChallenge(ch, key), b64)
	}
	if !auth.VerifyWAMPCRASignature(b64, ch, key) {
		r.Fail("verify", "VerifyWAMPCRASignature(%q, %q, %q) is false", b64, ch, key)
	}
	for i := 0; i < 4; i++ {
		s := mutateStr(rng, b64)
		got, err := base64.StdEncoding.DecodeString(s)
		if auth.VerifyWAMPCRASignature(s, ch, key) && (err != nil || !bytes.Equal(got, mac)) {
			r.Fail("verify", "VerifyWAMPCRASignature(%q, %q, %q) is true, the signature is %q", s, ch, key, b64)
		}
	}
	// any numeric type a serializer may give
	conv := func(n int) any {
		switch rng.Intn(4) {
		case 0:
			return int64(n)
		case 1:
			return float64(n)
		case 2:
			if n >= 0 {
				return uint64(n)
			}
		}
		return n
	}
	if iters == math.MinInt64 || keylen == math.MinInt64 {
		return
	}
	extra := map[string]any{"challenge": ch}
	if salt != "" {
		extra["salt"], extra["iterations"], extra["keylen"] = salt, conv(iters), conv(keylen)
	} else if rng.Intn(2) == 0 {
		extra["iterations"], extra["keylen"] = 7, 16
	}
	m, err := auth.NewWAMPCRAAuthenticator("u", secret, nil).Authenticate(*messages.NewChallenge("wampcra", extra))
	if err != nil || m.Signature() != b64 {
		r.Fail("client", "the client's answer to %v with secret %q is %v %v, expected %q", extra, secret, m, err, b64)
	}
	r.Eval(fmt.Sprintf("%q %q %d %d", ch, salt, iters, keylen))
}

func cryptosignDirect(r *R) {
	rng := r.rng
	k := authKeys[rng.Intn(len(authKeys))]
	pub := k.Public().(ed25519.PublicKey)
	ch := make([]byte, 32)
	rng.Read(ch)
	chHex := hex.EncodeToString(ch)
	want := hex.EncodeToString(ed25519.Sign(k, ch)) + chHex
	got, err := auth.SignCryptoSignChallenge(chHex, k)
	if err != nil || got != want {
		r.Fail("sign", "SignCryptoSignChallenge(%q) = %q, %v, expected %q", chHex, got, err, want)
	}
	if bad := []string{"zz" + chHex[2:], chHex[1:], chHex + "g"}[rng.Intn(3)]; true {
		if got, err := auth.SignCryptoSignChallenge(bad, k); err == nil {
			r.Fail("sign-bad", "SignCryptoSignChallenge(%q) = %q and no error", bad, got)
		}
	}
	if ok, err := auth.VerifyCryptoSignSignature(want, pub); !ok || err != nil {
		r.Fail("verify", "VerifyCryptoSignSignature(%q) = %v, %v", want, ok, err)
	}
	other := authKeys[rng.Intn(len(authKeys))].Public().(ed25519.PublicKey)
	for _, c := range []struct {
		sig string
		pub []byte
	}{{mutateStr(rng, want), pub}, {want, other}, {want, pub[:rng.Intn(32)]}, {want, append(append([]byte{}, pub...), 0)}, {want, nil}} {
		raw, e := hex.DecodeString(c.sig)
		valid := e == nil && len(raw) == 96 && len(c.pub) == 32 && ed25519.Verify(c.pub, raw[64:], raw[:64])
		if ok, _ := auth.VerifyCryptoSignSignature(c.sig, c.pub); ok && !valid {
			r.Fail("verify", "VerifyCryptoSignSignature(%q, %x) is true", c.sig, c.pub)
		}
	}
	seed := hex.EncodeToString(k.Seed())
	pubS := hex.EncodeToString(pub)
	extra := []map[string]any{nil, {}, {"pubkey": pubS}, {"pubkey": nil}, {"pubkey": "00" + pubS[2:]}, {"pubkey": ""}}[rng.Intn(6)]
	p, has := extra["pubkey"].(string)
	cl, err := auth.NewCryptoSignAuthenticator("u", seed, clone(extra))
	if has && p != pubS {
		if err == nil {
			r.Fail("other-key", "NewCryptoSignAuthenticator accepts the public key %q for the seed of %q", p, pubS)
		}
	} else if err != nil || cl.AuthExtra()["pubkey"] != pubS {
		r.Fail("constructor", "NewCryptoSignAuthenticator with extra %v gives %v", extra, err)
	}
	r.Eval(chHex)
}

func selectDirect(r *R) {
	rng := r.rng
	var off []auth.Method
	var prop []string
	for n := rng.Intn(5); n > 0; n-- {
		off = append(off, auth.Method(allMethods[rng.Intn(5)]))
	}
	for n := rng.Intn(5); n > 0; n-- {
		prop = append(prop, allMethods[rng.Intn(5)])
	}
	want, ok := refMethod(off, prop)
	got, err := auth.SelectAuthMethod(off, prop)
	if (err == nil) != ok || ok && got != want {
		r.Fail("select", "SelectAuthMethod(%q, %q) = %q, %v, expected %q (found: %v)", off, prop, got, err, want, ok)
	}
	r.Eval(fmt.Sprintf("%q %q", off, prop))
}

// defaults runs an acceptor made without serializer and authenticator: it speaks JSON and lets in who comes anonymously.
func defaults(r *R, id string) {
	for _, c := range []struct {
		methods []string
		welcome bool
	}{{[]string{"ticket"}, false}, {nil, true}, {[]string{"anonymous"}, true}, {[]string{"ticket", "wampcra", "anonymous"}, true}, {[]string{"cryptosign"}, false}} {
		data, err := (&serializers.JSONSerializer{}).Serialize(messages.NewHello("realm1", "x", nil, map[string]any{"caller": map[string]any{}}, c.methods))
		if err != nil {
			return
		}
		acc := wampproto.NewAcceptor(nil, nil)
		out, flag, err := acc.Receive(data)
		d, _ := acc.SessionDetails()
		if id == "A01" && (err == nil && flag != c.welcome || err != nil && c.welcome || (d != nil) != c.welcome) {
			r.Fail("default", "an acceptor without an authenticator answers a proposal of %q with %q, %v, %v", c.methods, out, flag, err)
		}
	}
}

func refuteAcceptor(t *testing.T, id string, more func(r *R)) {
	run(t, id, "seeded sequences of handshake messages, right, wrong, replayed and mutated credentials, with a recording authenticator, against a model of the handshake", 6*time.Second, func(r *R) {
		past := &authPast{challenges: map[string]bool{}}
		r.Guard("default", func() string { return "an acceptor made without serializer and authenticator" }, func() { defaults(r, id) })
		for k := 0; k < r.N(6000) && r.More(); k++ {
			r.Guard("panic", func() string { return fmt.Sprintf("handshake %d", k) }, func() { handshake(r, past) })
			if more != nil {
				r.Guard("panic", func() string { return fmt.Sprintf("case %d", k) }, func() { more(r) })
			}
		}
	})
}

func TestRefuteA01(t *testing.T) { refuteAcceptor(t, "A01", nil) }
func TestRefuteA02(t *testing.T) {
	refuteAcceptor(t, "A02", func(r *R) { craDirect(r); endToEnd(r, auth.WAMPCRA) })
}
func TestRefuteA03(t *testing.T) {
	refuteAcceptor(t, "A03", func(r *R) { cryptosignDirect(r); endToEnd(r, auth.CryptoSign) })
}
func TestRefuteA04(t *testing.T) { refuteAcceptor(t, "A04", nil) }
func TestRefuteA05(t *testing.T) { refuteAcceptor(t, "A05", nil) }
func TestRefuteA06(t *testing.T) { refuteAcceptor(t, "A06", selectDirect) }

// joinHistory runs a client against a router that says anything.
func joinHistory(r *R) {
	rng := r.rng
	f := &flaky{Serializer: authSers[rng.Intn(3)]}
	var cl auth.ClientAuthenticator
	key := authKeys[rng.Intn(3)]
	method := allMethods[rng.Intn(4)]
	switch method {
	case "anonymous":
		if rng.Intn(3) > 0 {
			cl = auth.NewAnonymousAuthenticator("u", nil)
		}
	case "ticket":
		cl = auth.NewTicketAuthenticator("u", "tick", map[string]any{"a": 1})
	case "wampcra":
		cl = auth.NewWAMPCRAAuthenticator("u", "sec", nil)
	case "cryptosign":
		cl, _ = auth.NewCryptoSignAuthenticator("u", hex.EncodeToString(key.Seed()), nil)
	}
	j := wampproto.NewJoiner("realm7", f, cl)
	var hist []string
	what := func() string { return method + ": " + strings.Join(hist, "; ") }
	state := "none"
	bad := func(key, form string, a ...any) {
		r.Fail(key, "%s\nhistory:\n  %s", fmt.Sprintf(form, a...), strings.Join(hist, "\n  "))
	}
	vals := []any{nil, "str", int64(3), 1.5, true, []any{"x"}, map[string]any{"k": nil}, "", -1, uint64(1) << 60, "deadbeef", strings.Repeat("ab", 32), "zz"}
	val := func() any { return vals[rng.Intn(len(vals))] }
	mkMap := func(keys ...string) map[string]any {
		if rng.Intn(6) == 0 {
			return nil
		}
		m := map[string]any{}
		for _, k := range keys {
			switch rng.Intn(4) {
			case 0:
			case 1:
				m[k] = val()
				if n, big := m[k].(uint64); big && n > 1e6 && k == "iterations" {
					m[k] = nil // takes for ever, which is no panic
				}
			default:
				switch k {
				case "roles":
					m[k] = map[string]any{"broker": map[string]any{}}
				case "iterations", "keylen":
					m[k] = []any{int64(20), uint64(40), 16.0, -3, "x", 1e6 + 0.5}[rng.Intn(6)]
					if m[k] == 1e6+0.5 {
						m[k] = nil
					}
				case "challenge":
					m[k] = strings.Repeat("0a", 32)
				default:
					m[k] = k + fmt.Sprint(rng.Intn(3))
				}
			}
		}
		return m
	}
	var want struct {
		set                bool
		id                 uint64
		authid, role, meth string
	}
	for n := 1 + rng.Intn(8); n > 0 && r.More(); n-- {
		ok := r.Guard("panic", what, func() {
			if rng.Intn(4) == 0 || state == "none" && rng.Intn(3) > 0 {
				f.fail = rng.Intn(5) == 0
				hist = append(hist, fmt.Sprintf("SendHello, serializer fails: %v", f.fail))
				data, err := j.SendHello()
				if (err != nil) != f.fail {
					bad("hello", "SendHello gives %v", err)
				}
				if err == nil {
					m, e := f.Serializer.Deserialize(data)
					h, is := m.(*messages.Hello)
					if e != nil || !is || h.Realm() != "realm7" || len(h.AuthMethods()) != 1 || h.AuthMethods()[0] != method {
						bad("hello", "SendHello sends %v %v", m, e)
					}
					state = "hello"
				}
				f.fail = false
				return
			}
			var m messages.Message
			switch rng.Intn(8) {
			case 0, 1:
				m = messages.NewWelcome(uint64(rng.Intn(9)), mkMap("roles", "authid", "authrole", "authmethod"))
			case 2, 3, 4:
				m = messages.NewChallenge(allMethods[rng.Intn(6)], mkMap("challenge", "salt", "iterations", "keylen"))
			case 5:
				m = messages.NewAbort(mkMap("x"), "a.b", []any{nil, val()}[:rng.Intn(3)], mkMap("k", "l"))
			default:
				m = []messages.Message{messages.NewHello("r", "u", nil, nil, nil), messages.NewAuthenticate("s", nil), messages.NewGoodBye("a.b", nil), messages.NewCall(1, nil, "a.b", nil, nil), messages.NewEvent(1, 2, nil, nil, nil),
					messages.NewError(48, 1, nil, "a.b", nil, nil)}[rng.Intn(6)]
			}
			wire := rng.Intn(2) == 0
			var out messages.Message
			var err error
			hist = append(hist, fmt.Sprintf("%s (wire: %v)", show(m), wire))
			kind := "error"
			if wire {
				data, e := f.Serializer.Serialize(m)
				if e != nil {
					return
				}
				if rng.Intn(6) == 0 && len(data) > 0 {
					data = data[:rng.Intn(len(data))]
				}
				dm, e := f.Serializer.Deserialize(data)
				var res []byte
				res, err = j.Receive(data)
				if e != nil {
					if err == nil {
						bad("undecodable", "Receive(%q) gives %q", data, res)
					}
					return
				}
				m = dm
				if err == nil && res != nil {
					if out, err = f.Serializer.Deserialize(res); err != nil {
						bad("answer", "the answer %q does not decode", res)
						return
					}
				}
			} else {
				out, err = j.ReceiveMessage(m)
			}
			if err == nil {
				kind = "nothing"
				if out != nil {
					kind = fmt.Sprintf("%T", out)
				}
			}
			hist = append(hist, "  -> "+kind)
			switch v := m.(type) {
			case *messages.Welcome:
				if state == "hello" || state == "auth" {
					if kind != "nothing" {
						bad("welcome", "WELCOME gives %s, %v in state %s", kind, err, state)
						return
					}
					state = "joined"
					want.set, want.id = true, v.SessionID()
					want.authid, _ = v.Details()["authid"].(string)
					want.role, _ = v.Details()["authrole"].(string)
					want.meth, _ = v.Details()["authmethod"].(string)
				} else if kind != "error" {
					bad("welcome", "WELCOME gives %s in state %s", kind, state)
				}
			case *messages.Challenge:
				if kind == "error" {
					return
				}
				if state != "hello" || kind != "*messages.Authenticate" {
					bad("challenge", "CHALLENGE gives %s in state %s", kind, state)
					return
				}
				state = "auth"
			default:
				if kind != "error" {
					bad("other", "%s gives %s", show(m), kind)
				}
			}
		})
		if !ok || !r.More() {
			return
		}
		d, err := j.SessionDetails()
		if !want.set {
			if err == nil || d != nil {
				bad("details", "session details exist before any WELCOME: %v", d)
			}
		} else if err != nil || d == nil || d.ID() != want.id || d.Realm() != "realm7" || d.AuthID() != want.authid || d.AuthRole() != want.role || d.AuthMethod() != want.meth {
			bad("details", "session details are %+v, %v, the WELCOME said %+v", d, err, want)
		}
	}
	r.Eval(what())
}

func TestRefuteA07(t *testing.T) {
	run(t, "A07", "seeded sequences of SendHello and router messages with missing, mistyped and undecodable content, for each kind of client, against a model of the client's state", 6*time.Second, func(r *R) {
		for k := 0; k < r.N(20000) && r.More(); k++ {
			joinHistory(r)
		}
	})
}
