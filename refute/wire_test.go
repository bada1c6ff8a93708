package refute

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"testing"
	"time"

	"github.com/fxamacker/cbor/v2"
	"github.com/vmihailenco/msgpack/v5"

	"github.com/xconnio/wampproto-go/messages"
	"github.com/xconnio/wampproto-go/serializers"
	"github.com/xconnio/wampproto-go/transports"
	"github.com/xconnio/wampproto-go/util"
)

// the WAMP message table
type elem struct {
	get  string
	kind string
	opt  bool
}
type msgRow struct {
	code  uint64
	mk    func() messages.Message
	elems []elem
}

func el(s ...string) (out []elem) {
	for i := 0; i < len(s); i += 2 {
		k := s[i+1]
		opt := k[len(k)-1] == '?'
		if opt {
			k = k[:len(k)-1]
		}
		out = append(out, elem{s[i], k, opt})
	}
	return
}

var table = []msgRow{
	{1, func() messages.Message { return &messages.Hello{} }, el("Realm", "str", "", "hello")},
	{2, func() messages.Message { return &messages.Welcome{} }, el("SessionID", "id", "Details", "map")},
	{3, func() messages.Message { return &messages.Abort{} }, el("Details", "map", "Reason", "str", "Args", "list?", "KwArgs", "map?")},
	{4, func() messages.Message { return &messages.Challenge{} }, el("AuthMethod", "str", "Extra", "map")},
	{5, func() messages.Message { return &messages.Authenticate{} }, el("Signature", "str", "Extra", "map")},
	{6, func() messages.Message { return &messages.GoodBye{} }, el("Details", "map", "Reason", "str")},
	{8, func() messages.Message { return &messages.Error{} }, el("MessageType", "id", "RequestID", "id", "Details", "map", "URI", "str", "Args", "list?", "KwArgs", "map?")},
	{16, func() messages.Message { return &messages.Publish{} }, el("RequestID", "id", "Options", "map", "Topic", "str", "Args", "list?", "KwArgs", "map?")},
	{17, func() messages.Message { return &messages.Published{} }, el("RequestID", "id", "PublicationID", "id")},
	{32, func() messages.Message { return &messages.Subscribe{} }, el("RequestID", "id", "Options", "map", "Topic", "str")},
	{33, func() messages.Message { return &messages.Subscribed{} }, el("RequestID", "id", "SubscriptionID", "id")},
	{34, func() messages.Message { return &messages.Unsubscribe{} }, el("RequestID", "id", "SubscriptionID", "id")},
	{35, func() messages.Message { return &messages.Unsubscribed{} }, el("RequestID", "id")},
	{36, func() messages.Message { return &messages.Event{} }, el("SubscriptionID", "id", "PublicationID", "id", "Details", "map", "Args", "list?", "KwArgs", "map?")},
	{48, func() messages.Message { return &messages.Call{} }, el("RequestID", "id", "Options", "map", "Procedure", "str", "Args", "list?", "KwArgs", "map?")},
	{49, func() messages.Message { return &messages.Cancel{} }, el("RequestID", "id", "Options", "map")},
	{50, func() messages.Message { return &messages.Result{} }, el("RequestID", "id", "Details", "map", "Args", "list?", "KwArgs", "map?")},
	{64, func() messages.Message { return &messages.Register{} }, el("RequestID", "id", "Options", "map", "Procedure", "str")},
	{65, func() messages.Message { return &messages.Registered{} }, el("RequestID", "id", "RegistrationID", "id")},
	{66, func() messages.Message { return &messages.Unregister{} }, el("RequestID", "id", "RegistrationID", "id")},
	{67, func() messages.Message { return &messages.Unregistered{} }, el("RequestID", "id")},
	{68, func() messages.Message { return &messages.Invocation{} }, el("RequestID", "id", "RegistrationID", "id", "Details", "map", "Args", "list?", "KwArgs", "map?")},
	{69, func() messages.Message { return &messages.Interrupt{} }, el("RequestID", "id", "Options", "map")},
	{70, func() messages.Message { return &messages.Yield{} }, el("RequestID", "id", "Options", "map", "Args", "list?", "KwArgs", "map?")},
}

func rowOf(code uint64) *msgRow {
	for i := range table {
		if table[i].code == code {
			return &table[i]
		}
	}
	return nil
}

// number: the value of any Go number as float64 or exact integer, by reflection.
func number(v any) (neg bool, u uint64, ok bool) {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if rv.Type().PkgPath() != "" {
			return
		}
		if rv.Int() < 0 {
			return true, uint64(-rv.Int()), true
		}
		return false, uint64(rv.Int()), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return false, rv.Uint(), true
	case reflect.Float32, reflect.Float64:
		f := rv.Float()
		if math.IsNaN(f) || math.IsInf(f, 0) || math.Abs(f) >= 1<<64 {
			return
		}
		if f < 0 {
			return true, uint64(-f), true
		}
		return false, uint64(f), true
	}
	return
}

func asID(v any) (uint64, bool) {
	neg, u, ok := number(v)
	return u, ok && !neg
}

// expect is the oracle for parsing: nil when the list must be refused.
func expect(row *msgRow, l []any) map[string]any {
	min := 1
	for _, e := range row.elems {
		if !e.opt {
			min++
		}
	}
	if len(l) < min || len(l) > 1+len(row.elems) {
		return nil
	}
	out := map[string]any{}
	for i, e := range row.elems {
		if i+1 >= len(l) {
			if e.kind == "list" {
				out[e.get] = []any(nil)
			} else {
				out[e.get] = map[string]any(nil)
			}
			continue
		}
		v := l[i+1]
		switch e.kind {
		case "id":
			n, ok := asID(v)
			if !ok {
				return nil
			}
			out[e.get] = n
		case "str":
			s, ok := v.(string)
			if !ok {
				return nil
			}
			out[e.get] = s
		case "map":
			m, ok := v.(map[string]any)
			if !ok {
				return nil
			}
			out[e.get] = m
		case "list":
			m, ok := v.([]any)
			if !ok {
				return nil
			}
			out[e.get] = m
		case "hello":
			d, ok := v.(map[string]any)
			if !ok {
				return nil
			}
			s, _ := d["authid"].(string)
			out["AuthID"] = s
			ms := []string{}
			if am, ok := d["authmethods"].([]any); ok {
				for _, a := range am {
					s, ok := a.(string)
					if !ok {
						return nil
					}
					ms = append(ms, s)
				}
			}
			out["AuthMethods"] = ms
			for k, g := range map[string]string{"authextra": "AuthExtra", "roles": "Roles"} {
				m, _ := d[k].(map[string]any)
				out[g] = m
			}
		}
	}
	return out
}

func get(m messages.Message, name string) any {
	return reflect.ValueOf(m).MethodByName(name).Call(nil)[0].Interface()
}

// norm maps values that are the same to WAMP to the same Go value.
func norm(v any) any {
	if neg, u, ok := number(v); ok {
		if f, isf := v.(float64); isf && f != math.Trunc(f) {
			return f
		}
		if neg {
			return fmt.Sprintf("-%d", u)
		}
		return fmt.Sprintf("%d", u)
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Slice:
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			return "bytes:" + string(rv.Bytes())
		}
		out := make([]any, rv.Len())
		for i := range out {
			out[i] = norm(rv.Index(i).Interface())
		}
		return out
	case reflect.Map:
		var out []string
		for _, k := range rv.MapKeys() {
			out = append(out, fmt.Sprintf("%v=%v", k.Interface(), norm(rv.MapIndex(k).Interface())))
		}
		sort.Strings(out)
		return fmt.Sprintf("map%q", out)
	case reflect.String:
		return "s:" + rv.String()
	}
	return v
}

func same(a, b any) bool { return reflect.DeepEqual(norm(a), norm(b)) }

// palette of list elements
func palette() []any {
	return []any{nil, true, "", "foo.bar", -1, int64(-5), uint64(math.MaxUint64), 7, int8(3), uint8(200), uint16(60000), uint32(1 << 31), int32(-9),
		2.0, 2.75, -0.5, math.NaN(), math.Inf(1), 1e30, float32(3), []any{}, []any{1, "x"}, []string{"a"}, map[string]any{},
		map[string]any{"authmethods": []any{"ticket", "cryptosign"}, "authid": "joe", "roles": map[string]any{"caller": map[string]any{}}},
		map[string]any{"authmethods": []any{"ticket", 1}}, map[string]any{"authmethods": "ticket", "authid": 3, "authextra": map[string]any{"pubkey": "x"}},
		map[any]any{1: 2}, map[string]string{"a": "b"}, []byte("xyz"), int16(12), uint(5), json.Number("4")}
}

// good returns a value of the kind.
func good(r *R, k string) any {
	switch k {
	case "id":
		return []any{1, uint64(1 << 53), int64(9), 5.0, uint8(255), uint16(65535), uint32(70000), int8(5), int16(300), int32(1 << 30), uint(77), float32(16), uint64(math.MaxUint64)}[r.rng.Intn(13)]
	case "str":
		return []any{"", "foo", "wamp.x.y"}[r.rng.Intn(3)]
	case "map":
		return []any{map[string]any{}, map[string]any{"a": 1}, map[string]any(nil)}[r.rng.Intn(3)]
	case "list":
		return []any{[]any{}, []any{1, "b", nil}, []any(nil)}[r.rng.Intn(3)]
	default:
		d := map[string]any{}
		if r.rng.Intn(2) == 0 {
			d["authid"] = "joe"
		}
		if r.rng.Intn(2) == 0 {
			d["authmethods"] = []any{"ticket", "x"}[:r.rng.Intn(3)]
		}
		if r.rng.Intn(2) == 0 {
			d["authextra"] = map[string]any{"pubkey": "aa"}
		}
		if r.rng.Intn(2) == 0 {
			d["roles"] = map[string]any{"caller": 1}
		}
		return d
	}
}

// lists yields lists for a row: all shapes with good elements, and with wrong ones put in.
func (r *R) list(row *msgRow) []any {
	n := r.rng.Intn(len(row.elems) + 3)
	if r.rng.Intn(3) > 0 {
		n = 1 + len(row.elems) - r.rng.Intn(3)
	}
	if n < 0 {
		n = 0
	}
	l := make([]any, n)
	pal := palette()
	for i := range l {
		switch {
		case i == 0:
			l[0] = row.code
		case i <= len(row.elems):
			l[i] = good(r, row.elems[i-1].kind)
		default:
			l[i] = pal[r.rng.Intn(len(pal))]
		}
	}
	for k := r.rng.Intn(3); k > 0 && n > 1; k-- {
		l[1+r.rng.Intn(n-1)] = pal[r.rng.Intn(len(pal))]
	}
	return l
}

func mustNot(r *R, what func() string, f func()) { r.Guard("panic", what, f) }

func TestRefuteW01(t *testing.T) {
	run(t, "W01", "random and mutated byte strings into every decoder, random lists into every Parse; non-trivial: at least one byte or element", 8*time.Second, func(r *R) {
		pal := palette()
		for i := range table {
			row := &table[i]
			for n := 0; n <= len(row.elems)+2; n++ {
				for k := 0; k < 40; k++ {
					l := make([]any, n)
					for j := range l {
						l[j] = pal[r.rng.Intn(len(pal))]
						if j <= len(row.elems) && j > 0 && r.rng.Intn(2) == 0 {
							l[j] = good(r, row.elems[j-1].kind)
						}
					}
					r.Eval(fmt.Sprint(row.code, n, k, l))
					desc := func() string { return fmt.Sprintf("Parse of %#v as message code %d", l, row.code) }
					mustNot(r, desc, func() { _ = row.mk().Parse(l) })
					if n > 0 && r.rng.Intn(2) == 0 {
						l[0] = row.code
					}
					mustNot(r, func() string { return fmt.Sprintf("ToMessage(%#v)", l) }, func() { _, _ = serializers.ToMessage(l) })
				}
			}
		}
		sers := map[string]serializers.Serializer{"json": &serializers.JSONSerializer{}, "cbor": &serializers.CBORSerializer{}, "msgpack": &serializers.MsgPackSerializer{}}
		names := []string{"json", "cbor", "msgpack"}
		feed := func(b []byte) {
			r.Eval(string(b))
			for _, n := range names {
				mustNot(r, func() string { return fmt.Sprintf("%s Deserialize(%q)", n, b) }, func() {
					m, err := sers[n].Deserialize(b)
					if err == nil && m == nil {
						r.Fail("nil-message", "%s Deserialize(%q) returns neither a message nor an error", n, b)
					}
					if err == nil {
						_ = m.Type()
						_ = m.Marshal()
					}
				})
			}
			for id := uint64(0); id < 6; id++ {
				mustNot(r, func() string { return fmt.Sprintf("DeserializePayload(%d, %q)", id, b) }, func() { _, _, _ = serializers.DeserializePayload(id, b) })
			}
			mustNot(r, func() string { return fmt.Sprintf("DecodeCBOR(%q)", b) }, func() { _, _, _ = serializers.DecodeCBOR(b) })
		}
		for _, s := range []string{"", "[]", "null", "{}", "0", "\"x\"", "[null]", "[[]]", "[[],{}]", "[null,null]", "[[],null]", "[1]", "[{},[]]", "[1,2,3]", "\x80", "\xf6", "\x81\x80",
			"\x90", "\xc0", "\x91\xc0", "\x92\x90\x80", "\x82\xf6\xf6", "\x82\x80\xa0", "\x80\x80", "\xa0", "\x9f\xff"} {
			feed([]byte(s))
		}
		for r.More() {
			row := &table[r.rng.Intn(len(table))]
			l := r.list(row)
			switch r.rng.Intn(4) {
			case 0:
				b := make([]byte, r.rng.Intn(40))
				r.rng.Read(b)
				feed(b)
			case 1:
				b, err := json.Marshal(l)
				if err != nil {
					continue
				}
				feed(mutate(r, b))
			case 2:
				b, err := cbor.Marshal(l)
				if err != nil {
					continue
				}
				feed(mutate(r, b))
			case 3:
				b, err := msgpack.Marshal(l)
				if err != nil {
					continue
				}
				feed(mutate(r, b))
			}
		}
	})
}

func mutate(r *R, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := r.rng.Intn(3); k > 0 && len(b) > 0; k-- {
		i := r.rng.Intn(len(b))
		switch r.rng.Intn(3) {
		case 0:
			b[i] = byte(r.rng.Intn(256))
		case 1:
			b = b[:i]
		case 2:
			b = append(b[:i], b[i+1:]...)
		}
	}
	return b
}

func TestRefuteW03(t *testing.T) {
	run(t, "W03", "lists of the right, neighbouring and wrong shapes for each of the 24 message types, compared with the WAMP message table", 6*time.Second, func(r *R) {
		for r.More() {
			row := &table[r.rng.Intn(len(table))]
			l := r.list(row)
			want := expect(row, l)
			desc := func() string { return fmt.Sprintf("code %d, list %#v", row.code, l) }
			r.Eval(desc())
			// a message that holds something already
			m := row.mk()
			var before map[string]any
			if r.rng.Intn(2) == 0 {
				full := []any{row.code}
				for _, e := range row.elems {
					full = append(full, good(r, e.kind))
				}
				if w := expect(row, full); w != nil && m.Parse(full) == nil {
					before = map[string]any{}
					for g := range w {
						before[g] = get(m, g)
					}
				}
			}
			r.Guard("panic", desc, func() {
				err := m.Parse(l)
				if (err == nil) != (want != nil) {
					r.Fail("accept", "%s: Parse says %v, but the list is well-formed: %v", desc(), err, want != nil)
					return
				}
				if err != nil {
					for g, v := range before {
						if !same(get(m, g), v) {
							r.Fail("kept", "%s: the failed Parse changed %s to %#v", desc(), g, get(m, g))
						}
					}
					return
				}
				for g, v := range want {
					if !same(get(m, g), v) {
						r.Fail("field-"+g, "%s: %s is %#v, want %#v", desc(), g, get(m, g), v)
					}
				}
				if b, ok := m.(messages.BinaryPayload); ok && b.PayloadIsBinary() {
					r.Fail("binary", "%s: a parsed message claims a binary payload", desc())
				}
			})
		}
	})
}

func TestRefuteW04(t *testing.T) {
	run(t, "W04", "every code 0..300 and every kind of first element, in front of well-formed and ill-formed lists", 5*time.Second, func(r *R) {
		tryList := func(l []any) {
			code, isnum := uint64(0), false
			if len(l) > 0 {
				code, isnum = asID(l[0])
			}
			var row *msgRow
			if isnum {
				row = rowOf(code)
			}
			desc := func() string { return fmt.Sprintf("ToMessage(%#v)", l) }
			r.Eval(desc())
			r.Guard("panic", desc, func() {
				m, err := serializers.ToMessage(l)
				if row == nil {
					if err == nil {
						r.Fail("unknown-code", "%s is accepted as %T", desc(), m)
					}
					return
				}
				if want := expect(row, l); (want != nil) != (err == nil) {
					r.Fail("recognised", "%s: %v", desc(), err)
					return
				}
				if err == nil && (m.Type() != code || reflect.TypeOf(m) != reflect.TypeOf(row.mk())) {
					r.Fail("type", "%s is %T reporting %d", desc(), m, m.Type())
				}
			})
		}
		for c := 0; c <= 300; c++ {
			for k := range table {
				for _, conv := range []func(int) any{func(c int) any { return c }, func(c int) any { return uint64(c) }, func(c int) any { return float64(c) }, func(c int) any { return uint8(c) }, func(c int) any { return int8(c) }} {
					l := []any{conv(c)}
					row := &table[k]
					if c < 256 && rowOf(uint64(c)) != nil && k > 2 {
						row = rowOf(uint64(c))
					}
					for _, e := range row.elems {
						if e.opt && r.rng.Intn(2) == 0 {
							break
						}
						l = append(l, good(r, e.kind))
					}
					tryList(l)
				}
			}
		}
		tryList(nil)
		tryList([]any{})
		for _, v := range palette() {
			for k := range table {
				l := []any{v}
				for _, e := range table[k].elems {
					l = append(l, good(r, e.kind))
				}
				tryList(l)
			}
		}
		for r.More() {
			tryList(r.list(&table[r.rng.Intn(len(table))]))
		}
	})
}

// plain values that every codec carries without change of meaning
func (r *R) value(depth int) any {
	switch k := r.rng.Intn(9); {
	case k == 0:
		return nil
	case k == 1:
		return r.rng.Intn(2) == 0
	case k == 2:
		return r.rng.Intn(1000)
	case k == 3:
		return -r.rng.Intn(1000)
	case k == 4:
		return int64(1)<<53 - int64(r.rng.Intn(3))
	case k == 5:
		return float64(r.rng.Intn(100)) + 0.5
	case k == 6 || depth == 0:
		return []string{"", "a", "topic.é", "\x00x"}[r.rng.Intn(4)]
	case k == 7:
		return r.args(depth - 1)
	default:
		return r.kwargs(depth - 1)
	}
}

func (r *R) args(depth int) []any {
	out := []any{}
	for i := r.rng.Intn(4); i > 0; i-- {
		out = append(out, r.value(depth))
	}
	return out
}

func (r *R) kwargs(depth int) map[string]any {
	out := map[string]any{}
	for i := r.rng.Intn(3); i > 0; i-- {
		out[[]string{"a", "b", "key", ""}[r.rng.Intn(4)]] = r.value(depth)
	}
	return out
}

func (r *R) id() uint64 {
	switch r.rng.Intn(4) {
	case 0:
		return uint64(r.rng.Intn(5))
	case 1:
		return 1 << 53
	case 2:
		return uint64([]int{255, 256, 65535, 65536, 1 << 31, 1<<32 - 1, 1 << 32}[r.rng.Intn(7)])
	}
	return uint64(r.rng.Int63n(1 << 53))
}

func (r *R) maybeArgs() []any {
	if r.rng.Intn(3) == 0 {
		return nil
	}
	return r.args(2)
}

func (r *R) maybeMap() map[string]any {
	if r.rng.Intn(3) == 0 {
		return nil
	}
	return r.kwargs(2)
}

func (r *R) message() (messages.Message, uint64) {
	m := r.maybeMap
	a, kw, i := r.maybeArgs(), m(), r.id
	s := func() string { return []string{"", "foo.bar", "com.é", "x..y"}[r.rng.Intn(4)] }
	code := table[r.rng.Intn(len(table))].code
	switch code {
	case 1:
		am := []string{"ticket", "cryptosign", "", "wampcra"}[:r.rng.Intn(5)]
		return messages.NewHello(s(), s(), m(), m(), am), code
	case 2:
		return messages.NewWelcome(i(), m()), code
	case 3:
		return messages.NewAbort(m(), s(), a, kw), code
	case 4:
		return messages.NewChallenge(s(), m()), code
	case 5:
		return messages.NewAuthenticate(s(), m()), code
	case 6:
		return messages.NewGoodBye(s(), m()), code
	case 8:
		return messages.NewError(i(), i(), m(), s(), a, kw), code
	case 16:
		return messages.NewPublish(i(), m(), s(), a, kw), code
	case 17:
		return messages.NewPublished(i(), i()), code
	case 32:
		return messages.NewSubscribe(i(), m(), s()), code
	case 33:
		return messages.NewSubscribed(i(), i()), code
	case 34:
		return messages.NewUnsubscribe(i(), i()), code
	case 35:
		return messages.NewUnsubscribed(i()), code
	case 36:
		return messages.NewEvent(i(), i(), m(), a, kw), code
	case 48:
		return messages.NewCall(i(), m(), s(), a, kw), code
	case 49:
		return messages.NewCancel(i(), m()), code
	case 50:
		return messages.NewResult(i(), m(), a, kw), code
	case 64:
		return messages.NewRegister(i(), m(), s()), code
	case 65:
		return messages.NewRegistered(i(), i()), code
	case 66:
		return messages.NewUnregister(i(), i()), code
	case 67:
		return messages.NewUnregistered(i()), code
	case 68:
		return messages.NewInvocation(i(), i(), m(), a, kw), code
	case 69:
		return messages.NewInterrupt(i(), m()), code
	default:
		return messages.NewYield(i(), m(), a, kw), 70
	}
}

func getters(code uint64) (out []string) {
	for _, e := range rowOf(code).elems {
		if e.kind == "hello" {
			out = append(out, "AuthID", "AuthMethods", "AuthExtra", "Roles")
		} else {
			out = append(out, e.get)
		}
	}
	return
}

func TestRefuteW02(t *testing.T) {
	run(t, "W02", "messages of all 24 types with random fields through the three message serializers and through a bare Marshal/Parse", 8*time.Second, func(r *R) {
		names := []string{"json", "cbor", "msgpack"}
		sers := []serializers.Serializer{&serializers.JSONSerializer{}, &serializers.CBORSerializer{}, &serializers.MsgPackSerializer{}}
		for r.More() {
			m, code := r.message()
			want := map[string]any{}
			for _, g := range getters(code) {
				want[g] = get(m, g)
			}
			desc := func() string { return fmt.Sprintf("%T with %#v", m, want) }
			r.Eval(desc())
			cmp := func(how string, got messages.Message) {
				if got.Type() != m.Type() || got.Type() != code {
					r.Fail("type", "%s: %s comes back as type %d", how, desc(), got.Type())
					return
				}
				for g, v := range want {
					o := get(got, g)
					if none(v) && none(o) {
						continue
					}
					if !same(o, v) {
						r.Fail("field-"+g, "%s: %s comes back with %s = %#v", how, desc(), g, o)
					}
				}
			}
			k := r.rng.Intn(4)
			r.Guard("panic", desc, func() {
				if k == 3 {
					if code == 1 {
						return // the typed list of authentication methods changes kind on the wire
					}
					got := rowOf(code).mk()
					if err := got.Parse(m.Marshal()); err != nil {
						r.Fail("refused", "%s: Parse(Marshal()) says %v", desc(), err)
						return
					}
					cmp("Marshal/Parse", got)
					return
				}
				b, err := sers[k].Serialize(m)
				if err != nil {
					r.Fail("unserializable", "%s: %s says %v", desc(), names[k], err)
					return
				}
				got, err := sers[k].Deserialize(b)
				if err != nil {
					r.Fail("refused", "%s: %s says %v on %q", desc(), names[k], err, b)
					return
				}
				cmp(names[k], got)
			})
		}
	})
}

// noPayload gives bytes to the payload decoders that hold no payload: cut short, or of another shape.
func noPayload(r *R) {
	id := uint64(1 + r.rng.Intn(3))
	var v any
	shape := []string{"cut", "three", "scalar", "kwargs", "args"}[r.rng.Intn(5)]
	switch shape {
	case "cut":
		v = []any{[]any{"a", "b", 3, map[string]any{"x": []any{"y"}}}, map[string]any{"k": "v"}}
	case "three":
		v = []any{[]any{}, map[string]any{}, "x"}
	case "scalar":
		v = map[string]any{"a": "b"}
	case "kwargs":
		v = []any{[]any{}, []any{}}
	case "args":
		v = []any{map[string]any{}}
	}
	var b []byte
	var err error
	switch id {
	case 1:
		b, err = json.Marshal(v)
	case 2:
		b, err = msgpack.Marshal(v)
	case 3:
		b, err = cbor.Marshal(v)
	}
	if err != nil {
		return
	}
	if shape == "cut" {
		b = b[:1+r.rng.Intn(len(b)-1)]
	}
	a, kw, err := serializers.DeserializePayload(id, b)
	if err == nil {
		r.Fail("no-payload", "serializer %d takes %q (%s) for a payload: %#v, %#v", id, b, shape, a, kw)
	}
}

func TestRefuteW05(t *testing.T) {
	run(t, "W05", "random arguments through every payload serializer id 0..6", 5*time.Second, func(r *R) {
		zero := func(a []any, k map[string]any) bool { return len(a) == 0 && len(k) == 0 }
		for r.More() {
			id := uint64(r.rng.Intn(6))
			a, kw := r.maybeArgs(), r.maybeMap()
			if id == 0 && r.rng.Intn(2) == 0 {
				b := make([]byte, r.rng.Intn(20))
				r.rng.Read(b)
				a, kw = []any{b}, nil
				if r.rng.Intn(4) == 0 {
					kw = map[string]any{}
				}
			}
			desc := func() string { return fmt.Sprintf("serializer %d, args %#v, kwargs %#v", id, a, kw) }
			r.Eval(desc())
			if r.rng.Intn(8) == 0 {
				r.Guard("panic", desc, func() { noPayload(r) })
			}
			r.Guard("panic", desc, func() {
				b, err := serializers.SerializePayload(id, a, kw)
				if id > 3 {
					_, _, e2 := serializers.DeserializePayload(id, b)
					if err == nil || e2 == nil {
						r.Fail("unknown", "%s is not refused", desc())
					}
					return
				}
				if id == 0 {
					raw, israw := []byte(nil), false
					if len(a) == 1 {
						raw, israw = a[0].([]byte)
					}
					switch {
					case zero(a, kw):
						if err != nil || len(b) != 0 {
							r.Fail("raw-empty", "%s gives %q, %v", desc(), b, err)
						}
						return
					case israw && len(kw) == 0:
						if err != nil || !bytes.Equal(b, raw) {
							r.Fail("raw", "%s gives %q, %v", desc(), b, err)
							return
						}
						ga, gk, err := serializers.DeserializePayload(id, b)
						if err != nil || len(ga) != 1 || !same(ga[0], raw) || len(gk) != 0 {
							r.Fail("raw-back", "%s comes back as %#v %#v, %v", desc(), ga, gk, err)
						}
					default:
						if err == nil {
							r.Fail("raw-accepts", "%s is accepted", desc())
						}
					}
					return
				}
				if err != nil {
					r.Fail("refused", "%s: %v", desc(), err)
					return
				}
				ga, gk, err := serializers.DeserializePayload(id, b)
				if err != nil {
					r.Fail("refused-back", "%s: %v on %q", desc(), err, b)
					return
				}
				if len(a)+len(ga) > 0 && !same(a, ga) || len(kw)+len(gk) > 0 && !same(kw, gk) {
					r.Fail("changed", "%s comes back as %#v %#v", desc(), ga, gk)
				}
				if id == 3 {
					b, err := serializers.EncodeCBOR(a, kw)
					if err != nil {
						r.Fail("cbor-refused", "EncodeCBOR %s: %v", desc(), err)
						return
					}
					ga, gk, err := serializers.DecodeCBOR(b)
					if err != nil || len(a)+len(ga) > 0 && !same(a, ga) || len(kw)+len(gk) > 0 && !same(kw, gk) {
						r.Fail("cbor-changed", "EncodeCBOR/DecodeCBOR %s comes back as %#v %#v, %v", desc(), ga, gk, err)
					}
				}
			})
		}
	})
}

func TestRefuteW06(t *testing.T) {
	run(t, "W06", "boundary and random values of every kind through AsUInt64 and AsInt, compared with exact integer arithmetic", 4*time.Second, func(r *R) {
		try := func(v any) {
			neg, u, ok := number(v)
			desc := func() string { return fmt.Sprintf("%T(%v)", v, v) }
			r.Eval(desc())
			r.Guard("panic", desc, func() {
				n, got := util.AsUInt64(v)
				fracNeg := false
				if f, isf := v.(float64); isf && f < 0 {
					fracNeg = true
				}
				if f, isf := v.(float32); isf && f < 0 {
					fracNeg = true
				}
				want := ok && !neg
				if fracNeg && u == 0 {
					want = got // -0.5 truncates to zero: both answers keep the number
				}
				if got != want {
					r.Fail("uint64-ok", "AsUInt64(%s) says %v", desc(), got)
				} else if got && n != u {
					r.Fail("uint64-value", "AsUInt64(%s) = %d", desc(), n)
				} else if !got && n != 0 {
					r.Fail("uint64-zero", "AsUInt64(%s) = %d, false", desc(), n)
				}
				i, got := util.AsInt(v)
				want = ok && (!neg && u <= math.MaxInt64 || neg && u <= 1<<63)
				if got != want {
					r.Fail("int-ok", "AsInt(%s) says %v", desc(), got)
				} else if got {
					if neg && (i > 0 || uint64(-i) != u) || !neg && (i < 0 || uint64(i) != u) {
						r.Fail("int-value", "AsInt(%s) = %d", desc(), i)
					}
				}
			})
		}
		for _, v := range palette() {
			try(v)
		}
		for _, u := range []uint64{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 53, 1<<63 - 1, 1 << 63, math.MaxUint64} {
			for _, d := range []uint64{0, 1, math.MaxUint64} {
				w := u + d
				for _, v := range []any{w, int64(w), -int64(w), int(w), uint(w), int8(w), int16(w), int32(w), uint8(w), uint16(w), uint32(w), float64(w), float32(w), -float64(w), -float32(w),
					float64(w) + 0.5, -float64(w) - 0.5, math.Nextafter(float64(w), 0), math.Nextafter(float64(w), math.Inf(1)), math.Nextafter32(float32(w), 0)} {
					try(v)
				}
			}
		}
		for r.More() {
			w := r.rng.Uint64() >> uint(r.rng.Intn(64))
			for _, v := range []any{w, int64(w), -int64(w), int(w), uint(w), int8(w), int16(w), int32(w), uint8(w), uint16(w), uint32(w), float64(w), float32(w), math.Float64frombits(r.rng.Uint64()), math.Float32frombits(r.rng.Uint32())} {
				try(v)
			}
		}
	})
}

func TestRefuteT01(t *testing.T) {
	run(t, "T01", "all serializer codes -3..40 with sizes around every power of two, and all four byte strings with a byte off", 4*time.Second, func(r *R) {
		try := func(ser, size int) {
			desc := func() string { return fmt.Sprintf("SendHandshake(serializer %d, size %d)", ser, size) }
			r.Eval(desc())
			r.Guard("panic", desc, func() {
				b, err := transports.SendHandshake(transports.NewHandshake(transports.Serializer(ser), size))
				want := ser >= 0 && ser <= 15 && size >= 512 && size <= 1<<24 && size&(size-1) == 0
				if (err == nil) != want {
					r.Fail("encode", "%s: %v", desc(), err)
					return
				}
				if !want {
					return
				}
				h, err := transports.ReceiveHandshake(b)
				if err != nil || len(b) != 4 || int(h.Serializer()) != ser || h.MaxMessageSize() != size {
					r.Fail("round-trip", "%s gives %v, which decodes to %+v, %v", desc(), b, h, err)
				}
			})
		}
		sizes := []int{0, -1, -512, math.MinInt64, math.MaxInt64, 3 << 8, 513, 1000}
		for k := 0; k < 63; k++ {
			sizes = append(sizes, 1<<k, 1<<k+1, 1<<k-1, -(1 << k), 1<<k+1<<(k/2))
		}
		for ser := -3; ser <= 40; ser++ {
			for _, s := range sizes {
				try(ser, s)
			}
		}
		for _, ser := range []int{-1 << 31, 256, 271, 1 << 20, math.MinInt64} {
			try(ser, 1024)
		}
		dec := func(b []byte) {
			desc := func() string { return fmt.Sprintf("ReceiveHandshake(%v)", b) }
			r.Eval(desc())
			r.Guard("panic", desc, func() {
				h, err := transports.ReceiveHandshake(b)
				want := len(b) == 4 && b[0] == 0x7f && b[2] == 0 && b[3] == 0
				if (err == nil) != want {
					r.Fail("decode", "%s: %v", desc(), err)
					return
				}
				if want && (int(h.Serializer()) != int(b[1])%16 || h.MaxMessageSize() != 512<<(b[1]/16)) {
					r.Fail("decode-value", "%s = %+v", desc(), h)
				}
			})
		}
		for i := 0; i < 256; i++ {
			dec([]byte{0x7f, byte(i), 0, 0})
			dec([]byte{byte(i), 0x11, 0, 0})
			dec([]byte{0x7f, 0x11, byte(i), 0})
			dec([]byte{0x7f, 0x11, 0, byte(i)})
			dec([]byte{0x7f, 0x11, byte(i), byte(i)})
		}
		for n := 0; n < 9; n++ {
			b := make([]byte, n)
			dec(b)
			if n > 0 {
				b[0] = 0x7f
			}
			dec(b)
		}
		for r.More() {
			if r.rng.Intn(2) == 0 {
				try(r.rng.Intn(64)-8, int(r.rng.Uint64()>>uint(r.rng.Intn(64))))
			} else {
				b := make([]byte, r.rng.Intn(6))
				r.rng.Read(b)
				dec(b)
			}
		}
	})
}

func TestRefuteT02(t *testing.T) {
	run(t, "T02", "every kind 0..255 with lengths around every byte boundary and random ones, and byte strings of every length 0..9", 4*time.Second, func(r *R) {
		try := func(kind byte, n int) {
			desc := func() string { return fmt.Sprintf("SendMessageHeader(kind %d, length %d)", kind, n) }
			r.Eval(desc())
			r.Guard("panic", desc, func() {
				b := transports.SendMessageHeader(transports.NewMessageHeader(transports.Message(kind), n))
				h, err := transports.ReceiveMessageHeader(b)
				if len(b) != 4 || err != nil || byte(h.Kind()) != kind || h.Length() != n {
					r.Fail("round-trip", "%s gives %v, which decodes to %+v, %v", desc(), b, h, err)
				}
			})
		}
		dec := func(b []byte) {
			desc := func() string { return fmt.Sprintf("ReceiveMessageHeader(%v)", b) }
			r.Eval(desc())
			r.Guard("panic", desc, func() {
				h, err := transports.ReceiveMessageHeader(b)
				if (err == nil) != (len(b) == 4) {
					r.Fail("decode", "%s: %v", desc(), err)
					return
				}
				if err == nil && (byte(h.Kind()) != b[0] || h.Length() != int(b[1])<<16+int(b[2])<<8+int(b[3])) {
					r.Fail("decode-value", "%s = %+v", desc(), h)
				}
			})
		}
		for k := 0; k < 256; k++ {
			for _, n := range []int{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 1<<23 - 1, 1 << 23, 1<<24 - 1} {
				try(byte(k), n)
			}
		}
		for n := 0; n < 1<<24; n += 251 {
			try(byte(n), n)
		}
		for n := 0; n < 10; n++ {
			for k := 0; k < 20; k++ {
				b := make([]byte, n)
				r.rng.Read(b)
				dec(b)
			}
		}
		for r.More() {
			try(byte(r.rng.Intn(256)), r.rng.Intn(1<<24))
			b := make([]byte, r.rng.Intn(9))
			r.rng.Read(b)
			dec(b)
		}
	})
}

// none tells whether v is an absent or empty list or map.
func none(v any) bool {
	rv := reflect.ValueOf(v)
	return (rv.Kind() == reflect.Map || rv.Kind() == reflect.Slice) && rv.Len() == 0
}
