#!/usr/bin/env python3
"""Writes contracts/messages.spec from the WAMP message table (independent of the code)."""
# name, code, fields interface, [(getter, kind)], kinds: id str map list? map?
D = 'Details'; O = 'Options'
T = [
 ('Hello',1,'HelloFields',[('Realm','str'),('',"hello")]),
 ('Welcome',2,'WelcomeFields',[('SessionID','id'),('Details','map')]),
 ('Abort',3,'AbortFields',[('Details','map'),('Reason','str'),('Args','list?'),('KwArgs','map?')]),
 ('Challenge',4,'ChallengeFields',[('AuthMethod','str'),('Extra','map')]),
 ('Authenticate',5,'AuthenticateFields',[('Signature','str'),('Extra','map')]),
 ('GoodBye',6,'GoodByeFields',[('Details','map'),('Reason','str')]),
 ('Error',8,'ErrorFields',[('MessageType','id'),('RequestID','id'),('Details','map'),('URI','str'),('Args','list?'),('KwArgs','map?')]),
 ('Publish',16,'PublishFields',[('RequestID','id'),('Options','map'),('Topic','str'),('Args','list?'),('KwArgs','map?')]),
 ('Published',17,'PublishedFields',[('RequestID','id'),('PublicationID','id')]),
 ('Subscribe',32,'SubscribeFields',[('RequestID','id'),('Options','map'),('Topic','str')]),
 ('Subscribed',33,'SubscribedFields',[('RequestID','id'),('SubscriptionID','id')]),
 ('Unsubscribe',34,'UnsubscribeFields',[('RequestID','id'),('SubscriptionID','id')]),
 ('Unsubscribed',35,'UnsubscribedFields',[('RequestID','id')]),
 ('Event',36,'EventFields',[('SubscriptionID','id'),('PublicationID','id'),('Details','map'),('Args','list?'),('KwArgs','map?')]),
 ('Call',48,'CallFields',[('RequestID','id'),('Options','map'),('Procedure','str'),('Args','list?'),('KwArgs','map?')]),
 ('Cancel',49,'CancelFields',[('RequestID','id'),('Options','map')]),
 ('Result',50,'ResultFields',[('RequestID','id'),('Details','map'),('Args','list?'),('KwArgs','map?')]),
 ('Register',64,'RegisterFields',[('RequestID','id'),('Options','map'),('Procedure','str')]),
 ('Registered',65,'RegisteredFields',[('RequestID','id'),('RegistrationID','id')]),
 ('Unregister',66,'UnregisterFields',[('RequestID','id'),('RegistrationID','id')]),
 ('Unregistered',67,'UnregisteredFields',[('RequestID','id')]),
 ('Invocation',68,'InvocationFields',[('RequestID','id'),('RegistrationID','id'),('Details','map'),('Args','list?'),('KwArgs','map?')]),
 ('Interrupt',69,'InterruptFields',[('RequestID','id'),('Options','map')]),
 ('Yield',70,'YieldFields',[('RequestID','id'),('Options','map'),('Args','list?'),('KwArgs','map?')]),
]
PAYLOAD = {'Call','Error','Event','Publish','Result','Invocation','Yield'}
print('''# Generated by scripts/gen_messages.py from the WAMP message table. Do not edit.
pred idok(i) = (isIntKind(i) && 0 <= intval(i))
  || (isFloatKind(i) && fcls(fltval(i)) == 0 && nonneg(fltval(i)) && trunc(fltval(i)) < 18446744073709551616)
pred isid(v, i) = (isIntKind(i) ==> v == intval(i)) && (isFloatKind(i) ==> v == trunc(fltval(i)))
pred ismap(i) = typeis(i, map[string]any)
pred islist(i) = typeis(i, []any)
pred strlist(i) = islist(i) ==> (forall k int :: 0 <= k && k < len(as(i,[]any)) ==> typeis(as(i,[]any)[k], string))
''')
for name, code, fi, ps in T:
    mn = 1 + sum(1 for _, k in ps if not k.endswith('?'))
    mx = 1 + len(ps)
    ok = [f'{mn} <= len(l)', f'len(l) <= {mx}']
    ens = []
    for i, (g, k) in enumerate(ps, 1):
        if k == 'id':
            ok.append(f'idok(l[{i}])'); ens.append((g.lower(), f'isid(m.{g}(), l[{i}])'))
        elif k == 'str':
            ok.append(f'typeis(l[{i}], string)'); ens.append((g.lower(), f'm.{g}() == as(l[{i}], string)'))
        elif k == 'map':
            ok.append(f'ismap(l[{i}])'); ens.append((g.lower(), f'm.{g}() == as(l[{i}], map[string]any)'))
        elif k == 'list?':
            ok.append(f'(len(l) > {i} ==> islist(l[{i}]))')
            ens.append((g.lower(), f'len(l) > {i} ? m.{g}() == as(l[{i}], []any) : m.{g}() == nil'))
        elif k == 'map?':
            ok.append(f'(len(l) > {i} ==> ismap(l[{i}]))')
            ens.append((g.lower(), f'len(l) > {i} ? m.{g}() == as(l[{i}], map[string]any) : m.{g}() == nil'))
        elif k == 'hello':
            d = f'as(l[{i}], map[string]any)'
            ok.append(f'ismap(l[{i}])')
            ok.append(f'("authmethods" in {d} ==> strlist({d}["authmethods"]))')
            def opt(key, pred): return f'"{key}" in {d} && {pred(d + f"""["{key}"]""")}'
            ens.append(('authid', f'{opt("authid", lambda v: f"typeis({v}, string)")} ? m.AuthID() == as({d}["authid"], string) : m.AuthID() == ""'))
            ens.append(('authextra', f'{opt("authextra", lambda v: f"ismap({v})")} ? m.AuthExtra() == as({d}["authextra"], map[string]any) : len(m.AuthExtra()) == 0'))
            ens.append(('roles', f'{opt("roles", lambda v: f"ismap({v})")} ? m.Roles() == as({d}["roles"], map[string]any) : len(m.Roles()) == 0'))
            am = opt("authmethods", lambda v: f"islist({v})")
            ens.append(('nmethods', f'len(m.AuthMethods()) == ({am} ? len(as({d}["authmethods"], []any)) : 0)'))
            ens.append(('methods', f'{am} ==> (forall k int :: {{m.AuthMethods()[k]}} 0 <= k && k < len(as({d}["authmethods"], []any)) ==> m.AuthMethods()[k] == as(as({d}["authmethods"], []any)[k], string))'))
    priv = fi[0].lower() + fi[1:]
    was = []
    for i, (g, k) in enumerate(ps, 1):
        e = {'id': f'isid(m.{g}(), old(l[{i}]))', 'str': f'm.{g}() == as(old(l[{i}]), string)', 'map': f'm.{g}() == as(old(l[{i}]), map[string]any)',
             'list?': f'(len(l) > {i} ? m.{g}() == as(old(l[{i}]), []any) : m.{g}() == nil)', 'map?': f'(len(l) > {i} ? m.{g}() == as(old(l[{i}]), map[string]any) : m.{g}() == nil)', 'hello': None}[k]
        if e: was.append(e)
        else:
            d = f'as(l[{i}], map[string]any)'
            for key, fn, g2 in [('authid', lambda v: f'typeis({v}, string)', 'AuthID() == as(%s, string)'), ('authextra', lambda v: f'ismap({v})', 'AuthExtra() == as(%s, map[string]any)'), ('roles', lambda v: f'ismap({v})', 'Roles() == as(%s, map[string]any)')]:
                v = f'{d}["{key}"]'
                was.append(f'(old("{key}" in {d} && {fn(v)}) ==> m.' + g2 % f'old({v})' + ')')
            v = f'{d}["authmethods"]'
            was.append(f'(old("authmethods" in {d} && islist({v})) ==> len(m.AuthMethods()) == len(as(old({v}), []any)) && (forall k int :: {{m.AuthMethods()[k]}} 0 <= k && k < len(as(old({v}), []any)) ==> m.AuthMethods()[k] == as(old(as({v}, []any)[k]), string)))')
    print(f'pred is_{name}(m, l) = ' + ' && '.join(was))
    print(f'pred accepts_{name}(l) = ' + ' && '.join(ok))
    print(f'fn messages.(*{name}).Parse(m, l) (err)')
    print('modular')
    print('ensures [W01] nopanic: true')
    print(f'modifies m.{fi}')
    extra = ', []string, []any, map[string]any' if name == 'Hello' else ''
    print(f'allocates {priv}, Fields, []error{extra}')
    print(f'ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_{name}(l))')
    print(f'ensures [W01,W02,W03,W04] set: err == nil ==> m.{fi} != nil')
    print(f'ensures [W03] kept: err != nil ==> m.{fi} == old(m.{fi})')
    for n, e in ens:
        print(f'ensures [W02,W03] {n}: err == nil ==> ({e})')
    if name in PAYLOAD:
        print(f'ensures [W03] notbinary: err == nil ==> !m.PayloadIsBinary()')
    print(f'fn messages.(*{name}).Type(m) (c)')
    print(f'ensures [W04] code: c == {code}')
    print()

print('pred idval(i) = isIntKind(i) ? intval(i) : trunc(fltval(i))')
print('pred iscode(c) = ' + ' || '.join(f'c == {c}' for _, c, _, _ in T))
print('fn serializers.ToMessage(l) (m, err)')
print('modular')
print('ensures [W01] nopanic: true')
print('ensures [W04] code: err == nil ==> len(l) > 0 && idok(l[0]) && m != nil && iscode(idval(l[0])) && m.Type() == idval(l[0])')
print('ensures [W01,W02,W04] complete: err == nil ==> wfmsg(m)')
print('pred accepts_any(l) = len(l) > 0 && idok(l[0]) && (' + ' || '.join(f'(idval(l[0]) == {c} && accepts_{n}(l))' for n, c, _, _ in T) + ')')
print('ensures [W02] accepts: err == nil <==> old(accepts_any(l))')
for name, code, fi, ps in T:
    print(f'ensures [W02] is{name}: err == nil && typeis(m, *messages.{name}) ==> idval(old(l[0])) == {code} && old(accepts_{name}(l)) && is_{name}(as(m, *messages.{name}), l)')
for name, code, fi, ps in T:
    print(f'ensures [W04] {name}: len(l) > 0 && idok(l[0]) && idval(l[0]) == {code} ==> (err == nil <==> old(accepts_{name}(l)))')

# ---- W02: what the serializers do around them ----
for codec, sn in [('json', 'JSON'), ('cbor', 'CBOR'), ('msgpack', 'MsgPack')]:
    print()
    print(f'fn serializers.(*{sn}Serializer).Serialize(s, m) (b, err)')
    print('marshal_ok')
    print('requires m != nil')
    print(f'ensures [W02] encodes: err == nil && encodes("{codec}", b, m)')
    if codec == 'msgpack':
        print('ensures [W02] acceptable: mpend(b, 1, 9999) >= 0')
    print(f'fn serializers.(*{sn}Serializer).Deserialize(s, b) (m, err)')
    print('ensures [W01] complete: err == nil ==> wfmsg(m)')
    d = f'decoded("{codec}", b)'
    if codec != 'msgpack':
        print(f'ensures [W02] accepts: err == nil <==> decodes("{codec}", b) && old(accepts_any({d}))')
    else:
        print(f'ensures [W02] accepts: err == nil <==> old(mpend(b, 1, 9999)) >= 0 && decodes("{codec}", b) && old(accepts_any({d}))')
    for name, code, fi, ps in T:
        print(f'ensures [W02] {name}: err == nil && typeis(m, *messages.{name}) ==> idval(old({d}[0])) == {code} && is_{name}(as(m, *messages.{name}), {d})')

# ---- W02: round trips, as harness functions over the code's constructors, Marshal and ToMessage ----
CTOR = {'Abort': ['Details','Reason','Args','KwArgs'], 'GoodBye': ['Reason','Details']}
GO = {'id': 'uint64', 'str': 'string', 'map': 'map[string]any', 'list?': '[]any', 'map?': 'map[string]any'}
out = ['''// Generated by scripts/gen_messages.py. Do not edit.
package messages

// vhWire stands for what a decoder makes of an encoded list.
func vhWire(l []any) []any { return l }
''']
print()
print('''# Round trips: constructor, Marshal, any codec, Parse (harness/messages__roundtrip.go runs the functions of /repo).
pred samelist(a, b) = len(b) == len(a) && (forall i int :: {old(b[i])} 0 <= i && i < len(a) ==> cn(old(a[i]), old(b[i])))
pred samemap(a, b) = (forall k string :: {old(k in b)} old(k in b) <==> old(k in a)) && (forall k string :: {old(b[k])} old(k in a) ==> cn(old(a[k]), old(b[k])))
pred okid(i) = i <= 9007199254740992''')
for name, code, fi, ps in T:
    if name == 'Hello':
        params = [('Realm','str'),('AuthID','str'),('AuthExtra','map'),('Roles','map'),('AuthMethods','strs')]
    else:
        params = ps
    order = CTOR.get(name, [g for g, _ in params])
    kinds = dict(params)
    go = lambda k: {'strs': '[]string'}.get(k) or GO[k]
    v = lambda g: g[0].lower() + g[1:]
    sig = ', '.join(f'{v(g)} {go(kinds[g])}' for g in order)
    out.append(f'''func vh{name}({sig}) (l []any, m *{name}, err error) {{
	l = vhWire(New{name}({', '.join(v(g) for g in order)}).Marshal())
	m = &{name}{{}}
	err = m.Parse(l)
	return l, m, err
}}
''')
    print(f'fn messages.vh{name}({", ".join(v(g) for g in order)}) (l, m, err)')
    for g, k in params:
        if k == 'id': print(f'requires okid({v(g)})')
    print('ensures [W02] succeeds: err == nil')
    print(f'ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == {code}')
    n = 'm'
    for g, k in params:
        if k in ('id', 'str'): e = f'{n}.{g}() == {v(g)}'
        elif k in ('map', 'map?'): e = f'samemap({v(g)}, {n}.{g}())'
        elif k == 'list?': e = f'samelist({v(g)}, {n}.{g}())'
        else: e = f'len({n}.{g}()) == len({v(g)}) && (forall i int :: {{{n}.{g}()[i]}} 0 <= i && i < len({v(g)}) ==> {n}.{g}()[i] == old({v(g)}[i]))'
        print(f'ensures [W02] {g.lower()}: {e}')
import os
open(os.path.join(os.path.dirname(__file__), '../harness/messages__roundtrip.go'), 'w').write('\n'.join(out))
