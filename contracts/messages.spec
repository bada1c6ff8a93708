# Generated by scripts/gen_messages.py from the WAMP message table. Do not edit.
pred idok(i) = (isIntKind(i) && 0 <= intval(i))
  || (isFloatKind(i) && fcls(fltval(i)) == 0 && nonneg(fltval(i)) && trunc(fltval(i)) < 18446744073709551616)
pred isid(v, i) = (isIntKind(i) ==> v == intval(i)) && (isFloatKind(i) ==> v == trunc(fltval(i)))
pred ismap(i) = typeis(i, map[string]any)
pred islist(i) = typeis(i, []any)
pred strlist(i) = islist(i) ==> (forall k int :: 0 <= k && k < len(as(i,[]any)) ==> typeis(as(i,[]any)[k], string))

pred is_Hello(m, l) = m.Realm() == as(old(l[1]), string) && (old("authid" in as(l[2], map[string]any) && typeis(as(l[2], map[string]any)["authid"], string)) ==> m.AuthID() == as(old(as(l[2], map[string]any)["authid"]), string)) && (old("authextra" in as(l[2], map[string]any) && ismap(as(l[2], map[string]any)["authextra"])) ==> m.AuthExtra() == as(old(as(l[2], map[string]any)["authextra"]), map[string]any)) && (old("roles" in as(l[2], map[string]any) && ismap(as(l[2], map[string]any)["roles"])) ==> m.Roles() == as(old(as(l[2], map[string]any)["roles"]), map[string]any)) && (old("authmethods" in as(l[2], map[string]any) && islist(as(l[2], map[string]any)["authmethods"])) ==> len(m.AuthMethods()) == len(as(old(as(l[2], map[string]any)["authmethods"]), []any)) && (forall k int :: {m.AuthMethods()[k]} 0 <= k && k < len(as(old(as(l[2], map[string]any)["authmethods"]), []any)) ==> m.AuthMethods()[k] == as(old(as(as(l[2], map[string]any)["authmethods"], []any)[k]), string)))
pred accepts_Hello(l) = 3 <= len(l) && len(l) <= 3 && typeis(l[1], string) && ismap(l[2]) && ("authmethods" in as(l[2], map[string]any) ==> strlist(as(l[2], map[string]any)["authmethods"]))
fn messages.(*Hello).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.HelloFields
allocates helloFields, Fields, []error, []string, []any, map[string]any
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Hello(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.HelloFields != nil
ensures [W03] kept: err != nil ==> m.HelloFields == old(m.HelloFields)
ensures [W02,W03] realm: err == nil ==> (m.Realm() == as(l[1], string))
ensures [W02,W03] authid: err == nil ==> ("authid" in as(l[2], map[string]any) && typeis(as(l[2], map[string]any)["authid"], string) ? m.AuthID() == as(as(l[2], map[string]any)["authid"], string) : m.AuthID() == "")
ensures [W02,W03] authextra: err == nil ==> ("authextra" in as(l[2], map[string]any) && ismap(as(l[2], map[string]any)["authextra"]) ? m.AuthExtra() == as(as(l[2], map[string]any)["authextra"], map[string]any) : len(m.AuthExtra()) == 0)
ensures [W02,W03] roles: err == nil ==> ("roles" in as(l[2], map[string]any) && ismap(as(l[2], map[string]any)["roles"]) ? m.Roles() == as(as(l[2], map[string]any)["roles"], map[string]any) : len(m.Roles()) == 0)
ensures [W02,W03] nmethods: err == nil ==> (len(m.AuthMethods()) == ("authmethods" in as(l[2], map[string]any) && islist(as(l[2], map[string]any)["authmethods"]) ? len(as(as(l[2], map[string]any)["authmethods"], []any)) : 0))
ensures [W02,W03] methods: err == nil ==> ("authmethods" in as(l[2], map[string]any) && islist(as(l[2], map[string]any)["authmethods"]) ==> (forall k int :: {m.AuthMethods()[k]} 0 <= k && k < len(as(as(l[2], map[string]any)["authmethods"], []any)) ==> m.AuthMethods()[k] == as(as(as(l[2], map[string]any)["authmethods"], []any)[k], string)))
fn messages.(*Hello).Type(m) (c)
ensures [W04] code: c == 1

pred is_Welcome(m, l) = isid(m.SessionID(), old(l[1])) && m.Details() == as(old(l[2]), map[string]any)
pred accepts_Welcome(l) = 3 <= len(l) && len(l) <= 3 && idok(l[1]) && ismap(l[2])
fn messages.(*Welcome).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.WelcomeFields
allocates welcomeFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Welcome(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.WelcomeFields != nil
ensures [W03] kept: err != nil ==> m.WelcomeFields == old(m.WelcomeFields)
ensures [W02,W03] sessionid: err == nil ==> (isid(m.SessionID(), l[1]))
ensures [W02,W03] details: err == nil ==> (m.Details() == as(l[2], map[string]any))
fn messages.(*Welcome).Type(m) (c)
ensures [W04] code: c == 2

pred is_Abort(m, l) = m.Details() == as(old(l[1]), map[string]any) && m.Reason() == as(old(l[2]), string) && (len(l) > 3 ? m.Args() == as(old(l[3]), []any) : m.Args() == nil) && (len(l) > 4 ? m.KwArgs() == as(old(l[4]), map[string]any) : m.KwArgs() == nil)
pred accepts_Abort(l) = 3 <= len(l) && len(l) <= 5 && ismap(l[1]) && typeis(l[2], string) && (len(l) > 3 ==> islist(l[3])) && (len(l) > 4 ==> ismap(l[4]))
fn messages.(*Abort).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.AbortFields
allocates abortFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Abort(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.AbortFields != nil
ensures [W03] kept: err != nil ==> m.AbortFields == old(m.AbortFields)
ensures [W02,W03] details: err == nil ==> (m.Details() == as(l[1], map[string]any))
ensures [W02,W03] reason: err == nil ==> (m.Reason() == as(l[2], string))
ensures [W02,W03] args: err == nil ==> (len(l) > 3 ? m.Args() == as(l[3], []any) : m.Args() == nil)
ensures [W02,W03] kwargs: err == nil ==> (len(l) > 4 ? m.KwArgs() == as(l[4], map[string]any) : m.KwArgs() == nil)
fn messages.(*Abort).Type(m) (c)
ensures [W04] code: c == 3

pred is_Challenge(m, l) = m.AuthMethod() == as(old(l[1]), string) && m.Extra() == as(old(l[2]), map[string]any)
pred accepts_Challenge(l) = 3 <= len(l) && len(l) <= 3 && typeis(l[1], string) && ismap(l[2])
fn messages.(*Challenge).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.ChallengeFields
allocates challengeFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Challenge(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.ChallengeFields != nil
ensures [W03] kept: err != nil ==> m.ChallengeFields == old(m.ChallengeFields)
ensures [W02,W03] authmethod: err == nil ==> (m.AuthMethod() == as(l[1], string))
ensures [W02,W03] extra: err == nil ==> (m.Extra() == as(l[2], map[string]any))
fn messages.(*Challenge).Type(m) (c)
ensures [W04] code: c == 4

pred is_Authenticate(m, l) = m.Signature() == as(old(l[1]), string) && m.Extra() == as(old(l[2]), map[string]any)
pred accepts_Authenticate(l) = 3 <= len(l) && len(l) <= 3 && typeis(l[1], string) && ismap(l[2])
fn messages.(*Authenticate).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.AuthenticateFields
allocates authenticateFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Authenticate(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.AuthenticateFields != nil
ensures [W03] kept: err != nil ==> m.AuthenticateFields == old(m.AuthenticateFields)
ensures [W02,W03] signature: err == nil ==> (m.Signature() == as(l[1], string))
ensures [W02,W03] extra: err == nil ==> (m.Extra() == as(l[2], map[string]any))
fn messages.(*Authenticate).Type(m) (c)
ensures [W04] code: c == 5

pred is_GoodBye(m, l) = m.Details() == as(old(l[1]), map[string]any) && m.Reason() == as(old(l[2]), string)
pred accepts_GoodBye(l) = 3 <= len(l) && len(l) <= 3 && ismap(l[1]) && typeis(l[2], string)
fn messages.(*GoodBye).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.GoodByeFields
allocates goodByeFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_GoodBye(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.GoodByeFields != nil
ensures [W03] kept: err != nil ==> m.GoodByeFields == old(m.GoodByeFields)
ensures [W02,W03] details: err == nil ==> (m.Details() == as(l[1], map[string]any))
ensures [W02,W03] reason: err == nil ==> (m.Reason() == as(l[2], string))
fn messages.(*GoodBye).Type(m) (c)
ensures [W04] code: c == 6

pred is_Error(m, l) = isid(m.MessageType(), old(l[1])) && isid(m.RequestID(), old(l[2])) && m.Details() == as(old(l[3]), map[string]any) && m.URI() == as(old(l[4]), string) && (len(l) > 5 ? m.Args() == as(old(l[5]), []any) : m.Args() == nil) && (len(l) > 6 ? m.KwArgs() == as(old(l[6]), map[string]any) : m.KwArgs() == nil)
pred accepts_Error(l) = 5 <= len(l) && len(l) <= 7 && idok(l[1]) && idok(l[2]) && ismap(l[3]) && typeis(l[4], string) && (len(l) > 5 ==> islist(l[5])) && (len(l) > 6 ==> ismap(l[6]))
fn messages.(*Error).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.ErrorFields
allocates errorFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Error(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.ErrorFields != nil
ensures [W03] kept: err != nil ==> m.ErrorFields == old(m.ErrorFields)
ensures [W02,W03] messagetype: err == nil ==> (isid(m.MessageType(), l[1]))
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[2]))
ensures [W02,W03] details: err == nil ==> (m.Details() == as(l[3], map[string]any))
ensures [W02,W03] uri: err == nil ==> (m.URI() == as(l[4], string))
ensures [W02,W03] args: err == nil ==> (len(l) > 5 ? m.Args() == as(l[5], []any) : m.Args() == nil)
ensures [W02,W03] kwargs: err == nil ==> (len(l) > 6 ? m.KwArgs() == as(l[6], map[string]any) : m.KwArgs() == nil)
ensures [W03] notbinary: err == nil ==> !m.PayloadIsBinary()
fn messages.(*Error).Type(m) (c)
ensures [W04] code: c == 8

pred is_Publish(m, l) = isid(m.RequestID(), old(l[1])) && m.Options() == as(old(l[2]), map[string]any) && m.Topic() == as(old(l[3]), string) && (len(l) > 4 ? m.Args() == as(old(l[4]), []any) : m.Args() == nil) && (len(l) > 5 ? m.KwArgs() == as(old(l[5]), map[string]any) : m.KwArgs() == nil)
pred accepts_Publish(l) = 4 <= len(l) && len(l) <= 6 && idok(l[1]) && ismap(l[2]) && typeis(l[3], string) && (len(l) > 4 ==> islist(l[4])) && (len(l) > 5 ==> ismap(l[5]))
fn messages.(*Publish).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.PublishFields
allocates publishFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Publish(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.PublishFields != nil
ensures [W03] kept: err != nil ==> m.PublishFields == old(m.PublishFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] options: err == nil ==> (m.Options() == as(l[2], map[string]any))
ensures [W02,W03] topic: err == nil ==> (m.Topic() == as(l[3], string))
ensures [W02,W03] args: err == nil ==> (len(l) > 4 ? m.Args() == as(l[4], []any) : m.Args() == nil)
ensures [W02,W03] kwargs: err == nil ==> (len(l) > 5 ? m.KwArgs() == as(l[5], map[string]any) : m.KwArgs() == nil)
ensures [W03] notbinary: err == nil ==> !m.PayloadIsBinary()
fn messages.(*Publish).Type(m) (c)
ensures [W04] code: c == 16

pred is_Published(m, l) = isid(m.RequestID(), old(l[1])) && isid(m.PublicationID(), old(l[2]))
pred accepts_Published(l) = 3 <= len(l) && len(l) <= 3 && idok(l[1]) && idok(l[2])
fn messages.(*Published).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.PublishedFields
allocates publishedFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Published(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.PublishedFields != nil
ensures [W03] kept: err != nil ==> m.PublishedFields == old(m.PublishedFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] publicationid: err == nil ==> (isid(m.PublicationID(), l[2]))
fn messages.(*Published).Type(m) (c)
ensures [W04] code: c == 17

pred is_Subscribe(m, l) = isid(m.RequestID(), old(l[1])) && m.Options() == as(old(l[2]), map[string]any) && m.Topic() == as(old(l[3]), string)
pred accepts_Subscribe(l) = 4 <= len(l) && len(l) <= 4 && idok(l[1]) && ismap(l[2]) && typeis(l[3], string)
fn messages.(*Subscribe).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.SubscribeFields
allocates subscribeFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Subscribe(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.SubscribeFields != nil
ensures [W03] kept: err != nil ==> m.SubscribeFields == old(m.SubscribeFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] options: err == nil ==> (m.Options() == as(l[2], map[string]any))
ensures [W02,W03] topic: err == nil ==> (m.Topic() == as(l[3], string))
fn messages.(*Subscribe).Type(m) (c)
ensures [W04] code: c == 32

pred is_Subscribed(m, l) = isid(m.RequestID(), old(l[1])) && isid(m.SubscriptionID(), old(l[2]))
pred accepts_Subscribed(l) = 3 <= len(l) && len(l) <= 3 && idok(l[1]) && idok(l[2])
fn messages.(*Subscribed).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.SubscribedFields
allocates subscribedFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Subscribed(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.SubscribedFields != nil
ensures [W03] kept: err != nil ==> m.SubscribedFields == old(m.SubscribedFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] subscriptionid: err == nil ==> (isid(m.SubscriptionID(), l[2]))
fn messages.(*Subscribed).Type(m) (c)
ensures [W04] code: c == 33

pred is_Unsubscribe(m, l) = isid(m.RequestID(), old(l[1])) && isid(m.SubscriptionID(), old(l[2]))
pred accepts_Unsubscribe(l) = 3 <= len(l) && len(l) <= 3 && idok(l[1]) && idok(l[2])
fn messages.(*Unsubscribe).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.UnsubscribeFields
allocates unsubscribeFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Unsubscribe(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.UnsubscribeFields != nil
ensures [W03] kept: err != nil ==> m.UnsubscribeFields == old(m.UnsubscribeFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] subscriptionid: err == nil ==> (isid(m.SubscriptionID(), l[2]))
fn messages.(*Unsubscribe).Type(m) (c)
ensures [W04] code: c == 34

pred is_Unsubscribed(m, l) = isid(m.RequestID(), old(l[1]))
pred accepts_Unsubscribed(l) = 2 <= len(l) && len(l) <= 2 && idok(l[1])
fn messages.(*Unsubscribed).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.UnsubscribedFields
allocates unsubscribedFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Unsubscribed(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.UnsubscribedFields != nil
ensures [W03] kept: err != nil ==> m.UnsubscribedFields == old(m.UnsubscribedFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
fn messages.(*Unsubscribed).Type(m) (c)
ensures [W04] code: c == 35

pred is_Event(m, l) = isid(m.SubscriptionID(), old(l[1])) && isid(m.PublicationID(), old(l[2])) && m.Details() == as(old(l[3]), map[string]any) && (len(l) > 4 ? m.Args() == as(old(l[4]), []any) : m.Args() == nil) && (len(l) > 5 ? m.KwArgs() == as(old(l[5]), map[string]any) : m.KwArgs() == nil)
pred accepts_Event(l) = 4 <= len(l) && len(l) <= 6 && idok(l[1]) && idok(l[2]) && ismap(l[3]) && (len(l) > 4 ==> islist(l[4])) && (len(l) > 5 ==> ismap(l[5]))
fn messages.(*Event).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.EventFields
allocates eventFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Event(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.EventFields != nil
ensures [W03] kept: err != nil ==> m.EventFields == old(m.EventFields)
ensures [W02,W03] subscriptionid: err == nil ==> (isid(m.SubscriptionID(), l[1]))
ensures [W02,W03] publicationid: err == nil ==> (isid(m.PublicationID(), l[2]))
ensures [W02,W03] details: err == nil ==> (m.Details() == as(l[3], map[string]any))
ensures [W02,W03] args: err == nil ==> (len(l) > 4 ? m.Args() == as(l[4], []any) : m.Args() == nil)
ensures [W02,W03] kwargs: err == nil ==> (len(l) > 5 ? m.KwArgs() == as(l[5], map[string]any) : m.KwArgs() == nil)
ensures [W03] notbinary: err == nil ==> !m.PayloadIsBinary()
fn messages.(*Event).Type(m) (c)
ensures [W04] code: c == 36

pred is_Call(m, l) = isid(m.RequestID(), old(l[1])) && m.Options() == as(old(l[2]), map[string]any) && m.Procedure() == as(old(l[3]), string) && (len(l) > 4 ? m.Args() == as(old(l[4]), []any) : m.Args() == nil) && (len(l) > 5 ? m.KwArgs() == as(old(l[5]), map[string]any) : m.KwArgs() == nil)
pred accepts_Call(l) = 4 <= len(l) && len(l) <= 6 && idok(l[1]) && ismap(l[2]) && typeis(l[3], string) && (len(l) > 4 ==> islist(l[4])) && (len(l) > 5 ==> ismap(l[5]))
fn messages.(*Call).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.CallFields
allocates callFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Call(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.CallFields != nil
ensures [W03] kept: err != nil ==> m.CallFields == old(m.CallFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] options: err == nil ==> (m.Options() == as(l[2], map[string]any))
ensures [W02,W03] procedure: err == nil ==> (m.Procedure() == as(l[3], string))
ensures [W02,W03] args: err == nil ==> (len(l) > 4 ? m.Args() == as(l[4], []any) : m.Args() == nil)
ensures [W02,W03] kwargs: err == nil ==> (len(l) > 5 ? m.KwArgs() == as(l[5], map[string]any) : m.KwArgs() == nil)
ensures [W03] notbinary: err == nil ==> !m.PayloadIsBinary()
fn messages.(*Call).Type(m) (c)
ensures [W04] code: c == 48

pred is_Cancel(m, l) = isid(m.RequestID(), old(l[1])) && m.Options() == as(old(l[2]), map[string]any)
pred accepts_Cancel(l) = 3 <= len(l) && len(l) <= 3 && idok(l[1]) && ismap(l[2])
fn messages.(*Cancel).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.CancelFields
allocates cancelFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Cancel(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.CancelFields != nil
ensures [W03] kept: err != nil ==> m.CancelFields == old(m.CancelFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] options: err == nil ==> (m.Options() == as(l[2], map[string]any))
fn messages.(*Cancel).Type(m) (c)
ensures [W04] code: c == 49

pred is_Result(m, l) = isid(m.RequestID(), old(l[1])) && m.Details() == as(old(l[2]), map[string]any) && (len(l) > 3 ? m.Args() == as(old(l[3]), []any) : m.Args() == nil) && (len(l) > 4 ? m.KwArgs() == as(old(l[4]), map[string]any) : m.KwArgs() == nil)
pred accepts_Result(l) = 3 <= len(l) && len(l) <= 5 && idok(l[1]) && ismap(l[2]) && (len(l) > 3 ==> islist(l[3])) && (len(l) > 4 ==> ismap(l[4]))
fn messages.(*Result).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.ResultFields
allocates resultFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Result(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.ResultFields != nil
ensures [W03] kept: err != nil ==> m.ResultFields == old(m.ResultFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] details: err == nil ==> (m.Details() == as(l[2], map[string]any))
ensures [W02,W03] args: err == nil ==> (len(l) > 3 ? m.Args() == as(l[3], []any) : m.Args() == nil)
ensures [W02,W03] kwargs: err == nil ==> (len(l) > 4 ? m.KwArgs() == as(l[4], map[string]any) : m.KwArgs() == nil)
ensures [W03] notbinary: err == nil ==> !m.PayloadIsBinary()
fn messages.(*Result).Type(m) (c)
ensures [W04] code: c == 50

pred is_Register(m, l) = isid(m.RequestID(), old(l[1])) && m.Options() == as(old(l[2]), map[string]any) && m.Procedure() == as(old(l[3]), string)
pred accepts_Register(l) = 4 <= len(l) && len(l) <= 4 && idok(l[1]) && ismap(l[2]) && typeis(l[3], string)
fn messages.(*Register).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.RegisterFields
allocates registerFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Register(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.RegisterFields != nil
ensures [W03] kept: err != nil ==> m.RegisterFields == old(m.RegisterFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] options: err == nil ==> (m.Options() == as(l[2], map[string]any))
ensures [W02,W03] procedure: err == nil ==> (m.Procedure() == as(l[3], string))
fn messages.(*Register).Type(m) (c)
ensures [W04] code: c == 64

pred is_Registered(m, l) = isid(m.RequestID(), old(l[1])) && isid(m.RegistrationID(), old(l[2]))
pred accepts_Registered(l) = 3 <= len(l) && len(l) <= 3 && idok(l[1]) && idok(l[2])
fn messages.(*Registered).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.RegisteredFields
allocates registeredFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Registered(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.RegisteredFields != nil
ensures [W03] kept: err != nil ==> m.RegisteredFields == old(m.RegisteredFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] registrationid: err == nil ==> (isid(m.RegistrationID(), l[2]))
fn messages.(*Registered).Type(m) (c)
ensures [W04] code: c == 65

pred is_Unregister(m, l) = isid(m.RequestID(), old(l[1])) && isid(m.RegistrationID(), old(l[2]))
pred accepts_Unregister(l) = 3 <= len(l) && len(l) <= 3 && idok(l[1]) && idok(l[2])
fn messages.(*Unregister).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.UnregisterFields
allocates unregisterFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Unregister(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.UnregisterFields != nil
ensures [W03] kept: err != nil ==> m.UnregisterFields == old(m.UnregisterFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] registrationid: err == nil ==> (isid(m.RegistrationID(), l[2]))
fn messages.(*Unregister).Type(m) (c)
ensures [W04] code: c == 66

pred is_Unregistered(m, l) = isid(m.RequestID(), old(l[1]))
pred accepts_Unregistered(l) = 2 <= len(l) && len(l) <= 2 && idok(l[1])
fn messages.(*Unregistered).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.UnregisteredFields
allocates unregisteredFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Unregistered(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.UnregisteredFields != nil
ensures [W03] kept: err != nil ==> m.UnregisteredFields == old(m.UnregisteredFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
fn messages.(*Unregistered).Type(m) (c)
ensures [W04] code: c == 67

pred is_Invocation(m, l) = isid(m.RequestID(), old(l[1])) && isid(m.RegistrationID(), old(l[2])) && m.Details() == as(old(l[3]), map[string]any) && (len(l) > 4 ? m.Args() == as(old(l[4]), []any) : m.Args() == nil) && (len(l) > 5 ? m.KwArgs() == as(old(l[5]), map[string]any) : m.KwArgs() == nil)
pred accepts_Invocation(l) = 4 <= len(l) && len(l) <= 6 && idok(l[1]) && idok(l[2]) && ismap(l[3]) && (len(l) > 4 ==> islist(l[4])) && (len(l) > 5 ==> ismap(l[5]))
fn messages.(*Invocation).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.InvocationFields
allocates invocationFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Invocation(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.InvocationFields != nil
ensures [W03] kept: err != nil ==> m.InvocationFields == old(m.InvocationFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] registrationid: err == nil ==> (isid(m.RegistrationID(), l[2]))
ensures [W02,W03] details: err == nil ==> (m.Details() == as(l[3], map[string]any))
ensures [W02,W03] args: err == nil ==> (len(l) > 4 ? m.Args() == as(l[4], []any) : m.Args() == nil)
ensures [W02,W03] kwargs: err == nil ==> (len(l) > 5 ? m.KwArgs() == as(l[5], map[string]any) : m.KwArgs() == nil)
ensures [W03] notbinary: err == nil ==> !m.PayloadIsBinary()
fn messages.(*Invocation).Type(m) (c)
ensures [W04] code: c == 68

pred is_Interrupt(m, l) = isid(m.RequestID(), old(l[1])) && m.Options() == as(old(l[2]), map[string]any)
pred accepts_Interrupt(l) = 3 <= len(l) && len(l) <= 3 && idok(l[1]) && ismap(l[2])
fn messages.(*Interrupt).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.InterruptFields
allocates interruptFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Interrupt(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.InterruptFields != nil
ensures [W03] kept: err != nil ==> m.InterruptFields == old(m.InterruptFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] options: err == nil ==> (m.Options() == as(l[2], map[string]any))
fn messages.(*Interrupt).Type(m) (c)
ensures [W04] code: c == 69

pred is_Yield(m, l) = isid(m.RequestID(), old(l[1])) && m.Options() == as(old(l[2]), map[string]any) && (len(l) > 3 ? m.Args() == as(old(l[3]), []any) : m.Args() == nil) && (len(l) > 4 ? m.KwArgs() == as(old(l[4]), map[string]any) : m.KwArgs() == nil)
pred accepts_Yield(l) = 3 <= len(l) && len(l) <= 5 && idok(l[1]) && ismap(l[2]) && (len(l) > 3 ==> islist(l[3])) && (len(l) > 4 ==> ismap(l[4]))
fn messages.(*Yield).Parse(m, l) (err)
modular
ensures [W01] nopanic: true
modifies m.YieldFields
allocates yieldFields, Fields, []error
ensures [W02,W03,W04] accepts: err == nil <==> old(accepts_Yield(l))
ensures [W01,W02,W03,W04] set: err == nil ==> m.YieldFields != nil
ensures [W03] kept: err != nil ==> m.YieldFields == old(m.YieldFields)
ensures [W02,W03] requestid: err == nil ==> (isid(m.RequestID(), l[1]))
ensures [W02,W03] options: err == nil ==> (m.Options() == as(l[2], map[string]any))
ensures [W02,W03] args: err == nil ==> (len(l) > 3 ? m.Args() == as(l[3], []any) : m.Args() == nil)
ensures [W02,W03] kwargs: err == nil ==> (len(l) > 4 ? m.KwArgs() == as(l[4], map[string]any) : m.KwArgs() == nil)
ensures [W03] notbinary: err == nil ==> !m.PayloadIsBinary()
fn messages.(*Yield).Type(m) (c)
ensures [W04] code: c == 70

pred idval(i) = isIntKind(i) ? intval(i) : trunc(fltval(i))
pred iscode(c) = c == 1 || c == 2 || c == 3 || c == 4 || c == 5 || c == 6 || c == 8 || c == 16 || c == 17 || c == 32 || c == 33 || c == 34 || c == 35 || c == 36 || c == 48 || c == 49 || c == 50 || c == 64 || c == 65 || c == 66 || c == 67 || c == 68 || c == 69 || c == 70
fn serializers.ToMessage(l) (m, err)
modular
ensures [W01] nopanic: true
ensures [W04] code: err == nil ==> len(l) > 0 && idok(l[0]) && m != nil && iscode(idval(l[0])) && m.Type() == idval(l[0])
ensures [W01,W02,W04] complete: err == nil ==> wfmsg(m)
pred accepts_any(l) = len(l) > 0 && idok(l[0]) && ((idval(l[0]) == 1 && accepts_Hello(l)) || (idval(l[0]) == 2 && accepts_Welcome(l)) || (idval(l[0]) == 3 && accepts_Abort(l)) || (idval(l[0]) == 4 && accepts_Challenge(l)) || (idval(l[0]) == 5 && accepts_Authenticate(l)) || (idval(l[0]) == 6 && accepts_GoodBye(l)) || (idval(l[0]) == 8 && accepts_Error(l)) || (idval(l[0]) == 16 && accepts_Publish(l)) || (idval(l[0]) == 17 && accepts_Published(l)) || (idval(l[0]) == 32 && accepts_Subscribe(l)) || (idval(l[0]) == 33 && accepts_Subscribed(l)) || (idval(l[0]) == 34 && accepts_Unsubscribe(l)) || (idval(l[0]) == 35 && accepts_Unsubscribed(l)) || (idval(l[0]) == 36 && accepts_Event(l)) || (idval(l[0]) == 48 && accepts_Call(l)) || (idval(l[0]) == 49 && accepts_Cancel(l)) || (idval(l[0]) == 50 && accepts_Result(l)) || (idval(l[0]) == 64 && accepts_Register(l)) || (idval(l[0]) == 65 && accepts_Registered(l)) || (idval(l[0]) == 66 && accepts_Unregister(l)) || (idval(l[0]) == 67 && accepts_Unregistered(l)) || (idval(l[0]) == 68 && accepts_Invocation(l)) || (idval(l[0]) == 69 && accepts_Interrupt(l)) || (idval(l[0]) == 70 && accepts_Yield(l)))
ensures [W02] accepts: err == nil <==> old(accepts_any(l))
ensures [W02] isHello: err == nil && typeis(m, *messages.Hello) ==> idval(old(l[0])) == 1 && old(accepts_Hello(l)) && is_Hello(as(m, *messages.Hello), l)
ensures [W02] isWelcome: err == nil && typeis(m, *messages.Welcome) ==> idval(old(l[0])) == 2 && old(accepts_Welcome(l)) && is_Welcome(as(m, *messages.Welcome), l)
ensures [W02] isAbort: err == nil && typeis(m, *messages.Abort) ==> idval(old(l[0])) == 3 && old(accepts_Abort(l)) && is_Abort(as(m, *messages.Abort), l)
ensures [W02] isChallenge: err == nil && typeis(m, *messages.Challenge) ==> idval(old(l[0])) == 4 && old(accepts_Challenge(l)) && is_Challenge(as(m, *messages.Challenge), l)
ensures [W02] isAuthenticate: err == nil && typeis(m, *messages.Authenticate) ==> idval(old(l[0])) == 5 && old(accepts_Authenticate(l)) && is_Authenticate(as(m, *messages.Authenticate), l)
ensures [W02] isGoodBye: err == nil && typeis(m, *messages.GoodBye) ==> idval(old(l[0])) == 6 && old(accepts_GoodBye(l)) && is_GoodBye(as(m, *messages.GoodBye), l)
ensures [W02] isError: err == nil && typeis(m, *messages.Error) ==> idval(old(l[0])) == 8 && old(accepts_Error(l)) && is_Error(as(m, *messages.Error), l)
ensures [W02] isPublish: err == nil && typeis(m, *messages.Publish) ==> idval(old(l[0])) == 16 && old(accepts_Publish(l)) && is_Publish(as(m, *messages.Publish), l)
ensures [W02] isPublished: err == nil && typeis(m, *messages.Published) ==> idval(old(l[0])) == 17 && old(accepts_Published(l)) && is_Published(as(m, *messages.Published), l)
ensures [W02] isSubscribe: err == nil && typeis(m, *messages.Subscribe) ==> idval(old(l[0])) == 32 && old(accepts_Subscribe(l)) && is_Subscribe(as(m, *messages.Subscribe), l)
ensures [W02] isSubscribed: err == nil && typeis(m, *messages.Subscribed) ==> idval(old(l[0])) == 33 && old(accepts_Subscribed(l)) && is_Subscribed(as(m, *messages.Subscribed), l)
ensures [W02] isUnsubscribe: err == nil && typeis(m, *messages.Unsubscribe) ==> idval(old(l[0])) == 34 && old(accepts_Unsubscribe(l)) && is_Unsubscribe(as(m, *messages.Unsubscribe), l)
ensures [W02] isUnsubscribed: err == nil && typeis(m, *messages.Unsubscribed) ==> idval(old(l[0])) == 35 && old(accepts_Unsubscribed(l)) && is_Unsubscribed(as(m, *messages.Unsubscribed), l)
ensures [W02] isEvent: err == nil && typeis(m, *messages.Event) ==> idval(old(l[0])) == 36 && old(accepts_Event(l)) && is_Event(as(m, *messages.Event), l)
ensures [W02] isCall: err == nil && typeis(m, *messages.Call) ==> idval(old(l[0])) == 48 && old(accepts_Call(l)) && is_Call(as(m, *messages.Call), l)
ensures [W02] isCancel: err == nil && typeis(m, *messages.Cancel) ==> idval(old(l[0])) == 49 && old(accepts_Cancel(l)) && is_Cancel(as(m, *messages.Cancel), l)
ensures [W02] isResult: err == nil && typeis(m, *messages.Result) ==> idval(old(l[0])) == 50 && old(accepts_Result(l)) && is_Result(as(m, *messages.Result), l)
ensures [W02] isRegister: err == nil && typeis(m, *messages.Register) ==> idval(old(l[0])) == 64 && old(accepts_Register(l)) && is_Register(as(m, *messages.Register), l)
ensures [W02] isRegistered: err == nil && typeis(m, *messages.Registered) ==> idval(old(l[0])) == 65 && old(accepts_Registered(l)) && is_Registered(as(m, *messages.Registered), l)
ensures [W02] isUnregister: err == nil && typeis(m, *messages.Unregister) ==> idval(old(l[0])) == 66 && old(accepts_Unregister(l)) && is_Unregister(as(m, *messages.Unregister), l)
ensures [W02] isUnregistered: err == nil && typeis(m, *messages.Unregistered) ==> idval(old(l[0])) == 67 && old(accepts_Unregistered(l)) && is_Unregistered(as(m, *messages.Unregistered), l)
ensures [W02] isInvocation: err == nil && typeis(m, *messages.Invocation) ==> idval(old(l[0])) == 68 && old(accepts_Invocation(l)) && is_Invocation(as(m, *messages.Invocation), l)
ensures [W02] isInterrupt: err == nil && typeis(m, *messages.Interrupt) ==> idval(old(l[0])) == 69 && old(accepts_Interrupt(l)) && is_Interrupt(as(m, *messages.Interrupt), l)
ensures [W02] isYield: err == nil && typeis(m, *messages.Yield) ==> idval(old(l[0])) == 70 && old(accepts_Yield(l)) && is_Yield(as(m, *messages.Yield), l)
ensures [W04] Hello: len(l) > 0 && idok(l[0]) && idval(l[0]) == 1 ==> (err == nil <==> old(accepts_Hello(l)))
ensures [W04] Welcome: len(l) > 0 && idok(l[0]) && idval(l[0]) == 2 ==> (err == nil <==> old(accepts_Welcome(l)))
ensures [W04] Abort: len(l) > 0 && idok(l[0]) && idval(l[0]) == 3 ==> (err == nil <==> old(accepts_Abort(l)))
ensures [W04] Challenge: len(l) > 0 && idok(l[0]) && idval(l[0]) == 4 ==> (err == nil <==> old(accepts_Challenge(l)))
ensures [W04] Authenticate: len(l) > 0 && idok(l[0]) && idval(l[0]) == 5 ==> (err == nil <==> old(accepts_Authenticate(l)))
ensures [W04] GoodBye: len(l) > 0 && idok(l[0]) && idval(l[0]) == 6 ==> (err == nil <==> old(accepts_GoodBye(l)))
ensures [W04] Error: len(l) > 0 && idok(l[0]) && idval(l[0]) == 8 ==> (err == nil <==> old(accepts_Error(l)))
ensures [W04] Publish: len(l) > 0 && idok(l[0]) && idval(l[0]) == 16 ==> (err == nil <==> old(accepts_Publish(l)))
ensures [W04] Published: len(l) > 0 && idok(l[0]) && idval(l[0]) == 17 ==> (err == nil <==> old(accepts_Published(l)))
ensures [W04] Subscribe: len(l) > 0 && idok(l[0]) && idval(l[0]) == 32 ==> (err == nil <==> old(accepts_Subscribe(l)))
ensures [W04] Subscribed: len(l) > 0 && idok(l[0]) && idval(l[0]) == 33 ==> (err == nil <==> old(accepts_Subscribed(l)))
ensures [W04] Unsubscribe: len(l) > 0 && idok(l[0]) && idval(l[0]) == 34 ==> (err == nil <==> old(accepts_Unsubscribe(l)))
ensures [W04] Unsubscribed: len(l) > 0 && idok(l[0]) && idval(l[0]) == 35 ==> (err == nil <==> old(accepts_Unsubscribed(l)))
ensures [W04] Event: len(l) > 0 && idok(l[0]) && idval(l[0]) == 36 ==> (err == nil <==> old(accepts_Event(l)))
ensures [W04] Call: len(l) > 0 && idok(l[0]) && idval(l[0]) == 48 ==> (err == nil <==> old(accepts_Call(l)))
ensures [W04] Cancel: len(l) > 0 && idok(l[0]) && idval(l[0]) == 49 ==> (err == nil <==> old(accepts_Cancel(l)))
ensures [W04] Result: len(l) > 0 && idok(l[0]) && idval(l[0]) == 50 ==> (err == nil <==> old(accepts_Result(l)))
ensures [W04] Register: len(l) > 0 && idok(l[0]) && idval(l[0]) == 64 ==> (err == nil <==> old(accepts_Register(l)))
ensures [W04] Registered: len(l) > 0 && idok(l[0]) && idval(l[0]) == 65 ==> (err == nil <==> old(accepts_Registered(l)))
ensures [W04] Unregister: len(l) > 0 && idok(l[0]) && idval(l[0]) == 66 ==> (err == nil <==> old(accepts_Unregister(l)))
ensures [W04] Unregistered: len(l) > 0 && idok(l[0]) && idval(l[0]) == 67 ==> (err == nil <==> old(accepts_Unregistered(l)))
ensures [W04] Invocation: len(l) > 0 && idok(l[0]) && idval(l[0]) == 68 ==> (err == nil <==> old(accepts_Invocation(l)))
ensures [W04] Interrupt: len(l) > 0 && idok(l[0]) && idval(l[0]) == 69 ==> (err == nil <==> old(accepts_Interrupt(l)))
ensures [W04] Yield: len(l) > 0 && idok(l[0]) && idval(l[0]) == 70 ==> (err == nil <==> old(accepts_Yield(l)))

fn serializers.(*JSONSerializer).Serialize(s, m) (b, err)
marshal_ok
requires m != nil
ensures [W02] encodes: err == nil && encodes("json", b, m)
fn serializers.(*JSONSerializer).Deserialize(s, b) (m, err)
ensures [W01] complete: err == nil ==> wfmsg(m)
ensures [W02] accepts: err == nil <==> decodes("json", b) && old(accepts_any(decoded("json", b)))
ensures [W02] Hello: err == nil && typeis(m, *messages.Hello) ==> idval(old(decoded("json", b)[0])) == 1 && is_Hello(as(m, *messages.Hello), decoded("json", b))
ensures [W02] Welcome: err == nil && typeis(m, *messages.Welcome) ==> idval(old(decoded("json", b)[0])) == 2 && is_Welcome(as(m, *messages.Welcome), decoded("json", b))
ensures [W02] Abort: err == nil && typeis(m, *messages.Abort) ==> idval(old(decoded("json", b)[0])) == 3 && is_Abort(as(m, *messages.Abort), decoded("json", b))
ensures [W02] Challenge: err == nil && typeis(m, *messages.Challenge) ==> idval(old(decoded("json", b)[0])) == 4 && is_Challenge(as(m, *messages.Challenge), decoded("json", b))
ensures [W02] Authenticate: err == nil && typeis(m, *messages.Authenticate) ==> idval(old(decoded("json", b)[0])) == 5 && is_Authenticate(as(m, *messages.Authenticate), decoded("json", b))
ensures [W02] GoodBye: err == nil && typeis(m, *messages.GoodBye) ==> idval(old(decoded("json", b)[0])) == 6 && is_GoodBye(as(m, *messages.GoodBye), decoded("json", b))
ensures [W02] Error: err == nil && typeis(m, *messages.Error) ==> idval(old(decoded("json", b)[0])) == 8 && is_Error(as(m, *messages.Error), decoded("json", b))
ensures [W02] Publish: err == nil && typeis(m, *messages.Publish) ==> idval(old(decoded("json", b)[0])) == 16 && is_Publish(as(m, *messages.Publish), decoded("json", b))
ensures [W02] Published: err == nil && typeis(m, *messages.Published) ==> idval(old(decoded("json", b)[0])) == 17 && is_Published(as(m, *messages.Published), decoded("json", b))
ensures [W02] Subscribe: err == nil && typeis(m, *messages.Subscribe) ==> idval(old(decoded("json", b)[0])) == 32 && is_Subscribe(as(m, *messages.Subscribe), decoded("json", b))
ensures [W02] Subscribed: err == nil && typeis(m, *messages.Subscribed) ==> idval(old(decoded("json", b)[0])) == 33 && is_Subscribed(as(m, *messages.Subscribed), decoded("json", b))
ensures [W02] Unsubscribe: err == nil && typeis(m, *messages.Unsubscribe) ==> idval(old(decoded("json", b)[0])) == 34 && is_Unsubscribe(as(m, *messages.Unsubscribe), decoded("json", b))
ensures [W02] Unsubscribed: err == nil && typeis(m, *messages.Unsubscribed) ==> idval(old(decoded("json", b)[0])) == 35 && is_Unsubscribed(as(m, *messages.Unsubscribed), decoded("json", b))
ensures [W02] Event: err == nil && typeis(m, *messages.Event) ==> idval(old(decoded("json", b)[0])) == 36 && is_Event(as(m, *messages.Event), decoded("json", b))
ensures [W02] Call: err == nil && typeis(m, *messages.Call) ==> idval(old(decoded("json", b)[0])) == 48 && is_Call(as(m, *messages.Call), decoded("json", b))
ensures [W02] Cancel: err == nil && typeis(m, *messages.Cancel) ==> idval(old(decoded("json", b)[0])) == 49 && is_Cancel(as(m, *messages.Cancel), decoded("json", b))
ensures [W02] Result: err == nil && typeis(m, *messages.Result) ==> idval(old(decoded("json", b)[0])) == 50 && is_Result(as(m, *messages.Result), decoded("json", b))
ensures [W02] Register: err == nil && typeis(m, *messages.Register) ==> idval(old(decoded("json", b)[0])) == 64 && is_Register(as(m, *messages.Register), decoded("json", b))
ensures [W02] Registered: err == nil && typeis(m, *messages.Registered) ==> idval(old(decoded("json", b)[0])) == 65 && is_Registered(as(m, *messages.Registered), decoded("json", b))
ensures [W02] Unregister: err == nil && typeis(m, *messages.Unregister) ==> idval(old(decoded("json", b)[0])) == 66 && is_Unregister(as(m, *messages.Unregister), decoded("json", b))
ensures [W02] Unregistered: err == nil && typeis(m, *messages.Unregistered) ==> idval(old(decoded("json", b)[0])) == 67 && is_Unregistered(as(m, *messages.Unregistered), decoded("json", b))
ensures [W02] Invocation: err == nil && typeis(m, *messages.Invocation) ==> idval(old(decoded("json", b)[0])) == 68 && is_Invocation(as(m, *messages.Invocation), decoded("json", b))
ensures [W02] Interrupt: err == nil && typeis(m, *messages.Interrupt) ==> idval(old(decoded("json", b)[0])) == 69 && is_Interrupt(as(m, *messages.Interrupt), decoded("json", b))
ensures [W02] Yield: err == nil && typeis(m, *messages.Yield) ==> idval(old(decoded("json", b)[0])) == 70 && is_Yield(as(m, *messages.Yield), decoded("json", b))

fn serializers.(*CBORSerializer).Serialize(s, m) (b, err)
marshal_ok
requires m != nil
ensures [W02] encodes: err == nil && encodes("cbor", b, m)
fn serializers.(*CBORSerializer).Deserialize(s, b) (m, err)
ensures [W01] complete: err == nil ==> wfmsg(m)
ensures [W02] accepts: err == nil <==> decodes("cbor", b) && old(accepts_any(decoded("cbor", b)))
ensures [W02] Hello: err == nil && typeis(m, *messages.Hello) ==> idval(old(decoded("cbor", b)[0])) == 1 && is_Hello(as(m, *messages.Hello), decoded("cbor", b))
ensures [W02] Welcome: err == nil && typeis(m, *messages.Welcome) ==> idval(old(decoded("cbor", b)[0])) == 2 && is_Welcome(as(m, *messages.Welcome), decoded("cbor", b))
ensures [W02] Abort: err == nil && typeis(m, *messages.Abort) ==> idval(old(decoded("cbor", b)[0])) == 3 && is_Abort(as(m, *messages.Abort), decoded("cbor", b))
ensures [W02] Challenge: err == nil && typeis(m, *messages.Challenge) ==> idval(old(decoded("cbor", b)[0])) == 4 && is_Challenge(as(m, *messages.Challenge), decoded("cbor", b))
ensures [W02] Authenticate: err == nil && typeis(m, *messages.Authenticate) ==> idval(old(decoded("cbor", b)[0])) == 5 && is_Authenticate(as(m, *messages.Authenticate), decoded("cbor", b))
ensures [W02] GoodBye: err == nil && typeis(m, *messages.GoodBye) ==> idval(old(decoded("cbor", b)[0])) == 6 && is_GoodBye(as(m, *messages.GoodBye), decoded("cbor", b))
ensures [W02] Error: err == nil && typeis(m, *messages.Error) ==> idval(old(decoded("cbor", b)[0])) == 8 && is_Error(as(m, *messages.Error), decoded("cbor", b))
ensures [W02] Publish: err == nil && typeis(m, *messages.Publish) ==> idval(old(decoded("cbor", b)[0])) == 16 && is_Publish(as(m, *messages.Publish), decoded("cbor", b))
ensures [W02] Published: err == nil && typeis(m, *messages.Published) ==> idval(old(decoded("cbor", b)[0])) == 17 && is_Published(as(m, *messages.Published), decoded("cbor", b))
ensures [W02] Subscribe: err == nil && typeis(m, *messages.Subscribe) ==> idval(old(decoded("cbor", b)[0])) == 32 && is_Subscribe(as(m, *messages.Subscribe), decoded("cbor", b))
ensures [W02] Subscribed: err == nil && typeis(m, *messages.Subscribed) ==> idval(old(decoded("cbor", b)[0])) == 33 && is_Subscribed(as(m, *messages.Subscribed), decoded("cbor", b))
ensures [W02] Unsubscribe: err == nil && typeis(m, *messages.Unsubscribe) ==> idval(old(decoded("cbor", b)[0])) == 34 && is_Unsubscribe(as(m, *messages.Unsubscribe), decoded("cbor", b))
ensures [W02] Unsubscribed: err == nil && typeis(m, *messages.Unsubscribed) ==> idval(old(decoded("cbor", b)[0])) == 35 && is_Unsubscribed(as(m, *messages.Unsubscribed), decoded("cbor", b))
ensures [W02] Event: err == nil && typeis(m, *messages.Event) ==> idval(old(decoded("cbor", b)[0])) == 36 && is_Event(as(m, *messages.Event), decoded("cbor", b))
ensures [W02] Call: err == nil && typeis(m, *messages.Call) ==> idval(old(decoded("cbor", b)[0])) == 48 && is_Call(as(m, *messages.Call), decoded("cbor", b))
ensures [W02] Cancel: err == nil && typeis(m, *messages.Cancel) ==> idval(old(decoded("cbor", b)[0])) == 49 && is_Cancel(as(m, *messages.Cancel), decoded("cbor", b))
ensures [W02] Result: err == nil && typeis(m, *messages.Result) ==> idval(old(decoded("cbor", b)[0])) == 50 && is_Result(as(m, *messages.Result), decoded("cbor", b))
ensures [W02] Register: err == nil && typeis(m, *messages.Register) ==> idval(old(decoded("cbor", b)[0])) == 64 && is_Register(as(m, *messages.Register), decoded("cbor", b))
ensures [W02] Registered: err == nil && typeis(m, *messages.Registered) ==> idval(old(decoded("cbor", b)[0])) == 65 && is_Registered(as(m, *messages.Registered), decoded("cbor", b))
ensures [W02] Unregister: err == nil && typeis(m, *messages.Unregister) ==> idval(old(decoded("cbor", b)[0])) == 66 && is_Unregister(as(m, *messages.Unregister), decoded("cbor", b))
ensures [W02] Unregistered: err == nil && typeis(m, *messages.Unregistered) ==> idval(old(decoded("cbor", b)[0])) == 67 && is_Unregistered(as(m, *messages.Unregistered), decoded("cbor", b))
ensures [W02] Invocation: err == nil && typeis(m, *messages.Invocation) ==> idval(old(decoded("cbor", b)[0])) == 68 && is_Invocation(as(m, *messages.Invocation), decoded("cbor", b))
ensures [W02] Interrupt: err == nil && typeis(m, *messages.Interrupt) ==> idval(old(decoded("cbor", b)[0])) == 69 && is_Interrupt(as(m, *messages.Interrupt), decoded("cbor", b))
ensures [W02] Yield: err == nil && typeis(m, *messages.Yield) ==> idval(old(decoded("cbor", b)[0])) == 70 && is_Yield(as(m, *messages.Yield), decoded("cbor", b))

fn serializers.(*MsgPackSerializer).Serialize(s, m) (b, err)
marshal_ok
requires m != nil
ensures [W02] encodes: err == nil && encodes("msgpack", b, m)
ensures [W02] acceptable: mpend(b, 1, 9999) >= 0
fn serializers.(*MsgPackSerializer).Deserialize(s, b) (m, err)
ensures [W01] complete: err == nil ==> wfmsg(m)
ensures [W02] accepts: err == nil <==> old(mpend(b, 1, 9999)) >= 0 && decodes("msgpack", b) && old(accepts_any(decoded("msgpack", b)))
ensures [W02] Hello: err == nil && typeis(m, *messages.Hello) ==> idval(old(decoded("msgpack", b)[0])) == 1 && is_Hello(as(m, *messages.Hello), decoded("msgpack", b))
ensures [W02] Welcome: err == nil && typeis(m, *messages.Welcome) ==> idval(old(decoded("msgpack", b)[0])) == 2 && is_Welcome(as(m, *messages.Welcome), decoded("msgpack", b))
ensures [W02] Abort: err == nil && typeis(m, *messages.Abort) ==> idval(old(decoded("msgpack", b)[0])) == 3 && is_Abort(as(m, *messages.Abort), decoded("msgpack", b))
ensures [W02] Challenge: err == nil && typeis(m, *messages.Challenge) ==> idval(old(decoded("msgpack", b)[0])) == 4 && is_Challenge(as(m, *messages.Challenge), decoded("msgpack", b))
ensures [W02] Authenticate: err == nil && typeis(m, *messages.Authenticate) ==> idval(old(decoded("msgpack", b)[0])) == 5 && is_Authenticate(as(m, *messages.Authenticate), decoded("msgpack", b))
ensures [W02] GoodBye: err == nil && typeis(m, *messages.GoodBye) ==> idval(old(decoded("msgpack", b)[0])) == 6 && is_GoodBye(as(m, *messages.GoodBye), decoded("msgpack", b))
ensures [W02] Error: err == nil && typeis(m, *messages.Error) ==> idval(old(decoded("msgpack", b)[0])) == 8 && is_Error(as(m, *messages.Error), decoded("msgpack", b))
ensures [W02] Publish: err == nil && typeis(m, *messages.Publish) ==> idval(old(decoded("msgpack", b)[0])) == 16 && is_Publish(as(m, *messages.Publish), decoded("msgpack", b))
ensures [W02] Published: err == nil && typeis(m, *messages.Published) ==> idval(old(decoded("msgpack", b)[0])) == 17 && is_Published(as(m, *messages.Published), decoded("msgpack", b))
ensures [W02] Subscribe: err == nil && typeis(m, *messages.Subscribe) ==> idval(old(decoded("msgpack", b)[0])) == 32 && is_Subscribe(as(m, *messages.Subscribe), decoded("msgpack", b))
ensures [W02] Subscribed: err == nil && typeis(m, *messages.Subscribed) ==> idval(old(decoded("msgpack", b)[0])) == 33 && is_Subscribed(as(m, *messages.Subscribed), decoded("msgpack", b))
ensures [W02] Unsubscribe: err == nil && typeis(m, *messages.Unsubscribe) ==> idval(old(decoded("msgpack", b)[0])) == 34 && is_Unsubscribe(as(m, *messages.Unsubscribe), decoded("msgpack", b))
ensures [W02] Unsubscribed: err == nil && typeis(m, *messages.Unsubscribed) ==> idval(old(decoded("msgpack", b)[0])) == 35 && is_Unsubscribed(as(m, *messages.Unsubscribed), decoded("msgpack", b))
ensures [W02] Event: err == nil && typeis(m, *messages.Event) ==> idval(old(decoded("msgpack", b)[0])) == 36 && is_Event(as(m, *messages.Event), decoded("msgpack", b))
ensures [W02] Call: err == nil && typeis(m, *messages.Call) ==> idval(old(decoded("msgpack", b)[0])) == 48 && is_Call(as(m, *messages.Call), decoded("msgpack", b))
ensures [W02] Cancel: err == nil && typeis(m, *messages.Cancel) ==> idval(old(decoded("msgpack", b)[0])) == 49 && is_Cancel(as(m, *messages.Cancel), decoded("msgpack", b))
ensures [W02] Result: err == nil && typeis(m, *messages.Result) ==> idval(old(decoded("msgpack", b)[0])) == 50 && is_Result(as(m, *messages.Result), decoded("msgpack", b))
ensures [W02] Register: err == nil && typeis(m, *messages.Register) ==> idval(old(decoded("msgpack", b)[0])) == 64 && is_Register(as(m, *messages.Register), decoded("msgpack", b))
ensures [W02] Registered: err == nil && typeis(m, *messages.Registered) ==> idval(old(decoded("msgpack", b)[0])) == 65 && is_Registered(as(m, *messages.Registered), decoded("msgpack", b))
ensures [W02] Unregister: err == nil && typeis(m, *messages.Unregister) ==> idval(old(decoded("msgpack", b)[0])) == 66 && is_Unregister(as(m, *messages.Unregister), decoded("msgpack", b))
ensures [W02] Unregistered: err == nil && typeis(m, *messages.Unregistered) ==> idval(old(decoded("msgpack", b)[0])) == 67 && is_Unregistered(as(m, *messages.Unregistered), decoded("msgpack", b))
ensures [W02] Invocation: err == nil && typeis(m, *messages.Invocation) ==> idval(old(decoded("msgpack", b)[0])) == 68 && is_Invocation(as(m, *messages.Invocation), decoded("msgpack", b))
ensures [W02] Interrupt: err == nil && typeis(m, *messages.Interrupt) ==> idval(old(decoded("msgpack", b)[0])) == 69 && is_Interrupt(as(m, *messages.Interrupt), decoded("msgpack", b))
ensures [W02] Yield: err == nil && typeis(m, *messages.Yield) ==> idval(old(decoded("msgpack", b)[0])) == 70 && is_Yield(as(m, *messages.Yield), decoded("msgpack", b))

# Round trips: constructor, Marshal, any codec, Parse (harness/messages__roundtrip.go runs the functions of /repo).
pred samelist(a, b) = len(b) == len(a) && (forall i int :: {old(b[i])} 0 <= i && i < len(a) ==> cn(old(a[i]), old(b[i])))
pred samemap(a, b) = (forall k string :: {old(k in b)} old(k in b) <==> old(k in a)) && (forall k string :: {old(b[k])} old(k in a) ==> cn(old(a[k]), old(b[k])))
pred okid(i) = i <= 9007199254740992
fn messages.vhHello(realm, authID, authExtra, roles, authMethods) (l, m, err)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 1
ensures [W02] realm: m.Realm() == realm
ensures [W02] authid: m.AuthID() == authID
ensures [W02] authextra: samemap(authExtra, m.AuthExtra())
ensures [W02] roles: samemap(roles, m.Roles())
ensures [W02] authmethods: len(m.AuthMethods()) == len(authMethods) && (forall i int :: {m.AuthMethods()[i]} 0 <= i && i < len(authMethods) ==> m.AuthMethods()[i] == old(authMethods[i]))
fn messages.vhWelcome(sessionID, details) (l, m, err)
requires okid(sessionID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 2
ensures [W02] sessionid: m.SessionID() == sessionID
ensures [W02] details: samemap(details, m.Details())
fn messages.vhAbort(details, reason, args, kwArgs) (l, m, err)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 3
ensures [W02] details: samemap(details, m.Details())
ensures [W02] reason: m.Reason() == reason
ensures [W02] args: samelist(args, m.Args())
ensures [W02] kwargs: samemap(kwArgs, m.KwArgs())
fn messages.vhChallenge(authMethod, extra) (l, m, err)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 4
ensures [W02] authmethod: m.AuthMethod() == authMethod
ensures [W02] extra: samemap(extra, m.Extra())
fn messages.vhAuthenticate(signature, extra) (l, m, err)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 5
ensures [W02] signature: m.Signature() == signature
ensures [W02] extra: samemap(extra, m.Extra())
fn messages.vhGoodBye(reason, details) (l, m, err)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 6
ensures [W02] details: samemap(details, m.Details())
ensures [W02] reason: m.Reason() == reason
fn messages.vhError(messageType, requestID, details, uRI, args, kwArgs) (l, m, err)
requires okid(messageType)
requires okid(requestID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 8
ensures [W02] messagetype: m.MessageType() == messageType
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] details: samemap(details, m.Details())
ensures [W02] uri: m.URI() == uRI
ensures [W02] args: samelist(args, m.Args())
ensures [W02] kwargs: samemap(kwArgs, m.KwArgs())
fn messages.vhPublish(requestID, options, topic, args, kwArgs) (l, m, err)
requires okid(requestID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 16
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] options: samemap(options, m.Options())
ensures [W02] topic: m.Topic() == topic
ensures [W02] args: samelist(args, m.Args())
ensures [W02] kwargs: samemap(kwArgs, m.KwArgs())
fn messages.vhPublished(requestID, publicationID) (l, m, err)
requires okid(requestID)
requires okid(publicationID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 17
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] publicationid: m.PublicationID() == publicationID
fn messages.vhSubscribe(requestID, options, topic) (l, m, err)
requires okid(requestID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 32
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] options: samemap(options, m.Options())
ensures [W02] topic: m.Topic() == topic
fn messages.vhSubscribed(requestID, subscriptionID) (l, m, err)
requires okid(requestID)
requires okid(subscriptionID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 33
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] subscriptionid: m.SubscriptionID() == subscriptionID
fn messages.vhUnsubscribe(requestID, subscriptionID) (l, m, err)
requires okid(requestID)
requires okid(subscriptionID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 34
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] subscriptionid: m.SubscriptionID() == subscriptionID
fn messages.vhUnsubscribed(requestID) (l, m, err)
requires okid(requestID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 35
ensures [W02] requestid: m.RequestID() == requestID
fn messages.vhEvent(subscriptionID, publicationID, details, args, kwArgs) (l, m, err)
requires okid(subscriptionID)
requires okid(publicationID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 36
ensures [W02] subscriptionid: m.SubscriptionID() == subscriptionID
ensures [W02] publicationid: m.PublicationID() == publicationID
ensures [W02] details: samemap(details, m.Details())
ensures [W02] args: samelist(args, m.Args())
ensures [W02] kwargs: samemap(kwArgs, m.KwArgs())
fn messages.vhCall(requestID, options, procedure, args, kwArgs) (l, m, err)
requires okid(requestID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 48
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] options: samemap(options, m.Options())
ensures [W02] procedure: m.Procedure() == procedure
ensures [W02] args: samelist(args, m.Args())
ensures [W02] kwargs: samemap(kwArgs, m.KwArgs())
fn messages.vhCancel(requestID, options) (l, m, err)
requires okid(requestID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 49
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] options: samemap(options, m.Options())
fn messages.vhResult(requestID, details, args, kwArgs) (l, m, err)
requires okid(requestID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 50
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] details: samemap(details, m.Details())
ensures [W02] args: samelist(args, m.Args())
ensures [W02] kwargs: samemap(kwArgs, m.KwArgs())
fn messages.vhRegister(requestID, options, procedure) (l, m, err)
requires okid(requestID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 64
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] options: samemap(options, m.Options())
ensures [W02] procedure: m.Procedure() == procedure
fn messages.vhRegistered(requestID, registrationID) (l, m, err)
requires okid(requestID)
requires okid(registrationID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 65
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] registrationid: m.RegistrationID() == registrationID
fn messages.vhUnregister(requestID, registrationID) (l, m, err)
requires okid(requestID)
requires okid(registrationID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 66
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] registrationid: m.RegistrationID() == registrationID
fn messages.vhUnregistered(requestID) (l, m, err)
requires okid(requestID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 67
ensures [W02] requestid: m.RequestID() == requestID
fn messages.vhInvocation(requestID, registrationID, details, args, kwArgs) (l, m, err)
requires okid(requestID)
requires okid(registrationID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 68
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] registrationid: m.RegistrationID() == registrationID
ensures [W02] details: samemap(details, m.Details())
ensures [W02] args: samelist(args, m.Args())
ensures [W02] kwargs: samemap(kwArgs, m.KwArgs())
fn messages.vhInterrupt(requestID, options) (l, m, err)
requires okid(requestID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 69
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] options: samemap(options, m.Options())
fn messages.vhYield(requestID, options, args, kwArgs) (l, m, err)
requires okid(requestID)
ensures [W02] succeeds: err == nil
ensures [W02] code: len(l) > 0 && idok(l[0]) && idval(l[0]) == 70
ensures [W02] requestid: m.RequestID() == requestID
ensures [W02] options: samemap(options, m.Options())
ensures [W02] args: samelist(args, m.Args())
ensures [W02] kwargs: samemap(kwArgs, m.KwArgs())
