# The client session. Requests sent and not yet answered, and what the peer confirmed.
pred sessInv(w) = w.serializer != nil
  && (forall k uint64 :: {k in w.callRequests} k in w.callRequests ==> holds(w.callRequests, k))
  && (forall k uint64 :: {k in w.registerRequests} k in w.registerRequests ==> holds(w.registerRequests, k))
  && (forall k uint64 :: {k in w.registrations} k in w.registrations ==> holds(w.registrations, k))
  && (forall k uint64 :: {k in w.unregisterRequests} k in w.unregisterRequests ==> holds(w.unregisterRequests, k))
  && (forall k uint64 :: {k in w.publishRequests} k in w.publishRequests ==> holds(w.publishRequests, k))
  && (forall k uint64 :: {k in w.subscribeRequests} k in w.subscribeRequests ==> holds(w.subscribeRequests, k))
  && (forall k uint64 :: {k in w.subscriptions} k in w.subscriptions ==> holds(w.subscriptions, k))
  && (forall k uint64 :: {k in w.unsubscribeRequests} k in w.unsubscribeRequests ==> holds(w.unsubscribeRequests, k))

pred sameCall(w) = forall k uint64 :: {k in w.callRequests} {old(k in w.callRequests)} k in w.callRequests <==> old(k in w.callRequests)
pred sameReg(w) = forall k uint64 :: {k in w.registerRequests} {old(k in w.registerRequests)} k in w.registerRequests <==> old(k in w.registerRequests)
pred sameUnreg(w) = forall k uint64 :: {k in w.unregisterRequests} {old(k in w.unregisterRequests)} (k in w.unregisterRequests <==> old(k in w.unregisterRequests)) && (k in w.unregisterRequests ==> w.unregisterRequests[k] == old(w.unregisterRequests[k]))
pred samePub(w) = forall k uint64 :: {k in w.publishRequests} {old(k in w.publishRequests)} k in w.publishRequests <==> old(k in w.publishRequests)
pred sameSub(w) = forall k uint64 :: {k in w.subscribeRequests} {old(k in w.subscribeRequests)} k in w.subscribeRequests <==> old(k in w.subscribeRequests)
pred sameUnsub(w) = forall k uint64 :: {k in w.unsubscribeRequests} {old(k in w.unsubscribeRequests)} (k in w.unsubscribeRequests <==> old(k in w.unsubscribeRequests)) && (k in w.unsubscribeRequests ==> w.unsubscribeRequests[k] == old(w.unsubscribeRequests[k]))
pred sameHeldRegs(w) = forall k uint64 :: {k in w.registrations} {old(k in w.registrations)} k in w.registrations <==> old(k in w.registrations)
pred sameHeldSubs(w) = forall k uint64 :: {k in w.subscriptions} {old(k in w.subscriptions)} k in w.subscriptions <==> old(k in w.subscriptions)
pred sameHeld(w) = sameHeldRegs(w) && sameHeldSubs(w)
pred sameRequests(w) = sameCall(w) && sameReg(w) && sameUnreg(w) && samePub(w) && sameSub(w) && sameUnsub(w)

# option "progress" of a message's options or details
pred flag(m, k) = k in m && typeis(m[k], bool) && as(m[k], bool)

# what becomes of one kind of request when the message answers it
pred goneCall(w, id) = forall k uint64 :: {k in w.callRequests} {old(k in w.callRequests)} k in w.callRequests <==> old(k in w.callRequests) && k != id
pred goneReg(w, id) = forall k uint64 :: {k in w.registerRequests} {old(k in w.registerRequests)} k in w.registerRequests <==> old(k in w.registerRequests) && k != id
pred goneUnreg(w, id) = forall k uint64 :: {k in w.unregisterRequests} {old(k in w.unregisterRequests)} (k in w.unregisterRequests <==> old(k in w.unregisterRequests) && k != id) && (k in w.unregisterRequests ==> w.unregisterRequests[k] == old(w.unregisterRequests[k]))
pred gonePub(w, id) = forall k uint64 :: {k in w.publishRequests} {old(k in w.publishRequests)} k in w.publishRequests <==> old(k in w.publishRequests) && k != id
pred goneSub(w, id) = forall k uint64 :: {k in w.subscribeRequests} {old(k in w.subscribeRequests)} k in w.subscribeRequests <==> old(k in w.subscribeRequests) && k != id
pred goneUnsub(w, id) = forall k uint64 :: {k in w.unsubscribeRequests} {old(k in w.unsubscribeRequests)} (k in w.unsubscribeRequests <==> old(k in w.unsubscribeRequests) && k != id) && (k in w.unsubscribeRequests ==> w.unsubscribeRequests[k] == old(w.unsubscribeRequests[k]))

pred isResult(m) = typeis(m, *messages.Result)
pred isErrorOf(m, t) = typeis(m, *messages.Error) && as(m, *messages.Error).MessageType() == t

# the requests a message may end, by kind: a final RESULT or the ERROR of a CALL, and so on
pred endsCall(m) = (isResult(m) && !flag(as(m, *messages.Result).Details(), "progress")) || isErrorOf(m, 48)
pred endsReg(m) = typeis(m, *messages.Registered) || isErrorOf(m, 64)
pred endsUnreg(m) = typeis(m, *messages.Unregistered) || isErrorOf(m, 66)
pred endsPub(m) = typeis(m, *messages.Published) || isErrorOf(m, 16)
pred endsSub(m) = typeis(m, *messages.Subscribed) || isErrorOf(m, 32)
pred endsUnsub(m) = typeis(m, *messages.Unsubscribed) || isErrorOf(m, 34)
# S01: accepted exactly if such a request is outstanding
pred recvAccept(w, m, err) = (isResult(m) ==> (err == nil <==> old(as(m, *messages.Result).RequestID() in w.callRequests)))
  && (typeis(m, *messages.Registered) ==> (err == nil <==> old(as(m, *messages.Registered).RequestID() in w.registerRequests)))
  && (typeis(m, *messages.Unregistered) ==> (err == nil <==> old(as(m, *messages.Unregistered).RequestID() in w.unregisterRequests && w.unregisterRequests[as(m, *messages.Unregistered).RequestID()] in w.registrations)))
  && (typeis(m, *messages.Published) ==> (err == nil <==> old(as(m, *messages.Published).RequestID() in w.publishRequests)))
  && (typeis(m, *messages.Subscribed) ==> (err == nil <==> old(as(m, *messages.Subscribed).RequestID() in w.subscribeRequests)))
  && (typeis(m, *messages.Unsubscribed) ==> (err == nil <==> old(as(m, *messages.Unsubscribed).RequestID() in w.unsubscribeRequests && w.unsubscribeRequests[as(m, *messages.Unsubscribed).RequestID()] in w.subscriptions)))
pred recvError(w, m, err) = (isErrorOf(m, 48) ==> (err == nil <==> old(as(m, *messages.Error).RequestID() in w.callRequests)))
  && (isErrorOf(m, 64) ==> (err == nil <==> old(as(m, *messages.Error).RequestID() in w.registerRequests)))
  && (isErrorOf(m, 66) ==> (err == nil <==> old(as(m, *messages.Error).RequestID() in w.unregisterRequests)))
  && (isErrorOf(m, 16) ==> (err == nil <==> old(as(m, *messages.Error).RequestID() in w.publishRequests)))
  && (isErrorOf(m, 32) ==> (err == nil <==> old(as(m, *messages.Error).RequestID() in w.subscribeRequests)))
  && (isErrorOf(m, 34) ==> (err == nil <==> old(as(m, *messages.Error).RequestID() in w.unsubscribeRequests)))
  && (typeis(m, *messages.Error) && as(m, *messages.Error).MessageType() != 48 && as(m, *messages.Error).MessageType() != 64 && as(m, *messages.Error).MessageType() != 66
     && as(m, *messages.Error).MessageType() != 16 && as(m, *messages.Error).MessageType() != 32 && as(m, *messages.Error).MessageType() != 34 ==> err != nil)
# the id of the request a message answers
pred answerTo(m) = isResult(m) ? as(m, *messages.Result).RequestID() : typeis(m, *messages.Registered) ? as(m, *messages.Registered).RequestID() : typeis(m, *messages.Unregistered) ? as(m, *messages.Unregistered).RequestID()
  : typeis(m, *messages.Published) ? as(m, *messages.Published).RequestID() : typeis(m, *messages.Subscribed) ? as(m, *messages.Subscribed).RequestID() : typeis(m, *messages.Unsubscribed) ? as(m, *messages.Unsubscribed).RequestID() : as(m, *messages.Error).RequestID()
pred recvConsumes(w, m) = (endsCall(m) ? goneCall(w, answerTo(m)) : sameCall(w)) && (endsReg(m) ? goneReg(w, answerTo(m)) : sameReg(w)) && (endsUnreg(m) ? goneUnreg(w, answerTo(m)) : sameUnreg(w))
  && (endsPub(m) ? gonePub(w, answerTo(m)) : samePub(w)) && (endsSub(m) ? goneSub(w, answerTo(m)) : sameSub(w)) && (endsUnsub(m) ? goneUnsub(w, answerTo(m)) : sameUnsub(w))
# S02
pred recvHeld(w, m, err) = (typeis(m, *messages.Event) ==> (err == nil <==> old(as(m, *messages.Event).SubscriptionID() in w.subscriptions)))
  && (typeis(m, *messages.Invocation) ==> (err == nil <==> old(as(m, *messages.Invocation).RegistrationID() in w.registrations)))
pred recvPassed(m, r, err) = typeis(m, *messages.GoodBye) || typeis(m, *messages.Abort) ==> err == nil
pred receivable(m) = isResult(m) || typeis(m, *messages.Registered) || typeis(m, *messages.Unregistered) || typeis(m, *messages.Invocation) || typeis(m, *messages.Published) || typeis(m, *messages.Subscribed)
  || typeis(m, *messages.Unsubscribed) || typeis(m, *messages.Event) || typeis(m, *messages.Error) || typeis(m, *messages.GoodBye) || typeis(m, *messages.Abort)
pred recvRegs(w, m, err) = forall k uint64 :: {k in w.registrations} {old(k in w.registrations)} k in w.registrations <==> (old(k in w.registrations)
    && !(typeis(m, *messages.Unregistered) && err == nil && k == old(w.unregisterRequests[as(m, *messages.Unregistered).RequestID()])))
  || (typeis(m, *messages.Registered) && err == nil && k == as(m, *messages.Registered).RegistrationID())
pred recvSubs(w, m, err) = forall k uint64 :: {k in w.subscriptions} {old(k in w.subscriptions)} k in w.subscriptions <==> (old(k in w.subscriptions)
    && !(typeis(m, *messages.Unsubscribed) && err == nil && k == old(w.unsubscribeRequests[as(m, *messages.Unsubscribed).RequestID()])))
  || (typeis(m, *messages.Subscribed) && err == nil && k == as(m, *messages.Subscribed).SubscriptionID())

fn wamp.NewSession(serializer) (w)
ensures [S01,S02,S03] inv: sessInv(w)
ensures [S01] no_requests: forall k uint64 :: !(k in w.callRequests) && !(k in w.registerRequests) && !(k in w.unregisterRequests) && !(k in w.publishRequests) && !(k in w.subscribeRequests) && !(k in w.unsubscribeRequests)
ensures [S02] nothing_held: forall k uint64 :: !(k in w.registrations) && !(k in w.subscriptions)
ensures [S03] serializer: serializer != nil ==> w.serializer == serializer

fn wamp.(*Session).ReceiveMessage(w, msg) (r, err)
requires sessInv(w)
requires wfmsg(msg)
ensures [S01,S02,S03] inv: sessInv(w)
ensures [S01,S02] same_message: err == nil ==> r == msg
ensures [S01,S02] nothing: err != nil ==> r == nil
ensures [S01] accept: recvAccept(w, msg, err)
ensures [S01] error: recvError(w, msg, err)
ensures [S01] consumes: recvConsumes(w, msg)
ensures [S02] held: recvHeld(w, msg, err)
ensures [S02] passed: recvPassed(msg, r, err)
ensures [S02] only: err == nil ==> receivable(msg)
ensures [S02] registrations: recvRegs(w, msg, err)
ensures [S02] subscriptions: recvSubs(w, msg, err)
ensures [S03] serializer: w.serializer == old(w.serializer)

fn wamp.(*Session).Receive(w, data) (r, err)
requires sessInv(w)
ensures [S01,S02,S03] inv: sessInv(w)
ensures [S01,S02] undecodable: !deserialize_ok(w.serializer, str(old(data))) ==> err != nil && r == nil
ensures [S01,S02] same_message: err == nil ==> r == deserialized(w.serializer, data)
ensures [S01,S02] nothing: err != nil ==> r == nil
ensures [S01] unchanged: !deserialize_ok(w.serializer, data) ==> sameRequests(w)
ensures [S02] unchanged_held: !deserialize_ok(w.serializer, data) ==> sameHeld(w)
ensures [S01] accept: deserialize_ok(w.serializer, data) ==> recvAccept(w, deserialized(w.serializer, data), err)
ensures [S01] error: deserialize_ok(w.serializer, data) ==> recvError(w, deserialized(w.serializer, data), err)
ensures [S01] consumes: deserialize_ok(w.serializer, data) ==> recvConsumes(w, deserialized(w.serializer, data))
ensures [S02] held: deserialize_ok(w.serializer, data) ==> recvHeld(w, deserialized(w.serializer, data), err)
ensures [S02] passed: deserialize_ok(w.serializer, data) ==> recvPassed(deserialized(w.serializer, data), r, err)
ensures [S02] only: err == nil ==> receivable(deserialized(w.serializer, data))
ensures [S02] registrations: deserialize_ok(w.serializer, data) ==> recvRegs(w, deserialized(w.serializer, data), err)
ensures [S02] subscriptions: deserialize_ok(w.serializer, data) ==> recvSubs(w, deserialized(w.serializer, data), err)

pred sendable(w, m) = typeis(m, *messages.Call) || typeis(m, *messages.Yield) || typeis(m, *messages.Register) || typeis(m, *messages.Unregister) || typeis(m, *messages.Publish) || typeis(m, *messages.Subscribe)
  || (typeis(m, *messages.Unsubscribe) && as(m, *messages.Unsubscribe).SubscriptionID() in w.subscriptions) || isErrorOf(m, 68) || typeis(m, *messages.GoodBye)

fn wamp.(*Session).SendMessage(w, msg) (data, err)
requires sessInv(w)
requires wfmsg(msg)
ensures [S01,S02,S03] inv: sessInv(w)
ensures [S03] sent: err == nil <==> serialize_ok(w.serializer, msg) && old(sendable(w, msg))
ensures [S03] data: err == nil ==> str(data) == serialized(w.serializer, msg)
ensures [S03] refused: err != nil ==> sameRequests(w)
ensures [S01,S03] calls: forall k uint64 :: {k in w.callRequests} {old(k in w.callRequests)} k in w.callRequests <==> old(k in w.callRequests) || (err == nil && typeis(msg, *messages.Call) && k == as(msg, *messages.Call).RequestID())
ensures [S01,S03] registers: forall k uint64 :: {k in w.registerRequests} {old(k in w.registerRequests)} k in w.registerRequests <==> old(k in w.registerRequests) || (err == nil && typeis(msg, *messages.Register) && k == as(msg, *messages.Register).RequestID())
ensures [S01,S02,S03] unregisters: forall k uint64 :: {k in w.unregisterRequests} {old(k in w.unregisterRequests)} err == nil && typeis(msg, *messages.Unregister) && k == as(msg, *messages.Unregister).RequestID()
  ? k in w.unregisterRequests && w.unregisterRequests[k] == as(msg, *messages.Unregister).RegistrationID()
  : (k in w.unregisterRequests <==> old(k in w.unregisterRequests)) && (k in w.unregisterRequests ==> w.unregisterRequests[k] == old(w.unregisterRequests[k]))
ensures [S01,S03] publishes: forall k uint64 :: {k in w.publishRequests} {old(k in w.publishRequests)} k in w.publishRequests <==> old(k in w.publishRequests)
  || (err == nil && typeis(msg, *messages.Publish) && k == as(msg, *messages.Publish).RequestID() && flag(as(msg, *messages.Publish).Options(), "acknowledge"))
ensures [S01,S03] subscribes: forall k uint64 :: {k in w.subscribeRequests} {old(k in w.subscribeRequests)} k in w.subscribeRequests <==> old(k in w.subscribeRequests) || (err == nil && typeis(msg, *messages.Subscribe) && k == as(msg, *messages.Subscribe).RequestID())
ensures [S01,S02,S03] unsubscribes: forall k uint64 :: {k in w.unsubscribeRequests} {old(k in w.unsubscribeRequests)} err == nil && typeis(msg, *messages.Unsubscribe) && k == as(msg, *messages.Unsubscribe).RequestID()
  ? k in w.unsubscribeRequests && w.unsubscribeRequests[k] == as(msg, *messages.Unsubscribe).SubscriptionID()
  : (k in w.unsubscribeRequests <==> old(k in w.unsubscribeRequests)) && (k in w.unsubscribeRequests ==> w.unsubscribeRequests[k] == old(w.unsubscribeRequests[k]))
ensures [S02,S03] held: sameHeld(w)
ensures [S03] serializer: w.serializer == old(w.serializer)
