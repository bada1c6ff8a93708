# The broker. T: subscriptions by topic, S: by session, Q: sessions, P: prefix tree, W: wildcard patterns.
pred bT(b) = b.subscriptionsByTopic
pred bS(b) = b.subscriptionsBySession
pred brokerShape(b) = b.subscriptionsByTopic != nil && b.subscriptionsBySession != nil && b.sessions != nil
  && b.wcSubscriptionsByTopic != nil && b.prefixTree != nil && b.idGen != nil && b.subscriptionsByTopic != b.wcSubscriptionsByTopic
pred brokerSessions(b) = (forall k uint64 :: {k in b.sessions} {k in bS(b)} k in b.sessions <==> k in bS(b))
  && (forall k uint64 :: {bS(b)[k]} k in bS(b) ==> bS(b)[k] != nil && b.sessions[k] != nil && b.sessions[k].ID() == k)
  && (forall j uint64, k uint64 :: {bS(b)[j], bS(b)[k]} j in bS(b) && k in bS(b) && bS(b)[j] == bS(b)[k] ==> j == k)
pred brokerTopics(b) = (forall t string :: {bT(b)[t]} t in bT(b) ==> bT(b)[t] != nil && bT(b)[t].Topic == t && bT(b)[t].Subscribers != nil
    && len(bT(b)[t].Subscribers) > 0 && 1 <= bT(b)[t].ID && bT(b)[t].ID <= b.idGen.id
    && (bT(b)[t].Match == "exact" || bT(b)[t].Match == "prefix" || bT(b)[t].Match == "wildcard"))
  && (forall t string, u string :: {bT(b)[t], bT(b)[u]} t in bT(b) && u in bT(b) && t != u ==> bT(b)[t].ID != bT(b)[u].ID && bT(b)[t].Subscribers != bT(b)[u].Subscribers)
pred brokerSubs(b) = (forall t string, k uint64 :: {k in bT(b)[t].Subscribers} t in bT(b) && k in bT(b)[t].Subscribers
    ==> bT(b)[t].Subscribers[k] == k && k in bS(b) && bT(b)[t].ID in bS(b)[k] && bS(b)[k][bT(b)[t].ID] == bT(b)[t])
  && (forall k uint64, i uint64 :: {i in bS(b)[k]} k in bS(b) && i in bS(b)[k]
    ==> bS(b)[k][i] != nil && bS(b)[k][i].ID == i && bS(b)[k][i].Topic in bT(b) && bT(b)[bS(b)[k][i].Topic] == bS(b)[k][i] && k in bS(b)[k][i].Subscribers)
pred brokerPatterns(b) = (forall t string :: {t in b.prefixTree} {bT(b)[t]} t in b.prefixTree <==> t in bT(b) && bT(b)[t].Match == "prefix")
  && (forall t string :: {b.prefixTree[t]} t in b.prefixTree ==> b.prefixTree[t] == bT(b)[t])
  && (forall t string :: {t in b.wcSubscriptionsByTopic} {bT(b)[t]} t in b.wcSubscriptionsByTopic <==> t in bT(b) && bT(b)[t].Match == "wildcard")
  && (forall t string :: {b.wcSubscriptionsByTopic[t]} t in b.wcSubscriptionsByTopic ==> b.wcSubscriptionsByTopic[t] == bT(b)[t])
pred brokerInv(b) = brokerShape(b) && brokerSessions(b) && brokerTopics(b) && brokerSubs(b) && brokerPatterns(b)

# session k is subscribed to topic or pattern t
pred subscribed(b, k, t) = t in bT(b) && k in bT(b)[t].Subscribers

# nothing observable changed: who is subscribed to what, under which id, and who is attached
pred sameSubs(b) = (forall t string, k uint64 :: {k in bT(b)[t].Subscribers} {old(k in bT(b)[t].Subscribers)} subscribed(b, k, t) <==> old(subscribed(b, k, t)))
pred sameIDs(b) = forall t string :: {bT(b)[t]} t in bT(b) && old(t in bT(b)) ==> bT(b)[t].ID == old(bT(b)[t].ID) && bT(b)[t].Match == old(bT(b)[t].Match)
pred sameSessions(b) = (forall k uint64 :: {k in bS(b)} k in bS(b) <==> old(k in bS(b))) && (forall k uint64 :: {b.sessions[k]} k in bS(b) ==> b.sessions[k] == old(b.sessions[k]))

pred optString(m, v) = "match" in m.Options() && typeis(m.Options()["match"], string) && as(m.Options()["match"], string) == v

fn wamp.NewBroker() (b)
ensures [B01,B02,B03,B04,B05] inv: brokerInv(b)
ensures [B02,B03] nobody: forall t string :: !(t in bT(b))
ensures [B02,B03] no_sessions: forall k uint64 :: !(k in bS(b))
ensures [B05] undisclosed: !b.details

fn wamp.(*Broker).AddSession(b, details) (err)
requires brokerInv(b)
requires details != nil
ensures [B01,B02,B03,B04,B05] inv: brokerInv(b)
ensures [B03] twice: err == nil <==> !old(details.ID() in bS(b))
ensures [B03] attached: forall k uint64 :: k in bS(b) <==> old(k in bS(b)) || k == details.ID()
ensures [B03,B05] identity: err == nil ==> b.sessions[details.ID()] == details
ensures [B02,B05] others: forall k uint64 :: old(k in bS(b)) ==> b.sessions[k] == old(b.sessions[k])
ensures [B02,B03] same: sameSubs(b)
ensures [B02,B03] same_ids: sameIDs(b)

fn wamp.(*Broker).RemoveSession(b, id) (err)
requires brokerInv(b)
ensures [B01,B02,B03,B04,B05] inv: brokerInv(b)
ensures [B02] known: err == nil <==> old(id in bS(b))
ensures [B02] forgotten: forall k uint64 :: k in bS(b) <==> old(k in bS(b)) && k != id
ensures [B02] nothing: forall t string :: !subscribed(b, id, t)
ensures [B02] others: forall t string, k uint64 :: k != id ==> (subscribed(b, k, t) <==> old(subscribed(b, k, t)))
ensures [B02] same_ids: sameIDs(b)
ensures [B02,B05] identities: forall k uint64 :: k in bS(b) ==> b.sessions[k] == old(b.sessions[k])
loop map map[uint64]*Subscription
invariant shape: brokerShape(b) && b.subscriptionsByTopic == old(bT(b)) && b.subscriptionsBySession == old(bS(b)) && b.sessions == old(b.sessions) && b.wcSubscriptionsByTopic == old(b.wcSubscriptionsByTopic) && b.idGen == old(b.idGen)
invariant mine: $map == old(bS(b)[id])
invariant kept: forall t string :: {t in bT(b)} {bT(b)[t]} t in bT(b) ==> old(t in bT(b)) && bT(b)[t] == old(bT(b)[t])
invariant filled: forall t string :: {bT(b)[t]} t in bT(b) ==> len(bT(b)[t].Subscribers) > 0
invariant others: forall t string, k uint64 :: {k in bT(b)[t].Subscribers} {old(k in bT(b)[t].Subscribers)} t in bT(b) && k != id ==> (k in bT(b)[t].Subscribers <==> old(k in bT(b)[t].Subscribers))
invariant values: forall t string, k uint64 :: {bT(b)[t].Subscribers[k]} t in bT(b) && k in bT(b)[t].Subscribers ==> bT(b)[t].Subscribers[k] == k
invariant gone: forall t string :: {old(bT(b)[t])} old(t in bT(b)) && !(t in bT(b)) ==> (forall k uint64 :: {old(k in bT(b)[t].Subscribers)} old(k in bT(b)[t].Subscribers) ==> k == id)
invariant left: forall t string :: {old(bT(b)[t])} (t in bT(b) && id in bT(b)[t].Subscribers) <==> old(t in bT(b) && id in bT(b)[t].Subscribers) && !(old(bT(b)[t].ID) in $visited)
invariant patterns: brokerPatterns(b)

fn wamp.(*Broker).HasSubscription(b, topic) (r)
requires brokerInv(b)
ensures [B01,B02,B03,B04,B05] inv: brokerInv(b)
ensures [B03] reported: r <==> (exists k uint64 :: subscribed(b, k, topic))
ensures [B02,B03] same: sameSubs(b) && sameIDs(b) && sameSessions(b)
ensures [B05] details: b.details == old(b.details)

fn wamp.(*Broker).AutoDisclosePublisher(b, disclose) ()
requires brokerInv(b)
ensures [B01,B02,B03,B04,B05] inv: brokerInv(b)
ensures [B05] set: b.details == disclose
ensures [B02,B03,B05] same: sameSubs(b) && sameIDs(b) && sameSessions(b)

fn wamp.(*Broker).ReceiveMessage(b, sessionID, msg) (r, err)
requires brokerInv(b)
requires wfmsg(msg)
requires b.idGen.id < 9007199254740991
ensures [B01,B02,B03,B04,B05] inv: brokerInv(b)
ensures [B02,B03] sessions: sameSessions(b)
ensures [B02,B03] refused: err != nil ==> r == nil && sameSubs(b)
ensures [B03] unknown: !old(sessionID in bS(b)) ==> err != nil
ensures [B02,B03] ids: sameIDs(b)
ensures [B05] details: b.details == old(b.details)
# SUBSCRIBE
ensures [B03] accepted: typeis(msg, *messages.Subscribe) && old(sessionID in bS(b)) ==> err == nil
ensures [B03] answer: typeis(msg, *messages.Subscribe) && err == nil ==> r != nil && r.Recipient == sessionID && typeis(r.Message, *messages.Subscribed)
  && as(r.Message, *messages.Subscribed).RequestID() == as(msg, *messages.Subscribe).RequestID()
ensures [B01,B03] subscribes: typeis(msg, *messages.Subscribe) && err == nil ==> subscribed(b, sessionID, as(msg, *messages.Subscribe).Topic())
  && as(r.Message, *messages.Subscribed).SubscriptionID() == bT(b)[as(msg, *messages.Subscribe).Topic()].ID
ensures [B02,B03] subscribe_others: typeis(msg, *messages.Subscribe) && err == nil ==> (forall t string, k uint64 :: {k in bT(b)[t].Subscribers}
  k != sessionID || t != as(msg, *messages.Subscribe).Topic() ==> (subscribed(b, k, t) <==> old(subscribed(b, k, t))))
ensures [B01] match: typeis(msg, *messages.Subscribe) && err == nil && !old(as(msg, *messages.Subscribe).Topic() in bT(b)) ==>
  bT(b)[as(msg, *messages.Subscribe).Topic()].Match == (optString(as(msg, *messages.Subscribe), "prefix") ? "prefix" : optString(as(msg, *messages.Subscribe), "wildcard") ? "wildcard" : "exact")
# UNSUBSCRIBE
ensures [B02] held: typeis(msg, *messages.Unsubscribe) ==> (err == nil <==> old(sessionID in bS(b) && as(msg, *messages.Unsubscribe).SubscriptionID() in bS(b)[sessionID]))
ensures [B02] answer_un: typeis(msg, *messages.Unsubscribe) && err == nil ==> r != nil && r.Recipient == sessionID && typeis(r.Message, *messages.Unsubscribed)
  && as(r.Message, *messages.Unsubscribed).RequestID() == as(msg, *messages.Unsubscribe).RequestID()
ensures [B02] released: typeis(msg, *messages.Unsubscribe) && err == nil ==> (forall t string, k uint64 :: {k in bT(b)[t].Subscribers} {old(k in bT(b)[t].Subscribers)}
  subscribed(b, k, t) <==> old(subscribed(b, k, t)) && !(k == sessionID && old(bT(b)[t].ID) == as(msg, *messages.Unsubscribe).SubscriptionID()))
# anything else
ensures [B02,B03] only: err == nil ==> typeis(msg, *messages.Subscribe) || typeis(msg, *messages.Unsubscribe)

# the subscriptions that receive a publication on topic tp
pred exactSub(b, tp, t) = t == tp && t in bT(b)
pred prefixSub(b, tp, t) = t in bT(b) && bT(b)[t].Match == "prefix" && hasprefix(tp, t)
pred wildSub(b, tp, t) = t in bT(b) && bT(b)[t].Match == "wildcard" && pathmatch(t, tp)

fn wamp.(*Broker).ReceivePublish(b, sessionID, publish) (r, err)
requires brokerInv(b)
requires publish != nil && wfmsg(publish)
requires b.idGen.id < 9007199254740991
ensures [B01,B02,B03,B04,B05] inv: brokerInv(b)
ensures [B01,B02] same: sameSubs(b) && sameIDs(b) && sameSessions(b)
ensures [B05] details: b.details == old(b.details)
ensures [B01] unknown: err != nil <==> !(sessionID in bS(b))
ensures [B01] result: err == nil ==> r != nil
ensures [B01] event: err == nil ==> (r.Event != nil <==> (exists t string :: exactSub(b, publish.Topic(), t) || prefixSub(b, publish.Topic(), t) || wildSub(b, publish.Topic(), t)))
ensures [B01] exact: err == nil && publish.Topic() in bT(b) ==> r.Event.SubscriptionID() == bT(b)[publish.Topic()].ID
ensures [B01] longest: err == nil && !(publish.Topic() in bT(b)) ==> (forall t string :: {bT(b)[t]} prefixSub(b, publish.Topic(), t)
  && (forall u string :: {bT(b)[u]} prefixSub(b, publish.Topic(), u) ==> len(u) <= len(t)) ==> r.Event.SubscriptionID() == bT(b)[t].ID)
ensures [B01] selected: err == nil && r.Event != nil ==> (exists t string :: t in bT(b) && bT(b)[t].ID == r.Event.SubscriptionID()
  && (exactSub(b, publish.Topic(), t) || prefixSub(b, publish.Topic(), t) || wildSub(b, publish.Topic(), t)))
ensures [B01] all: err == nil && r.Event != nil ==> (forall t string, k uint64 :: {k in bT(b)[t].Subscribers} t in bT(b) && bT(b)[t].ID == r.Event.SubscriptionID()
  && k in bT(b)[t].Subscribers ==> (exists i int :: {r.Recipients[i]} 0 <= i && i < len(r.Recipients) && r.Recipients[i] == k))
ensures [B01] none_else: err == nil && r.Event != nil ==> (forall t string, i int :: {bT(b)[t], r.Recipients[i]} t in bT(b) && bT(b)[t].ID == r.Event.SubscriptionID()
  && 0 <= i && i < len(r.Recipients) ==> r.Recipients[i] in bT(b)[t].Subscribers)
ensures [B01] once: err == nil ==> (forall i int, j int :: {r.Recipients[i], r.Recipients[j]} 0 <= i && i < j && j < len(r.Recipients) ==> r.Recipients[i] != r.Recipients[j])
ensures [B01] nobody: err == nil && r.Event == nil ==> len(r.Recipients) == 0
ensures [B04] content: err == nil && r.Event != nil ==> r.Event.Args() == publish.Args() && r.Event.KwArgs() == publish.KwArgs()
ensures [B04] ack: err == nil ==> (r.Ack != nil <==> "acknowledge" in publish.Options() && typeis(publish.Options()["acknowledge"], bool) && as(publish.Options()["acknowledge"], bool))
ensures [B04] ack_to: err == nil && r.Ack != nil ==> r.Ack.Recipient == sessionID && typeis(r.Ack.Message, *messages.Published)
  && as(r.Ack.Message, *messages.Published).RequestID() == publish.RequestID()
ensures [B04] ack_id: err == nil && r.Ack != nil && r.Event != nil ==> as(r.Ack.Message, *messages.Published).PublicationID() == r.Event.PublicationID()
ensures [B04] new_id: err == nil ==> (r.Event != nil ==> old(b.idGen.id) < r.Event.PublicationID() && r.Event.PublicationID() <= b.idGen.id)
  && (r.Ack != nil ==> old(b.idGen.id) < as(r.Ack.Message, *messages.Published).PublicationID() && as(r.Ack.Message, *messages.Published).PublicationID() <= b.idGen.id)
ensures [B05] undisclosed: err == nil && r.Event != nil && !b.details ==> len(r.Event.Details()) == 0
ensures [B05] disclosed: err == nil && r.Event != nil && b.details ==> (forall k string :: k in r.Event.Details() <==> k == "topic" || k == "publisher" || k == "publisher_authid" || k == "publisher_authrole")
  && r.Event.Details()["topic"] == box(publish.Topic(), string) && r.Event.Details()["publisher"] == box(sessionID, uint64)
  && r.Event.Details()["publisher_authid"] == box(b.sessions[sessionID].AuthID(), string) && r.Event.Details()["publisher_authrole"] == box(b.sessions[sessionID].AuthRole(), string)
loop map map[string]*Subscription
invariant unmatched: forall t string :: {t in $visited} t in $visited ==> !pathmatch(t, publish.Topic())
loop map map[uint64]uint64
invariant count: len($acc([]uint64)) == $idx
invariant order: forall i int :: {$acc([]uint64)[i]} {$key(i)} 0 <= i && i < $idx ==> $acc([]uint64)[i] == $key(i) && $key(i) in $map && $pos($key(i)) == i
invariant fresh: fresh($acc([]uint64)) || cap($acc([]uint64)) == 0
