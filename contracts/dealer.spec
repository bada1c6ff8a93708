# The dealer. dP: registrations by procedure, dR: by session.
pred dP(d) = d.registrationsByProcedure
pred dR(d) = d.registrationsBySession
pred dealerShape(d) = d.registrationsByProcedure != nil && d.registrationsBySession != nil && d.sessions != nil && d.wcRegistrationsByProcedure != nil
  && d.prefixTree != nil && d.idGen != nil && d.pendingCalls != nil && d.invocationIDbyCall != nil && d.registrationsByProcedure != d.wcRegistrationsByProcedure
pred dealerSessions(d) = (forall k uint64 :: {k in d.sessions} {k in dR(d)} k in d.sessions <==> k in dR(d))
  && (forall k uint64 :: {dR(d)[k]} {k in dR(d)} {d.sessions[k]} k in dR(d) ==> dR(d)[k] != nil && d.sessions[k] != nil && d.sessions[k].ID() == k)
  && (forall j uint64, k uint64 :: {dR(d)[j], dR(d)[k]} j in dR(d) && k in dR(d) && dR(d)[j] == dR(d)[k] ==> j == k)
pred dealerProcs(d) = (forall t string :: {dP(d)[t]} t in dP(d) ==> dP(d)[t] != nil && dP(d)[t].Procedure == t && dP(d)[t].Registrants != nil
    && len(dP(d)[t].Registrants) > 0 && 1 <= dP(d)[t].ID && dP(d)[t].ID <= d.idGen.id
    && (dP(d)[t].Match == "exact" || dP(d)[t].Match == "prefix" || dP(d)[t].Match == "wildcard"))
  && (forall t string, u string :: {dP(d)[t], dP(d)[u]} t in dP(d) && u in dP(d) && t != u ==> dP(d)[t].ID != dP(d)[u].ID && dP(d)[t].Registrants != dP(d)[u].Registrants)
pred dealerMembers(d) = (forall t string, k uint64 :: {k in dP(d)[t].Registrants} t in dP(d) && k in dP(d)[t].Registrants
    ==> dP(d)[t].Registrants[k] == k && k in dR(d) && dP(d)[t].ID in dR(d)[k] && dR(d)[k][dP(d)[t].ID] == dP(d)[t])
  && (forall k uint64, i uint64 :: {i in dR(d)[k]} k in dR(d) && i in dR(d)[k]
    ==> dR(d)[k][i] != nil && dR(d)[k][i].ID == i && dR(d)[k][i].Procedure in dP(d) && dP(d)[dR(d)[k][i].Procedure] == dR(d)[k][i] && k in dR(d)[k][i].Registrants)
pred dealerPatterns(d) = (forall t string :: {t in d.prefixTree} {dP(d)[t]} t in d.prefixTree <==> t in dP(d) && dP(d)[t].Match == "prefix")
  && (forall t string :: {d.prefixTree[t]} t in d.prefixTree ==> d.prefixTree[t] == dP(d)[t])
  && (forall t string :: {t in d.wcRegistrationsByProcedure} {dP(d)[t]} t in d.wcRegistrationsByProcedure <==> t in dP(d) && dP(d)[t].Match == "wildcard")
  && (forall t string :: {d.wcRegistrationsByProcedure[t]} t in d.wcRegistrationsByProcedure ==> d.wcRegistrationsByProcedure[t] == dP(d)[t])
# the list of callees is the set of registrants, each once, in memory of its own
pred dealerCallees(d) = (forall t string :: {dP(d)[t]} t in dP(d) ==> len(dP(d)[t].callees) > 0 && 0 <= dP(d)[t].nextCallee && dP(d)[t].nextCallee <= len(dP(d)[t].callees))
  && (forall t string, i int :: {dP(d)[t].callees[i]} t in dP(d) && 0 <= i && i < len(dP(d)[t].callees) ==> dP(d)[t].callees[i] in dP(d)[t].Registrants)
  && (forall t string, k uint64 :: {k in dP(d)[t].Registrants} t in dP(d) && k in dP(d)[t].Registrants ==> (exists i int :: {dP(d)[t].callees[i]} 0 <= i && i < len(dP(d)[t].callees) && dP(d)[t].callees[i] == k))
  && (forall t string, i int, j int :: {dP(d)[t].callees[i], dP(d)[t].callees[j]} t in dP(d) && 0 <= i && i < j && j < len(dP(d)[t].callees) ==> dP(d)[t].callees[i] != dP(d)[t].callees[j])
  && (forall t string, u string :: {dP(d)[t], dP(d)[u]} t in dP(d) && u in dP(d) && t != u ==> arr(dP(d)[t].callees) != arr(dP(d)[u].callees))
# shared only by agreement
pred dealerOwners(d) = forall t string, j uint64, k uint64 :: {j in dP(d)[t].Registrants, k in dP(d)[t].Registrants} t in dP(d) && j in dP(d)[t].Registrants && k in dP(d)[t].Registrants && j != k
  ==> dP(d)[t].InvocationPolicy != "" && dP(d)[t].InvocationPolicy != "single"
pred dealerPending(d) = (forall i uint64 :: {d.pendingCalls[i]} i in d.pendingCalls ==> d.pendingCalls[i] != nil && 1 <= i && i <= d.idGen.id
    && d.pendingCalls[i].CallerID in dR(d) && d.pendingCalls[i].CalleeID in dR(d))
  && (forall i uint64, j uint64 :: {d.pendingCalls[i], d.pendingCalls[j]} i in d.pendingCalls && j in d.pendingCalls && i != j ==> d.pendingCalls[i] != d.pendingCalls[j])
pred dealerIndex(d) = forall c wamp.CallMap :: {d.invocationIDbyCall[c]} c in d.invocationIDbyCall ==> d.invocationIDbyCall[c] in d.pendingCalls
    && d.pendingCalls[d.invocationIDbyCall[c]].CallerID == c.CallerID && d.pendingCalls[d.invocationIDbyCall[c]].RequestID == c.CallID
pred dealerInv(d) = dealerShape(d) && dealerSessions(d) && dealerProcs(d) && dealerMembers(d) && dealerPatterns(d) && dealerCallees(d) && dealerOwners(d) && dealerPending(d) && dealerIndex(d)

pred registered(d, k, t) = t in dP(d) && k in dP(d)[t].Registrants
pred sameMembers(d) = forall t string, k uint64 :: {k in dP(d)[t].Registrants} {old(k in dP(d)[t].Registrants)} registered(d, k, t) <==> old(registered(d, k, t))
pred sameRegIDs(d) = forall t string :: {dP(d)[t]} t in dP(d) && old(t in dP(d)) ==> dP(d)[t].ID == old(dP(d)[t].ID) && dP(d)[t].Match == old(dP(d)[t].Match) && dP(d)[t].InvocationPolicy == old(dP(d)[t].InvocationPolicy)
pred sameAttached(d) = (forall k uint64 :: {k in dR(d)} k in dR(d) <==> old(k in dR(d))) && (forall k uint64 :: {d.sessions[k]} k in dR(d) ==> d.sessions[k] == old(d.sessions[k]))
# the callees of procedure t are the same, in the same order
pred sameCalleesOf(d, t) = len(dP(d)[t].callees) == old(len(dP(d)[t].callees)) && (forall i int :: {dP(d)[t].callees[i]} {old(dP(d)[t].callees[i])} 0 <= i && i < len(dP(d)[t].callees) ==> dP(d)[t].callees[i] == old(dP(d)[t].callees[i]))
pred sameOrder(d) = forall t string :: {dP(d)[t]} t in dP(d) && old(t in dP(d)) ==> sameCalleesOf(d, t)
pred sameTurns(d) = forall t string :: {dP(d)[t]} t in dP(d) && old(t in dP(d)) ==> dP(d)[t].nextCallee == old(dP(d)[t].nextCallee)
# callee k was taken out of the list of procedure t; the others keep their order, and whose turn it is stays the same
pred calleeRemoved(d, t, k) = (forall at int, i int :: {old(dP(d)[t].callees[at]), old(dP(d)[t].callees[i])} 0 <= at && at < old(len(dP(d)[t].callees)) && old(dP(d)[t].callees[at]) == k
    && 0 <= i && i < old(len(dP(d)[t].callees)) && i != at
  ==> len(dP(d)[t].callees) == old(len(dP(d)[t].callees)) - 1 && (i < at ? dP(d)[t].callees[i] == old(dP(d)[t].callees[i]) : dP(d)[t].callees[i-1] == old(dP(d)[t].callees[i])))
  && (forall at int, i int :: {old(dP(d)[t].callees[at]), dP(d)[t].callees[i]} 0 <= at && at < old(len(dP(d)[t].callees)) && old(dP(d)[t].callees[at]) == k && 0 <= i && i < len(dP(d)[t].callees)
  ==> len(dP(d)[t].callees) == old(len(dP(d)[t].callees)) - 1 && dP(d)[t].callees[i] == (i < at ? old(dP(d)[t].callees[i]) : old(dP(d)[t].callees[i+1])))
pred turnKept(d, t, k) = forall at int :: {old(dP(d)[t].callees[at])} 0 <= at && at < old(len(dP(d)[t].callees)) && old(dP(d)[t].callees[at]) == k
  ==> dP(d)[t].nextCallee == (at < old(dP(d)[t].nextCallee) ? old(dP(d)[t].nextCallee) - 1 : old(dP(d)[t].nextCallee))
pred pendingAsBefore(d, i) = (i in d.pendingCalls <==> old(i in d.pendingCalls)) && (i in d.pendingCalls ==> d.pendingCalls[i].RequestID == old(d.pendingCalls[i].RequestID) && d.pendingCalls[i].CallerID == old(d.pendingCalls[i].CallerID)
  && d.pendingCalls[i].CalleeID == old(d.pendingCalls[i].CalleeID) && d.pendingCalls[i].Progress == old(d.pendingCalls[i].Progress) && d.pendingCalls[i].ReceiveProgress == old(d.pendingCalls[i].ReceiveProgress))
pred samePending(d) = forall i uint64 :: {d.pendingCalls[i]} {i in d.pendingCalls} pendingAsBefore(d, i)
# which invocation a call in flight belongs to is forgotten only with the invocation
pred sameFlights(d) = forall c wamp.CallMap :: {d.invocationIDbyCall[c]} {c in d.invocationIDbyCall} (c in d.invocationIDbyCall <==> old(c in d.invocationIDbyCall) && old(d.invocationIDbyCall[c]) in d.pendingCalls)
  && (c in d.invocationIDbyCall ==> d.invocationIDbyCall[c] == old(d.invocationIDbyCall[c]))

fn wamp.NewDealer() (d)
ensures [D01,D02,D03,D04,D05,D06,D07,D08,D09] inv: dealerInv(d)
ensures [D02,D03] nobody: forall t string :: !(t in dP(d))
ensures [D09] no_sessions: forall k uint64 :: !(k in dR(d))
ensures [D04] nothing_pending: forall i uint64 :: !(i in d.pendingCalls)
ensures [D08] undisclosed: !d.details

fn wamp.(*Dealer).AddSession(d, details) (err)
requires dealerInv(d)
requires details != nil
ensures [D01,D02,D03,D04,D05,D06,D07,D08,D09] inv: dealerInv(d)
ensures [D09] twice: err == nil <==> !old(details.ID() in dR(d))
ensures [D09] attached: forall k uint64 :: k in dR(d) <==> old(k in dR(d)) || k == details.ID()
ensures [D08,D09] identity: err == nil ==> d.sessions[details.ID()] == details
ensures [D08,D09] others: forall k uint64 :: old(k in dR(d)) ==> d.sessions[k] == old(d.sessions[k])
ensures [D02,D03] same: sameMembers(d) && sameRegIDs(d)
ensures [D03,D06] order: sameOrder(d) && sameTurns(d)
ensures [D04,D07] pending: samePending(d) && sameFlights(d)
ensures [D08] disclosure: d.details == old(d.details)

fn wamp.(*Dealer).HasProcedure(d, procedure) (r)
requires dealerInv(d)
ensures [D01,D02,D03,D04,D05,D06,D07,D08,D09] inv: dealerInv(d)
ensures [D02] reported: r <==> (exists k uint64 :: registered(d, k, procedure))
ensures [D02,D03] same: sameMembers(d) && sameRegIDs(d) && sameAttached(d)
ensures [D03,D06] order: sameOrder(d) && sameTurns(d)
ensures [D04,D07] pending: samePending(d) && sameFlights(d)
ensures [D08] disclosure: d.details == old(d.details)

fn wamp.(*Dealer).AutoDiscloseCaller(d, disclose) ()
requires dealerInv(d)
ensures [D01,D02,D03,D04,D05,D06,D07,D08,D09] inv: dealerInv(d)
ensures [D08] set: d.details == disclose
ensures [D02,D03] same: sameMembers(d) && sameRegIDs(d) && sameAttached(d)
ensures [D03,D06] order: sameOrder(d) && sameTurns(d)
ensures [D04,D07] pending: samePending(d) && sameFlights(d)

# a lemma for the methods below: taking a callee out of a registration
fn wamp.(*Registration).removeCallee(r, id) ()
helper
requires forall i int, j int :: {r.callees[i], r.callees[j]} 0 <= i && i < j && j < len(r.callees) ==> r.callees[i] != r.callees[j]
modifies r.callees, r.nextCallee, elems(r.callees)
allocates []uint64
ensures memory: arr(r.callees) == old(arr(r.callees)) || fresh(arr(r.callees))
ensures absent: (forall i int :: {old(r.callees[i])} 0 <= i && i < old(len(r.callees)) ==> old(r.callees[i]) != id) ==> len(r.callees) == old(len(r.callees)) && r.nextCallee == old(r.nextCallee)
  && (forall i int :: {r.callees[i]} {old(r.callees[i])} 0 <= i && i < len(r.callees) ==> r.callees[i] == old(r.callees[i]))
ensures size: forall at int :: {old(r.callees[at])} 0 <= at && at < old(len(r.callees)) && old(r.callees[at]) == id ==> len(r.callees) == old(len(r.callees)) - 1
  && r.nextCallee == (at < old(r.nextCallee) ? old(r.nextCallee) - 1 : old(r.nextCallee))
ensures kept: forall at int, i int :: {old(r.callees[at]), old(r.callees[i])} 0 <= at && at < old(len(r.callees)) && old(r.callees[at]) == id && 0 <= i && i < old(len(r.callees)) && i != at
  ==> (i < at ? r.callees[i] == old(r.callees[i]) : r.callees[i-1] == old(r.callees[i]))
ensures order: forall at int, i int :: {old(r.callees[at]), r.callees[i]} 0 <= at && at < old(len(r.callees)) && old(r.callees[at]) == id && 0 <= i && i < len(r.callees)
  ==> r.callees[i] == (i < at ? old(r.callees[i]) : old(r.callees[i+1]))
loop slice []uint64
invariant unseen: forall j int :: {$seq[j]} 0 <= j && j < $idx ==> $seq[j] != id

fn wamp.(*Dealer).RemoveSession(d, id) (err)
requires dealerInv(d)
ensures [D01,D02,D03,D04,D05,D06,D07,D08,D09] inv: dealerInv(d)
ensures [D09] known: err == nil <==> old(id in dR(d))
ensures [D09] forgotten: forall k uint64 :: k in dR(d) <==> old(k in dR(d)) && k != id
ensures [D03,D09] nothing: forall t string :: !registered(d, id, t)
ensures [D03] others: forall t string, k uint64 :: k != id ==> (registered(d, k, t) <==> old(registered(d, k, t)))
ensures [D03] same_ids: sameRegIDs(d)
ensures [D03,D06] order: forall t string :: {dP(d)[t]} t in dP(d) && !old(id in dP(d)[t].Registrants) ==> sameCalleesOf(d, t) && dP(d)[t].nextCallee == old(dP(d)[t].nextCallee)
ensures [D03,D06] removed: forall t string :: {dP(d)[t]} t in dP(d) && old(id in dP(d)[t].Registrants) ==> calleeRemoved(d, t, id) && turnKept(d, t, id)
ensures [D04,D09] pending: forall i uint64 :: {i in d.pendingCalls} i in d.pendingCalls <==> old(i in d.pendingCalls && d.pendingCalls[i].CallerID != id && d.pendingCalls[i].CalleeID != id)
ensures [D04,D05,D07] kept: forall i uint64 :: {d.pendingCalls[i]} i in d.pendingCalls ==> pendingAsBefore(d, i)
ensures [D07] flights: sameFlights(d)
ensures [D08,D09] identities: forall k uint64 :: k in dR(d) ==> d.sessions[k] == old(d.sessions[k])
ensures [D08] disclosure: d.details == old(d.details)
loop map map[uint64]*Registration
invariant shape: dealerShape(d) && d.registrationsByProcedure == old(dP(d)) && d.registrationsBySession == old(dR(d)) && d.wcRegistrationsByProcedure == old(d.wcRegistrationsByProcedure)
invariant mine: $map == old(dR(d)[id])
invariant kept: forall t string :: {t in dP(d)} {dP(d)[t]} t in dP(d) ==> old(t in dP(d)) && dP(d)[t] == old(dP(d)[t])
invariant filled: forall t string :: {dP(d)[t]} t in dP(d) ==> len(dP(d)[t].Registrants) > 0
invariant others: forall t string, k uint64 :: {k in dP(d)[t].Registrants} {old(k in dP(d)[t].Registrants)} t in dP(d) && k != id ==> (k in dP(d)[t].Registrants <==> old(k in dP(d)[t].Registrants))
invariant values: forall t string, k uint64 :: {dP(d)[t].Registrants[k]} t in dP(d) && k in dP(d)[t].Registrants ==> dP(d)[t].Registrants[k] == k
invariant gone: forall t string :: {old(dP(d)[t])} old(t in dP(d)) && !(t in dP(d)) ==> (forall k uint64 :: {old(k in dP(d)[t].Registrants)} old(k in dP(d)[t].Registrants) ==> k == id)
invariant left: forall t string :: {old(dP(d)[t])} (t in dP(d) && id in dP(d)[t].Registrants) <==> old(t in dP(d) && id in dP(d)[t].Registrants) && !(old(dP(d)[t].ID) in $visited)
invariant patterns: dealerPatterns(d)
invariant own: forall t string :: {dP(d)[t]} t in dP(d) ==> arr(dP(d)[t].callees) == old(arr(dP(d)[t].callees))
invariant untouched: forall t string :: {dP(d)[t]} t in dP(d) && (!old(id in dP(d)[t].Registrants) || id in dP(d)[t].Registrants) ==> sameCalleesOf(d, t) && dP(d)[t].nextCallee == old(dP(d)[t].nextCallee)
invariant taken: forall t string :: {dP(d)[t]} t in dP(d) && old(id in dP(d)[t].Registrants) && !(id in dP(d)[t].Registrants) ==> calleeRemoved(d, t, id) && turnKept(d, t, id)
loop slice []uint64
invariant unseen: forall j int :: {$seq[j]} 0 <= j && j < $idx ==> $seq[j] != id
loop map map[uint64]*PendingInvocation
invariant pending: forall i uint64 :: {i in d.pendingCalls} i in d.pendingCalls <==> old(i in d.pendingCalls) && !(i in $visited && (old(d.pendingCalls[i].CallerID) == id || old(d.pendingCalls[i].CalleeID) == id))
invariant same: forall i uint64 :: {d.pendingCalls[i]} i in d.pendingCalls ==> d.pendingCalls[i] == old(d.pendingCalls[i])
invariant flights: sameFlights(d)

# the registrations a call of procedure p may be routed by
pred exactReg(d, p, t) = t == p && t in dP(d)
pred prefixReg(d, p, t) = t in dP(d) && dP(d)[t].Match == "prefix" && hasprefix(p, t)
pred wildReg(d, p, t) = t in dP(d) && dP(d)[t].Match == "wildcard" && pathmatch(t, p)
pred optTrue(o, v) = v in o && typeis(o[v], bool) && as(o[v], bool)
pred isCall(msg) = typeis(msg, *messages.Call)
pred aCall(msg) = as(msg, *messages.Call)
pred isInv(r) = typeis(r.Message, *messages.Invocation)
pred anInv(r) = as(r.Message, *messages.Invocation)
pred flight(s, c) = mk(wamp.CallMap, s, c.RequestID())
# the call c of session s, routed by registration t, continues a progressive call in flight
pred continues(d, s, c, t) = flight(s, c) in d.invocationIDbyCall && d.pendingCalls[d.invocationIDbyCall[flight(s, c)]].Progress
  && registered(d, d.pendingCalls[d.invocationIDbyCall[flight(s, c)]].CalleeID, t)
pred policyOf(m) = "invoke" in m.Options() && typeis(m.Options()["invoke"], string) ? as(m.Options()["invoke"], string) : ""

pred myReg(d, s, m) = dR(d)[s][m.RegistrationID()]
# session k was added behind the callees of procedure t
pred joinedLast(d, t, k) = len(dP(d)[t].callees) == old(t in dP(d) ? len(dP(d)[t].callees) : 0) + 1 && dP(d)[t].callees[len(dP(d)[t].callees)-1] == k
  && (old(t in dP(d)) ==> (forall i int :: {dP(d)[t].callees[i]} {old(dP(d)[t].callees[i])} 0 <= i && i < old(len(dP(d)[t].callees)) ==> dP(d)[t].callees[i] == old(dP(d)[t].callees[i])))
pred isYield(msg) = typeis(msg, *messages.Yield)
pred aYield(msg) = as(msg, *messages.Yield)
pred isError(msg) = typeis(msg, *messages.Error)
pred anError(msg) = as(msg, *messages.Error)
pred isReg(msg) = typeis(msg, *messages.Register)
pred aReg(msg) = as(msg, *messages.Register)
pred isUnreg(msg) = typeis(msg, *messages.Unregister)
pred anUnreg(msg) = as(msg, *messages.Unregister)

fn wamp.(*Dealer).ReceiveMessage(d, sessionID, msg) (r, err)
requires dealerInv(d)
requires wfmsg(msg)
requires d.idGen.id < 9007199254740991
step alive: isCall(msg) && old(sessionID in dR(d)) ==> err == nil
step answered: isYield(msg) && old(aYield(msg).RequestID() in d.pendingCalls) ==> err == nil
step recipient: isCall(msg) && err == nil ==> r != nil && r.Recipient in dR(d)
step attached: sameAttached(d)
step flown: isCall(msg) && err == nil && isInv(r) ==> anInv(r).RequestID() in d.pendingCalls && 1 <= anInv(r).RequestID() && anInv(r).RequestID() <= d.idGen.id && d.pendingCalls[anInv(r).RequestID()] != nil && d.pendingCalls[anInv(r).RequestID()].CallerID in dR(d)
   && d.pendingCalls[anInv(r).RequestID()].CalleeID == r.Recipient
step flying: isCall(msg) ==> (forall i uint64 :: {d.pendingCalls[i]} {i in d.pendingCalls} err != nil || !isInv(r) || i != anInv(r).RequestID() ==> pendingAsBefore(d, i) && (i in d.pendingCalls ==> d.pendingCalls[i] == old(d.pendingCalls[i])))
step pend by requires attached recipient flown flying: isCall(msg) && err == nil && isInv(r) ==> dealerPending(d)
step pend_not by requires attached flying: isCall(msg) && (err != nil || !isInv(r)) ==> dealerPending(d)
step grown: old(d.idGen.id) <= d.idGen.id
step flying_other: !isCall(msg) ==> (forall i uint64 :: {d.pendingCalls[i]} {i in d.pendingCalls} i in d.pendingCalls ==> old(i in d.pendingCalls) && d.pendingCalls[i] == old(d.pendingCalls[i])
  && d.pendingCalls[i].CallerID == old(d.pendingCalls[i].CallerID) && d.pendingCalls[i].CalleeID == old(d.pendingCalls[i].CalleeID))
step pend_other by requires attached grown flying_other: !isCall(msg) ==> dealerPending(d)
step pending by pend pend_not pend_other: dealerPending(d)
step joined: isReg(msg) && err == nil && typeis(r.Message, *messages.Registered) ==> (forall t string :: {dP(d)[t]} t in dP(d) && t == aReg(msg).Procedure() && !old(registered(d, sessionID, t)) ==> joinedLast(d, t, sessionID))
step own: err == nil ==> (forall t string :: {dP(d)[t]} t in dP(d) && old(t in dP(d)) ==> dP(d)[t] == old(dP(d)[t]) && (isUnreg(msg) ==> arr(dP(d)[t].callees) == old(arr(dP(d)[t].callees)) || fresh(arr(dP(d)[t].callees))))
step unreg_mine: isUnreg(msg) && err == nil ==> old(myReg(d, sessionID, anUnreg(msg)).Procedure in dP(d) && dP(d)[myReg(d, sessionID, anUnreg(msg)).Procedure] == myReg(d, sessionID, anUnreg(msg))
  && myReg(d, sessionID, anUnreg(msg)).ID == anUnreg(msg).RegistrationID() && sessionID in myReg(d, sessionID, anUnreg(msg)).Registrants)
step unreg_place: isUnreg(msg) && err == nil ==> old(exists i int :: {myReg(d, sessionID, anUnreg(msg)).callees[i]} 0 <= i && i < len(myReg(d, sessionID, anUnreg(msg)).callees) && myReg(d, sessionID, anUnreg(msg)).callees[i] == sessionID)
step unreg_header: isUnreg(msg) && err == nil ==> (forall t string :: {dP(d)[t]} t in dP(d) && t != old(myReg(d, sessionID, anUnreg(msg)).Procedure) ==>
  len(dP(d)[t].callees) == old(len(dP(d)[t].callees)) && arr(dP(d)[t].callees) == old(arr(dP(d)[t].callees)) && off(dP(d)[t].callees) == old(off(dP(d)[t].callees)))
step unreg_rest: isUnreg(msg) && err == nil ==> (forall t string :: {dP(d)[t]} t in dP(d) && t != old(myReg(d, sessionID, anUnreg(msg)).Procedure) ==> sameCalleesOf(d, t))
step unreg_len: isUnreg(msg) && err == nil ==> len(old(myReg(d, sessionID, anUnreg(msg))).callees) == old(len(myReg(d, sessionID, anUnreg(msg)).callees)) - 1
step unreg_at: isUnreg(msg) && err == nil ==> (forall at int :: {old(myReg(d, sessionID, anUnreg(msg)).callees[at])} 0 <= at && at < old(len(myReg(d, sessionID, anUnreg(msg)).callees)) && old(myReg(d, sessionID, anUnreg(msg)).callees[at]) == sessionID
  ==> (forall i int :: {old(myReg(d, sessionID, anUnreg(msg)).callees[i])} 0 <= i && i < at ==> old(myReg(d, sessionID, anUnreg(msg))).callees[i] == old(myReg(d, sessionID, anUnreg(msg)).callees[i])))
step unreg_after: isUnreg(msg) && err == nil ==> (forall at int :: {old(myReg(d, sessionID, anUnreg(msg)).callees[at])} 0 <= at && at < old(len(myReg(d, sessionID, anUnreg(msg)).callees)) && old(myReg(d, sessionID, anUnreg(msg)).callees[at]) == sessionID
  ==> (forall i int :: {old(myReg(d, sessionID, anUnreg(msg)).callees[i])} at < i && i < old(len(myReg(d, sessionID, anUnreg(msg)).callees)) ==> old(myReg(d, sessionID, anUnreg(msg))).callees[i-1] == old(myReg(d, sessionID, anUnreg(msg)).callees[i])))
step unreg_which: isUnreg(msg) && err == nil ==> (forall t string :: {old(dP(d)[t])} old(t in dP(d)) && old(dP(d)[t].ID) == anUnreg(msg).RegistrationID() ==> t == old(myReg(d, sessionID, anUnreg(msg)).Procedure) && old(dP(d)[t]) == old(myReg(d, sessionID, anUnreg(msg))))
step unreg_view: isUnreg(msg) && err == nil ==> (forall t string :: {dP(d)[t]} t in dP(d) && old(dP(d)[t].ID) == anUnreg(msg).RegistrationID() ==> dP(d)[t] == old(myReg(d, sessionID, anUnreg(msg))) && old(dP(d)[t]) == dP(d)[t]
  && len(dP(d)[t].callees) == old(len(dP(d)[t].callees)) - 1)
step unreg_elems by requires unreg_view unreg_which unreg_mine unreg_at unreg_after: isUnreg(msg) && err == nil ==> (forall t string, i int :: {dP(d)[t].callees[i]} t in dP(d) && old(dP(d)[t].ID) == anUnreg(msg).RegistrationID() && 0 <= i && i < len(dP(d)[t].callees)
  ==> dP(d)[t].callees[i] == old(myReg(d, sessionID, anUnreg(msg))).callees[i])
step removed by unreg_view unreg_elems unreg_which unreg_mine unreg_place unreg_len unreg_at unreg_after: typeis(msg, *messages.Unregister) && err == nil ==> (forall t string :: {dP(d)[t]} t in dP(d) && old(dP(d)[t].ID) == as(msg, *messages.Unregister).RegistrationID() ==> calleeRemoved(d, t, sessionID))
step sub: err == nil ==> (forall t string :: {dP(d)[t]} {t in dP(d)} t in dP(d) ==> old(t in dP(d)) || isReg(msg) && t == aReg(msg).Procedure())
step unreg_members: isUnreg(msg) && err == nil ==> (forall t string, k uint64 :: {k in dP(d)[t].Registrants} {old(k in dP(d)[t].Registrants)}
  registered(d, k, t) <==> old(registered(d, k, t)) && !(k == sessionID && old(dP(d)[t].ID) == anUnreg(msg).RegistrationID()))
step unreg_turn: isUnreg(msg) && err == nil ==> (forall t string :: {dP(d)[t]} t in dP(d) ==> 0 <= dP(d)[t].nextCallee && dP(d)[t].nextCallee <= len(dP(d)[t].callees) && len(dP(d)[t].callees) > 0)
step unreg_memory by requires sub own: isUnreg(msg) && err == nil ==> (forall t string, u string :: {dP(d)[t], dP(d)[u]} t in dP(d) && u in dP(d) && t != u ==> arr(dP(d)[t].callees) != arr(dP(d)[u].callees))
step callees_unreg by requires own sub unreg_members unreg_rest removed unreg_view unreg_which unreg_mine unreg_turn unreg_memory: isUnreg(msg) && err == nil ==> dealerCallees(d)
step reg_members: isReg(msg) && err == nil && typeis(r.Message, *messages.Registered) ==> (forall t string, k uint64 :: {k in dP(d)[t].Registrants} {old(k in dP(d)[t].Registrants)}
  registered(d, k, t) <==> old(registered(d, k, t)) || t == aReg(msg).Procedure() && k == sessionID)
step reg_header: isReg(msg) ==> (forall t string :: {dP(d)[t]} t in dP(d) && old(t in dP(d)) && (t != aReg(msg).Procedure() || old(registered(d, sessionID, t))) ==>
  len(dP(d)[t].callees) == old(len(dP(d)[t].callees)) && arr(dP(d)[t].callees) == old(arr(dP(d)[t].callees)) && off(dP(d)[t].callees) == old(off(dP(d)[t].callees)))
step reg_same: isReg(msg) ==> (forall t string :: {dP(d)[t]} t in dP(d) && old(t in dP(d)) && (t != aReg(msg).Procedure() || old(registered(d, sessionID, t))) ==> sameCalleesOf(d, t))
step reg_turn: isReg(msg) ==> (forall t string :: {dP(d)[t]} t in dP(d) ==> 0 <= dP(d)[t].nextCallee && dP(d)[t].nextCallee <= len(dP(d)[t].callees) && len(dP(d)[t].callees) > 0)
step reg_memory: isReg(msg) ==> (forall t string, u string :: {dP(d)[t], dP(d)[u]} t in dP(d) && u in dP(d) && t != u ==> arr(dP(d)[t].callees) != arr(dP(d)[u].callees))
step callees_reg by requires own sub reg_members reg_same joined reg_turn reg_memory: isReg(msg) && err == nil && typeis(r.Message, *messages.Registered) ==> dealerCallees(d)
step callees_else: !(isUnreg(msg) && err == nil) && !(isReg(msg) && err == nil && typeis(r.Message, *messages.Registered)) ==> dealerCallees(d)
step callees by callees_unreg callees_reg callees_else: dealerCallees(d)
ensures [D01,D02,D03,D04,D05,D06,D07,D08,D09] inv: dealerInv(d)
ensures [D09] attached: err == nil && old(sessionID in dR(d)) ==> r != nil && r.Recipient in dR(d)
ensures [D01,D09] sessions: sameAttached(d)
ensures [D01,D02,D03,D04,D05] refused: err != nil ==> r == nil && sameMembers(d) && sameOrder(d) && sameTurns(d) && samePending(d) && sameFlights(d)
ensures [D02,D03] ids: sameRegIDs(d)
ensures [D08] disclosure: d.details == old(d.details)
ensures [D01,D02,D03,D04,D05] only: err == nil ==> isCall(msg) || typeis(msg, *messages.Yield) || typeis(msg, *messages.Error) || typeis(msg, *messages.Register) || typeis(msg, *messages.Unregister)
# CALL
ensures [D01] call_unknown: isCall(msg) ==> (err == nil <==> old(sessionID in dR(d)))
ensures [D01] call_answer: isCall(msg) && err == nil ==> r != nil && (isInv(r) || typeis(r.Message, *messages.Error))
ensures [D01] call_routed: isCall(msg) && err == nil ==> (isInv(r) <==> old(exists t string :: exactReg(d, aCall(msg).Procedure(), t) || prefixReg(d, aCall(msg).Procedure(), t) || wildReg(d, aCall(msg).Procedure(), t)))
ensures [D01] call_refused: isCall(msg) && err == nil && !isInv(r) ==> r.Recipient == sessionID && as(r.Message, *messages.Error).MessageType() == 48
  && as(r.Message, *messages.Error).RequestID() == aCall(msg).RequestID() && as(r.Message, *messages.Error).URI() == "wamp.error.no_such_procedure"
ensures [D01] call_exact: isCall(msg) && err == nil && aCall(msg).Procedure() in dP(d) ==> anInv(r).RegistrationID() == dP(d)[aCall(msg).Procedure()].ID
ensures [D01] call_longest: isCall(msg) && err == nil && !(aCall(msg).Procedure() in dP(d)) ==> (forall t string :: {dP(d)[t]} prefixReg(d, aCall(msg).Procedure(), t)
  && (forall u string :: {dP(d)[u]} prefixReg(d, aCall(msg).Procedure(), u) ==> len(u) <= len(t)) ==> anInv(r).RegistrationID() == dP(d)[t].ID)
ensures [D01,D06,D07] call_selected: isCall(msg) && err == nil && isInv(r) ==> (exists t string :: t in dP(d) && dP(d)[t].ID == anInv(r).RegistrationID()
  && (exactReg(d, aCall(msg).Procedure(), t) || prefixReg(d, aCall(msg).Procedure(), t) || wildReg(d, aCall(msg).Procedure(), t)))
ensures [D01,D06] call_callee: isCall(msg) && err == nil && isInv(r) ==> (forall t string :: {dP(d)[t]} t in dP(d) && dP(d)[t].ID == anInv(r).RegistrationID() ==> r.Recipient in dP(d)[t].Registrants)
ensures [D01,D02,D03] call_regs: isCall(msg) ==> sameMembers(d)
ensures [D03,D06] call_order: isCall(msg) ==> sameOrder(d)
ensures [D06] call_policy: isCall(msg) && err == nil && isInv(r) ==> (forall t string :: {dP(d)[t]} t in dP(d) && dP(d)[t].ID == anInv(r).RegistrationID() && !old(continues(d, sessionID, aCall(msg), t)) ==>
    (dP(d)[t].InvocationPolicy == "first" ==> r.Recipient == dP(d)[t].callees[0])
    && (dP(d)[t].InvocationPolicy == "last" ==> r.Recipient == dP(d)[t].callees[len(dP(d)[t].callees)-1])
    && (dP(d)[t].InvocationPolicy == "roundrobin" && len(dP(d)[t].callees) > 1 ==> dP(d)[t].nextCallee == (old(dP(d)[t].nextCallee >= len(dP(d)[t].callees)) ? 1 : old(dP(d)[t].nextCallee) + 1)
       && r.Recipient == dP(d)[t].callees[dP(d)[t].nextCallee - 1]))
ensures [D06] call_turns: isCall(msg) ==> (forall t string :: {dP(d)[t]} t in dP(d) && (err != nil || !isInv(r) || dP(d)[t].ID != anInv(r).RegistrationID() || len(dP(d)[t].callees) == 1 || old(continues(d, sessionID, aCall(msg), t)))
   ==> dP(d)[t].nextCallee == old(dP(d)[t].nextCallee))
ensures [D07] call_continued: isCall(msg) && err == nil && isInv(r) ==> (forall t string :: {dP(d)[t]} t in dP(d) && dP(d)[t].ID == anInv(r).RegistrationID() && old(continues(d, sessionID, aCall(msg), t))
   ==> anInv(r).RequestID() == old(d.invocationIDbyCall[flight(sessionID, aCall(msg))]) && r.Recipient == old(d.pendingCalls[d.invocationIDbyCall[flight(sessionID, aCall(msg))]].CalleeID))
ensures [D04,D07] call_new: isCall(msg) && err == nil && isInv(r) ==> (forall t string :: {dP(d)[t]} t in dP(d) && dP(d)[t].ID == anInv(r).RegistrationID() && !old(continues(d, sessionID, aCall(msg), t))
   ==> old(d.idGen.id) < anInv(r).RequestID())
ensures [D04,D05,D07] call_pending: isCall(msg) && err == nil && isInv(r) ==> anInv(r).RequestID() in d.pendingCalls && d.pendingCalls[anInv(r).RequestID()].CallerID == sessionID
   && d.pendingCalls[anInv(r).RequestID()].RequestID == aCall(msg).RequestID() && d.pendingCalls[anInv(r).RequestID()].CalleeID == r.Recipient
ensures [D07] call_flight: isCall(msg) && err == nil && isInv(r) ==> flight(sessionID, aCall(msg)) in d.invocationIDbyCall && d.invocationIDbyCall[flight(sessionID, aCall(msg))] == anInv(r).RequestID()
   && (d.pendingCalls[anInv(r).RequestID()].Progress <==> optTrue(aCall(msg).Options(), "progress"))
ensures [D07] call_flights: isCall(msg) && err == nil ==> (forall c wamp.CallMap :: {d.invocationIDbyCall[c]} {c in d.invocationIDbyCall} c != flight(sessionID, aCall(msg)) ==>
   (c in d.invocationIDbyCall <==> old(c in d.invocationIDbyCall)) && (c in d.invocationIDbyCall ==> d.invocationIDbyCall[c] == old(d.invocationIDbyCall[c])))
ensures [D04] call_readiness: isCall(msg) && err == nil && isInv(r) && old(d.idGen.id) < anInv(r).RequestID() ==> (d.pendingCalls[anInv(r).RequestID()].ReceiveProgress <==> optTrue(aCall(msg).Options(), "receive_progress"))
ensures [D04] call_readiness_kept: isCall(msg) && err == nil ==> (forall i uint64 :: {d.pendingCalls[i]} old(i in d.pendingCalls) ==> i in d.pendingCalls && d.pendingCalls[i].ReceiveProgress == old(d.pendingCalls[i].ReceiveProgress))
ensures [D04,D05,D07] call_others: isCall(msg) && err == nil ==> (forall i uint64 :: {d.pendingCalls[i]} {i in d.pendingCalls} !isInv(r) || i != anInv(r).RequestID() ==> pendingAsBefore(d, i))
ensures [D07] call_announces: isCall(msg) && err == nil && isInv(r) ==> (optTrue(anInv(r).Details(), "progress") <==> optTrue(aCall(msg).Options(), "progress")) && (optTrue(anInv(r).Details(), "receive_progress") <==> optTrue(aCall(msg).Options(), "receive_progress"))
ensures [D08] call_content: isCall(msg) && err == nil && isInv(r) && !(aCall(msg).PayloadIsBinary() && d.sessions[r.Recipient].StaticSerializer()) ==> anInv(r).Args() == aCall(msg).Args() && anInv(r).KwArgs() == aCall(msg).KwArgs() && !anInv(r).PayloadIsBinary()
ensures [D08] call_binary: isCall(msg) && err == nil && isInv(r) && aCall(msg).PayloadIsBinary() && d.sessions[r.Recipient].StaticSerializer() ==> anInv(r).PayloadIsBinary() && anInv(r).Payload() == aCall(msg).Payload() && anInv(r).PayloadSerializer() == aCall(msg).PayloadSerializer()
ensures [D08] call_undisclosed: isCall(msg) && err == nil && isInv(r) && !d.details ==> (forall k string :: {k in anInv(r).Details()} k in anInv(r).Details() ==> k == "progress" || k == "receive_progress" || k == "x_payload_serializer")
ensures [D08] call_disclosed: isCall(msg) && err == nil && isInv(r) && d.details ==> (forall k string :: {k in anInv(r).Details()} k in anInv(r).Details() ==> k == "progress" || k == "receive_progress" || k == "x_payload_serializer" || k == "procedure" || k == "caller" || k == "caller_authid" || k == "caller_authrole")
  && "procedure" in anInv(r).Details() && "caller" in anInv(r).Details() && "caller_authid" in anInv(r).Details() && "caller_authrole" in anInv(r).Details()
  && anInv(r).Details()["procedure"] == box(aCall(msg).Procedure(), string) && anInv(r).Details()["caller"] == box(sessionID, uint64)
  && anInv(r).Details()["caller_authid"] == box(d.sessions[sessionID].AuthID(), string) && anInv(r).Details()["caller_authrole"] == box(d.sessions[sessionID].AuthRole(), string)
# YIELD and ERROR
ensures [D04] yield_unknown: isYield(msg) && !old(aYield(msg).RequestID() in d.pendingCalls) ==> err != nil
ensures [D04] yield_accepted: isYield(msg) && old(aYield(msg).RequestID() in d.pendingCalls && d.pendingCalls[aYield(msg).RequestID()].CalleeID == sessionID) ==> err == nil
ensures [D05] yield_callee: isYield(msg) && err == nil ==> old(d.pendingCalls[aYield(msg).RequestID()].CalleeID) == sessionID
ensures [D04,D05] yield_answer: isYield(msg) && err == nil ==> r != nil && r.Recipient == old(d.pendingCalls[aYield(msg).RequestID()].CallerID) && typeis(r.Message, *messages.Result)
  && as(r.Message, *messages.Result).RequestID() == old(d.pendingCalls[aYield(msg).RequestID()].RequestID)
ensures [D04] yield_progress: isYield(msg) && err == nil && optTrue(aYield(msg).Options(), "progress") && old(d.pendingCalls[aYield(msg).RequestID()].ReceiveProgress)
  ==> optTrue(as(r.Message, *messages.Result).Details(), "progress") && samePending(d)
ensures [D04] yield_final: isYield(msg) && err == nil && !(optTrue(aYield(msg).Options(), "progress") && old(d.pendingCalls[aYield(msg).RequestID()].ReceiveProgress))
  ==> !("progress" in as(r.Message, *messages.Result).Details()) && !(aYield(msg).RequestID() in d.pendingCalls)
ensures [D04,D05,D07] yield_others: isYield(msg) ==> (forall i uint64 :: {d.pendingCalls[i]} {i in d.pendingCalls} i != aYield(msg).RequestID() ==> pendingAsBefore(d, i))
ensures [D08] yield_content: isYield(msg) && err == nil && !(aYield(msg).PayloadIsBinary() && d.sessions[r.Recipient].StaticSerializer()) ==> as(r.Message, *messages.Result).Args() == aYield(msg).Args()
  && as(r.Message, *messages.Result).KwArgs() == aYield(msg).KwArgs() && !as(r.Message, *messages.Result).PayloadIsBinary()
ensures [D08] yield_binary: isYield(msg) && err == nil && aYield(msg).PayloadIsBinary() && d.sessions[r.Recipient].StaticSerializer() ==> as(r.Message, *messages.Result).PayloadIsBinary()
  && as(r.Message, *messages.Result).Payload() == aYield(msg).Payload() && as(r.Message, *messages.Result).PayloadSerializer() == aYield(msg).PayloadSerializer()
ensures [D04,D05] error_accepted: isError(msg) ==> (err == nil <==> anError(msg).MessageType() == 68 && old(anError(msg).RequestID() in d.pendingCalls && d.pendingCalls[anError(msg).RequestID()].CalleeID == sessionID))
ensures [D04,D05] error_answer: isError(msg) && err == nil ==> r != nil && r.Recipient == old(d.pendingCalls[anError(msg).RequestID()].CallerID) && typeis(r.Message, *messages.Error)
  && as(r.Message, *messages.Error).MessageType() == 48 && as(r.Message, *messages.Error).RequestID() == old(d.pendingCalls[anError(msg).RequestID()].RequestID)
ensures [D04] error_final: isError(msg) && err == nil ==> !(anError(msg).RequestID() in d.pendingCalls)
ensures [D04,D05,D07] error_others: isError(msg) ==> (forall i uint64 :: {d.pendingCalls[i]} {i in d.pendingCalls} i != anError(msg).RequestID() ==> pendingAsBefore(d, i))
ensures [D08] error_content: isError(msg) && err == nil ==> as(r.Message, *messages.Error).URI() == anError(msg).URI() && as(r.Message, *messages.Error).Args() == anError(msg).Args()
  && as(r.Message, *messages.Error).KwArgs() == anError(msg).KwArgs() && (anError(msg).Details() != nil ==> as(r.Message, *messages.Error).Details() == anError(msg).Details())
ensures [D01,D02,D03,D06] answer_regs: isYield(msg) || isError(msg) ==> sameMembers(d) && sameOrder(d) && sameTurns(d)
ensures [D07] answer_flights: isYield(msg) || isError(msg) ==> sameFlights(d)
# REGISTER
ensures [D02] reg_attached: isReg(msg) ==> (err == nil <==> old(sessionID in dR(d)))
ensures [D02] reg_answer: isReg(msg) && err == nil ==> r != nil && r.Recipient == sessionID && (typeis(r.Message, *messages.Registered) || typeis(r.Message, *messages.Error))
ensures [D02] reg_accepted: isReg(msg) && err == nil ==> (typeis(r.Message, *messages.Registered) <==> !old(aReg(msg).Procedure() in dP(d))
  || old(dP(d)[aReg(msg).Procedure()].InvocationPolicy) == policyOf(aReg(msg)) && policyOf(aReg(msg)) != "" && policyOf(aReg(msg)) != "single")
ensures [D02] reg_refused: isReg(msg) && err == nil && !typeis(r.Message, *messages.Registered) ==> as(r.Message, *messages.Error).MessageType() == 64 && as(r.Message, *messages.Error).RequestID() == aReg(msg).RequestID()
  && as(r.Message, *messages.Error).URI() == "wamp.error.procedure_already_exists" && sameMembers(d) && sameOrder(d) && sameTurns(d)
ensures [D01,D02,D03] reg_id: isReg(msg) && err == nil && typeis(r.Message, *messages.Registered) ==> as(r.Message, *messages.Registered).RequestID() == aReg(msg).RequestID()
  && registered(d, sessionID, aReg(msg).Procedure()) && dP(d)[aReg(msg).Procedure()].ID == as(r.Message, *messages.Registered).RegistrationID()
ensures [D02] reg_new: isReg(msg) && err == nil && !old(aReg(msg).Procedure() in dP(d)) ==> old(d.idGen.id) < dP(d)[aReg(msg).Procedure()].ID
ensures [D01,D02,D06] reg_kind: isReg(msg) && err == nil && !old(aReg(msg).Procedure() in dP(d)) ==> dP(d)[aReg(msg).Procedure()].InvocationPolicy == policyOf(aReg(msg))
  && dP(d)[aReg(msg).Procedure()].Match == (optString(aReg(msg), "prefix") ? "prefix" : optString(aReg(msg), "wildcard") ? "wildcard" : "exact")
ensures [D02,D03] reg_others: isReg(msg) ==> (forall t string, k uint64 :: {k in dP(d)[t].Registrants} {old(k in dP(d)[t].Registrants)} k != sessionID || t != aReg(msg).Procedure() ==> (registered(d, k, t) <==> old(registered(d, k, t))))
ensures [D03,D06] reg_order: isReg(msg) ==> (forall t string :: {dP(d)[t]} t in dP(d) && old(t in dP(d)) && (t != aReg(msg).Procedure() || old(registered(d, sessionID, t))) ==> sameCalleesOf(d, t))
ensures [D03,D06] reg_last: isReg(msg) && err == nil && typeis(r.Message, *messages.Registered) && !old(registered(d, sessionID, aReg(msg).Procedure())) ==> joinedLast(d, aReg(msg).Procedure(), sessionID)
ensures [D06] reg_turns: isReg(msg) ==> sameTurns(d) && (err == nil && !old(aReg(msg).Procedure() in dP(d)) ==> dP(d)[aReg(msg).Procedure()].nextCallee == 0)
ensures [D04,D07] reg_pending: isReg(msg) || isUnreg(msg) ==> samePending(d) && sameFlights(d)
# UNREGISTER
ensures [D03] unreg_held: isUnreg(msg) ==> (err == nil <==> old(sessionID in dR(d) && anUnreg(msg).RegistrationID() in dR(d)[sessionID]))
ensures [D03] unreg_answer: isUnreg(msg) && err == nil ==> r != nil && r.Recipient == sessionID && typeis(r.Message, *messages.Unregistered) && as(r.Message, *messages.Unregistered).RequestID() == anUnreg(msg).RequestID()
ensures [D03] unreg_released: isUnreg(msg) && err == nil ==> (forall t string, k uint64 :: {k in dP(d)[t].Registrants} {old(k in dP(d)[t].Registrants)}
  registered(d, k, t) <==> old(registered(d, k, t)) && !(k == sessionID && old(dP(d)[t].ID) == anUnreg(msg).RegistrationID()))
ensures [D03,D06] unreg_order: isUnreg(msg) && err == nil ==> (forall t string :: {dP(d)[t]} t in dP(d) && old(dP(d)[t].ID) != anUnreg(msg).RegistrationID() ==> sameCalleesOf(d, t) && dP(d)[t].nextCallee == old(dP(d)[t].nextCallee))
ensures [D03,D06] unreg_removed: isUnreg(msg) && err == nil ==> (forall t string :: {dP(d)[t]} t in dP(d) && old(dP(d)[t].ID) == anUnreg(msg).RegistrationID() ==> calleeRemoved(d, t, sessionID) && turnKept(d, t, sessionID))
loop map map[string]*Registration
invariant unmatched: forall t string :: {t in $visited} t in $visited ==> !pathmatch(t, aCall(msg).Procedure())
loop slice []uint64
invariant unseen: forall j int :: {$seq[j]} 0 <= j && j < $idx ==> $seq[j] != sessionID
