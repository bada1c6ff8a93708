#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

p("W01","Untrusted bytes never crash a decoder",
  "Decoding any byte string, with any of the JSON, CBOR or MessagePack message serializers or with the payload decoders, either yields a value or returns an error; it never panics. The same holds for parsing any decoded list as any of the 24 message types.",
  ["inputs"],"every byte string the wire can deliver, hence every decoded list of every length holding values of every dynamic type",
  "Tests feed a handful of well-formed messages and a few wrong element types; they never try empty or short lists, where the index arithmetic of validation matters.",
  ["serializers/helpers.go","serializers/cbor.go","serializers/json.go","serializers/msgpack.go","serializers/payload.go","messages/validator.go"],
  [("length check before element access","messages/validator.go sanityCheck/ValidateMessage"),("per-type minimum lengths","messages/*.go ...ValidationSpec"),("type dispatch on element 0","serializers/helpers.go ToMessage")],
  observe=["Serializer.Deserialize","Message.Parse","DeserializePayload","DecodeCBOR"])
p("W02","Messages survive encoding and decoding unchanged",
  "For each of the 24 message types, marshalling a message and parsing the resulting list (after the codec's own representation changes: integer kinds, typed string lists) succeeds and yields a message of the same type whose every field equals the original's. Absent positional arguments may come back as an empty list when keyword arguments are present, an absent (nil) map or list as an empty one; messages built with an opaque binary payload, whose encoding is left to static serializers, are outside this statement.",
  ["inputs"],"every message value constructible through the public constructors, every combination of present, empty and absent arguments",
  "Tests round-trip one sample per type (interop tests need an external tool), so field swaps or argument-presence combinations not sampled are unseen.",
  ["messages/"],[("list layout","messages/*.go Marshal"),("positional field extraction","messages/*.go Parse + validation specs")],
  observe=["Message.Marshal","Message.Parse","Serializer.Serialize/Deserialize"])
p("W03","Only well-formed messages are accepted, fields from their positions",
  "Parsing a list as a message type succeeds exactly when the list has a length that type allows and each present element has the kind of value that type requires at that position; then every field of the message is the value at its position. Otherwise an error is returned and the message object is left as it was.",
  ["inputs"],"every list of dynamic values, every message type, every order in which elements are validated",
  "The validator runs in Go map order, and tests sample single defects per validator; combinations of lengths and element kinds are unbounded.",
  ["messages/validator.go","messages/"],[("length bounds and element validators","messages/validator.go"),("validation specs","messages/*.go")],
  observe=["Message.Parse"])
p("W04","A decoded message has the type its code on the wire names",
  "A decoded list becomes a message only if its first element is the numeric code of one of the 24 message types, and the resulting message then reports exactly that code as its type; every one of the 24 codes is recognised and any other first element is rejected with an error.",
  ["inputs"],"every value of the first element, every rest of the list",
  "Tests decode a few types through the serializers and no unknown codes.",
  ["serializers/helpers.go","messages/"],[("dispatch on type code","serializers/helpers.go ToMessage"),("Type methods","messages/*.go")],
  observe=["serializers.ToMessage","Serializer.Deserialize"])
p("W05","Payload encoding is lossless for every payload serializer",
  "Encoding positional and keyword arguments as a payload and decoding it with the same serializer id returns the same arguments (absent and empty being the same), including when both are empty; the raw-bytes serializer encodes no arguments as an empty payload, carries exactly one byte string unchanged and refuses anything else. An unknown serializer id is an error in both directions, and bytes that do not decode to a list of positional arguments, optionally followed by one map of keyword arguments, are refused.",
  ["inputs"],"every args/kwargs combination and every serializer id",
  "No test covers the payload helpers at all.",
  ["serializers/payload.go","serializers/cbor.go"],[("container layout","serializers/payload.go prepareForEncode/decode")],
  observe=["SerializePayload","DeserializePayload"])
p("W06","Numeric coercion never changes a number",
  "Coercing a dynamically typed value to an id or to an int succeeds only for numeric values, and the result is then the same number (fractions truncated toward zero); a value the target type cannot represent, such as a negative id or a float beyond the range, is refused rather than wrapped. Every integer kind that a decoder can produce is accepted.",
  ["inputs"],"every value of every numeric dynamic type, including boundary, negative and non-finite ones",
  "Tests try one small positive value per kind; boundaries, negatives and NaN are unsampled.",
  ["util/util.go"],[("type switch with range checks","util/util.go AsInt/AsUInt64")],
  observe=["util.AsUInt64","util.AsInt","every id field of a parsed message"])
p("T01","Raw-socket handshakes round-trip or are refused",
  "Encoding a handshake succeeds exactly for a serializer code of 0..15 and a maximum message size that is a power of two from 512 bytes to 16 MiB, and never panics; decoding the four bytes gives back the same serializer and size. Decoding any other byte string (wrong length, wrong magic, non-zero reserved bytes) is an error.",
  ["inputs","configurations"],"every serializer number, every size (including zero and negative) and every byte string",
  "The transports package has no tests.",
  ["transports/rawsocket.go"],[("size exponent packing","transports/rawsocket.go SendHandshake"),("size exponent unpacking","transports/rawsocket.go ReceiveHandshake")],
  observe=["SendHandshake","ReceiveHandshake"])
p("T02","Raw-socket frame headers round-trip or are refused",
  "For every message kind and every length below 16 MiB, encoding a frame header gives four bytes which decode to the same kind and length. Decoding anything that is not exactly four bytes is an error, never a panic or a wrong length.",
  ["inputs"],"every kind, every length in range, every received byte string",
  "The transports package has no tests.",
  ["transports/rawsocket.go"],[("24-bit big-endian length","transports/rawsocket.go IntToBytes/BytesToInt")],
  observe=["SendMessageHeader","ReceiveMessageHeader"])
p("I01","Protocol ids are valid, in sequence and not predictable",
  "Session-scope ids start at 1, increase by one with each call and wrap to 1 only after 2^53, so that no id repeats before all have been used; every globally scoped id lies in 1..2^53. The source of globally scoped ids is seeded per process, so that two processes do not hand out the same sequence.",
  ["histories","configurations"],"every number of ids drawn before, every process start",
  "Tests draw nine ids from a fresh generator and two random ones from one process.",
  ["idgen.go"],[("wrap check then increment under lock","idgen.go NextID"),("seeding in init","idgen.go init")],
  state=[("id","last id handed out","SessionScopeIDGenerator")],observe=["NextID","GenerateID"])
p("A01","No session is opened without successful authentication",
  "A server-side handshake answers WELCOME only if the authentication method in use was proposed by the client (or is anonymous when none was proposed), is offered by the server, and the configured authenticator approved a request carrying the client's realm, id and credentials for that method; for ticket, WAMP-CRA and cryptosign only after a CHALLENGE was sent and the AUTHENTICATE answering it was accepted. If the authenticator refuses, the answer is an ABORT and no session details exist.",
  ["inputs","histories"],"every sequence of received messages, every authenticator behaviour, every proposed method list",
  "Tests run the four happy paths and three rejections; message sequences and authenticator behaviours are unbounded.",
  ["acceptor.go","auth/helpers.go","auth/authenticator.go"],[("handshake state machine","acceptor.go ReceiveMessage"),("method selection","auth/helpers.go SelectAuthMethod")],
  state=[("handshake state","none, challenge sent, welcome sent","Acceptor")],observe=["Acceptor.Receive","Acceptor.ReceiveMessage","Acceptor.SessionDetails"])
p("A02","WAMP-CRA accepts exactly the keyed signature of its own challenge",
  "Under WAMP-CRA the server opens the session if and only if the received signature is the base64 HMAC-SHA256 of the challenge string it issued in this handshake, under the secret (or the key derived from it with the advertised salt, iterations and key length) returned by its authenticator. A client that knows the secret and answers the challenge as received computes that very signature, whatever the salt and iteration count and for every key length up to 1 MiB.",
  ["inputs","histories"],"every secret, salt, iteration count, key length, challenge and received signature",
  "Tests use one unsalted secret; the salted path and parameter defaults on the two sides are never matched against each other.",
  ["auth/wampcra.go","acceptor.go"],[("signature and verification","auth/wampcra.go"),("key derivation","auth/wampcra.go DeriveWAMPCRAKey"),("challenge extra","acceptor.go")],
  observe=["Acceptor.ReceiveMessage","NewWAMPCRAAuthenticator().Authenticate","VerifyWAMPCRASignature"])
p("A03","Cryptosign accepts only a signature of the challenge just issued",
  "Under cryptosign the server opens the session only if the received signed message carries a valid Ed25519 signature under the public key presented in HELLO and approved by the authenticator, and the signed content is the challenge this very handshake issued; a signature recorded from another handshake is refused. A client holding the private key that answers the challenge is accepted.",
  ["inputs","histories"],"every key, challenge and received signature, including ones captured from other handshakes",
  "Tests use one key pair and never replay a signature made for another challenge.",
  ["auth/cryptosign.go","acceptor.go"],[("signed-message verification","auth/cryptosign.go VerifyCryptoSignSignature"),("challenge comparison","acceptor.go")],
  observe=["Acceptor.ReceiveMessage","VerifyCryptoSignSignature"])
p("A04","A handshake runs once and ends with WELCOME or ABORT",
  "The server side accepts HELLO only until one has been answered and AUTHENTICATE only in answer to its CHALLENGE; once it has answered WELCOME or ABORT every further message is refused and changes nothing. A refused message never produces a WELCOME.",
  ["histories"],"every sequence of received messages of every type",
  "Tests only run sequences that end at the first WELCOME or ABORT.",
  ["acceptor.go"],[("state checks on entry","acceptor.go ReceiveMessage")],
  state=[("handshake state","position in the handshake","Acceptor")],observe=["Acceptor.ReceiveMessage","Acceptor.Receive"])
p("A05","The established identity is the one that was authenticated",
  "When a session is opened, the WELCOME message and the server's session details carry the same session id, the realm of the client's HELLO, the authentication id and role returned by the authenticator for that handshake, and the method that was used. The flag returned along with an outgoing handshake message says whether that message is the WELCOME.",
  ["inputs","histories"],"every realm, authenticator response and method",
  "Tests check that details are non-empty, not that they match the authenticator's answer.",
  ["acceptor.go","types.go"],[("welcome construction","acceptor.go sendWelcome")],
  observe=["Acceptor.SessionDetails","WELCOME message"])
p("A06","The client's first acceptable authentication method is used",
  "The selected authentication method is the first method in the client's proposal that the server offers; with an empty proposal it is anonymous, if the server offers that. If no proposed method is offered the selection is an error.",
  ["inputs"],"every offered and proposed list",
  "Tests try three fixed lists.",
  ["auth/helpers.go"],[("first-match scan","auth/helpers.go SelectAuthMethod")],observe=["auth.SelectAuthMethod"])
p("A07","A client joins only through its own handshake and never crashes in it",
  "A client reports an established session only after it sent HELLO and then received WELCOME, and its session details carry that WELCOME's session id, authentication id, role and method and the realm it asked for. A CHALLENGE is answered at most once and only while waiting for it, ABORT and any other message yield an error, and no message from a router, however incomplete, makes the client panic.",
  ["inputs","histories"],"every sequence of router messages with every content, including missing or mistyped details",
  "Tests run complete handshakes with well-formed routers only.",
  ["joiner.go","auth/cryptosign.go","auth/wampcra.go","auth/ticket.go","auth/anonymous.go"],[("joiner state machine","joiner.go ReceiveMessage"),("client authenticators","auth/*.go Authenticate")],
  state=[("join state","none, hello sent, authenticate sent, joined","Joiner")],observe=["Joiner.Receive","Joiner.SessionDetails"])
p("B01","An event goes to exactly the current subscribers of the best match",
  "A published event is delivered to each session currently subscribed to the selected subscription exactly once and to nobody else, where the selected subscription is the one on the very topic, else the one with the longest matching prefix, else one whose wildcard pattern matches; only if there is none is no event produced. Publishing never changes subscriptions, and publishing from an unknown session is an error.",
  ["histories","inputs"],"every history of joins, leaves, subscribes and unsubscribes and every published topic",
  "Tests have a single subscriber per pattern; interleavings of several subscribers of one pattern with leaves are unsampled.",
  ["broker.go"],[("topic, prefix tree and wildcard lookup","broker.go ReceivePublish"),("index maintenance","broker.go ReceiveMessage/RemoveSession")],
  state=[("subscription indexes","by topic, by session, prefix tree, wildcard map","Broker")],observe=["Broker.ReceivePublish"])
p("B02","Ending one subscription leaves all others working",
  "After UNSUBSCRIBED the session no longer receives events of that subscription, and after a session leaves it receives nothing and is forgotten; in both cases every other subscription of every other session, on the same topic or pattern or on different ones, keeps working exactly as before. Unsubscribing from a subscription the session does not hold is an error without effect.",
  ["histories"],"every state of the broker, every session and subscription id",
  "Tests unsubscribe the only subscriber; shared patterns are never partially unsubscribed.",
  ["broker.go"],[("removal from all indexes only when unused","broker.go")],
  state=[("subscription indexes","must stay mutually consistent","Broker")],observe=["Broker.ReceiveMessage","Broker.RemoveSession","Broker.ReceivePublish"])
p("B03","Subscriptions are identified consistently",
  "SUBSCRIBE by an attached session answers SUBSCRIBED to that session with the request's id and the subscription id under which events will arrive; sessions subscribed to the same topic share one id, different topics never share one. SUBSCRIBE from an unknown session is an error without effect, attaching a session twice is refused, and a topic is reported as subscribed exactly while someone subscribes to it.",
  ["histories"],"every state of the broker and every request",
  "Tests use one topic and one subscriber.",
  ["broker.go","idgen.go"],[("shared subscription objects","broker.go ReceiveMessage"),("session-scope ids","idgen.go")],
  state=[("id generator","last id","Broker")],observe=["Broker.ReceiveMessage","Broker.AddSession","Broker.HasSubscription"])
p("B04","Published content and acknowledgement reach the right parties",
  "The event carries the publisher's positional and keyword arguments unchanged and the id of the selected subscription; a PUBLISHED acknowledgement is addressed to the publisher with its request id if and only if the publication asked for one, and carries the same publication id as the event. Each publication gets a new publication id.",
  ["inputs","histories"],"every publication and option value, with and without receivers",
  "Tests compare message types and recipients, not contents or ids.",
  ["broker.go"],[("event and ack construction","broker.go ReceivePublish")],observe=["Broker.ReceivePublish"])
p("B05","A publisher's identity is disclosed only when enabled",
  "With disclosure disabled (the default) an event's details are empty; with disclosure enabled they hold exactly the publisher's session id, authentication id and role and the published topic. Toggling disclosure affects nothing else.",
  ["inputs","histories"],"every publisher, topic and toggle history",
  "Tests check one publisher in one order of toggles.",
  ["broker.go"],[("conditional details","broker.go ReceivePublish")],observe=["Broker.ReceivePublish event details"])
p("D01","A call is routed to a live registered callee or refused",
  "A CALL from an attached session is forwarded as exactly one INVOCATION to a session currently registered for the selected registration, with that registration's id, where the selected registration is the one for the very procedure, else the one with the longest matching prefix, else one whose wildcard pattern matches; if there is none the caller gets a no_such_procedure error for its request. Routing a call never changes registrations and never panics, and a call from an unknown session is an error.",
  ["histories","inputs"],"every history of joins, leaves, registers and unregisters and every called procedure",
  "Tests use one registration per pattern and do not call after partial removals.",
  ["dealer.go"],[("procedure, prefix tree and wildcard lookup","dealer.go ReceiveMessage CALL"),("index maintenance","dealer.go")],
  state=[("registration indexes","by procedure, by session, prefix tree, wildcard map, callee lists","Dealer")],observe=["Dealer.ReceiveMessage"])
p("D02","A procedure has one owner unless all registrants agreed to share",
  "REGISTER of a free procedure by an attached session succeeds with a new id; REGISTER of a taken procedure succeeds only if the existing registration and the request name the same invocation policy and it is not single (or absent), and then answers with the existing id; otherwise the answer is procedure_already_exists and nothing changes. Different procedures never share an id, an unknown session's REGISTER is an error, and a procedure is reported as registered exactly while someone registers it.",
  ["histories"],"every state of the dealer and every combination of policies",
  "Tests try one conflicting pair and one mismatched pair.",
  ["dealer.go","idgen.go"],[("policy check","dealer.go ReceiveMessage REGISTER")],
  state=[("registration indexes","by procedure and by session","Dealer")],observe=["Dealer.ReceiveMessage","Dealer.HasProcedure"])
p("D03","Ending one registration leaves all others working",
  "After UNREGISTERED the session is no longer invoked through that registration, and after a session leaves it is invoked through none; every other registrant and every other registration, exact or pattern-based, keeps working exactly as before and in the same order. Unregistering something the session does not hold is an error without effect, never a panic.",
  ["histories"],"every state of the dealer, every session and registration id",
  "Tests unregister the only callee of one exact procedure.",
  ["dealer.go"],[("removal from all indexes","dealer.go UNREGISTER/RemoveSession")],
  state=[("registration indexes","must stay mutually consistent","Dealer")],observe=["Dealer.ReceiveMessage","Dealer.RemoveSession"])
p("D04","Every answer returns to the call it answers, at most once",
  "A YIELD or invocation ERROR for a pending invocation produces a RESULT or call ERROR addressed to the session that made the call and carrying that call's request id; a final answer ends the invocation so that no second one is forwarded, and a progressive result is forwarded as progressive, leaving the invocation pending, only if the caller asked for progress. An answer to an unknown or finished invocation is an error and reaches nobody; other pending calls are never affected, and invocation ids are never reused while pending.",
  ["histories"],"every interleaving of calls and answers of any number of callers and callees",
  "Tests have one call in flight at a time.",
  ["dealer.go"],[("pending invocation table","dealer.go YIELD/ERROR"),("call to invocation map","dealer.go")],
  state=[("pending invocations","invocation id to caller, request, callee","Dealer")],observe=["Dealer.ReceiveMessage"])
p("D05","Only the invoked callee can answer an invocation",
  "A RESULT or call ERROR reaches a caller only if it stems from a YIELD or ERROR sent by the session to which the invocation was sent; the same message from any other session is refused and leaves the invocation pending.",
  ["histories","inputs"],"every sender of every answer in every state",
  "Tests never check who answers (one even answers from the wrong session).",
  ["dealer.go"],[("sender check against the pending invocation","dealer.go YIELD/ERROR")],
  state=[("pending invocations","callee of each invocation","Dealer")],observe=["Dealer.ReceiveMessage"])
p("D06","Shared registrations follow their invocation policy",
  "When several sessions share a registration, policy first selects the earliest remaining registrant, last the latest, round-robin cycles through them in registration order visiting each once per round, and random selects any one of them; a session that registers again for the same procedure does not get an extra turn.",
  ["histories"],"every number of registrants, every history of registering and leaving, every call count",
  "Tests use two callees and never remove one.",
  ["dealer.go"],[("callee list and next index","dealer.go CALL")],
  state=[("callee list, next callee","order of registration and round-robin position","Registration")],observe=["INVOCATION recipients"])
p("D07","A progressive call stays one invocation at one callee",
  "All CALL messages of one progressive call in flight, including the final one, are forwarded with the same invocation id to the same callee, as long as that callee remains registered for the procedure; a CALL that does not continue a progressive call in flight gets a new invocation id. The INVOCATION announces progress, and readiness for progressive results, exactly when that CALL did.",
  ["histories"],"every number of chunks, any other calls and registrations in between",
  "Tests send chunks to a single callee and do not check the id of the final chunk.",
  ["dealer.go"],[("call to invocation map","dealer.go CALL")],
  state=[("call to invocation map","which invocation a progressive call belongs to","Dealer")],observe=["INVOCATION request id, recipient and details"])
p("D08","Calls and answers are forwarded with their content and nothing else",
  "Positional and keyword arguments of CALL, YIELD and ERROR, and the error's URI and details, are forwarded unchanged; the binary payload of a CALL or YIELD is forwarded as is, with its serializer id, when the receiver uses a static serializer. Caller identity appears in an INVOCATION only while disclosure is enabled, and is then the caller's session id, authentication id, role and the called procedure.",
  ["inputs","histories"],"every payload and every combination of disclosure, progress and binary payload",
  "Tests compare a few details maps and no arguments.",
  ["dealer.go","messages/invocation.go","messages/result.go"],[("message construction","dealer.go")],observe=["INVOCATION, RESULT and ERROR contents"])
p("D09","The dealer addresses only attached sessions and forgets leavers",
  "Every message the dealer returns in answer to an attached session is addressed to a session that is attached at that time. When a session leaves, its registrations and every pending invocation it made or was serving are forgotten, so that nothing is later delivered on its behalf; attaching a session twice or removing an unknown one is refused without effect.",
  ["histories"],"every history of joins, leaves, calls and answers",
  "Tests never answer a call after its caller left.",
  ["dealer.go"],[("cleanup on leave","dealer.go RemoveSession")],
  state=[("pending invocations","caller and callee of each","Dealer")],observe=["Dealer.ReceiveMessage recipients","Dealer.RemoveSession"])
p("S01","A client accepts a response only for its own outstanding request",
  "RESULT, REGISTERED, UNREGISTERED, SUBSCRIBED, UNSUBSCRIBED, PUBLISHED and the matching ERROR are accepted if and only if a request of that kind with that id was sent and not yet answered (UNREGISTERED and UNSUBSCRIBED moreover only if what that request names is still held), and accepting one consumes the request (a progressive RESULT excepted); otherwise an error is returned. A response to one request never affects another.",
  ["histories"],"every interleaving of requests and responses of all kinds and ids",
  "Tests answer each request once, in order.",
  ["session.go","internal/map.go"],[("outstanding request tables","session.go"),("typed concurrent map","internal/map.go")],
  state=[("request tables","outstanding request ids per kind","Session")],observe=["Session.ReceiveMessage","Session.Receive"])
p("S02","A client accepts events and invocations only for what it holds",
  "EVENT is accepted if and only if its subscription id was confirmed by SUBSCRIBED and not since released by UNSUBSCRIBED, and INVOCATION if and only if its registration id was confirmed by REGISTERED and not since released by UNREGISTERED; a release affects only the id named in the corresponding request. GOODBYE and ABORT are always passed on and any message a client must not receive is an error.",
  ["histories"],"every history of confirmations, releases and deliveries",
  "Tests deliver one event and one invocation on a fresh subscription.",
  ["session.go"],[("held ids","session.go ReceiveMessage")],
  state=[("held ids","registrations and subscriptions","Session")],observe=["Session.ReceiveMessage"])
p("S03","Sending records exactly the request that was sent",
  "A send returns the serialized message and records the request under its id so that its response can be accepted (a PUBLISH only if it asks for acknowledgement); a failed serialization, an UNSUBSCRIBE from something not subscribed, an ERROR not about an invocation and any message a client must not send are refused with an error and change nothing.",
  ["inputs","histories"],"every message of every type in every session state, every serializer outcome",
  "Tests send a few valid requests with working serializers.",
  ["session.go"],[("serialize first, then record","session.go SendMessage")],
  state=[("request tables","outstanding request ids per kind","Session")],observe=["Session.SendMessage"])
p("C01","Shared router state is only touched under its lock",
  "The broker, the dealer and the id generator read and write their shared state only while holding their own lock, each operation holds it from before its first to after its last access, never acquires it twice, and releases it on every way out; hence concurrent operations take effect one at a time.",
  ["schedules"],"every interleaving of concurrent operations on one broker, dealer or generator",
  "Tests are sequential (benchmarks are not run), so no interleaving is explored.",
  ["broker.go","dealer.go","idgen.go"],[("mutex held from entry to return","broker.go, dealer.go, idgen.go methods")],
  state=[("mutex","guards every field of its owner","Broker, Dealer, SessionScopeIDGenerator")],observe=["all exported methods of broker, dealer and id generator"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
