# Challenges and signatures. Strings stand for byte contents; hex_dec, b64_dec, hmac_sha256, pbkdf2, ed_* and nacl_open are the cryptographic functions themselves.

fn auth.SelectAuthMethod(allowed, proposed) (m, err)
modular
allocates []string
ensures [A01,A06] none: err != nil ==> m == ""
ensures [A01,A06] offered: err == nil ==> (exists k int :: {allowed[k]} 0 <= k && k < len(allowed) && allowed[k] == m)
ensures [A01,A06] first: err == nil && len(proposed) > 0 ==> (exists i int :: {proposed[i]} 0 <= i && i < len(proposed) && proposed[i] == m
  && (forall j int, k int :: {proposed[j], allowed[k]} 0 <= j && j < i && 0 <= k && k < len(allowed) ==> allowed[k] != proposed[j]))
ensures [A01,A06] default: err == nil && len(proposed) == 0 ==> m == "anonymous"
ensures [A01,A06] default_refused: len(proposed) == 0 && err != nil ==> (forall k int :: {allowed[k]} 0 <= k && k < len(allowed) ==> allowed[k] != "anonymous")
ensures [A06] refused: (forall k int :: {allowed[k]} 0 <= k && k < len(allowed) ==> allowed[k] != "") && err != nil ==> (forall j int, k int :: {proposed[j], allowed[k]} 0 <= j && j < len(proposed) && 0 <= k && k < len(allowed) ==> allowed[k] != proposed[j])
loop slice []string
invariant frame: unchanged([]string)
invariant own: (cap($acc([]string)) == 0 || fresh($acc([]string))) && arr($acc([]string)) != arr($seq)
invariant def: len(proposed) == 0 ==> len($seq) == 1 && $seq[0] == "anonymous"
invariant given: len(proposed) > 0 ==> $seq == proposed
invariant passed: forall j int, k int :: {$seq[j], allowed[k]} 0 <= j && j < $idx && 0 <= k && k < len(allowed) ==> allowed[k] != $seq[j]

fn auth.SignWAMPCRAChallengeBytes(ch, key) (r)
ensures [A02] hmac: str(r) == hmac_sha256(key, ch)

fn auth.SignWAMPCRAChallenge(ch, key) (r)
ensures [A02] hmac: r == b64_enc(hmac_sha256(key, ch))

fn auth.DeriveWAMPCRAKey(salt, secret, iterations, keyLength) (r)
requires keyLength <= pow2(30)
ensures [A02] derived: str(r) == b64_enc(pbkdf2(secret, salt, iterations <= 0 ? 1000 : iterations, keyLength <= 0 ? 32 : keyLength))

fn auth.VerifyWAMPCRASignature(sig, chal, key) (ok)
ensures [A02] exact: ok <==> b64_ok(sig) && b64_dec(sig) == hmac_sha256(key, chal)

fn auth.SignCryptoSignChallenge(challenge, key) (s, err)
requires len(key) == 64
ensures [A03] decodable: err == nil <==> hex_ok(challenge)
ensures [A03] valid: err == nil ==> hex_ok(s)
ensures [A03] signed: err == nil ==> hex_dec(s) == str_cat(ed_sign(key, hex_dec(challenge)), hex_dec(challenge))

fn auth.VerifyCryptoSignSignature(signature, publicKey) (ok, err)
ensures [A03] sound: ok ==> hex_ok(signature) && len(hex_dec(signature)) == 96 && len(publicKey) == 32 && nacl_open(publicKey, hex_dec(signature))
ensures [A03] complete: hex_ok(signature) && len(hex_dec(signature)) == 96 && len(publicKey) == 32 && nacl_open(publicKey, hex_dec(signature)) ==> ok && err == nil

fn auth.GenerateCryptoSignChallenge() (s, err)
ensures [A03] fresh: err == nil ==> hex_ok(s) && is_random(hex_dec(s)) && len(hex_dec(s)) == 32

pred craPart(s, k) = k in as(encoded("json", s), map[string]any) && typeis(as(encoded("json", s), map[string]any)[k], string)
pred craStr(s, k) = as(as(encoded("json", s), map[string]any)[k], string)
fn auth.GenerateWAMPCRAChallenge(session, authid, authrole, provider) (s, err)
ensures [A02] encoded: err == nil ==> isenc("json", s) && typeis(encoded("json", s), map[string]any)
ensures [A02] nonce: err == nil ==> craPart(s, "nonce") && b64_ok(craStr(s, "nonce")) && is_random(b64_dec(craStr(s, "nonce"))) && len(b64_dec(craStr(s, "nonce"))) == 16
ensures [A02] about: err == nil ==> craPart(s, "authid") && craStr(s, "authid") == authid && craPart(s, "authrole") && craStr(s, "authrole") == authrole
  && craPart(s, "authmethod") && craStr(s, "authmethod") == "wampcra" && "session" in as(encoded("json", s), map[string]any) && as(encoded("json", s), map[string]any)["session"] == box(session, uint64)

fn auth.GenerateCryptoSignKeyPair() (publicKey, privateKey, err)
ensures [A03] usable: err == nil ==> hex_ok(privateKey) && len(hex_dec(privateKey)) == 32 && is_random(hex_dec(privateKey))
ensures [A03] pair: err == nil ==> publicKey == hex_enc(ed_pub(ed_key(hex_dec(privateKey))))

# Client authenticators.
pred isNum(i) = isIntKind(i) ? intval(i) <= 9223372036854775807 : isFloatKind(i) && fcls(fltval(i)) == 0 && 0 - 9223372036854775808 < trunc(fltval(i)) && trunc(fltval(i)) < 9223372036854775807
pred num(i) = isIntKind(i) ? intval(i) : trunc(fltval(i))
pred extraStr(c, k) = k in c.Extra() && typeis(c.Extra()[k], string)
pred craSalt(c) = extraStr(c, "salt") ? as(c.Extra()["salt"], string) : ""
pred craIter(n) = n <= 0 ? 1000 : n
pred craLen(n) = n <= 0 ? 32 : n

fn auth.(*wampcraAuthenticator).Authenticate(a, challenge) (r, err)
requires wfmsg(challenge)
ensures [A02,A07] answers: err == nil ==> r != nil
ensures [A02] unsalted: craSalt(challenge) == "" && extraStr(challenge, "challenge") ==> err == nil && r.Signature() == b64_enc(hmac_sha256(a.secret, as(challenge.Extra()["challenge"], string)))
ensures [A02] salted: craSalt(challenge) != "" && extraStr(challenge, "challenge") && "iterations" in challenge.Extra() && "keylen" in challenge.Extra()
  && isNum(challenge.Extra()["iterations"]) && isNum(challenge.Extra()["keylen"]) && num(challenge.Extra()["keylen"]) <= pow2(20)
  ==> err == nil && r.Signature() == b64_enc(hmac_sha256(b64_enc(pbkdf2(a.secret, craSalt(challenge), craIter(num(challenge.Extra()["iterations"])), craLen(num(challenge.Extra()["keylen"])))), as(challenge.Extra()["challenge"], string)))

fn auth.(*cryptoSignAuthenticator).Authenticate(a, challenge) (r, err)
requires wfmsg(challenge)
requires len(a.privateKey) == 64
ensures [A03,A07] answers: err == nil ==> r != nil
ensures [A03] accepted: extraStr(challenge, "challenge") ==> (err == nil <==> hex_ok(as(challenge.Extra()["challenge"], string)))
ensures [A03] signed: extraStr(challenge, "challenge") && err == nil ==> hex_ok(r.Signature())
  && hex_dec(r.Signature()) == str_cat(ed_sign(a.privateKey, hex_dec(as(challenge.Extra()["challenge"], string))), hex_dec(as(challenge.Extra()["challenge"], string)))

fn auth.NewCryptoSignAuthenticator(authID, privateKeyHex, authExtra) (r, err)
ensures [A03] key: err == nil ==> typeis(r, *auth.cryptoSignAuthenticator) && len(as(r, *auth.cryptoSignAuthenticator).privateKey) == 64
  && str(as(r, *auth.cryptoSignAuthenticator).privateKey) == ed_key(hex_dec(privateKeyHex))
ensures [A03,A07] identity: err == nil ==> r.AuthID() == authID && r.AuthMethod() == "cryptosign"
ensures [A03] seed: err == nil ==> hex_ok(privateKeyHex) && len(hex_dec(privateKeyHex)) == 32
ensures [A03] public: err == nil && typeis(as(r, *auth.cryptoSignAuthenticator).authExtra["pubkey"], string) ==> as(as(r, *auth.cryptoSignAuthenticator).authExtra["pubkey"], string) == hex_enc(ed_pub(ed_key(hex_dec(privateKeyHex))))

fn auth.(*ticketAuthenticator).Authenticate(a, challenge) (r, err)
requires wfmsg(challenge)
ensures [A01,A07] ticket: err == nil && r != nil && r.Signature() == a.ticket

fn auth.(*anonymousAuthenticator).Authenticate(a, challenge) (r, err)
ensures [A07] never: err != nil

lemma cryptosignAgree(k string, c string)
requires hex_ok(c) && len(hex_dec(c)) == 32
ensures [A03] opens: nacl_open(ed_pub(k), str_cat(ed_sign(k, hex_dec(c)), hex_dec(c)))
ensures [A03] size: len(str_cat(ed_sign(k, hex_dec(c)), hex_dec(c))) == 96
ensures [A03] about: hassuffix(str_cat(ed_sign(k, hex_dec(c)), hex_dec(c)), hex_dec(c))

# The server side of a handshake. States: 0 nothing received, 1 CHALLENGE sent, 2 WELCOME sent, 3 ABORT sent.
pred offers(a, m) = exists k int :: {methods_of(a.authenticator)[k]} 0 <= k && k < len(methods_of(a.authenticator)) && methods_of(a.authenticator)[k] == m
pred proposes(h, m) = (len(h.AuthMethods()) == 0 && m == "anonymous") || (exists k int :: {h.AuthMethods()[k]} 0 <= k && k < len(h.AuthMethods()) && h.AuthMethods()[k] == m)
pred passedOver(a, h, m) = len(h.AuthMethods()) > 0 ==> (exists i int :: {h.AuthMethods()[i]} 0 <= i && i < len(h.AuthMethods()) && h.AuthMethods()[i] == m
  && (forall j int, k int :: {h.AuthMethods()[j], methods_of(a.authenticator)[k]} 0 <= j && j < i && 0 <= k && k < len(methods_of(a.authenticator)) ==> methods_of(a.authenticator)[k] != h.AuthMethods()[j]))
pred craOf(a) = as(a.response, *auth.CRAResponse)
pred pubkeyOf(a) = as(a.request, *auth.RequestCryptoSign).PublicKey()
pred presented(h, key) = "pubkey" in h.AuthExtra() && typeis(h.AuthExtra()["pubkey"], string) && as(h.AuthExtra()["pubkey"], string) == key
pred craKey(r) = r.Salt() == "" ? r.Secret() : b64_enc(pbkdf2(r.Secret(), r.Salt(), craIter(r.Iterations()), craLen(r.KeyLen())))

pred challenged(a) = a.hello != nil && wfmsg(a.hello) && offers(a, a.authMethod) && proposes(a.hello, a.authMethod)
  && (a.authMethod == "ticket" || a.authMethod == "wampcra" || a.authMethod == "cryptosign")
  && (a.authMethod == "wampcra" ==> typeis(a.response, *auth.CRAResponse) && craOf(a) != nil && craOf(a).Response != nil && craOf(a).KeyLen() <= pow2(30)
    && approved(a.authenticator, "wampcra", a.hello.Realm(), a.hello.AuthID(), a.hello.AuthExtra(), "", a.response))
  && (a.authMethod == "cryptosign" ==> a.response != nil && (typeis(a.response, *auth.CRAResponse) ==> craOf(a) != nil && craOf(a).Response != nil)
    && typeis(a.request, *auth.RequestCryptoSign) && as(a.request, *auth.RequestCryptoSign) != nil && presented(a.hello, pubkeyOf(a))
    && hex_ok(a.challenge) && len(hex_dec(a.challenge)) == 32 && is_random(hex_dec(a.challenge))
    && approved(a.authenticator, "cryptosign", a.hello.Realm(), a.hello.AuthID(), a.hello.AuthExtra(), pubkeyOf(a), a.response))
pred acceptInv(a) = a.serializer != nil && a.authenticator != nil && a.state <= 3 && (a.sessionDetails != nil <==> a.state == 2) && (a.state == 1 ==> challenged(a))

pred sameHandshake(a) = a.state == old(a.state) && a.sessionDetails == old(a.sessionDetails)
pred sameChallenge(a) = a.hello == old(a.hello) && a.authMethod == old(a.authMethod) && a.challenge == old(a.challenge) && a.response == old(a.response) && a.request == old(a.request)
pred sameSetup(a) = a.serializer == old(a.serializer) && a.authenticator == old(a.authenticator)
pred isWelcome(m) = typeis(m, *messages.Welcome)
pred isAuth(m) = typeis(m, *messages.Authenticate)
pred isHello(m) = typeis(m, *messages.Hello)
pred sigOf(m) = as(m, *messages.Authenticate).Signature()
# the answers: with no error a WELCOME, ABORT or CHALLENGE, and the state says which
pred answered(a, m, r) = (isWelcome(r) && a.state == 2) || (typeis(r, *messages.Abort) && a.state == 3) || (typeis(r, *messages.Challenge) && a.state == 1 && isHello(m))
pred taken(a, m) = (isHello(m) && old(a.state) == 0) || (isAuth(m) && old(a.state) == 1)
# what the authenticator approved: a request with this realm, id, credentials; the response gives identity and role
pred identified(a, cred) = exists resp auth.Response :: {approved(a.authenticator, a.authMethod, a.hello.Realm(), a.hello.AuthID(), a.hello.AuthExtra(), cred, resp)}
  approved(a.authenticator, a.authMethod, a.hello.Realm(), a.hello.AuthID(), a.hello.AuthExtra(), cred, resp) && resp.AuthID() == a.sessionDetails.AuthID() && resp.AuthRole() == a.sessionDetails.AuthRole()
pred credential(a, m) = a.authMethod == "ticket" ? sigOf(m) : a.authMethod == "cryptosign" ? pubkeyOf(a) : ""
pred welcomed(a, w) = w.SessionID() == a.sessionDetails.ID() && a.sessionDetails.Realm() == a.hello.Realm() && a.sessionDetails.AuthMethod() == a.authMethod
  && "realm" in w.Details() && w.Details()["realm"] == box(a.sessionDetails.Realm(), string)
  && "authid" in w.Details() && w.Details()["authid"] == box(a.sessionDetails.AuthID(), string)
  && "authrole" in w.Details() && w.Details()["authrole"] == box(a.sessionDetails.AuthRole(), string)
  && "authmethod" in w.Details() && w.Details()["authmethod"] == box(a.sessionDetails.AuthMethod(), string)

pred stepKinds(a, m, r, err) = (err == nil ==> taken(a, m) && answered(a, m, r)) && (err != nil ==> r == nil && sameHandshake(a))
pred stepFinal(a, err) = old(a.state) >= 2 ==> err != nil && sameHandshake(a) && sameChallenge(a)
pred stepWaiting(a, m, err) = old(a.state) == 1 ==> sameChallenge(a)
pred stepHello(a, m, r, err) = isHello(m) && err == nil && !typeis(r, *messages.Abort) ==> a.hello == as(m, *messages.Hello)
pred stepOpened(a, m, r, err) = err == nil && isWelcome(r) ==> identified(a, credential(a, m)) && offers(a, a.authMethod) && proposes(a.hello, a.authMethod) && (a.authMethod == "anonymous" || isAuth(m))
pred stepKnown(a, r, err) = err == nil && isWelcome(r) ==> welcomed(a, as(r, *messages.Welcome))
pred stepChallenge(a, m, r, err) = err == nil && typeis(r, *messages.Challenge) ==> as(r, *messages.Challenge).AuthMethod() == a.authMethod
pred stepFirst(a, m, r, err) = err == nil && isHello(m) && !typeis(r, *messages.Abort) ==> offers(a, a.authMethod) && proposes(a.hello, a.authMethod) && passedOver(a, a.hello, a.authMethod)
pred craExtra(a, x) = extraIs(x, "challenge", a.challenge)
  && (craOf(a).Salt() != "" ==> extraIs(x, "salt", craOf(a).Salt()) && "keylen" in x && x["keylen"] == box(craOf(a).KeyLen(), int) && "iterations" in x && x["iterations"] == box(craOf(a).Iterations(), int))
  && (craOf(a).Salt() == "" ==> !("salt" in x))
pred extraIs(x, k, v) = k in x && x[k] == box(v, string)
pred stepCRAChallenge(a, r, err) = err == nil && typeis(r, *messages.Challenge) && a.authMethod == "wampcra" ==> craExtra(a, as(r, *messages.Challenge).Extra())
pred stepCRA(a, m, r, err) = old(a.state) == 1 && isAuth(m) && a.authMethod == "wampcra" ==> err == nil && (isWelcome(r) <==> b64_ok(sigOf(m)) && b64_dec(sigOf(m)) == hmac_sha256(craKey(craOf(a)), a.challenge))
pred stepSignChallenge(a, r, err) = err == nil && typeis(r, *messages.Challenge) && a.authMethod == "cryptosign" ==> extraIs(as(r, *messages.Challenge).Extra(), "challenge", a.challenge)
pred stepSign(a, m, r, err) = old(a.state) == 1 && isAuth(m) && a.authMethod == "cryptosign" ==> (err == nil && isWelcome(r) <==> hex_ok(pubkeyOf(a)) && len(hex_dec(pubkeyOf(a))) == 32
  && hex_ok(sigOf(m)) && len(hex_dec(sigOf(m))) == 96 && nacl_open(hex_dec(pubkeyOf(a)), hex_dec(sigOf(m))) && hassuffix(hex_dec(sigOf(m)), hex_dec(a.challenge)))

fn wamp.NewAcceptor(serializer, authenticator) (a)
ensures [A01,A02,A03,A04,A05,A06] inv: acceptInv(a)
ensures [A01,A04] new: a.state == 0 && a.sessionDetails == nil
ensures [A01] authenticator: authenticator != nil ==> a.authenticator == authenticator
ensures [A01] default: authenticator == nil ==> typeis(a.authenticator, *wamp.defaultAuthenticator)

fn wamp.(*defaultAuthenticator).Methods(d) (r)
ensures [A01] anonymous: len(r) == 1 && r[0] == "anonymous"

fn wamp.(*defaultAuthenticator).Authenticate(d, request) (r, err)
requires request != nil
ensures [A01] anonymous: err == nil <==> request.AuthMethod() == "anonymous"
ensures [A01] response: err == nil ==> r != nil

fn wamp.(*Acceptor).ReceiveMessage(a, msg) (r, err)
helper
modifies a.state, a.authMethod, a.hello, a.request, a.response, a.challenge, a.sessionDetails
allocates []string, []byte, []any, map[string]any, wamp.SessionDetails, messages.Welcome, messages.Abort, messages.Challenge, messages.welcomeFields, messages.abortFields, messages.challengeFields, auth.baseRequest, auth.TicketRequest, auth.RequestCryptoSign
ensures [A01,A02,A03,A04,A05,A06] result: err == nil ==> r != nil && wfmsg(r)
requires acceptInv(a)
requires wfmsg(msg)
ensures [A01,A02,A03,A04,A05,A06] inv: acceptInv(a)
ensures [A01,A02,A03,A04,A05,A06] setup: sameSetup(a)
ensures [A04] kinds: stepKinds(a, msg, r, err)
ensures [A04] final: stepFinal(a, err)
ensures [A01,A02,A03,A04,A05] waiting: stepWaiting(a, msg, err)
ensures [A05] hello: stepHello(a, msg, r, err)
ensures [A01] opened: stepOpened(a, msg, r, err)
ensures [A05] known: stepKnown(a, r, err)
ensures [A06] first: stepFirst(a, msg, r, err)
ensures [A06] method: stepChallenge(a, msg, r, err)
ensures [A02] challenge: stepCRAChallenge(a, r, err)
ensures [A02] signature: stepCRA(a, msg, r, err)
ensures [A03] sign_challenge: stepSignChallenge(a, r, err)
ensures [A03] signed: stepSign(a, msg, r, err)

fn wamp.(*Acceptor).SessionDetails(a) (r, err)
requires acceptInv(a)
ensures [A01,A05] only_open: err == nil <==> a.state == 2
ensures [A01,A05] details: err == nil ==> r == a.sessionDetails && r != nil
ensures [A01,A05] none: err != nil ==> r == nil

# Receive: the same over bytes; refused bytes change nothing.
pred recvd(a, data) = deserialized(a.serializer, data)
fn wamp.(*Acceptor).Receive(a, data) (payload, opened, err)
requires acceptInv(a)
ensures [A01,A02,A03,A04,A05,A06] inv: acceptInv(a)
ensures [A01,A02,A03,A04,A05,A06] setup: sameSetup(a)
ensures [A04] undecodable: !old(deserialize_ok(a.serializer, data)) ==> err != nil && sameHandshake(a) && sameChallenge(a)
ensures [A04] final: stepFinal(a, err)
ensures [A04] kept: old(a.state) == 1 ==> sameChallenge(a)
ensures [A04] answers: err == nil ==> (opened <==> a.state == 2) && a.state >= 1 && taken(a, old(recvd(a, data)))
ensures [A05] flag: opened ==> err == nil
ensures [A05] welcome: err == nil && opened ==> str(payload) == serialized(a.serializer, sent()) && isWelcome(sent()) && welcomed(a, as(sent(), *messages.Welcome))
ensures [A01] opened: err == nil && opened ==> identified(a, credential(a, old(recvd(a, data)))) && offers(a, a.authMethod) && proposes(a.hello, a.authMethod)
ensures [A05] realm: err == nil && opened && isHello(old(recvd(a, data))) ==> a.hello == as(old(recvd(a, data)), *messages.Hello)

# The client side. States: 0 nothing sent, 1 HELLO sent, 2 CHALLENGE answered, 3 joined.
pred joinInv(j) = j.serializer != nil && j.authenticator != nil && j.state <= 3 && (j.state == 0 ==> j.sessionDetails == nil) && (j.state == 3 ==> j.sessionDetails != nil)
  && (j.sessionDetails != nil ==> j.sessionDetails.Realm() == j.realm)
pred sameJoin(j) = j.realm == old(j.realm) && j.serializer == old(j.serializer) && j.authenticator == old(j.authenticator)
pred detail(w, k) = extraHas(w.Details(), k) ? as(w.Details()[k], string) : ""
pred extraHas(x, k) = k in x && typeis(x[k], string)
pred joinedBy(j, w) = j.sessionDetails.ID() == w.SessionID() && j.sessionDetails.AuthID() == detail(w, "authid") && j.sessionDetails.AuthRole() == detail(w, "authrole") && j.sessionDetails.AuthMethod() == detail(w, "authmethod")
pred joinWelcome(j, m, r, err) = isWelcome(m) ==> (err == nil <==> old(j.state) == 1 || old(j.state) == 2) && r == nil && (err == nil ==> j.state == 3 && j.sessionDetails != nil && joinedBy(j, as(m, *messages.Welcome)))
pred joinChallenge(j, m, r, err) = typeis(m, *messages.Challenge) && err == nil ==> old(j.state) == 1 && j.state == 2 && typeis(r, *messages.Authenticate) && as(r, *messages.Authenticate) != nil
pred joinOther(m, err) = !isWelcome(m) && !typeis(m, *messages.Challenge) ==> err != nil
pred joinKept(j, m, err) = (err != nil ==> j.state == old(j.state)) && (err != nil || !isWelcome(m) ==> j.sessionDetails == old(j.sessionDetails))

pred helloOf(j, h) = h.Realm() == j.realm && h.AuthID() == j.authenticator.AuthID()
  && len(h.AuthMethods()) == 1 && h.AuthMethods()[0] == j.authenticator.AuthMethod() && h.AuthExtra() == j.authenticator.AuthExtra()

fn wamp.NewJoiner(realm, serializer, authenticator) (j)
ensures [A07] inv: joinInv(j)
ensures [A07] new: j.state == 0 && j.realm == realm && j.sessionDetails == nil
ensures [A07] authenticator: authenticator != nil ==> j.authenticator == authenticator

fn wamp.(*Joiner).SendHello(j) (data, err)
requires joinInv(j)
ensures [A07] inv: joinInv(j)
ensures [A07] setup: sameJoin(j)
ensures [A07] waiting: err == nil ==> j.state == 1
ensures [A07] refused: err != nil ==> j.state == old(j.state)
ensures [A07] no_session: j.sessionDetails == old(j.sessionDetails)
ensures [A07] hello: err == nil ==> str(data) == serialized(j.serializer, sent()) && isHello(sent()) && helloOf(j, as(sent(), *messages.Hello))

fn wamp.(*Joiner).ReceiveMessage(j, msg) (r, err)
requires joinInv(j)
requires wfmsg(msg)
ensures [A07] inv: joinInv(j)
ensures [A07] setup: sameJoin(j)
ensures [A07] nothing: err != nil ==> r == nil
ensures [A07] welcome: joinWelcome(j, msg, r, err)
ensures [A07] challenge: joinChallenge(j, msg, r, err)
ensures [A07] other: joinOther(msg, err)
ensures [A07] kept: joinKept(j, msg, err)

fn wamp.(*Joiner).Receive(j, data) (r, err)
requires joinInv(j)
ensures [A07] inv: joinInv(j)
ensures [A07] setup: sameJoin(j)
ensures [A07] undecodable: !old(deserialize_ok(j.serializer, data)) ==> err != nil && j.state == old(j.state) && j.sessionDetails == old(j.sessionDetails)
ensures [A07] nothing: err != nil ==> r == nil
ensures [A07] joined: j.state == 3 && old(j.state) != 3 ==> (old(j.state) == 1 || old(j.state) == 2) && isWelcome(old(deserialized(j.serializer, data))) && r == nil && err == nil && joinedBy(j, as(old(deserialized(j.serializer, data)), *messages.Welcome))
ensures [A07] answered: r != nil ==> old(j.state) == 1 && j.state == 2 && typeis(old(deserialized(j.serializer, data)), *messages.Challenge)
  && typeis(sent(), *messages.Authenticate) && str(r) == serialized(j.serializer, sent())
ensures [A07] kept: j.sessionDetails != old(j.sessionDetails) ==> j.state == 3 && old(j.state) != 3

fn wamp.(*Joiner).SessionDetails(j) (r, err)
requires joinInv(j)
ensures [A07] details: err == nil <==> j.sessionDetails != nil
ensures [A07] same: err == nil ==> r == j.sessionDetails
ensures [A07] none: err != nil ==> r == nil

# What goes in comes out: requests, responses, authenticators and session details.
fn auth.NewRequest(hello, authMethod) (r)
requires hello != nil && wfmsg(hello)
ensures [A01] content: r != nil && r.Realm() == hello.Realm() && r.AuthID() == hello.AuthID() && r.AuthExtra() == hello.AuthExtra() && r.AuthMethod() == authMethod

fn auth.NewTicketRequest(hello, ticket) (r)
requires hello != nil && wfmsg(hello)
ensures [A01] content: r != nil && r.Realm() == hello.Realm() && r.AuthID() == hello.AuthID() && r.AuthExtra() == hello.AuthExtra() && r.AuthMethod() == "ticket"
ensures [A01] ticket: typeis(r, *auth.TicketRequest) && as(r, *auth.TicketRequest).Ticket() == ticket

fn auth.NewCryptoSignRequest(hello, publicKey) (r)
requires hello != nil && wfmsg(hello)
ensures [A01,A03] content: r != nil && r.Realm() == hello.Realm() && r.AuthID() == hello.AuthID() && r.AuthExtra() == hello.AuthExtra() && r.AuthMethod() == "cryptosign"
ensures [A01,A03] key: typeis(r, *auth.RequestCryptoSign) && as(r, *auth.RequestCryptoSign).PublicKey() == publicKey

fn auth.NewResponse(authID, authRole, ttl) (r, err)
ensures [A05] content: err == nil && r != nil && r.AuthID() == authID && r.AuthRole() == authRole

fn auth.NewCRAResponse(authID, authRole, secret, ttl) (r)
ensures [A05] identity: r != nil && r.AuthID() == authID && r.AuthRole() == authRole
ensures [A02] secret: typeis(r, *auth.CRAResponse) && as(r, *auth.CRAResponse).Secret() == secret && as(r, *auth.CRAResponse).Salt() == ""

fn auth.NewCRAResponseSalted(authID, authRole, secret, salt, iterations, keyLen, ttl) (r)
ensures [A05] identity: r != nil && r.AuthID() == authID && r.AuthRole() == authRole
ensures [A02] secret: typeis(r, *auth.CRAResponse) && as(r, *auth.CRAResponse).Secret() == secret && as(r, *auth.CRAResponse).Salt() == salt
ensures [A02] parameters: as(r, *auth.CRAResponse).Iterations() == iterations && as(r, *auth.CRAResponse).KeyLen() == keyLen

fn auth.NewWAMPCRAAuthenticator(authID, secret, authExtra) (r)
ensures [A02,A07] content: typeis(r, *auth.wampcraAuthenticator) && as(r, *auth.wampcraAuthenticator).secret == secret && r.AuthMethod() == "wampcra" && r.AuthID() == authID && r.AuthExtra() == authExtra

fn auth.NewTicketAuthenticator(authID, ticket, authExtra) (r)
ensures [A01,A07] content: typeis(r, *auth.ticketAuthenticator) && as(r, *auth.ticketAuthenticator).ticket == ticket && r.AuthMethod() == "ticket" && r.AuthID() == authID && r.AuthExtra() == authExtra

fn auth.NewAnonymousAuthenticator(authID, authExtra) (r)
ensures [A07] content: typeis(r, *auth.anonymousAuthenticator) && r.AuthMethod() == "anonymous" && r.AuthID() == authID && (authExtra != nil ==> r.AuthExtra() == authExtra)

fn wamp.NewSessionDetails(id, realm, authID, authRole, authMethod, static, routerRoles, authExtra) (r)
ensures [A05,A07] content: r != nil && r.ID() == id && r.Realm() == realm && r.AuthID() == authID && r.AuthRole() == authRole && r.AuthMethod() == authMethod && r.StaticSerializer() == static

fn auth.makeNonce() (s, err)
ensures [A02] fresh: err == nil ==> b64_ok(s) && is_random(b64_dec(s)) && len(b64_dec(s)) == 16
