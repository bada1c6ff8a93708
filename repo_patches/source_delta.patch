From 2ed0c26d677a66d598cc143ba777cb733c7c7382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:05 +0000
Subject: [PATCH 01/33] fix: require HELLO and AUTHENTICATE to carry all their
 elements

A two-element list passed the length check and then made the validator of
the third element index out of range.
---
 messages/authenticate.go | 2 +-
 messages/hello.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/authenticate.go b/messages/authenticate.go
index 90979c2..f85162b 100644
--- a/messages/authenticate.go
+++ b/messages/authenticate.go
@@ -8,7 +8,7 @@ const MessageTypeAuthenticate uint64 = 5
 const MessageNameAuthenticate = "AUTHENTICATE"
 
 var authenticateValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameAuthenticate,
 	Spec: Spec{
diff --git a/messages/hello.go b/messages/hello.go
index 245408b..9bd213b 100644
--- a/messages/hello.go
+++ b/messages/hello.go
@@ -10,7 +10,7 @@ const MessageTypeHello uint64 = 1
 const MessageNameHello = "HELLO"
 
 var helloValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameHello,
 	Spec: Spec{
-- 
2.43.0


From 79c9db5a249af39593dc8dfdc016dc8210511b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 02/33] fix: reject an empty list in ToMessage instead of
 panicking

---
 serializers/helpers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serializers/helpers.go b/serializers/helpers.go
index 239f08f..cdb7495 100644
--- a/serializers/helpers.go
+++ b/serializers/helpers.go
@@ -1,6 +1,7 @@
 package serializers
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/xconnio/wampproto-go/messages"
@@ -8,6 +9,10 @@ import (
 )
 
 func ToMessage(wampMsg []any) (messages.Message, error) {
+	if len(wampMsg) == 0 {
+		return nil, errors.New("invalid message: message is empty")
+	}
+
 	messageType, _ := util.AsUInt64(wampMsg[0])
 	var msg messages.Message
 	switch messageType {
-- 
2.43.0


From eac838dcba768f8adf12d3a9afc15d3a8b69540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 03/33] fix: make DecodeCBOR reject short payloads and accept
 absent args

A payload of fewer than two elements made it panic, and what EncodeCBOR
writes for nil args or kwargs could not be decoded again.
---
 serializers/cbor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/serializers/cbor.go b/serializers/cbor.go
index a0c8a06..bbb31cc 100644
--- a/serializers/cbor.go
+++ b/serializers/cbor.go
@@ -64,13 +64,17 @@ func DecodeCBOR(data []byte) ([]any, map[string]any, error) {
 		return nil, nil, fmt.Errorf("failed to unmarshal cbor payload: %w", err)
 	}
 
+	if len(payload) != 2 {
+		return nil, nil, fmt.Errorf("invalid cbor payload: expected 2 elements, got %d", len(payload))
+	}
+
 	args, ok := payload[0].([]any)
-	if !ok {
+	if !ok && payload[0] != nil {
 		return nil, nil, fmt.Errorf("invalid args type: %T", payload[0])
 	}
 
 	kwargs, ok := payload[1].(map[string]any)
-	if !ok {
+	if !ok && payload[1] != nil {
 		return nil, nil, fmt.Errorf("invalid kwargs type: %T", payload[1])
 	}
 
-- 
2.43.0


From e8e7835eeec49dbed5b66ae751100f8e7734e048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 04/33] fix: marshal absent ABORT args as an empty list

With only kwargs the args were marshalled as null, which no peer could
parse as a list.
---
 messages/abort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/abort.go b/messages/abort.go
index e3dfd86..2fca397 100644
--- a/messages/abort.go
+++ b/messages/abort.go
@@ -95,7 +95,7 @@ func (a *Abort) Marshal() []any {
 
 	if a.KwArgs() != nil {
 		if a.Args() == nil {
-			payload = append(payload, a.Args())
+			payload = append(payload, []any{})
 		}
 
 		payload = append(payload, a.KwArgs())
-- 
2.43.0


From 10e571194b5897d47ba259e2ab5dc89f0dd327d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 05/33] fix: default nil CHALLENGE extra and WELCOME details to
 an empty map

They were marshalled as null, which the peer cannot parse.
---
 messages/challenge.go | 4 ++++
 messages/welcome.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/messages/challenge.go b/messages/challenge.go
index 60d354f..61f2340 100644
--- a/messages/challenge.go
+++ b/messages/challenge.go
@@ -42,6 +42,10 @@ func NewChallengeWithFields(fields ChallengeFields) *Challenge {
 }
 
 func NewChallenge(authMethod string, extra map[string]any) *Challenge {
+	if extra == nil {
+		extra = make(map[string]any)
+	}
+
 	return &Challenge{ChallengeFields: &challengeFields{authMethod: authMethod, extra: extra}}
 }
 
diff --git a/messages/welcome.go b/messages/welcome.go
index a22bc83..fe26505 100644
--- a/messages/welcome.go
+++ b/messages/welcome.go
@@ -38,6 +38,10 @@ type Welcome struct {
 }
 
 func NewWelcome(sessionID uint64, details map[string]any) *Welcome {
+	if details == nil {
+		details = make(map[string]any)
+	}
+
 	return &Welcome{WelcomeFields: &welcomeFields{sessionID: sessionID, details: details}}
 }
 
-- 
2.43.0


From 1059766aaee64aac22caf5328e14b74d533d08e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 06/33] fix: report a RESULT payload as binary whatever its
 serializer

A binary payload with serializer id 0 was reported as not binary.
---
 messages/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/result.go b/messages/result.go
index 25980dc..1b5f082 100644
--- a/messages/result.go
+++ b/messages/result.go
@@ -54,7 +54,7 @@ func (e *resultFields) KwArgs() map[string]any {
 }
 
 func (e *resultFields) PayloadIsBinary() bool {
-	return e.serializer != 0
+	return e.binary
 }
 
 func (e *resultFields) Payload() []byte {
-- 
2.43.0


From d7cf4b37b39dc76fccc965e123b51855b7723679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 07/33] fix: seed the source GenerateID draws from

The seeded generator was discarded, so every process handed out the same
sequence of global ids.
---
 idgen.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/idgen.go b/idgen.go
index d986cdb..1ac8771 100644
--- a/idgen.go
+++ b/idgen.go
@@ -12,8 +12,7 @@ import (
 const maxID uint64 = 1 << 53
 
 func init() {
-	source := rand.NewSource(uint64(time.Now().UnixNano())) // #nosec
-	rand.New(source)
+	rand.Seed(uint64(time.Now().UnixNano())) // #nosec
 }
 
 // GenerateID generates a random WAMP ID.
-- 
2.43.0


From 67b4a49b144c319e074190415e285d69fcc864ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 08/33] fix: never hand out 0 as a global id

---
 idgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/idgen.go b/idgen.go
index 1ac8771..4f1a68d 100644
--- a/idgen.go
+++ b/idgen.go
@@ -17,7 +17,7 @@ func init() {
 
 // GenerateID generates a random WAMP ID.
 func GenerateID() uint64 {
-	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)))
+	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)-1) + 1)
 	return id
 }
 
-- 
2.43.0


From edc03d04ebb1475769343f6ca44a4bf51ec5eb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 09/33] fix: do not select anonymous auth when the server does
 not offer it

---
 auth/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/helpers.go b/auth/helpers.go
index d12a558..2ce61ac 100644
--- a/auth/helpers.go
+++ b/auth/helpers.go
@@ -11,7 +11,7 @@ func SelectAuthMethod(allowedMethods []Method, proposedMethods []string) (Method
 	var method Method
 
 	if len(proposedMethods) == 0 {
-		return Anonymous, nil
+		proposedMethods = []string{MethodAnonymous}
 	}
 
 	for _, proposed := range proposedMethods {
-- 
2.43.0


From a0b0f260f23850a978a5a4bed6ad04b3e08366f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 10/33] fix: use the defaults for negative WAMP-CRA key
 parameters

A CHALLENGE with a negative keylen crashed the client.
---
 auth/wampcra.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/auth/wampcra.go b/auth/wampcra.go
index 5452db2..6ab8e1f 100644
--- a/auth/wampcra.go
+++ b/auth/wampcra.go
@@ -85,10 +85,10 @@ func DeriveWAMPCRAKey(saltStr string, secret string, iterations int, keyLength i
 	// If salting info give, then compute a derived key using PBKDF2.
 	salt := []byte(saltStr)
 
-	if iterations == 0 {
+	if iterations <= 0 {
 		iterations = 1000
 	}
-	if keyLength == 0 {
+	if keyLength <= 0 {
 		keyLength = 32
 	}
 
-- 
2.43.0


From b8e7ad578aaa18968a30aaf8b1f26f01c8709a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 11/33] fix: return an error for a cryptosign key that is not a
 32 byte seed

---
 auth/cryptosign.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 4e62fce..725f173 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -25,7 +25,7 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 	authExtra map[string]any) (ClientAuthenticator, error) {
 
 	privateKeyRaw, err := hex.DecodeString(privateKeyHex)
-	if err != nil {
+	if err != nil || len(privateKeyRaw) != ed25519.SeedSize {
 		return nil, errors.New("invalid private key")
 	}
 
-- 
2.43.0


From aa34eb5685e00fa7e339b5f8030b3a54efb84e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 12/33] fix: decode the empty payload that empty arguments are
 encoded to

---
 serializers/payload.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/serializers/payload.go b/serializers/payload.go
index 1029194..d7c3ace 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -64,6 +64,10 @@ func CBOREncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func CBORDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := cborEncoder.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -82,6 +86,10 @@ func MsgPackEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := msgpack.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -100,6 +108,10 @@ func JSONEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func JSONDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := json.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
-- 
2.43.0


From 987e8a7237780399c5a58c33e1f2af9b0fd88daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 13/33] fix: consume the request answered by SUBSCRIBED,
 UNSUBSCRIBED and UNREGISTERED

The request stayed outstanding, so the router could answer it again.
---
 session.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/session.go b/session.go
index 35e63a3..f57ec55 100644
--- a/session.go
+++ b/session.go
@@ -150,7 +150,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return registered, nil
 	case messages.MessageTypeUnregistered:
 		unregistered := msg.(*messages.Unregistered)
-		registrationID, exists := w.unregisterRequests.Load(unregistered.RequestID())
+		registrationID, exists := w.unregisterRequests.LoadAndDelete(unregistered.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNREGISTERED for invalid requestID")
 		}
@@ -181,7 +181,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return published, nil
 	case messages.MessageTypeSubscribed:
 		subscribed := msg.(*messages.Subscribed)
-		_, exists := w.subscribeRequests.Load(subscribed.RequestID())
+		_, exists := w.subscribeRequests.LoadAndDelete(subscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received SUBSCRIBED for invalid requestID")
 		}
@@ -191,7 +191,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return subscribed, nil
 	case messages.MessageTypeUnsubscribed:
 		unsubscribed := msg.(*messages.Unsubscribed)
-		subscriptionID, exists := w.unsubscribeRequests.Load(unsubscribed.RequestID())
+		subscriptionID, exists := w.unsubscribeRequests.LoadAndDelete(unsubscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNSUBSCRIBED for invalid requestID")
 		}
-- 
2.43.0


From 0d04fca11785d5f071926387cce83d30d750bb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 14/33] fix: refuse handshakes that cannot be encoded

A maxMessageSize of zero or less made the shift panic and a serializer
number outside four bits was silently truncated.
---
 transports/rawsocket.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 149d69d..c45fd4a 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -48,6 +48,14 @@ func SendHandshake(hs *Handshake) ([]byte, error) {
 		return nil, errors.New("maxMessageSize must not be more than 16 megabytes")
 	}
 
+	if hs.MaxMessageSize() < 1 {
+		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
+	}
+
+	if hs.Serializer() < 0 || hs.Serializer() > 0x0F {
+		return nil, fmt.Errorf("serializer must be in range 0 to 15, got %d", hs.Serializer())
+	}
+
 	log2 := int(math.Log2(float64(hs.MaxMessageSize())))
 	if (1<<log2) != hs.MaxMessageSize() || log2 < 9 {
 		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
-- 
2.43.0


From bc4f1855c8d75bd55354ca104ed6f5731f98a104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 15/33] fix: refuse message headers that are not four bytes
 long

---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index c45fd4a..6a519b4 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -114,6 +114,10 @@ func SendMessageHeader(header *MessageHeader) []byte {
 }
 
 func ReceiveMessageHeader(data []byte) (*MessageHeader, error) {
+	if len(data) != 4 {
+		return nil, fmt.Errorf("expected 4 bytes for message header, got %d", len(data))
+	}
+
 	return NewMessageHeader(Message(data[0]), BytesToInt(data[1:])), nil
 }
 
-- 
2.43.0


From 447509535e884632fbdadd35a999630dd2382e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 16/33] fix: refuse numbers that AsUInt64 and AsInt cannot
 represent

Negative integers wrapped around to huge ids, out of range and NaN floats
gave arbitrary ones, and int16 was not accepted at all.
---
 util/util.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/util/util.go b/util/util.go
index f09eba5..566926c 100644
--- a/util/util.go
+++ b/util/util.go
@@ -36,11 +36,11 @@ func AsInt(i any) (int, bool) {
 			return int(v), true
 		}
 	case float32:
-		if v >= float32(intMin) && v <= float32(intMax) {
+		if v >= float32(intMin) && v < -float32(intMin) {
 			return int(v), true
 		}
 	case float64:
-		if v >= float64(intMin) && v <= float64(intMax) {
+		if v >= float64(intMin) && v < -float64(intMin) {
 			return int(v), true
 		}
 	}
@@ -50,17 +50,29 @@ func AsInt(i any) (int, bool) {
 func AsUInt64(i any) (uint64, bool) {
 	switch v := i.(type) {
 	case int64:
-		return uint64(v), true // #nosec
+		if v >= 0 {
+			return uint64(v), true
+		}
 	case uint64:
 		return v, true // #nosec
 	case uint8:
 		return uint64(v), true
 	case int:
-		return uint64(v), true // #nosec
+		if v >= 0 {
+			return uint64(v), true
+		}
 	case int8:
-		return uint64(v), true // #nosec
+		if v >= 0 {
+			return uint64(v), true
+		}
+	case int16:
+		if v >= 0 {
+			return uint64(v), true
+		}
 	case int32:
-		return uint64(v), true // #nosec
+		if v >= 0 {
+			return uint64(v), true
+		}
 	case uint:
 		return uint64(v), true // #nosec
 	case uint16:
@@ -68,9 +80,13 @@ func AsUInt64(i any) (uint64, bool) {
 	case uint32:
 		return uint64(v), true
 	case float64:
-		return uint64(v), true
+		if v >= 0 && v < 1<<64 {
+			return uint64(v), true
+		}
 	case float32:
-		return uint64(v), true
+		if v >= 0 && v < 1<<64 {
+			return uint64(v), true
+		}
 	}
 
 	return 0, false
-- 
2.43.0


From 6a519e010313ee96b0ddc1d116f4492969c15800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:07 +0000
Subject: [PATCH 17/33] fix: accept no further message once a handshake was
 aborted

After a failed AUTHENTICATE the acceptor stayed in the challenge state, so
a client could keep guessing against the same challenge.
---
 acceptor.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/acceptor.go b/acceptor.go
index 6dd80e7..ff524f1 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -16,6 +16,7 @@ const (
 	AcceptorStateNone acceptorState = iota
 	AcceptorStateChallengeSent
 	AcceptorStateWelcomeSent
+	AcceptorStateAborted
 )
 
 var RouterRoles = map[string]any{ //nolint:gochecknoglobals
@@ -100,6 +101,10 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 		return nil, errors.New("session was established, not expecting any new messages")
 	}
 
+	if a.state == AcceptorStateAborted {
+		return nil, errors.New("session was aborted, not expecting any new messages")
+	}
+
 	if msg.Type() == messages.MessageTypeHello {
 		if a.state != AcceptorStateNone {
 			return nil, fmt.Errorf("state must be %d when processing HELLO but was %d", AcceptorStateNone, a.state)
@@ -108,8 +113,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 		hello := msg.(*messages.Hello)
 		authMethod, err := auth.SelectAuthMethod(a.authenticator.Methods(), hello.AuthMethods())
 		if err != nil {
-			abort := messages.NewAbort(map[string]any{}, ErrAuthenticationFailed, []any{err.Error()}, nil)
-			return abort, nil
+			return a.sendAbort([]any{err.Error()}), nil
 		}
 
 		a.authMethod = authMethod
@@ -120,8 +124,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			request := auth.NewRequest(hello, authMethod)
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
-				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
-				return abort, nil
+				return a.sendAbort([]any{err.Error()}), nil
 			}
 
 			return a.sendWelcome(GenerateID(), response, nil), nil
@@ -132,8 +135,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			request := auth.NewRequest(hello, authMethod)
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
-				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
-				return abort, nil
+				return a.sendAbort([]any{err.Error()}), nil
 			}
 
 			craResponse, ok := response.(*auth.CRAResponse)
@@ -179,8 +181,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			request := auth.NewCryptoSignRequest(hello, publicKey)
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
-				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
-				return abort, nil
+				return a.sendAbort([]any{err.Error()}), nil
 			}
 
 			a.request = request
@@ -209,8 +210,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			request := auth.NewTicketRequest(a.hello, authenticate.Signature())
 			response, err := a.authenticator.Authenticate(request)
 			if err != nil {
-				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", []any{err.Error()}, nil)
-				return abort, nil
+				return a.sendAbort([]any{err.Error()}), nil
 			}
 
 			return a.sendWelcome(GenerateID(), response, authenticate.Extra()), nil
@@ -226,8 +226,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			}
 
 			if !auth.VerifyWAMPCRASignature(authenticate.Signature(), a.challenge, secret) {
-				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
-				return abort, nil
+				return a.sendAbort(nil), nil
 			}
 
 			return a.sendWelcome(GenerateID(), a.response, authenticate.Extra()), nil
@@ -241,8 +240,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 
 			verified, _ := auth.VerifyCryptoSignSignature(authenticate.Signature(), key)
 			if !verified {
-				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
-				return abort, nil
+				return a.sendAbort(nil), nil
 			}
 
 			return a.sendWelcome(GenerateID(), a.response, authenticate.Extra()), nil
@@ -270,6 +268,12 @@ func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExt
 	return welcome
 }
 
+func (a *Acceptor) sendAbort(args []any) *messages.Abort {
+	a.state = AcceptorStateAborted
+
+	return messages.NewAbort(map[string]any{}, ErrAuthenticationFailed, args, nil)
+}
+
 func (a *Acceptor) SessionDetails() (*SessionDetails, error) {
 	if a.sessionDetails == nil {
 		return nil, fmt.Errorf("session is not setup yet")
-- 
2.43.0


From 631422297f2e0aabb90e32d617b24fd91a3533c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 18/33] fix: accept a cryptosign signature only for the
 challenge just issued

A signed message recorded from an earlier handshake was accepted, because
its content was never compared with the challenge of this one.
---
 acceptor.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index ff524f1..6d2dd7a 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -1,6 +1,7 @@
 package wampproto
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"fmt"
@@ -239,7 +240,7 @@ func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error
 			}
 
 			verified, _ := auth.VerifyCryptoSignSignature(authenticate.Signature(), key)
-			if !verified {
+			if !verified || !signsChallenge(authenticate.Signature(), a.challenge) {
 				return a.sendAbort(nil), nil
 			}
 
@@ -268,6 +269,17 @@ func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExt
 	return welcome
 }
 
+// signsChallenge tells whether the content of a cryptosign signature is the given challenge.
+func signsChallenge(signature, challenge string) bool {
+	signed, err := hex.DecodeString(signature)
+	if err != nil {
+		return false
+	}
+
+	expected, err := hex.DecodeString(challenge)
+	return err == nil && bytes.HasSuffix(signed, expected)
+}
+
 func (a *Acceptor) sendAbort(args []any) *messages.Abort {
 	a.state = AcceptorStateAborted
 
-- 
2.43.0


From 5f9b760686356a65566a35b713fa14ab631e67f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 19/33] fix: refuse cryptosign public keys of the wrong length

A shorter key was padded with zeros and a longer one truncated.
---
 auth/cryptosign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 725f173..fe9cf0b 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -96,6 +96,10 @@ func VerifyCryptoSignSignature(signature string, publicKey []byte) (bool, error)
 		return false, fmt.Errorf("signed message has invalid length (was %v, but should have been 96)", len(signatureBytes))
 	}
 
+	if len(publicKey) != ed25519.PublicKeySize {
+		return false, fmt.Errorf("public key has invalid length (was %v, but should have been 32)", len(publicKey))
+	}
+
 	signedOut := make([]byte, 32)
 	var pubkey [32]byte
 	copy(pubkey[:], publicKey)
-- 
2.43.0


From 9bdb94da3d91465f2784bea7f195088be6abe1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 20/33] fix: do not panic on a WELCOME without authid or
 authrole

---
 joiner.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/joiner.go b/joiner.go
index 09bc3ff..06d6300 100644
--- a/joiner.go
+++ b/joiner.go
@@ -122,8 +122,10 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		welcome := msg.(*messages.Welcome)
 		roles, _ := welcome.Details()["roles"].(map[string]any)
 		authMethod, _ := welcome.Details()["authmethod"].(string)
-		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, welcome.Details()["authid"].(string),
-			welcome.Details()["authrole"].(string), authMethod, j.serializer.Static(), roles, nil)
+		authID, _ := welcome.Details()["authid"].(string)
+		authRole, _ := welcome.Details()["authrole"].(string)
+		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, authID, authRole, authMethod,
+			j.serializer.Static(), roles, nil)
 		j.state = joinerStateJoined
 
 		return nil, nil
-- 
2.43.0


From 4258fd6c1ca990e95ff220b8ec53fd8eed0542bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 21/33] fix: put the authmethod into WELCOME as a plain string

A joiner that is handed the WELCOME message itself did not recognise it and
reported no authentication method.
---
 acceptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index 6d2dd7a..63e3294 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -259,7 +259,7 @@ func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExt
 		"roles":      RouterRoles,
 		"authid":     response.AuthID(),
 		"authrole":   response.AuthRole(),
-		"authmethod": a.authMethod,
+		"authmethod": string(a.authMethod),
 	})
 
 	a.sessionDetails = NewSessionDetails(sessionID, a.hello.Realm(), response.AuthID(), response.AuthRole(),
-- 
2.43.0


From e4561c3605d6b851cad1206cfa89c76cca82f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 22/33] fix: keep a pattern subscription while it has
 subscribers

The first of several subscribers to unsubscribe or leave removed the
pattern from the index and the others received nothing any more.
---
 broker.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/broker.go b/broker.go
index daf09e1..7974d92 100644
--- a/broker.go
+++ b/broker.go
@@ -69,14 +69,14 @@ func (b *Broker) RemoveSession(id uint64) error {
 
 		if len(subscription.Subscribers) == 0 {
 			delete(b.subscriptionsByTopic, v.Topic)
-		}
 
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
+			if subscription.Match == MatchPrefix {
+				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+			}
 
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, v.Topic)
+			if subscription.Match == MatchWildcard {
+				delete(b.wcSubscriptionsByTopic, v.Topic)
+			}
 		}
 	}
 
@@ -155,12 +155,12 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
 			delete(b.subscriptionsByTopic, subscription.Topic)
-		}
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			if subscription.Match == MatchPrefix {
+				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+			}
+			if subscription.Match == MatchWildcard {
+				delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			}
 		}
 
 		delete(b.subscriptionsBySession[sessionID], subscription.ID)
-- 
2.43.0


From 35387fcbe5cd5d3818c22c1fe59bc371f21ea4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 23/33] fix: remove a pattern registration from the index when
 its last callee goes

The immutable prefix tree returned by Delete was dropped, so a dead prefix
kept shadowing shorter ones, and a wildcard was removed while it still had
callees.
---
 dealer.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dealer.go b/dealer.go
index 2836a0d..c5f8c0d 100644
--- a/dealer.go
+++ b/dealer.go
@@ -118,13 +118,13 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		delete(registration.Registrants, id)
 		if len(registration.Registrants) == 0 {
 			delete(d.registrationsByProcedure, registration.Procedure)
-		}
-		if registration.Match == MatchPrefix {
-			d.prefixTree.Delete([]byte(registration.Procedure))
-		}
+			if registration.Match == MatchPrefix {
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
+			}
 
-		if registration.Match == MatchWildcard {
-			delete(d.wcRegistrationsByProcedure, registration.Procedure)
+			if registration.Match == MatchWildcard {
+				delete(d.wcRegistrationsByProcedure, registration.Procedure)
+			}
 		}
 
 		for i, callee := range registration.callees {
@@ -353,7 +353,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
-				d.prefixTree.Delete([]byte(registration.Procedure))
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
 			}
 			if registration.Match == MatchWildcard {
 				delete(d.wcRegistrationsByProcedure, registration.Procedure)
-- 
2.43.0


From 758ae15fbe85a862bb38e3e9f0b4a9bc665f94ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 24/33] fix: do not panic on UNREGISTER of a registration the
 session does not hold

---
 dealer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dealer.go b/dealer.go
index c5f8c0d..bdaa7b4 100644
--- a/dealer.go
+++ b/dealer.go
@@ -346,7 +346,12 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				unregister.RegistrationID())
 		}
 
-		registration := registrations[unregister.RegistrationID()]
+		registration, exists := registrations[unregister.RegistrationID()]
+		if !exists {
+			return nil, fmt.Errorf("unregister: session %d has no registration %d", sessionID,
+				unregister.RegistrationID())
+		}
+
 		delete(registration.Registrants, sessionID)
 
 		if len(registration.Registrants) == 0 {
-- 
2.43.0


From 261632c0e3fae5bc7f9310776baf9a94d3f60eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 25/33] fix: stop calling a session that unregistered from a
 shared registration

It stayed in the callee list, and the session kept the registration in its
table, as long as another session was registered.
---
 dealer.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/dealer.go b/dealer.go
index bdaa7b4..00d8871 100644
--- a/dealer.go
+++ b/dealer.go
@@ -54,6 +54,15 @@ type Registration struct {
 	Match            string
 }
 
+func (r *Registration) removeCallee(id uint64) {
+	for i, callee := range r.callees {
+		if callee == id {
+			r.callees = append(r.callees[:i], r.callees[i+1:]...)
+			break
+		}
+	}
+}
+
 type CallMap struct {
 	CallerID uint64
 	CallID   uint64
@@ -127,15 +136,7 @@ func (d *Dealer) RemoveSession(id uint64) error {
 			}
 		}
 
-		for i, callee := range registration.callees {
-			if callee == id {
-				if len(registration.callees) == 1 {
-					registration.callees = make([]uint64, 0)
-				} else {
-					registration.callees = append(registration.callees[:i], registration.callees[i+1:]...)
-				}
-			}
-		}
+		registration.removeCallee(id)
 	}
 
 	delete(d.registrationsBySession, id)
@@ -353,9 +354,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		delete(registration.Registrants, sessionID)
+		delete(registrations, unregister.RegistrationID())
+		registration.removeCallee(sessionID)
 
 		if len(registration.Registrants) == 0 {
-			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
 				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
-- 
2.43.0


From 6f963fff0e86bc189827daa389e1cfc80712d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 26/33] fix: list a session once however often it registers a
 shared procedure

Duplicates in the callee list gave it extra turns and survived its leaving.
---
 dealer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index 00d8871..abf3871 100644
--- a/dealer.go
+++ b/dealer.go
@@ -309,9 +309,11 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
 			}
-			registration.Registrants[sessionID] = sessionID
-			registration.callees = append(registration.callees, sessionID)
 
+			if _, registered := registration.Registrants[sessionID]; !registered {
+				registration.Registrants[sessionID] = sessionID
+				registration.callees = append(registration.callees, sessionID)
+			}
 		} else {
 			registration = &Registration{
 				ID:               d.idGen.NextID(),
-- 
2.43.0


From b672925d5f85704b20cd7a455c76874955585407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:44 +0000
Subject: [PATCH 27/33] fix: keep the round-robin position when an earlier
 callee goes

The callee whose turn it was got skipped for a round.
---
 dealer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dealer.go b/dealer.go
index abf3871..5af62d7 100644
--- a/dealer.go
+++ b/dealer.go
@@ -58,6 +58,10 @@ func (r *Registration) removeCallee(id uint64) {
 	for i, callee := range r.callees {
 		if callee == id {
 			r.callees = append(r.callees[:i], r.callees[i+1:]...)
+			if i < r.nextCallee {
+				r.nextCallee--
+			}
+
 			break
 		}
 	}
-- 
2.43.0


From 5b704fff365b08cb207441e8f07955feaf3b7a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 28/33] fix: refuse a CALL from a session that is not attached

With caller disclosure enabled it made the dealer panic.
---
 dealer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dealer.go b/dealer.go
index 5af62d7..dcc494b 100644
--- a/dealer.go
+++ b/dealer.go
@@ -170,6 +170,11 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	switch msg.Type() {
 	case messages.MessageTypeCall:
 		call := msg.(*messages.Call)
+		caller, attached := d.sessions[sessionID]
+		if !attached {
+			return nil, fmt.Errorf("call: cannot call from non-existent session %d", sessionID)
+		}
+
 		var regs *Registration
 		var found bool
 
@@ -248,7 +253,6 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		if d.details {
-			caller := d.sessions[sessionID]
 			details["procedure"] = call.Procedure()
 			details["caller"] = sessionID
 			details["caller_authid"] = caller.AuthID()
-- 
2.43.0


From 5832434e19f3913ba90f68e3139bb58a3d09d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 29/33] fix: accept an invocation ERROR only from the invoked
 callee

Any session could fail the pending call of another by guessing its
sequential invocation id.
---
 dealer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dealer.go b/dealer.go
index dcc494b..7047b71 100644
--- a/dealer.go
+++ b/dealer.go
@@ -386,7 +386,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		pending, exists := d.pendingCalls[wErr.RequestID()]
-		if !exists {
+		if !exists || pending.CalleeID != sessionID {
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
 
-- 
2.43.0


From 176a2c0f3a8e78f69a94d01592e7e3834d184b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 30/33] fix: forget the pending invocations of a session that
 leaves

Its invocations stayed answerable, ERRORs were addressed to the session
that had gone, and the call to invocation map was never cleaned up at all.
---
 dealer.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index 7047b71..feeb85d 100644
--- a/dealer.go
+++ b/dealer.go
@@ -143,12 +143,27 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		registration.removeCallee(id)
 	}
 
+	for invocationID, pending := range d.pendingCalls {
+		if pending.CallerID == id || pending.CalleeID == id {
+			d.removePending(invocationID, pending)
+		}
+	}
+
 	delete(d.registrationsBySession, id)
 	delete(d.sessions, id)
 
 	return nil
 }
 
+func (d *Dealer) removePending(invocationID uint64, pending *PendingInvocation) {
+	delete(d.pendingCalls, invocationID)
+
+	call := CallMap{CallerID: pending.CallerID, CallID: pending.RequestID}
+	if d.invocationIDbyCall[call] == invocationID {
+		delete(d.invocationIDbyCall, call)
+	}
+}
+
 func (d *Dealer) HasProcedure(procedure string) bool {
 	d.Lock()
 	defer d.Unlock()
@@ -285,7 +300,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		if pending.ReceiveProgress && progress {
 			details = map[string]any{OptionProgress: progress}
 		} else {
-			delete(d.pendingCalls, yield.RequestID())
+			d.removePending(yield.RequestID(), pending)
 		}
 
 		var result *messages.Result
@@ -390,7 +405,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
 
-		delete(d.pendingCalls, wErr.RequestID())
+		d.removePending(wErr.RequestID(), pending)
 
 		wErr = messages.NewError(messages.MessageTypeCall, pending.RequestID, wErr.Details(), wErr.URI(),
 			wErr.Args(), wErr.KwArgs())
-- 
2.43.0


From fc2d302c6c4617d52e5ee1398ecb2c0018b77912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 31/33] fix: keep all parts of a progressive call in one
 invocation at one callee

The final part got a new invocation id, later parts could go to another
callee of a shared registration, and a finished invocation was continued.
---
 dealer.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/dealer.go b/dealer.go
index feeb85d..eb71f77 100644
--- a/dealer.go
+++ b/dealer.go
@@ -218,8 +218,18 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return &MessageWithRecipient{Message: callErr, Recipient: sessionID}, nil
 		}
 
+		invocationID := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
+		pending, continued := d.pendingCalls[invocationID]
+		if continued {
+			// only a progressive call continues, and only at the callee that got its first part
+			_, registered := regs.Registrants[pending.CalleeID]
+			continued = pending.Progress && registered
+		}
+
 		var calleeID uint64
-		if len(regs.callees) > 1 {
+		if continued {
+			calleeID = pending.CalleeID
+		} else if len(regs.callees) > 1 {
 			switch regs.InvocationPolicy {
 			case InvokeFirst:
 				calleeID = regs.callees[0]
@@ -245,8 +255,9 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		receiveProgress, _ := call.Options()[OptionReceiveProgress].(bool)
 		progress, _ := call.Options()[OptionProgress].(bool)
 
-		invocationID, ok := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
-		if !ok || !progress {
+		if continued {
+			pending.Progress = progress
+		} else {
 			invocationID = d.idGen.NextID()
 			d.pendingCalls[invocationID] = &PendingInvocation{
 				RequestID:       call.RequestID(),
-- 
2.43.0


From 9a15149f6d0c3d8f08ea12ac8b81ddab562f8aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 32/33] fix: refuse MessagePack payloads that exhaust memory or
 stack when decoded

---
 serializers/msgpack.go | 113 ++++++++++++++++++++++++++++++++++++++++-
 serializers/payload.go |   2 +-
 2 files changed, 112 insertions(+), 3 deletions(-)

diff --git a/serializers/msgpack.go b/serializers/msgpack.go
index d52d452..e265238 100644
--- a/serializers/msgpack.go
+++ b/serializers/msgpack.go
@@ -1,12 +1,18 @@
 package serializers
 
 import (
+	"errors"
+
 	"github.com/vmihailenco/msgpack/v5"
 
 	"github.com/xconnio/wampproto-go/messages"
 )
 
-const MsgPackSerializerID = 2
+const (
+	MsgPackSerializerID = 2
+
+	msgPackMaxDepth = 10000
+)
 
 type MsgPackSerializer struct{}
 
@@ -16,7 +22,7 @@ func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error)
 
 func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error) {
 	var msgRaw []any
-	if err := msgpack.Unmarshal(payload, &msgRaw); err != nil {
+	if err := unmarshalMsgPack(payload, &msgRaw); err != nil {
 		return nil, err
 	}
 
@@ -35,3 +41,106 @@ func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error
 func (m *MsgPackSerializer) Static() bool {
 	return false
 }
+
+// unmarshalMsgPack decodes a payload from an untrusted peer. The decoder allocates what a length
+// prefix announces and recurses into every level, so refuse what would exhaust memory or stack.
+func unmarshalMsgPack(payload []byte, v *[]any) error {
+	if err := checkMsgPack(payload); err != nil {
+		return err
+	}
+
+	return msgpack.Unmarshal(payload, v)
+}
+
+// checkMsgPack checks that a value holds all the elements it announces and is not nested too deep.
+func checkMsgPack(data []byte) error {
+	pending := []int{1} // elements still to come, per level
+	for len(pending) > 0 {
+		level := len(pending) - 1
+		if pending[level] == 0 {
+			pending = pending[:level]
+			continue
+		}
+		pending[level]--
+
+		size, elements, ok := msgPackHeader(data)
+		if !ok || size > len(data) || elements > len(data)-size {
+			return errors.New("msgpack: unexpected end of payload")
+		}
+		data = data[size:]
+
+		if elements > 0 {
+			if len(pending) == msgPackMaxDepth {
+				return errors.New("msgpack: exceeded max depth")
+			}
+			pending = append(pending, elements)
+		}
+	}
+
+	return nil
+}
+
+// msgPackHeader returns the size of the first value, without its elements, and their number.
+func msgPackHeader(data []byte) (size int, elements int, ok bool) {
+	if len(data) == 0 {
+		return 0, 0, false
+	}
+
+	code := data[0]
+	switch {
+	case code >= 0x80 && code <= 0x8f: // fixmap
+		return 1, 2 * int(code&0x0f), true
+	case code >= 0x90 && code <= 0x9f: // fixarray
+		return 1, int(code & 0x0f), true
+	case code >= 0xa0 && code <= 0xbf: // fixstr
+		return 1 + int(code&0x1f), 0, true
+	}
+
+	width := 0 // of the length that follows the code
+	switch code {
+	case 0xcc, 0xd0: // uint8, int8
+		return 2, 0, true
+	case 0xcd, 0xd1, 0xd4: // uint16, int16, fixext1
+		return 3, 0, true
+	case 0xd5: // fixext2
+		return 4, 0, true
+	case 0xca, 0xce, 0xd2: // float32, uint32, int32
+		return 5, 0, true
+	case 0xd6: // fixext4
+		return 6, 0, true
+	case 0xcb, 0xcf, 0xd3: // float64, uint64, int64
+		return 9, 0, true
+	case 0xd7: // fixext8
+		return 10, 0, true
+	case 0xd8: // fixext16
+		return 18, 0, true
+	case 0xc4, 0xc7, 0xd9: // bin8, ext8, str8
+		width = 1
+	case 0xc5, 0xc8, 0xda, 0xdc, 0xde: // bin16, ext16, str16, array16, map16
+		width = 2
+	case 0xc6, 0xc9, 0xdb, 0xdd, 0xdf: // bin32, ext32, str32, array32, map32
+		width = 4
+	default:
+		return 1, 0, true
+	}
+
+	if len(data) <= width {
+		return 0, 0, false
+	}
+
+	length := 0
+	for _, b := range data[1 : 1+width] {
+		length = length<<8 | int(b)
+	}
+
+	switch code {
+	case 0xdc, 0xdd: // arrays
+		return 1 + width, length, true
+	case 0xde, 0xdf: // maps
+		return 1 + width, 2 * length, true
+	case 0xc7, 0xc8, 0xc9: // extensions also have a type
+		return 2 + width + length, 0, true
+	default:
+		return 1 + width + length, 0, true
+	}
+}
diff --git a/serializers/payload.go b/serializers/payload.go
index d7c3ace..8d48f6f 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -91,7 +91,7 @@ func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
 	}
 
 	var arr []any
-	if err := msgpack.Unmarshal(b, &arr); err != nil {
+	if err := unmarshalMsgPack(b, &arr); err != nil {
 		return nil, nil, err
 	}
 
-- 
2.43.0


From b3909034642b35744de330470f9c4a3a438386f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 33/33] fix: refuse a WAMP-CRA challenge that asks for a
 derived key larger than memory

---
 auth/wampcra.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/auth/wampcra.go b/auth/wampcra.go
index 6ab8e1f..2d4d4cd 100644
--- a/auth/wampcra.go
+++ b/auth/wampcra.go
@@ -16,6 +16,9 @@ import (
 
 const MethodCRA = "wampcra"
 
+// maxDerivedKeyLength limits the memory a router can make a client allocate for a salted secret.
+const maxDerivedKeyLength = 1 << 20
+
 type wampcraAuthenticator struct {
 	authID    string
 	authExtra map[string]any
@@ -57,6 +60,10 @@ func (a *wampcraAuthenticator) Authenticate(challenge messages.Challenge) (*mess
 		// If salting info give, then compute a derived key using PBKDF2.
 		iters, _ := util.AsInt(challenge.Extra()["iterations"])
 		keylen, _ := util.AsInt(challenge.Extra()["keylen"])
+		if keylen > maxDerivedKeyLength {
+			return nil, fmt.Errorf("challenge asks for a derived key of %d bytes, at most %d are supported",
+				keylen, maxDerivedKeyLength)
+		}
 
 		rawSecret = DeriveWAMPCRAKey(saltStr, a.secret, iters, keylen)
 	} else {
-- 
2.43.0

