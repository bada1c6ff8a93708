# Raw-socket framing.
fn transports.SendHandshake(hs) (b, err)
requires hs != nil
ensures [T01] ok_iff: err == nil <==> 0 <= hs.serializer && hs.serializer <= 15 && 512 <= hs.maxMessageSize && hs.maxMessageSize <= 16777216
  && (exists k int :: 9 <= k && k <= 24 && hs.maxMessageSize == pow2(k))
ensures [T01] four: err == nil ==> len(b) == 4
ensures [T01] magic: err == nil ==> b[0] == 127 && b[2] == 0 && b[3] == 0

fn transports.ReceiveHandshake(data) (hs, err)
ensures [T01] ok_iff: err == nil <==> len(data) == 4 && data[0] == 127 && data[2] == 0 && data[3] == 0
ensures [T01] serializer: err == nil ==> hs != nil && hs.serializer == data[1] % 16
ensures [T01] size: err == nil ==> hs.maxMessageSize == pow2(9 + data[1] / 16)

fn transports.SendMessageHeader(header) (b)
requires header != nil && 0 <= header.length && header.length < 16777216
ensures [T02] four: len(b) == 4
ensures [T02] kind: b[0] == header.kind
ensures [T02] length: b[1] * 65536 + b[2] * 256 + b[3] == header.length

fn transports.ReceiveMessageHeader(data) (h, err)
ensures [T02] ok_iff: err == nil <==> len(data) == 4
ensures [T02] kind: err == nil ==> h != nil && h.kind == data[0]
ensures [T02] length: err == nil ==> h.length == data[1] * 65536 + data[2] * 256 + data[3]
loop slice []byte
unroll 4
