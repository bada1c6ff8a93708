# Decoding.
fn serializers.DecodeCBOR(b) (args, kwargs, err)
ensures [W01] nopanic: true
ensures [W05] cbor: err == nil <==> decodes("cbor", b) && old(payloadpair(decoded("cbor", b)))
pred payloadpair(l) = len(l) == 2 && (l[0] == nil || typeis(l[0], []any)) && (l[1] == nil || typeis(l[1], map[string]any))
pred payloadlist(l) = len(l) == 0 || (len(l) <= 2 && typeis(l[0], []any) && (len(l) == 2 ==> typeis(l[1], map[string]any)))
fn serializers.DeserializePayload(id, b) (args, kwargs, err)
ensures [W01] nopanic: true
ensures [W05] unknown: err == nil ==> id == 0 || id == 1 || id == 2 || id == 3
ensures [W05] raw: id == 0 ==> err == nil && len(args) == 1 && typeis(args[0], []byte) && as(args[0], []byte) == b && len(kwargs) == 0
ensures [W05] json: id == 1 ==> (err == nil <==> len(b) == 0 || (decodes("json", b) && old(payloadlist(decoded("json", b)))))
ensures [W05] msgpack: id == 2 ==> (err == nil <==> len(b) == 0 || (old(mpend(b, 1, 9999)) >= 0 && decodes("msgpack", b) && old(payloadlist(decoded("msgpack", b)))))
ensures [W05] cbor: id == 3 ==> (err == nil <==> len(b) == 0 || (decodes("cbor", b) && old(payloadlist(decoded("cbor", b)))))

fn serializers.SerializePayload(id, args, kwargs) (b, err)
ensures [W05] unknown: err == nil ==> id == 0 || id == 1 || id == 2 || id == 3
ensures [W05] raw: id == 0 ==> (err == nil <==> (len(args) == 0 && len(kwargs) == 0) || (len(args) == 1 && len(kwargs) == 0 && typeis(args[0], []byte)))
ensures [W05] rawbytes: id == 0 && len(args) == 1 && err == nil ==> b == as(args[0], []byte)
ensures [W05] rawempty: id == 0 && len(args) == 0 && err == nil ==> len(b) == 0
ensures [W05] empty: err == nil && len(args) == 0 && len(kwargs) == 0 ==> len(b) == 0

# The guard in front of the MessagePack decoder: header sizes and element counts as the MessagePack specification has them.
pred be(d, w) = w == 1 ? d[1] : w == 2 ? d[1] * 256 + d[2] : ((d[1] * 256 + d[2]) * 256 + d[3]) * 256 + d[4]
pred mpwidth(c) = (c == 196 || c == 199 || c == 217) ? 1 : (c == 197 || c == 200 || c == 218 || c == 220 || c == 222) ? 2 : (c == 198 || c == 201 || c == 219 || c == 221 || c == 223) ? 4 : 0
fn serializers.msgPackHeader(data) (size, elements, ok)
modular
ensures [W01,W02,W05] ok: ok <==> len(data) >= 1 && len(data) > mpwidth(data[0])
ensures [W01,W02,W05] positive: ok ==> size >= 1 && elements >= 0
ensures [W01,W02,W05] maps: ok && 128 <= data[0] && data[0] <= 143 ==> size == 1 && elements == 2 * (data[0] - 128)
ensures [W01,W02,W05] arrays: ok && 144 <= data[0] && data[0] <= 159 ==> size == 1 && elements == data[0] - 144
ensures [W01,W02,W05] strings: ok && 160 <= data[0] && data[0] <= 191 ==> size == 1 + (data[0] - 160) && elements == 0
ensures [W01,W02,W05] biglists: ok && (data[0] == 220 || data[0] == 221) ==> size == 1 + mpwidth(data[0]) && elements == be(data, mpwidth(data[0]))
ensures [W01,W02,W05] bigmaps: ok && (data[0] == 222 || data[0] == 223) ==> size == 1 + mpwidth(data[0]) && elements == 2 * be(data, mpwidth(data[0]))
ensures [W01,W02,W05] blobs: ok && ((196 <= data[0] && data[0] <= 198) || (217 <= data[0] && data[0] <= 219)) ==> size == 1 + mpwidth(data[0]) + be(data, mpwidth(data[0])) && elements == 0
ensures [W01,W02,W05] exts: ok && 199 <= data[0] && data[0] <= 201 ==> size == 2 + mpwidth(data[0]) + be(data, mpwidth(data[0])) && elements == 0
ensures [W01,W02,W05] fixexts: ok && 212 <= data[0] && data[0] <= 216 ==> size == 2 + pow2(data[0] - 212) && elements == 0
ensures [W01,W02,W05] numbers: ok && (data[0] <= 127 || data[0] >= 224 || (192 <= data[0] && data[0] <= 195)) ==> size == 1 && elements == 0
ensures [W01,W02,W05] fixed: ok && 202 <= data[0] && data[0] <= 211 ==> elements == 0 && (data[0] == 204 || data[0] == 208 ==> size == 2) && (data[0] == 205 || data[0] == 209 ==> size == 3)
  && (data[0] == 202 || data[0] == 206 || data[0] == 210 ==> size == 5) && (data[0] == 203 || data[0] == 207 || data[0] == 211 ==> size == 9)
loop slice []byte
unroll 4

# What a header says: the bytes up to the value's elements, and how many elements follow.
pred mpheader(d) = len(d) >= 1 && len(d) > mpwidth(d[0])
pred mpsize(d) = (d[0] <= 159 || d[0] >= 224 || (192 <= d[0] && d[0] <= 195)) ? 1 : d[0] <= 191 ? 1 + (d[0] - 160) :
  ((196 <= d[0] && d[0] <= 198) || (217 <= d[0] && d[0] <= 219)) ? 1 + mpwidth(d[0]) + be(d, mpwidth(d[0])) :
  (199 <= d[0] && d[0] <= 201) ? 2 + mpwidth(d[0]) + be(d, mpwidth(d[0])) : d[0] == 212 ? 3 : d[0] == 213 ? 4 : d[0] == 214 ? 6 : d[0] == 215 ? 10 : d[0] == 216 ? 18 :
  (d[0] == 204 || d[0] == 208) ? 2 : (d[0] == 205 || d[0] == 209) ? 3 : (d[0] == 202 || d[0] == 206 || d[0] == 210) ? 5 :
  (d[0] == 203 || d[0] == 207 || d[0] == 211) ? 9 : 1 + mpwidth(d[0])
pred mpelements(d) = (128 <= d[0] && d[0] <= 143) ? 2 * (d[0] - 128) : (144 <= d[0] && d[0] <= 159) ? d[0] - 144 :
  (d[0] == 220 || d[0] == 221) ? be(d, mpwidth(d[0])) : (d[0] == 222 || d[0] == 223) ? 2 * be(d, mpwidth(d[0])) : 0
# The guard accepts exactly the payloads that begin with one complete value nested at most 9999 deep. The loop's stack holds, per level, how
# many values are to come; the ghost array holds where they will end.
fn serializers.checkMsgPack(data) (err)
modular
ensures [W01] nopanic: true
ensures [W02,W05] whole: err == nil <==> mpend(data, 1, 9999) >= 0
allocates []int
loop other
ghost end at len($phi(pending)) - 1 is mpend($phi(data), $phi(pending)[len($phi(pending)) - 1], 10000 - len($phi(pending)))
invariant mine: fresh($phi(pending)) && unchanged([]int)
invariant depth: len($phi(pending)) <= 10000
invariant [W02,W05] counts: forall k int :: {$phi(pending)[k]} 0 <= k && k < len($phi(pending)) ==> $phi(pending)[k] >= 0
invariant [W02,W05] within: arr($phi(data)) == arr(data) && off($phi(data)) + len($phi(data)) == off(data) + len(data)
invariant [W02,W05] definition: mpdef($phi(data), $phi(pending)[len($phi(pending)) - 1], 10000 - len($phi(pending)), mpheader($phi(data)), mpsize($phi(data)), mpelements($phi(data)))
invariant [W02,W05] top: len($phi(pending)) > 0 ==> $ghost(end, len($phi(pending)) - 1) == mpend($phi(data), $phi(pending)[len($phi(pending)) - 1], 10000 - len($phi(pending)))
invariant [W02,W05] below: forall k int :: {$phi(pending)[k]} 0 <= k && k < len($phi(pending)) - 1 ==> $ghost(end, k) == mpend_at($phi(data), $ghost(end, k + 1), $phi(pending)[k], 9999 - k)
invariant [W02,W05] outcome: len($phi(pending)) > 0 ==> $ghost(end, 0) == mpend(data, 1, 9999)
invariant [W02,W05] complete: len($phi(pending)) == 0 ==> mpend(data, 1, 9999) >= 0
invariant [W02,W05] reachable: mpend(data, 1, 9999) >= 0 ==> (forall k int :: {$phi(pending)[k]} 0 <= k && k < len($phi(pending)) ==> $ghost(end, k) >= 0)

# Encoding followed by decoding with the same serializer (harness/serializers__payload.go runs the two functions of /repo).
fn serializers.vhPayload(id, args, kwargs) (encErr, args2, kwargs2, decErr)
ensures [W05] decodes: encErr == nil ==> decErr == nil
ensures [W05] decodes_empty: encErr == nil && len(args) == 0 && len(kwargs) == 0 ==> decErr == nil
ensures [W05] nargs: encErr == nil && decErr == nil && !(id == 0 && len(args) == 0) ==> len(args2) == len(args)
ensures [W05] args: encErr == nil && decErr == nil && id != 0 ==> (forall i int :: {old(args2[i])} 0 <= i && i < len(args) ==> cn(old(args[i]), old(args2[i])))
ensures [W05] raw: encErr == nil && id == 0 && len(args) == 1 ==> typeis(args[0], []byte) && typeis(args2[0], []byte) && as(args2[0], []byte) == as(args[0], []byte)
ensures [W05] nkwargs: encErr == nil && decErr == nil && len(kwargs) == 0 ==> len(kwargs2) == 0
ensures [W05] keys: encErr == nil && decErr == nil && id != 0 ==> (forall k string :: {old(k in kwargs2)} old(k in kwargs2) <==> old(k in kwargs))
ensures [W05] kwargs: encErr == nil && decErr == nil && id != 0 ==> (forall k string :: {old(kwargs2[k])} old(k in kwargs) ==> cn(old(kwargs[k]), old(kwargs2[k])))

fn serializers.vhCBOR(args, kwargs) (encErr, args2, kwargs2, decErr)
ensures [W05] decodes: encErr == nil ==> decErr == nil
ensures [W05] nargs: encErr == nil ==> len(args2) == len(args)
ensures [W05] args: encErr == nil ==> (forall i int :: {old(args2[i])} 0 <= i && i < len(args) ==> cn(old(args[i]), old(args2[i])))
ensures [W05] nkwargs: encErr == nil && len(kwargs) == 0 ==> len(kwargs2) == 0
ensures [W05] keys: encErr == nil ==> (forall k string :: {old(k in kwargs2)} old(k in kwargs2) <==> old(k in kwargs))
ensures [W05] kwargs: encErr == nil ==> (forall k string :: {old(kwargs2[k])} old(k in kwargs) ==> cn(old(kwargs[k]), old(kwargs2[k])))
