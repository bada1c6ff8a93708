# Numeric coercion.
pred isIntKind(i) = typeis(i,int) || typeis(i,int8) || typeis(i,int16) || typeis(i,int32) || typeis(i,int64)
  || typeis(i,uint) || typeis(i,uint8) || typeis(i,uint16) || typeis(i,uint32) || typeis(i,uint64)
pred isFloatKind(i) = typeis(i,float32) || typeis(i,float64)
pred intval(i) = typeis(i,int) ? as(i,int) : typeis(i,int8) ? as(i,int8) : typeis(i,int16) ? as(i,int16) : typeis(i,int32) ? as(i,int32)
  : typeis(i,int64) ? as(i,int64) : typeis(i,uint) ? as(i,uint) : typeis(i,uint8) ? as(i,uint8) : typeis(i,uint16) ? as(i,uint16)
  : typeis(i,uint32) ? as(i,uint32) : as(i,uint64)
pred fltval(i) = typeis(i,float32) ? as(i,float32) : as(i,float64)

fn util.AsUInt64(i) (n, ok)
modular
ensures [W02,W03,W04,W06,I01] only_numbers: ok ==> isIntKind(i) || isFloatKind(i)
ensures [W02,W03,W04,W06,I01] same_int: ok && isIntKind(i) ==> n == intval(i)
ensures [W02,W03,W04,W06,I01] same_float: ok && isFloatKind(i) ==> fcls(fltval(i)) == 0 && nonneg(fltval(i)) && n == trunc(fltval(i))
ensures [W02,W03,W04,W06,I01] in_range: ok ==> 0 <= n && n < 18446744073709551616
ensures [W02,W03,W04,W06,I01] all_ints: isIntKind(i) && 0 <= intval(i) ==> ok
ensures [W02,W03,W04,W06,I01] all_floats: isFloatKind(i) && fcls(fltval(i)) == 0 && 0 <= trunc(fltval(i)) && nonneg(fltval(i)) && trunc(fltval(i)) < 18446744073709551616 ==> ok
ensures [W02,W03,W04,W06,I01] zero: !ok ==> n == 0

fn util.AsInt(i) (n, ok)
modular
ensures [W02,W03,W04,W06,A02] only_numbers: ok ==> isIntKind(i) || isFloatKind(i)
ensures [W02,W03,W04,W06,A02] same_int: ok && isIntKind(i) ==> n == intval(i)
ensures [W02,W03,W04,W06,A02] same_float: ok && isFloatKind(i) ==> fcls(fltval(i)) == 0 && n == trunc(fltval(i))
ensures [W02,W03,W04,W06,A02] all_ints: isIntKind(i) && intval(i) <= 9223372036854775807 ==> ok
ensures [W02,W03,W04,W06,A02] all_floats: isFloatKind(i) && fcls(fltval(i)) == 0 && 0 - 9223372036854775808 < trunc(fltval(i)) && trunc(fltval(i)) < 9223372036854775807 ==> ok
ensures [W02,W03,W04,W06,A02] zero: !ok ==> n == 0

fn util.AnysToStrings(input) (r, err)
modular
ensures [W02,W03,W04] ok_iff: err == nil <==> (forall i int :: 0 <= i && i < len(input) ==> typeis(input[i], string))
ensures [W02,W03,W04] length: err == nil ==> len(r) == len(input) && r != nil
ensures [W02,W03,W04] elements: err == nil ==> (forall i int :: {r[i]} 0 <= i && i < len(input) ==> r[i] == as(input[i], string))
ensures [W02,W03,W04] new: err == nil ==> fresh(r)
allocates []string
loop slice []any
invariant n: len($acc([]string)) == $idx
invariant strs: forall i int :: 0 <= i && i < $idx ==> typeis(input[i], string)
invariant vals: forall i int :: {$acc([]string)[i]} 0 <= i && i < $idx ==> $acc([]string)[i] == as(input[i], string)
invariant frame: unchanged([]string)
invariant fresh: fresh($acc([]string)) && $acc([]string) != nil
invariant n_filled: len($vec([]string)) == len(input)
invariant vals_filled: forall i int :: {$vec([]string)[i]} 0 <= i && i < $idx ==> $vec([]string)[i] == as(input[i], string)
invariant fresh_filled: fresh($vec([]string)) && $vec([]string) != nil
