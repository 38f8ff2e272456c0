---- MODULE Word64Test ----
EXTENDS Word64, TLC, Json
V == JsonDeserialize("w64.json")
Check(v) ==
 LET a == v.a
     b == v.b IN
  /\ WAdd(a,b) = v.add /\ WSub(a,b) = v.sub /\ WMul(a,b) = v.mul
  /\ WAnd(a,b) = v.and /\ WOr(a,b) = v.or /\ WLt(a,b) = v.lt /\ WULt(a,b) = v.ult
  /\ (v.dv => (WSDiv(a,b) = v.div /\ WSRem(a,b) = v.rem))
  /\ WShl(a,v.s) = v.shl /\ WSar(a,v.s) = v.sar
  /\ (WSmall(a) => WFrom(WInt(a)) = a) /\ WDigits(a,10) = v.dec /\ WDigits(a,8)=v.oct
ASSUME \A i \in DOMAIN V : IF Check(V[i]) THEN TRUE ELSE PrintT(<<"BAD", V[i]>>) = FALSE
VARIABLE x
Init == x = 0
Next == UNCHANGED x
====
