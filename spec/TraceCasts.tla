------------------------------ MODULE TraceCasts ------------------------------
(* Conversions of attribute values, comparisons and bit operations of the     *)
(* real code, each decided against Casts, Bits and BigNat.                    *)
EXTENDS Casts, BigNat, Json, TLC, TLCExt, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLE l
vars == <<l>>
Init == l = Start
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1

TNew == Is("new")
\* a value of type f asked for as type t; the same type is allowed where the code allows it
TCast == Is("cast") /\
  IF ev.f = ev.t THEN ev.ok => ev.out = ev.in
  ELSE ev.ok /\ Supported(ev.f, ev.t) /\ ConvertedOK(ev.f, ev.t, ev.in, ev.out)
\* many values of a scalar type at once
TCasts == Is("casts") /\ ev.ok /\ Supported(ev.f, ev.t) /\ Len(ev.out) = Len(ev.in)
  /\ \A i \in DOMAIN ev.in : CastOK(ev.f, ev.t, ev.in[i], ev.out[i])
\* whether a conversion is offered at all
TPair == Is("pair") /\ ev.ok = Supported(ev.f, ev.t)
\* equal attributes need no converter
TSame == Is("same") /\ ev.none

Pairwise(op(_, _, _, _)) == Len(ev.r) = Len(ev.a) /\ \A i \in DOMAIN ev.a : op(ElemOf[ev.t], ev.a[i], ev.b[i], ev.r[i])
TInf == Is("inf") /\ Pairwise(IsInf)
TSup == Is("sup") /\ Pairwise(IsSup)
TBool == Is("minmaxbool") /\ ev.inf = (ev.a /\ ev.b) /\ ev.sup = (ev.a \/ ev.b)

TAlign == Is("align") /\
  IF ev.ok THEN IsAligned(ev.x, ev.a, ev.q, ev.r) ELSE ~AlignedFits(ev.x, ev.a, ev.q, Pow2(ev.w))
TExpand == Is("expand") /\ ev.r = Spread3(ev.x)
TReverse == Is("reverse") /\ ev.r = Reversed(ev.x)

Next == TNew \/ TCast \/ TCasts \/ TPair \/ TSame \/ TInf \/ TSup \/ TBool \/ TAlign \/ TExpand \/ TReverse
Spec == Init /\ [][Next]_vars
TypeOK == TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
