--------------------------- MODULE TraceEncoding ---------------------------
(* Explains recorded encodings of constraints by the real encoders.           *)
EXTENDS Encoding, TraceBase

tvars == <<l, n, C, W, inc>>
Init == TraceInit /\ EncodingInit
TBegin == IsEvent("begin") /\ NewSession(e.n)
TEncode == IsEvent("encode") /\ Encode(e.f, e.cs) /\ UNCHANGED inc
TStart == IsEvent("start") /\ Start(e.kind, e.b, e.lits, e.cs, e.ok)
TTighten == IsEvent("tighten") /\ Tighten(e.b, e.cs)
TRefuse == IsEvent("refused") /\ Refuse(e.b)
(* large constraints stand alone *)
TWide == IsEvent("wide") /\ GoodWide(e.f, e.cs, e.m, Range(e.ks), Range(e.starts), e.pairs) = TRUE /\ UNCHANGED evars
TPoints == IsEvent("points") /\ GoodPoints(e.f, e.cs, e.m, e.pts) = TRUE /\ UNCHANGED evars
TWideStart == IsEvent("wstart") /\ WideStart(e.kind, e.b, e.lits, e.cs, e.m, e.pts)
TWideTighten == IsEvent("wtighten") /\ WideTighten(e.b, e.cs, e.m, e.pts)
Next == TBegin \/ TEncode \/ TStart \/ TTighten \/ TRefuse \/ TWide
        \/ TPoints \/ TWideStart \/ TWideTighten
=============================================================================
