----------------------------- MODULE TraceDimacs -----------------------------
(* Explains recorded reading and writing of clause files by Dimacs.           *)
EXTENDS Dimacs, TraceBase
VARIABLE n
Init == TraceInit /\ n = 0
Query(p) == (p) = TRUE /\ UNCHANGED n
TBegin == IsEvent("begin") /\ n' = e.n
TRead == IsEvent("read") /\ Query(GoodRead(e.lines, e.err, e.fs, n))
TWrite == IsEvent("write") /\ Query(/\ GoodWrite(e.f, e.err, e.lines, e.map, n)
                                    /\ ~e.err => GoodRead(e.lines, e.rerr, e.back, n))
TReadWide == IsEvent("readwide") /\ Query(GoodReadWide(e.lines, e.err, e.fs))
TWriteWide == IsEvent("writewide") /\ Query(/\ GoodWriteWide(e.f, e.err, e.lines, e.map)
                                            /\ ~e.err => GoodReadWide(e.lines, e.rerr, e.back))
TMax == IsEvent("max") /\ Query(GoodMax(e.lines, e.err, e.costs, n))
Next == TBegin \/ TRead \/ TWrite \/ TMax \/ TReadWide \/ TWriteWide
=============================================================================
