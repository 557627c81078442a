------------------------------ MODULE TraceBase ------------------------------
(* Reading a recorded execution of the implementation.  A trace is a sequence *)
(* of events; Ev(l) is the event to be explained by the next step.            *)
EXTENDS Json, IOUtils, TLC, Sequences, Integers, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
TraceInit == l = 1
(* what computations said about their handler: the cause of a cancelation is an *)
(* event at which the handler asked to stop, and there is none on success       *)
GoodStates(ss) == \A i \in DOMAIN ss :
  IF ss[i].ok THEN ss[i].cause = "Nothing"
  ELSE \E j \in DOMAIN ss[i].refused : ss[i].refused[j] = ss[i].cause
IsEvent(op) == /\ l <= Len(Trace) /\ e.op = op
               /\ ("states" \in DOMAIN e => GoodStates(e.states)) = TRUE
               /\ l' = l + 1
(* a backbone as one list of literals and as a formula                          *)
BackboneForms(b) ==
  LET all == {b.pos[i] : i \in DOMAIN b.pos} \cup {-b.neg[i] : i \in DOMAIN b.neg}
      ast(x) == IF x > 0 THEN <<2, x>> ELSE <<3, -x>> IN
  /\ {b.all[i] : i \in DOMAIN b.all} = all /\ Len(b.all) = Cardinality(all)
  /\ IF ~b.sat THEN b.form = <<0>> ELSE IF all = {} THEN b.form = <<1>>
     ELSE IF Cardinality(all) = 1 THEN \A x \in all : b.form = ast(x)
     ELSE /\ b.form[1] = 5 /\ Len(b.form) = Cardinality(all) + 1
          /\ {b.form[i] : i \in 2..Len(b.form)} = {ast(x) : x \in all}
(* the trace is accepted iff the specification explains all its events *)
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
