------------------------------- MODULE TraceKit -------------------------------
(* Trace validation: one recorded event is consumed per step, and judged by   *)
(* Judge, which the root module supplies from the specification's own          *)
(* operators and actions.  Judge(e) is the sequence of named clauses the       *)
(* specification imposes on e.  The verdict is total: every event is consumed, *)
(* and every clause that fails is reported with its event.                     *)
EXTENDS Integers, Sequences, SequencesExt, TLC, TLCExt, Json, IOUtils

CONSTANT Judge(_)

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, rejected
vars == <<l, rejected>>

Failing(e) == SelectSeq(Judge(e), LAMBDA c : ~c[2])

TraceInit == l = 1 /\ rejected = 0

Consume ==
    /\ l <= Len(Log)
    /\ LET e == Log[l]
           f == TLCEval(Failing(e))
       IN IF f = <<>>
          THEN rejected' = rejected
          ELSE /\ PrintT("REJECT " \o ToJson([line |-> l, id |-> e.id,
                               clauses |-> [i \in DOMAIN f |-> f[i][1]]]))
               /\ rejected' = rejected + 1
    /\ l' = l + 1

TraceSpec == TraceInit /\ [][Consume]_vars

TraceAccepted ==
    PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Log)))
=============================================================================
