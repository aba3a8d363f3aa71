--------------------------------- MODULE Dials ---------------------------------
(* An object asked again and again while one parameter of the request is turned at  *)
(* a time.  An implementation may remember intermediate results under a key made of  *)
(* some of the parameters: the answers stay right only if the key has all of them.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Params, MaxLen,
          Keyed              \* the parameters that memory is looked up by

VARIABLES setting, memory, answers, hist
vars == <<setting, memory, answers, hist>>

Answer(s) == <<"coordinates", s>>              \* what a fresh object answers
KeyOf(s) == [d \in Keyed |-> s[d]]
Asked(s, m) == IF KeyOf(s) \in DOMAIN m THEN m[KeyOf(s)] ELSE Answer(s)
Remember(s, m) == (KeyOf(s) :> Asked(s, m)) @@ m

Zero == [d \in Params |-> 0]
Init == /\ setting = Zero /\ hist = <<>>
        /\ memory = Remember(Zero, <<>>) /\ answers = {<<Zero, Answer(Zero)>>}
Turn(d) == /\ Len(hist) < MaxLen
           /\ setting' = [setting EXCEPT ![d] = 1 - @]
           /\ answers' = answers \cup {<<setting', Asked(setting', memory)>>}
           /\ memory' = Remember(setting', memory)
           /\ hist' = Append(hist, d)
Next == \E d \in Params : Turn(d)
Spec == Init /\ [][Next]_vars

FreshAnswers == \A x \in answers : x[2] = Answer(x[1])
MemoryIsRight == \A x \in answers : Asked(x[1], memory) = Answer(x[1])
Emit == Len(hist) < MaxLen \/ PrintT("HISTORY " \o ToJson(hist))
=============================================================================
