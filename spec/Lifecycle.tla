------------------------------- MODULE Lifecycle -------------------------------
(* A coordinate object and its user over time, with a store of arrays that may be  *)
(* shared.  Requests read the object's cocycles; what is reported may alias the    *)
(* object's own arrays; results are new arrays.  Nothing that was handed out, and  *)
(* nothing the object holds, changes any more; and the answer to a request is a    *)
(* function of the request alone.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Classes,     \* indices of the classes of the object
          Requests,    \* kinds of requests: each reads some class with some parameters
          Utils,       \* kinds of pure utility calls, on something handed out earlier
          MaxLen,
          Copies,      \* does a request work on a copy of the cocycle it reads?
          Memory       \* answers are not remembered ("none"), or remembered and handed out again as a copy ("copied") or as such ("shared")

VARIABLES store,       \* address -> value
          own,         \* class -> address of the object's cocycle
          handed,      \* what was handed out: set of <<address, value then>>
          answers,     \* set of <<request, class, value returned>>
          memory,      \* <<request, class>> -> address of a remembered answer
          hist
vars == <<store, own, handed, answers, memory, hist>>

Raw(k) == <<"cocycle", k>>
Lifted(v) == <<"lifted", v>>                  \* lifting twice is lifting once
LiftOf(v) == IF v[1] = "lifted" THEN v ELSE Lifted(v)
Answer(r, v) == <<"coordinates", r, LiftOf(v)>>
Fails(r) == r \in {"infeasible", "missing"}
New(s) == Cardinality(DOMAIN s) + 1

Init == /\ own = [k \in Classes |-> k]
        /\ store = [a \in Classes |-> Raw(a)]
        /\ handed = {} /\ answers = {} /\ memory = <<>> /\ hist = <<>>

Did(x) == Len(hist) < MaxLen /\ hist' = Append(hist, x)
Request(r, k) ==
    /\ Did(<<"request", r, k>>)
    /\ IF Fails(r) THEN UNCHANGED <<store, own, handed, answers, memory>>
       ELSE LET known == <<r, k>> \in DOMAIN memory
                s1 == IF Copies \/ known THEN store ELSE [store EXCEPT ![own[k]] = LiftOf(@)]
                v == IF known THEN store[memory[<<r, k>>]] ELSE Answer(r, s1[own[k]])
                a == IF known /\ Memory = "shared" THEN memory[<<r, k>>] ELSE New(s1)
                s2 == (a :> v) @@ s1
                b == IF Memory = "shared" THEN a ELSE New(s2)
                remember == Memory # "none" /\ ~known
            IN /\ store' = IF remember THEN (b :> v) @@ s2 ELSE s2
               /\ memory' = IF remember THEN (<<r, k>> :> b) @@ memory ELSE memory
               /\ handed' = {h \in handed : h[1] # a} \cup {<<a, v>>}
               /\ answers' = answers \cup {<<r, k, v>>}
               /\ UNCHANGED own
Report(k) == /\ Did(<<"report", "cocycle", k>>)
             /\ handed' = handed \cup {<<own[k], store[own[k]]>>}
             /\ UNCHANGED <<store, own, answers, memory>>
Pure(u) == /\ handed # {} /\ Did(<<"util", u, 0>>)
           /\ LET h == CHOOSE h \in handed : \A g \in handed : g[1] <= h[1]
                  a == New(store)
                  v == <<u, store[h[1]]>>
              IN store' = (a :> v) @@ store /\ handed' = handed \cup {<<a, v>>}
           /\ UNCHANGED <<own, answers, memory>>
(* the user writes into the coordinates that were handed out last: they are his      *)
Coords == {h \in handed : h[2][1] = "coordinates"}
Write == /\ Coords # {} /\ Did(<<"write", "result", 0>>)
         /\ LET h == CHOOSE h \in Coords : \A g \in Coords : g[1] <= h[1]
                v == <<"coordinates", "written", h[2][3]>>
            IN store' = [store EXCEPT ![h[1]] = v] /\ handed' = (handed \ {h}) \cup {<<h[1], v>>}
         /\ UNCHANGED <<own, answers, memory>>
Next == \/ \E r \in Requests, k \in Classes : Request(r, k)
        \/ \E k \in Classes : Report(k)
        \/ \E u \in Utils : Pure(u)
        \/ Write
Spec == Init /\ [][Next]_vars

HandedOutStays == \A h \in handed : store[h[1]] = h[2]
ObjectStays == \A k \in Classes : store[own[k]] = Raw(k)
SameAnswer == \A x, y \in answers : (x[1] = y[1] /\ x[2] = y[2]) => x[3] = y[3]
FreshAnswer == \A x \in answers : x[3] = Answer(x[1], Raw(x[2]))
(* for the replay of every history into the code                                    *)
Emit == hist = <<>> \/ PrintT("HISTORY " \o ToJson(hist))
=============================================================================
