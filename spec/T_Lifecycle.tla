----------------------------- MODULE T_Lifecycle -----------------------------
(* C14: histories of the design model Lifecycle, replayed into real objects.      *)
(* Its variables are observed as: store and handed - the digests of everything the *)
(* object holds or has handed out, after every step; answers - the outcome of each *)
(* request next to the outcome of the same request on a fresh object.              *)
EXTENDS TraceKit, Num

Same(x, y, circ) == Len(x) = Len(y) /\ \A i \in DOMAIN x :
                      x[i] = y[i] \/ Near(x[i], y[i], 100) \/ (circ /\ CircNear(x[i], y[i], 100000, 100))
FreshAnswer(s, circ) == s.stable => /\ s.ok = s.fok
                                    /\ s.ok => Same(s.res, s.fres, circ)
                                    /\ ~s.ok => s.exc = s.fexc
                                    /\ s.warn = s.fwarn

JudgeLife(e) ==
    LET Steps == DOMAIN e.steps
        changed == {e.names[i] : i \in {i \in 1..Len(e.digests[1]) : \E s \in Steps : e.digests[s + 1][i] # e.digests[s][i] /\ i \notin Range(e.steps[s].touched)}} \cup
                   {e.names[i] : i \in {i \in DOMAIN e.names : \E s \in Steps : i <= Len(e.digests[s]) /\ e.digests[s + 1][i] # e.digests[s][i] /\ i \notin Range(e.steps[s].touched)}}
        wrong == {s \in Steps : ~FreshAnswer(e.steps[s], e.circ)}
    IN << <<"every step is observed", Len(e.digests) = Len(e.steps) + 1 /\ Len(e.names) = Len(e.digests[Len(e.digests)])>>,
          <<"only the user writes", \A s \in Steps : e.steps[s].op = "write" \/ e.steps[s].touched = <<>> >>,
          <<"nothing that is held or was handed out changes: " \o ToString(changed), changed = {}>>,
          <<"every request is answered as by a fresh object: steps " \o ToString(wrong), wrong = {}>>,
          <<"a class that does not exist cannot be asked for", \A s \in Steps : e.steps[s].kind = "missing" => ~e.steps[s].ok>>,
          <<"fresh objects still answer as before", \A i \in DOMAIN e.late : FreshAnswer(e.late[i], e.circ)>> >>

JudgePure(e) ==
    << <<e.what \o " works: " \o e.exc, e.ok /\ e.ok2 /\ e.ok3>>,
       <<e.what \o " leaves its arguments alone", e.before = e.after /\ e.before = e.finally>>,
       <<e.what \o " gives the same again", Same(e.first, e.second, FALSE) /\ Same(e.first, e.third, FALSE)>>,
       <<e.what \o " never changes what it returned earlier", \A i \in DOMAIN e.result : e.result[i] = e.result[1]>>,
       <<e.what \o " gives the same again after the user wrote into what it returned", Same(e.first, e.fourth, FALSE)>>,
       <<e.what \o " answers for what its arguments contain now", e.okturned /\ Same(e.turned, e.fresh, FALSE)>> >>

MyJudge(e) == CASE e.kind = "life" -> JudgeLife(e)
                [] e.kind = "pure" -> JudgePure(e)
                [] OTHER -> << <<e.what, FALSE>> >>
=============================================================================
