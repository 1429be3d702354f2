------------------------------ MODULE BinCalls ------------------------------
(* The life of a binned-statistic object after its bins are fixed: it is      *)
(* called with new values, with its own statistic or with another one for     *)
(* this call only; its statistic is replaced; a senseless one is refused.     *)
(* What was handed out stays as it was.                                       *)
EXTENDS Out, Sequences, Integers
CONSTANTS Stats, MaxLen
VARIABLES own, hist, answers
vars == <<own, hist, answers>>
Init == own = 1 /\ hist = << >> /\ answers = << >>
Call == /\ hist' = Append(hist, <<"call", 0>>) /\ answers' = Append(answers, own) /\ UNCHANGED own
CallWith(s) == /\ hist' = Append(hist, <<"with", s>>) /\ answers' = Append(answers, s) /\ UNCHANGED own
Replace(s) == /\ hist' = Append(hist, <<"set", s>>) /\ answers' = Append(answers, 0) /\ own' = s
Refused == /\ hist' = Append(hist, <<"bad", 0>>) /\ answers' = Append(answers, 0) /\ UNCHANGED own
Next == Len(hist) < MaxLen /\ (Call \/ Refused \/ \E s \in 1 .. Stats : CallWith(s) \/ Replace(s))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* declarative: a call answers with what it asks for, else with what was set last
LastSet(n) == LET S == {k \in 1 .. n : hist[k][1] = "set"}
              IN IF S = {} THEN 1 ELSE hist[CHOOSE k \in S : \A j \in S : j <= k][2]
Answered == \A n \in DOMAIN hist :
   answers[n] = CASE hist[n][1] = "with" -> hist[n][2]
                  [] hist[n][1] = "call" -> LastSet(n)
                  [] OTHER -> 0
\* what has been handed out is never taken back
Kept == [][SubSeq(answers', 1, Len(answers)) = answers]_vars
Report == Len(hist) = MaxLen => Emit([hist |-> hist, answers |-> answers])
=============================================================================
