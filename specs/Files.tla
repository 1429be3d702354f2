------------------------------- MODULE Files --------------------------------
(* Writing patterns and masks as operations on a directory: a request that is *)
(* carried out changes exactly the file it names, to what it was given; one   *)
(* that is refused changes nothing.                                           *)
(* An operation: [op |-> "save" | "refuse" | "read", file, data]              *)
EXTENDS Out, SequencesExt, FiniteSetsExt
CONSTANTS Cases, Names
VARIABLES c, k, dir, log
vars == <<c, k, dir, log>>
S == Cases[c]
Init == c \in 1 .. Len(Cases) /\ k = 0 /\ dir = [n \in Names |-> 0] /\ log = <<>>
Op == S[k + 1]
Do == /\ k < Len(S)
      /\ dir' = (IF Op.op = "save" THEN [dir EXCEPT ![Op.file] = Op.data] ELSE dir)
      /\ log' = Append(log, dir')
      /\ k' = k + 1 /\ UNCHANGED c
Spec == Init /\ [][Do]_vars
Refused == [][Op.op # "save" => dir' = dir]_vars
OnlyOne == [][\A n \in Names : n # Op.file => dir'[n] = dir[n]]_vars
LastWins == \A n \in Names : \/ dir[n] = 0 /\ \A i \in 1 .. k : ~(S[i].op = "save" /\ S[i].file = n)
                             \/ \E i \in 1 .. k : /\ S[i].op = "save" /\ S[i].file = n /\ S[i].data = dir[n]
                                                  /\ \A j \in (i + 1) .. k : ~(S[j].op = "save" /\ S[j].file = n)
Report == k = Len(S) => Emit([case |-> c, log |-> log])
=============================================================================
