-------------------------------- MODULE Gsas --------------------------------
(* Powder patterns in GSAS files (skbeam.io.gsas_writer, gsas_reader).        *)
(* A file is a header and records of at most Per(mode) cells; a cell holds a  *)
(* channel: its intensity (and, but for STD, its error), divided by the power *)
(* of ten that makes all of them fit into their places.          FXYE keeps   *)
(* ten decimals, the others whole numbers.                                    *)
(* The writer fills records channel by channel; the reader goes through the   *)
(* records cell by cell until it has as many channels as the header says.     *)
EXTENDS Out, SequencesExt, FiniteSetsExt
CONSTANTS Cases
VARIABLES c, phase, recs, next, rec, cell, got
vars == <<c, phase, recs, next, rec, cell, got>>
A == Cases[c]
N == Len(A.val)
Per == IF A.mode = "STD" THEN 10 ELSE IF A.mode = "ESD" THEN 5 ELSE 1
Width == IF A.mode = "STD" THEN 8 ELSE IF A.mode = "ESD" THEN 16 ELSE 68
Top == Max({A.val[i] : i \in 1 .. N})
Pow(k) == 10 ^ k
Low == Max({0 - A.val[i] : i \in 1 .. N})
MaxErr == Max({A.err[i] : i \in 1 .. N})
Up(v, k) == (v \div Pow(k)) + (IF (v % Pow(k)) = 0 THEN 0 ELSE 1)
\* six places, one of them for the sign of a negative value; eight for errors
OK(k) == /\ Up(Top, k) <= 999999
         /\ Up(Low, k) <= 99999
         /\ (A.mode = "ESD" => Up(MaxErr, k) <= 99999999)
Exp == CHOOSE k \in 0 .. 5 : OK(k) /\ \A j \in 0 .. (k - 1) : ~OK(j)
\* nearest whole numbers (two of them for a tie)
Nearest(v, p) == IF A.mode = "FXYE" THEN {v}
              ELSE LET q == v \div p  r == v % p
                   IN IF (2 * r) < p THEN {q} ELSE IF (2 * r) > p THEN {q + 1} ELSE {q, q + 1}

Init == /\ c \in 1 .. Len(Cases) /\ phase = "write" /\ recs = <<>> /\ next = 1
        /\ rec = 1 /\ cell = 1 /\ got = <<>>
Put == /\ phase = "write" /\ next <= N
       /\ (IF recs = <<>> \/ Len(recs[Len(recs)]) = Per
           THEN recs' = Append(recs, <<next>>)
           ELSE recs' = [recs EXCEPT ![Len(recs)] = Append(@, next)])
       /\ next' = next + 1
       /\ UNCHANGED <<c, phase, rec, cell, got>>
Close == phase = "write" /\ next > N /\ phase' = "read" /\ UNCHANGED <<c, recs, next, rec, cell, got>>
Take == /\ phase = "read" /\ Len(got) < N
        /\ got' = Append(got, [ch |-> recs[rec][cell], rec |-> rec, at |-> Width * (cell - 1)])
        /\ (IF cell = Per THEN (rec' = rec + 1 /\ cell' = 1) ELSE (rec' = rec /\ cell' = cell + 1))
        /\ UNCHANGED <<c, phase, recs, next>>
Next == Put \/ Close \/ Take
Spec == Init /\ [][Next]_vars
Ended == phase = "read" /\ Len(got) = N
Full == \A i \in 1 .. (Len(recs) - 1) : Len(recs[i]) = Per
RoundTrip == \A i \in 1 .. Len(got) : got[i].ch = i
Fits == Ended => LET p == TLCEval(Pow(Exp))
                 IN \A i \in 1 .. N :
                      /\ \A v \in Nearest(A.val[i], p) : A.mode = "FXYE" \/ (v <= 999999 /\ v >= -99999)
                      /\ \A w \in Nearest(A.err[i], p) : A.mode # "ESD" \/ w <= 99999999
Report == Ended => LET e == TLCEval(Exp)  p == TLCEval(Pow(e))
                   IN Emit([case |-> c, nrec |-> Len(recs), exp |-> e, cells |-> got,
                            val |-> [i \in 1 .. N |-> SetToSeq(Nearest(A.val[i], p))],
                            err |-> [i \in 1 .. N |-> SetToSeq(Nearest(A.err[i], p))]])
=============================================================================
