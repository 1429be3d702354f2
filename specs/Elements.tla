------------------------------ MODULE Elements ------------------------------
(* skbeam.core.constants: powder standards, search of emission lines, and     *)
(* energy-dependent quantities of an element that can be set to a new energy. *)
EXTENDS Out, FiniteSets, SequencesExt
CONSTANTS Cases, Lines, Energies, NH
\* Lines: sequence of <<Z, line number, energy, excited up to...>> rows, one per
\* line an element has; <<z, k, e, edge>>: the line is emitted if the incident
\* energy has a cross section; edge is a set of energy numbers, as a sequence.
VARIABLES mode, c, en, hist
vars == <<mode, c, en, hist>>
A == Cases[c]
Abs(x) == IF x < 0 THEN -x ELSE x
Member(x, s) == \E i \in 1 .. Len(s) : s[i] = x
\* emission_line_search
Hit(i) == /\ Abs(Lines[i][3] - A.e) < A.delta
          /\ Member(A.inc, Lines[i][4])
          /\ (Len(A.only) = 0 \/ Member(Lines[i][1], A.only))
Hits == {<<Lines[i][1], Lines[i][2]>> : i \in {j \in 1 .. Len(Lines) : Hit(j)}}
\* PowderStandard: a reflection per spacing, by increasing q, so by decreasing d
Refl == SortSeq([i \in 1 .. Len(A.d) |-> <<A.d[i], A.hkl[i]>>], LAMBDA a, b : a[1] > b[1])

Init == \/ mode = "case" /\ c \in 1 .. Len(Cases) /\ en = 0 /\ hist = <<>>
        \/ mode = "object" /\ c = 0 /\ en \in 1 .. Energies /\ hist = <<<<"new", en>>>>
Set(k) == en' = k /\ hist' = Append(hist, <<"set", k>>)
Read == en' = en /\ hist' = Append(hist, <<"read", en>>)
Next == /\ mode = "object" /\ Len(hist) < NH /\ UNCHANGED <<mode, c>>
        /\ ((\E k \in 1 .. Energies : Set(k)) \/ Read)
Spec == Init /\ [][Next]_vars
\* a read answers for the energy set last
LastSet(i) == \E j \in 1 .. i : hist[j][1] # "read" /\ hist[j][2] = hist[i][2] /\ \A k \in j + 1 .. i : hist[k][1] = "read"
ReadsLast == \A i \in 1 .. Len(hist) : LastSet(i)
Sorted == mode = "case" /\ A.op = "standard" => \A i, j \in 1 .. Len(Refl) : i < j => Refl[i][1] > Refl[j][1]
Report == IF mode = "object" THEN (Len(hist) < NH \/ Emit([hist |-> hist]))
          ELSE Emit([case |-> c, ans |-> IF A.op = "search" THEN SetToSeq(Hits) ELSE Refl])
=============================================================================
