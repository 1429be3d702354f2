------------------------------ MODULE XrfModel ------------------------------
(* skbeam.core.fitting.xrf_model.ModelSpectrum: which peaks the model of an   *)
(* element is made of, and where each of their parameters comes from.         *)
(* A case is a series ("K", "L", "M"), or a "user" or "pileup" peak, the      *)
(* lines of the series that the beam excites (1 the first, 2 the second, 3    *)
(* any other), the parameters the user has, <<line, what>>, and the bound on  *)
(* those. Values have sources:                                                *)
(*   "std"      the standard value: no shift, ratio 1, the area asked for     *)
(*   <<l, w>>   the user's parameter w of line l                              *)
EXTENDS Out, FiniteSets, SequencesExt
CONSTANTS Kinds, Bounds
VARIABLES kind, lines, has, bnd
vars == <<kind, lines, has, bnd>>
Series == {"K", "L", "M"}
What == {"pos", "width", "ratio"}
Own(ls) == {<<1, "area">>} \cup {<<l, w>> : l \in ls, w \in What}
Init == /\ kind \in Kinds
        /\ lines \in IF kind \in Series THEN {{}, {1}, {1, 2}, {1, 3}, {1, 2, 3}, {2, 3}} ELSE {{1}}
        /\ has \in SUBSET Own(lines)
        /\ bnd \in Bounds
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
\* a series counts as excited by its first line; the others go with it
Peaks == IF 1 \in lines THEN lines ELSE {}
Src(l, w) == IF <<l, w>> \in has THEN <<l, w>> ELSE <<0, "std">>
\* Ka2 sits on Ka1: shift and width of the pair are those of Ka1
Lead(l, w) == IF kind = "K" /\ l = 2 /\ w \in {"pos", "width"} THEN 1 ELSE l
\* all areas of a series are tied to that of the first line
Source(l, w) == IF w = "area" THEN Src(1, "area") ELSE Src(Lead(l, w), w)
Tied(l, w) == (w = "area" /\ l # 1) \/ Lead(l, w) # l
\* may it move in a fit: areas do unless bound; the others only if let
Free(l, w) == IF Tied(l, w) THEN FALSE
              ELSE IF <<l, w>> \in has THEN bnd # "fixed" ELSE w = "area"
Row(l) == [line |-> l,
           src |-> [w \in What \cup {"area"} |-> Source(l, w)],
           free |-> [w \in What \cup {"area"} |-> Free(l, w)],
           tied |-> [w \in What \cup {"area"} |-> Tied(l, w)]]
Rows == [i \in 1 .. Cardinality(Peaks) |-> Row(SetToSortSeq(Peaks, <)[i])]
\* one area is free at most; a parameter of the user's acts on a peak, unless
\* that peak follows another one
OneArea == Cardinality({l \in Peaks : Free(l, "area")}) <= 1
Acts == \A k \in has : k[1] \in Peaks =>
          \/ Lead(k[1], k[2]) # k[1]
          \/ \E l \in Peaks : Source(l, k[2]) = k
Only == \A l \in Peaks, w \in What \cup {"area"} : Source(l, w)[1] \in {0, l, 1}
Report == Emit([kind |-> kind, lines |-> SetToSortSeq(lines, <), has |-> SetToSeq(has), bound |-> bnd, rows |-> Rows])
=============================================================================
