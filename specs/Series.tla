------------------------------- MODULE Series -------------------------------
(* utils.geometric_series: the integration times of a speckle analysis.      *)
EXTENDS Out
CONSTANTS Ratios, MaxN, Firsts
VARIABLES ratio, n, first, series
vars == <<ratio, n, first, series>>
Last(s) == s[Len(s)]
Init == ratio \in Ratios /\ n \in 1 .. MaxN /\ first \in Firsts /\ series = <<first>>
Grow == /\ Last(series) * ratio <= n
        /\ series' = Append(series, Last(series) * ratio)
        /\ UNCHANGED <<ratio, n, first>>
Next == Grow
Spec == Init /\ [][Next]_vars
\* geometric, and as long as the bound allows
Geometric == \A i \in 2 .. Len(series) : series[i] = ratio * series[i-1]
Bounded == Len(series) > 1 => Last(series) <= n
Result == Last(series) * ratio > n => Emit([ratio |-> ratio, n |-> n, first |-> first, series |-> series])
===========================================================================
