------------------------------- MODULE RoiStats -------------------------------
(* What is computed from an image stack and a label array: images arrive one  *)
(* after another, each is swept in raster order, every pixel is booked for    *)
(* the region it is labelled with and for the ring of its distance from the   *)
(* centre.  (roi.mean_intensity, roi_pixel_values, kymograph, roi_max_counts, *)
(* extract_label_indices, circular_average; utils.bin_1D)                     *)
(* Ring edges are e[1] < e[2] < ..., in half pixels; the last ring is closed. *)
EXTENDS Out, FiniteSets, FiniteSetsExt
CONSTANTS Cases
VARIABLES c, n, p, pix, maxc, ring, lst
vars == <<c, n, p, pix, maxc, ring, lst>>

Case == Cases[c]
NPix == Case.nr * Case.nc
Lab(k) == Case.lab[k]
Ids == {Lab(k) : k \in 1 .. NPix} \ {0}
Row(k) == (k - 1) \div Case.nc
Col(k) == (k - 1) % Case.nc
\* half pixels; pixels of height ph and width pw
Dy(k) == Case.ph * ((2 * Row(k)) - Case.cr)
Dx(k) == Case.pw * ((2 * Col(k)) - Case.cc)
D2(k) == (Dy(k) * Dy(k)) + (Dx(k) * Dx(k))
NE == Len(Case.edges)
InRing(k, j) == /\ D2(k) >= (Case.edges[j] * Case.edges[j])
                /\ (D2(k) < (Case.edges[j+1] * Case.edges[j+1]) \/ (j = NE - 1 /\ D2(k) = (Case.edges[j+1] * Case.edges[j+1])))
RingOf(k) == {j \in 1 .. NE - 1 : InRing(k, j)}

Init == /\ c \in 1 .. Len(Cases)
        /\ n = 1 /\ p = 1
        /\ pix = [i \in 1 .. Len(Cases[c].imgs) |-> << >>]
        /\ maxc = 0
        /\ ring = [j \in 1 .. Len(Cases[c].edges) - 1 |-> <<0, 0>>]
        /\ lst = << >>
Sweep ==
    /\ n <= Len(Case.imgs) /\ p <= NPix
    /\ LET v == Case.imgs[n][p]
           l == Lab(p)
       IN /\ pix' = IF l = 0 THEN pix ELSE [pix EXCEPT ![n] = Append(@, <<l, v>>)]
          /\ maxc' = IF l > 0 /\ v > maxc THEN v ELSE maxc
          \* the ring average is that of the first image
          /\ ring' = IF n = 1 /\ Case.use[p]
                     THEN [j \in DOMAIN ring |-> IF j \in RingOf(p) THEN <<ring[j][1] + v, ring[j][2] + 1>> ELSE ring[j]]
                     ELSE ring
          /\ lst' = IF n = 1 /\ l > 0 THEN Append(lst, <<l, p - 1>>) ELSE lst
    /\ p' = p + 1
    /\ UNCHANGED <<c, n>>
NextImage == n <= Len(Case.imgs) /\ p > NPix /\ n' = n + 1 /\ p' = 1 /\ UNCHANGED <<c, pix, maxc, ring, lst>>
Next == Sweep \/ NextImage
Spec == Init /\ [][Next]_vars

Done == n > Len(Case.imgs)
\* every labelled pixel is booked once per image, rings do not share pixels
Booked == Done => \A i \in 1 .. Len(Case.imgs) : Len(pix[i]) = Cardinality({k \in 1 .. NPix : Lab(k) # 0})
OneRing == \A k \in 1 .. NPix : Cardinality(RingOf(k)) <= 1
Raster == \A i \in 2 .. Len(lst) : lst[i - 1][2] < lst[i][2]
Report == Done => Emit([case |-> c, pix |-> pix, maxc |-> maxc, ring |-> ring, lst |-> lst])
===============================================================================
