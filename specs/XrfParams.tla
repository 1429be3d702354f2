----------------------------- MODULE XrfParams ------------------------------
(* skbeam.core.fitting.xrf_model.ParamController: the parameters of a         *)
(* fluorescence fit and what the user does to them.                           *)
(*   Elems    the peaks a history may use: kind ("real", "user", "pileup")    *)
(*            and, of real ones, how many of their lines are excited: none,   *)
(*            the first (1), or the first and the others (2)                  *)
(*   NB       number of parameters the fit has without any peak               *)
(*   Strats   strategies: [name, new, map], map a sequence of <<key, bound>>; *)
(*            those not new are registered from the start; reg: in force      *)
(*   Plans    histories given; without them, all histories of NH steps        *)
(* A key is <<peak, line, what>>; <<0, i, "base">> the i-th base parameter.   *)
(*   bound    how a parameter may move in a fit; val: 0 the default value of  *)
(*            a peak parameter, or of the base; else number of the change     *)
(*   wish     the bounds asked for by the user, by key                        *)
EXTENDS Out, FiniteSets, SequencesExt, Functions
CONSTANTS Elems, Start, NB, BaseBound, Strats, Kinds, Wishes, NH, Plans
VARIABLES list, bound, val, wish, reg, used, hist, plan
vars == <<list, bound, val, wish, reg, used, hist, plan>>

Empty == [k \in {} |-> ""]
Default(kind) == IF kind = "area" THEN "none" ELSE "fixed"
\* parameters of one kind that a peak has: one area, else one per excited line
Keys(kind, e) == IF kind = "area" THEN {<<e, 1, "area">>}
                 ELSE IF Elems[e].kind = "real" THEN {<<e, l, kind>> : l \in 1 .. Elems[e].lines}
                 ELSE {<<e, 1, kind>>}
Put(f, ks, v) == [k \in ks |-> v] @@ f
Bases == {<<0, i, "base">> : i \in 1 .. NB}
Has(l, e) == \E i \in 1 .. Len(l) : l[i] = e
AllKinds == <<"pos", "width", "area", "ratio">>
\* what remains of the parameters when peak e is (re)made in all kinds given
Made(f, e, ks, g) == FoldFunction(LAMBDA kind, acc : Put(acc, Keys(kind, e), g[kind]), f, ks)
Defs == [kind \in {"pos", "width", "area", "ratio"} |-> Default(kind)]
Zeros == [kind \in {"pos", "width", "area", "ratio"} |-> 0]
RECURSIVE MakeAll(_, _, _)
MakeAll(f, es, g) == IF es = <<>> THEN f ELSE MakeAll(Made(f, Head(es), AllKinds, g), Tail(es), g)

Init == /\ list = Start
        /\ bound = MakeAll([k \in Bases |-> BaseBound[k[2]]], Start, Defs)
        /\ val = MakeAll([k \in Bases |-> 0], Start, Zeros)
        /\ wish = Empty
        /\ reg = {i \in 1 .. Len(Strats) : ~Strats[i].new}
        /\ used = 0 /\ hist = <<>>
        /\ plan \in IF Plans = <<>> THEN {0} ELSE 1 .. Len(Plans)
Log(x) == hist' = Append(hist, x)
\* add_param: the parameter(s) at their defaults; a wish, if any, is noted
Add(kind, e, w) ==
   /\ list' = IF Has(list, e) THEN list ELSE Append(list, e)
   /\ bound' = Put(bound, Keys(kind, e), Default(kind))
   /\ val' = Put(val, Keys(kind, e), 0)
   /\ wish' = IF w = "" THEN wish ELSE Put(wish, Keys(kind, e), w)
   /\ UNCHANGED <<reg, used>> /\ Log(<<"add", kind, e, w>>)
\* update_element_prop: several peaks, several kinds at once
Update(e1, e2, k1, k2, w1, w2) ==
   /\ LET es == IF e1 = e2 THEN <<e1>> ELSE <<e1, e2>>
          l1 == IF Has(list, e1) THEN list ELSE Append(list, e1)
          ks(e) == Keys(k1, e) \cup Keys(k2, e)
          all == UNION {ks(e) : e \in {e1, e2}}
          wk(k) == IF k[3] = k1 THEN w1 ELSE w2
      IN /\ list' = IF Has(l1, e2) THEN l1 ELSE Append(l1, e2)
         /\ bound' = [k \in all |-> Default(k[3])] @@ bound
         /\ val' = [k \in all |-> 0] @@ val
         /\ wish' = [k \in all |-> wk(k)] @@ wish
         /\ Log(<<"update", es, <<k1, k2>>, <<w1, w2>>>>)
   /\ UNCHANGED <<reg, used>>
\* set_strategy: the strategy decides, then the user's wish, else it is fixed
InMap(m, k) == \E i \in 1 .. Len(m) : m[i][1] = k
MapOf(m, k) == m[CHOOSE i \in 1 .. Len(m) : m[i][1] = k][2]
Bound(s, k) == IF InMap(Strats[s].map, k) THEN MapOf(Strats[s].map, k)
               ELSE IF k \in DOMAIN wish THEN wish[k] ELSE "fixed"
Set(s) == /\ s \in reg
          /\ bound' = [k \in DOMAIN bound |-> Bound(s, k)]
          /\ UNCHANGED <<list, val, wish, reg, used>> /\ Log(<<"set", s>>)
\* the user, or a fit, changes values: of one parameter, of all, of the base
Touch(k) == /\ k \in DOMAIN val
            /\ used' = used + 1
            /\ val' = [val EXCEPT ![k] = used + 1]
            /\ UNCHANGED <<list, bound, wish, reg>> /\ Log(<<"touch", k, used + 1>>)
Fit(which) == /\ used' = used + 1
              /\ val' = [k \in DOMAIN val |-> IF which = "all" \/ (k[1] = 0) = (which = "base") THEN used + 1 ELSE val[k]]
              /\ UNCHANGED <<list, bound, wish, reg>> /\ Log(<<"fit", which, used + 1>>)
\* register_strategy; without overwrite, another strategy of that name is refused
Taken(s) == {t \in reg : Strats[t].name = Strats[s].name}
Register(s, over) ==
   /\ LET ok == over \/ Taken(s) \subseteq {s}
      IN /\ reg' = IF ok THEN (reg \ Taken(s)) \cup {s} ELSE reg
         /\ Log(<<"register", s, over, ok>>)
   /\ Strats[s].new /\ UNCHANGED <<list, bound, val, wish, used>>
Es == 1 .. Len(Elems)
Free == /\ Len(hist) < NH
        /\ \/ \E kind \in Kinds, e \in Es, w \in Wishes : Add(kind, e, w)
           \/ \E e1, e2 \in Es, k1, k2 \in Kinds, w1, w2 \in Wishes \ {""} :
                 e1 <= e2 /\ k1 # k2 /\ w1 # w2 /\ Update(e1, e2, k1, k2, w1, w2)
           \/ \E s \in 1 .. Len(Strats) : Set(s) \/ \E over \in BOOLEAN : Register(s, over)
           \/ \E k \in DOMAIN val : Touch(k)
           \/ \E which \in {"all", "base", "peaks"} : Fit(which)
\* a step that is not possible now is left out
Skip == UNCHANGED <<list, bound, val, wish, reg, used>> /\ Log(<<"none">>)
Do(o) == CASE o[1] = "add" -> Add(o[2], o[3], o[4])
           [] o[1] = "update" -> Update(o[2], o[3], o[4], o[5], o[6], o[7])
           [] o[1] = "set" -> IF o[2] \in reg THEN Set(o[2]) ELSE Skip
           [] o[1] = "register" -> IF Strats[o[2]].new THEN Register(o[2], o[3]) ELSE Skip
           [] o[1] = "touch" -> IF o[2] \in DOMAIN val THEN Touch(o[2]) ELSE Skip
           [] o[1] = "fit" -> Fit(o[2])
Next == /\ UNCHANGED plan
        /\ IF plan = 0 THEN Free
           ELSE Len(hist) < Len(Plans[plan]) /\ Do(Plans[plan][Len(hist) + 1])
Spec == Init /\ [][Next]_vars

OneEach == \A s, t \in reg : Strats[s].name = Strats[t].name => s = t
Same == DOMAIN bound = DOMAIN val
\* nothing but the base and parameters of the peaks listed; a peak comes once
Own == /\ Bases \subseteq DOMAIN bound
       /\ \A k \in DOMAIN bound : k[1] = 0 \/ Has(list, k[1])
       /\ \A i, j \in 1 .. Len(list) : i # j => list[i] # list[j]
\* nothing moves that no wish, strategy or default lets move
Fixed == \A k \in DOMAIN bound : bound[k] \notin {"fixed"} /\ k[1] # 0 =>
            \/ k[3] = "area" \/ k \in DOMAIN wish \/ \E s \in 1 .. Len(Strats) : InMap(Strats[s].map, k)
Step == [][ /\ (\A k \in DOMAIN wish : k \in DOMAIN wish')
            /\ (\A s \in reg : \E t \in reg' : Strats[t].name = Strats[s].name)
            /\ (Len(hist') > 0 /\ hist'[Len(hist')][1] = "set" => val' = val)
            /\ (Len(hist') > 0 /\ hist'[Len(hist')][1] \in {"touch", "fit"} => bound' = bound) ]_vars
AsSeq(f) == LET s == SetToSeq(DOMAIN f) IN [i \in 1 .. Len(s) |-> <<s[i], f[s[i]]>>]
Report == Emit([hist |-> hist, list |-> list, bound |-> AsSeq(bound), val |-> AsSeq(val)])
=============================================================================
