-------------------------------- MODULE Tree --------------------------------
(* Metadata containers addressed by dotted paths: utils.RCParamDict and       *)
(* utils.MD_dict.  A tree is a map from paths to nodes: a leaf holds a value, *)
(* a branch holds the nodes below it.  TLC walks the whole state graph; each  *)
(* transition is emitted together with a history that leads to its start.     *)
EXTENDS Out, FiniteSets
CONSTANTS Names, Depth, Vals, Kind, MaxLen
VARIABLES tree, hist
vars == <<tree, hist>>

Paths == UNION {[1 .. d -> Names] : d \in 1 .. Depth}
Prefix(p, q) == Len(p) <= Len(q) /\ \A k \in 1 .. Len(p) : p[k] = q[k]
Proper(p, q) == Prefix(p, q) /\ p # q
Branch == 0                                  \* values are 1, 2, ...
IsLeaf(t, p) == p \in DOMAIN t /\ t[p] # Branch
IsBranch(t, p) == p \in DOMAIN t /\ t[p] = Branch
Above(p) == {SubSeq(p, 1, k) : k \in 1 .. Len(p) - 1}
Below(t, p) == {q \in DOMAIN t : Proper(p, q)}
Leaves(t) == {p \in DOMAIN t : t[p] # Branch}

ThroughLeaf(t, p) == \E q \in Above(p) : IsLeaf(t, q)
\* what an operation does: new tree and answer
SetTree(t, p, v) ==
    LET dom == ((DOMAIN t \ Below(t, p)) \cup Above(p)) \cup {p}
    IN [q \in dom |-> IF q = p THEN v ELSE IF q \in Above(p) THEN Branch ELSE t[q]]
DelTree(t, p) == [q \in DOMAIN t \ ({p} \cup Below(t, p)) |-> t[q]]

Init == tree = << >> /\ hist = << >>
Obs(t) == [leaves |-> {<<p, t[p]>> : p \in Leaves(t)}]
Note(op, p, v, ans, t2) ==
    Emit([hist |-> hist, op |-> op, path |-> p, val |-> v, ans |-> ans,
          before |-> Obs(tree).leaves, leaves |-> Obs(t2).leaves,
          branches |-> {q \in DOMAIN t2 : t2[q] = Branch}])

Set(p, v) ==
    IF ThroughLeaf(tree, p)
    THEN /\ UNCHANGED vars                    \* refused, and nothing changes
         /\ Note("set", p, v, "KeyError", tree)
    ELSE /\ tree' = SetTree(tree, p, v)
         /\ hist' = Append(hist, <<"set", p, v>>)
         /\ Note("set", p, v, "ok", SetTree(tree, p, v))
Del(p) ==
    IF p \notin DOMAIN tree
    THEN UNCHANGED vars /\ Note("del", p, 0, "KeyError", tree)
    ELSE /\ tree' = DelTree(tree, p)
         /\ hist' = Append(hist, <<"del", p, 0>>)
         /\ Note("del", p, 0, "ok", DelTree(tree, p))
\* reading never changes anything
Get(p) ==
    /\ UNCHANGED vars
    /\ Note("get", p, 0,
            IF IsLeaf(tree, p) THEN "leaf" ELSE IF IsBranch(tree, p) THEN "branch"
            ELSE IF ThroughLeaf(tree, p) THEN "KeyError" ELSE "missing", tree)

Next == /\ Len(hist) < MaxLen
        /\ \E p \in Paths : Get(p) \/ Del(p) \/ \E v \in Vals : Set(p, v)
Spec == Init /\ [][Next]_vars
View == tree
(* --- properties ---------------------------------------------------------- *)
\* a leaf has nothing below it; what is above a node is a branch
WellFormed == \A p \in DOMAIN tree : \A q \in Above(p) : IsBranch(tree, q)
LeafAlone == \A p \in Leaves(tree) : Below(tree, p) = {}
\* an assignment is seen by a read, and disturbs only what it replaces
Frame == [][\A p \in Paths : \A v \in Vals :
             (tree' = SetTree(tree, p, v) /\ ~ ThroughLeaf(tree, p)) =>
                /\ tree'[p] = v
                /\ \A q \in Leaves(tree) : (~ Prefix(p, q)) => q \in DOMAIN tree' /\ tree'[q] = tree[q]]_vars
=============================================================================
