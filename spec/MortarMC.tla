------------------------------ MODULE MortarMC ------------------------------
(* All markings of small meshes and all sets of wanted tags: the interface   *)
(* by colours, built pair by pair as the implementation does, is what the    *)
(* sub-meshes have in common.  Emits the markings for replay.                *)
EXTENDS Mortar, Json

CONSTANTS Root, Colors, MinTags

Cells ==
  CASE Root = "tri2" -> <<<<1, 2, 3>>, <<2, 3, 4>>>>
    [] Root = "tri4" -> <<<<1, 2, 5>>, <<2, 3, 5>>, <<3, 4, 5>>, <<1, 4, 5>>>>
    [] Root = "strip" -> <<<<1, 2, 3>>, <<2, 3, 4>>, <<3, 4, 5>>, <<4, 5, 6>>>>
    [] Root = "tet2" -> <<<<1, 2, 3, 4>>, <<2, 3, 4, 5>>>>
    [] Root = "tet3" -> <<<<1, 2, 3, 4>>, <<2, 3, 4, 5>>, <<3, 4, 5, 6>>>>
N == Cardinality(Verts(Cells))
Dim == Len(Cells[1]) - 1
Mesh == [x |-> [i \in 1..N |-> <<i, i * i>>], cells |-> Cells]
Facets == LET S == FaceSet(Cells, Dim - 1)
              RECURSIVE Listed(_)
              Listed(T) == IF T = {} THEN <<>> ELSE LET s == CHOOSE t \in T : TRUE IN <<s>> \o Listed(T \ {s}) IN
          [i \in 1..Cardinality(S) |-> LET RECURSIVE Sq(_)
                                           Sq(T) == IF T = {} THEN <<>> ELSE LET a == CHOOSE b \in T : TRUE IN <<a>> \o Sq(T \ {a}) IN Sq(Listed(S)[i])]

VARIABLES vals, tags, todo, byPair
vars == <<vals, tags, todo, byPair>>

Init == /\ vals \in [DOMAIN Cells -> Colors]
        /\ tags \in {T \in SUBSET Colors : Cardinality(T) >= MinTags}
        /\ todo = DOMAIN Facets
        /\ byPair = [p \in {q \in SUBSET Colors : Cardinality(q) = 2} |-> {}]
\* one facet at a time, in any order is the same: take the smallest
Visit == /\ todo # {}
         /\ LET f == CHOOSE g \in todo : \A h \in todo : g <= h
                T == TagsAt(Mesh, Facets, vals, f) IN
            /\ byPair' = IF TwoSided(Mesh, Facets, f) /\ Cardinality(T) = 2 /\ T \subseteq tags THEN [byPair EXCEPT ![T] = @ \cup {f}] ELSE byPair
            /\ todo' = todo \ {f}
         /\ UNCHANGED <<vals, tags>>
Next == Visit
Spec == Init /\ [][Next]_vars

Iface == UNION {byPair[p] : p \in DOMAIN byPair}
SubBoundary(t) == {f \in DOMAIN Facets : Cardinality({c \in Cofaces(Cells, VSet(Facets[f])) : vals[c] = t}) = 1}
Done == todo = {}
Disjoint == \A p, q \in DOMAIN byPair : p # q => byPair[p] \cap byPair[q] = {}
Complete == Done => Iface = IFacets(Mesh, Facets, vals, tags, DOMAIN Facets)
Common2 == Done => \A p \in DOMAIN byPair : \A t \in p : \A u \in p \ {t} :
             p \subseteq tags => byPair[p] = SubBoundary(t) \cap SubBoundary(u)
TwoSubs == Done => \A f \in Iface : Cardinality({t \in tags : f \in SubBoundary(t)}) = 2
\* gluing: the cells of the wanted tags across an interface or not are all facets with two wanted cells
Split == Done => \A f \in DOMAIN Facets : (TwoSided(Mesh, Facets, f) /\ TagsAt(Mesh, Facets, vals, f) \subseteq tags)
             => (f \in Iface) # (Cardinality(TagsAt(Mesh, Facets, vals, f)) = 1)
Emit == (Done /\ \A t \in tags : \E c \in DOMAIN Cells : vals[c] = t)
          => PrintT("@@MARK " \o ToJson([root |-> Root, cells |-> Cells, vals |-> vals, tags |-> tags, size |-> Cardinality(Iface)]))
=============================================================================
