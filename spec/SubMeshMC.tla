----------------------------- MODULE SubMeshMC ------------------------------
(* Histories of markings and extractions on small complexes.  Entities are  *)
(* named by the set of root vertices they span, so that a history does not  *)
(* depend on any numbering.  TLC explores the histories, checks the laws of *)
(* extraction on the model and emits each history for replay.               *)
EXTENDS Complex, Json

CONSTANTS Root,      \* "seg", "tri2", "tri4", "tet2"
          Depth, Colors, TagSets

\* cells of the root complexes as sets of vertices 1..n
RootCells ==
  CASE Root = "seg" -> {{1, 2}, {2, 3}, {3, 4}}
    [] Root = "tri2" -> {{1, 2, 3}, {2, 3, 4}}
    [] Root = "tri4" -> {{1, 2, 5}, {2, 3, 5}, {3, 4, 5}, {1, 4, 5}}
    [] Root = "tet2" -> {{1, 2, 3, 4}, {2, 3, 4, 5}}

VARIABLES cur,     \* cells of the current mesh (set of vertex sets)
          mark,    \* tag of every cell of the current mesh
          hist
vars == <<cur, mark, hist>>

Dim(S) == (CHOOSE k \in 0..3 : \A c \in S : Cardinality(c) = k + 1)
EntsOf(S, d) == UNION {Faces(c, d) : c \in S}

Init == cur = RootCells /\ mark = [c \in RootCells |-> 0] /\ hist = <<>>

Extract(d, f, T) ==
  LET S == {e \in DOMAIN f : f[e] \in T} IN
  /\ S # {}
  /\ cur' = S
  /\ mark' = [e \in S |-> f[e]]
  /\ hist' = Append(hist, [dim |-> d, marks |-> {<<e, f[e]>> : e \in DOMAIN f}, tags |-> T])

Next == /\ Len(hist) < Depth
        /\ \E d \in 1..Dim(cur) : \E f \in [EntsOf(cur, d) -> Colors] : \E T \in TagSets : Extract(d, f, T)

\* random choice of one step (simulation of long histories on bigger complexes)
RandomNext ==
  /\ Len(hist) < Depth
  /\ \E d \in 1..Dim(cur) : \E T \in TagSets :
       \E f \in {RandomElement([EntsOf(cur, d) -> Colors])} : Extract(d, f, T)

Spec == Init /\ [][Next]_vars
RandomSpec == Init /\ [][RandomNext]_vars

\* every mesh in a history consists of entities of the root complex
Nested == LET d == Dim(cur) IN cur \subseteq EntsOf(RootCells, d)
MarksTotal == DOMAIN mark = cur
\* no tag outside of what was asked for
MarksAsked == hist # <<>> => \A c \in cur : mark[c] \in hist[Len(hist)].tags
\* extracting by several tags is the union of extracting by each
Union == hist # <<>> =>
   LET s == hist[Len(hist)]
       Of(t) == {m[1] : m \in {q \in s.marks : q[2] = t}}
   IN cur = UNION {Of(t) : t \in s.tags}
Emit == hist # <<>> => PrintT("@@HIST " \o ToJson([root |-> Root, steps |-> hist]))
=============================================================================
