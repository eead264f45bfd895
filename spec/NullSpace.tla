----------------------------- MODULE NullSpace ------------------------------
(* Removing given directions Z (a sequence of integer vectors) from vectors *)
(* with respect to an inner product M: P u = u - Z G^-1 Z^T M u with the     *)
(* Gram matrix G = Z^T M Z.  Everything is kept in integers by multiplying  *)
(* with det G.                                                              *)
EXTENDS Common

Gram(Z, M) == [i \in DOMAIN Z |-> LET mz == MulV(M, Z[i]) IN [j \in DOMAIN Z |-> DotV(mz, Z[j])]]
DetN(G) == CASE Len(G) = 0 -> 1
             [] Len(G) = 1 -> G[1][1]
             [] Len(G) = 2 -> G[1][1] * G[2][2] - G[1][2] * G[2][1]
             [] Len(G) = 3 -> G[1][1] * (G[2][2] * G[3][3] - G[2][3] * G[3][2]) - G[1][2] * (G[2][1] * G[3][3] - G[2][3] * G[3][1])
                              + G[1][3] * (G[2][1] * G[3][2] - G[2][2] * G[3][1])
\* adjugate of a symmetric matrix
Minor(G, i, j) == LET R == {1, 2, 3} \ {i}
                      C == {1, 2, 3} \ {j}
                      r1 == CHOOSE a \in R : \A b \in R : a <= b
                      r2 == CHOOSE a \in R : a # r1
                      c1 == CHOOSE a \in C : \A b \in C : a <= b
                      c2 == CHOOSE a \in C : a # c1 IN G[r1][c1] * G[r2][c2] - G[r1][c2] * G[r2][c1]
Adj(G) == CASE Len(G) = 0 -> <<>>
            [] Len(G) = 1 -> <<<<1>>>>
            [] Len(G) = 2 -> <<<<G[2][2], -G[1][2]>>, <<-G[2][1], G[1][1]>>>>
            [] Len(G) = 3 -> [i \in 1..3 |-> [j \in 1..3 |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Minor(G, j, i)]]
Det(Z, M) == DetN(Gram(Z, M))
Independent(Z) == Z = <<>> \/ Det(Z, IdM(Len(Z[1]))) # 0

\* det G times the part of u in the null space, and the rest
Part(Z, M, u) == LET G == Gram(Z, M)
                     A == Adj(G)
                     mu == MulV(M, u)
                     t == [i \in DOMAIN Z |-> DotV(Z[i], mu)]
                     a == MulV(A, t)
                 IN [k \in DOMAIN u |-> LET g(i) == a[i] * Z[i][k] IN SumTo(g, Len(Z))]
Proj(Z, M, u) == IF Z = <<>> THEN u ELSE SubV(ScaleV(Det(Z, M), u), Part(Z, M, u))
=============================================================================
