------------------------------- MODULE MC_Fem -------------------------------
(***************************************************************************)
(* Meshes grow from one simplex (1, 2 or 3 dimensions) by splitting a cell *)
(* at an interior point (or, in one dimension, at a point).  In every      *)
(* reachable mesh: barycentric coordinates sum to one and reproduce the    *)
(* point and all linear functions; every point of the domain is inside a   *)
(* cell; two cells share at most a face; the cells cover the domain.       *)
(* The polygon: cells of a fan add up to its area.                         *)
(***************************************************************************)
EXTENDS Fem, TLC, FiniteSets
CONSTANTS MaxSplits
VARIABLES m, nsplit
vars == <<m, nsplit>>
Simplex(d) == [p |-> [k \in 1..d |-> [i \in 1..(d + 1) |-> IF i = k + 1 THEN 4 ELSE 0]], t |-> [i \in 1..(d + 1) |-> <<i - 1>>]]
Init == nsplit = 0 /\ \E d \in 1..3 : m = Simplex(d)
\* split cell c at the point with barycentric weights w: the new vertex replaces each vertex in turn
Point(c, w) == [k \in 1..Dim(m) |-> RSum([i \in 1..(Dim(m) + 1) |-> w[i] \otimes Vertex(m, c, i - 1)[k]])]
NV == Len(m.p[1])
Split(c, w) ==
  LET d == Dim(m)  x == Point(c, w)
      new(j) == [i \in 1..(d + 1) |-> IF i = j THEN NV ELSE m.t[i][c + 1]]
  IN m' = [p |-> [k \in 1..d |-> Append(m.p[k], x[k])],
           t |-> [i \in 1..(d + 1) |-> SubSeq(m.t[i], 1, c) \o [j \in 1..(d + 1) |-> new(j)[i]] \o SubSeq(m.t[i], c + 2, Len(m.t[i]))]]
Weights(d) == IF d = 1 THEN {<<"1/4", "3/4">>, <<"2/3", "1/3">>}
              ELSE {[i \in 1..(d + 1) |-> RDiv(1, d + 1)], [i \in 1..(d + 1) |-> IF i = 1 THEN "1/2" ELSE RDiv(1, 2 * d)]}
Next == nsplit < MaxSplits /\ nsplit' = nsplit + 1 /\ \E c \in 0..(NCells(m) - 1), w \in Weights(Dim(m)) : Split(c, w)
Spec == Init /\ [][Next]_vars

\* points of the simplex: a rational grid
Gr == {f \in [1..Dim(m) -> 0..3] : LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE f[i] + S(i - 1) IN S(Dim(m)) <= 4}
Cells == 0..(NCells(m) - 1)
Barycentric == \A c \in Cells, f \in Gr : LET w == Eager(Bary(m, c, f)) d == Dim(m) IN
   /\ REq(RSum([i \in 1..(d + 1) |-> w[i][1]]), 1)
   /\ \A k \in 1..d : REq(RSum([i \in 1..(d + 1) |-> w[i][1] \otimes Vertex(m, c, i - 1)[k]]), f[k])
Located == \A f \in Gr : \E c \in Cells : Inside(m, c, f, "0")
Strictly(c, x) == LET w == Bary(m, c, x) IN \A i \in 0..Dim(m) : RLt("0", At2(w, i, 0))
NoOverlap == \A f \in Gr : Cardinality({c \in Cells : Strictly(c, f)}) <= 1
\* volume (times d!) of a cell, by the determinant
Edge(c, i) == [k \in 1..Dim(m) |-> Vertex(m, c, i)[k] \ominus Vertex(m, c, 0)[k]]
Vol(c) == LET d == Dim(m) IN
  CASE d = 1 -> RAbs(Edge(c, 1)[1])
    [] d = 2 -> RAbs(Cross(Edge(c, 1)[1], Edge(c, 1)[2], Edge(c, 2)[1], Edge(c, 2)[2]))
    [] d = 3 -> LET a == Edge(c, 1) b == Edge(c, 2) e == Edge(c, 3) IN
         RAbs((a[1] \otimes Cross(b[2], b[3], e[2], e[3])) \ominus (a[2] \otimes Cross(b[1], b[3], e[1], e[3])) \oplus (a[3] \otimes Cross(b[1], b[2], e[1], e[2])))
Covered == REq(RSum([c \in 1..NCells(m) |-> Vol(c - 1)]), CASE Dim(m) = 1 -> 4 [] Dim(m) = 2 -> 16 [] Dim(m) = 3 -> 64)
\* the monomials span: those of degree at most k are (d+k)!/(d!k!), and their derivatives are right (Euler's identity)
Monomials == \A k \in 0..3 : LET E == Exponents(Dim(m), k) IN
   /\ Cardinality(E) = (CASE Dim(m) = 1 -> k + 1 [] Dim(m) = 2 -> ((k + 1) * (k + 2)) \div 2 [] Dim(m) = 3 -> ((k + 1) * (k + 2) * (k + 3)) \div 6)
   /\ \A f \in E : LET x == [c \in 1..Dim(m) |-> R(c + 1)]
                       deg == RSum([c \in 1..Dim(m) |-> f[c]]) IN
        REq(RSum([c \in 1..Dim(m) |-> x[c] \otimes DMonomial(f, x, c)]), deg \otimes Monomial(f, x))
=============================================================================
