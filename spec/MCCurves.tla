------------------------------- MODULE MCCurves --------------------------------
(* What Curves guarantees, exhaustively for small inputs: boundaries of       *)
(* sampled fields are closed, no edge of a polyline is lost, hulls are convex *)
(* and contain their points, simplified lines stay within the tolerance.      *)
EXTENDS Curves
CONSTANTS Nx, Ny, Vals, Points, Adds, Side, MaxPts, LineLen
VARIABLES kind, m, L, log
vars == <<kind, m, L, log>>

MarchInit == \E f \in [(1..Nx) \X (1..Ny) -> Vals], h \in BOOLEAN :
    /\ kind = "march" /\ L = <<>> /\ log = <<>>
    /\ m = [March0(<<0, 0, 8, 12>>, Nx, Ny, 1, h) EXCEPT !.val = f]
MarchNext == kind = "march" /\ kind' = kind /\ UNCHANGED <<L, log>> /\
    LET open == { c \in Cells(m) : \E s \in Pieces(m, c) : CanEmit(m, s) } IN
    /\ open # {}
    /\ LET c == CHOOSE c \in open : \A d \in open : c[2] < d[2] \/ (c[2] = d[2] /\ c[1] <= d[1]) IN
       \E s \in { s \in Pieces(m, c) : CanEmit(m, s) } :
          m' = [m EXCEPT !.segs = @ \cup {s}]
MarchOk == kind = "march" =>
    /\ (\A c \in Cells(m) : \A s \in Pieces(m, c) : ~CanEmit(m, s)) => MarchDone(m) \/ \E c \in Cells(m) : Cardinality(Leaving(m, c)) = 2
    /\ MarchDone(m) => Closed(m)
    \* a piece separates: its start leaves the inside, its end enters it
    /\ \A s \in m.segs : (s[2] # 0 => Inside(m, Corner(s[1], s[2]))) /\ (s[3] # 0 => ~Inside(m, Corner(s[1], s[3])))
\* a finished march can be reached whatever has been emitted: at most pieces of length zero are missing
MarchSpec == MarchInit /\ [][MarchNext]_vars

PolyInit == kind = "poly" /\ m = 0 /\ L = <<>> /\ log = <<>>
PolyNext == /\ Len(log) < Adds /\ UNCHANGED <<kind, m>>
            /\ \E v, w \in Points : v # w /\ L' \in Collect(L, v, w) /\ log' = Append(log, <<v, w>>)
PolyOk == \A v, w \in Points : EdgeCount(L, v, w) = Cardinality({ i \in 1..Len(log) : log[i] = <<v, w>> })
PolySpec == PolyInit /\ [][PolyNext]_vars

Square == (0..Side) \X (0..Side)
HullInit == /\ kind = "hull" /\ m = 0 /\ log = <<>>
            /\ \E S \in { S \in SUBSET Square : S # {} /\ Cardinality(S) <= MaxPts } : L = S
HullOk == /\ \A H \in Hulls(L, 0) : /\ Convex(H) /\ Covers(H, L) /\ PtSetOf(H) \subseteq L
                                     /\ \A H2 \in Hulls(L, 0) : Corners(H) = Corners(H2)
          /\ \A tol \in {1, 3, 5} : \A H \in Hulls(L, tol) : Convex(H) /\ PtSetOf(H) \subseteq L
HullSpec == HullInit /\ [][FALSE]_vars

LineInit == /\ kind = "line" /\ m = 0 /\ log = <<>>
            /\ \E V \in [1..LineLen -> Square] : (\A i \in 1..(LineLen - 1) : V[i] # V[i + 1]) /\ L = V
LineOk == \A tol \in {0, 2, 4, 6} : \A R \in SimplifyCurves(L, tol) :
             /\ Within(L, R, tol) /\ PtSetOf(R) \subseteq PtSetOf(L)
             /\ (L[1] = L[LineLen]) = (R[1] = R[Len(R)])
             /\ L[1] # L[LineLen] => R[1] = L[1] /\ R[Len(R)] = L[LineLen]
LineSpec == LineInit /\ [][FALSE]_vars
===============================================================================
