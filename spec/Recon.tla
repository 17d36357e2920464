-------------------------------- MODULE Recon --------------------------------
(* C27: modal reconstruction.  Matrices are sequences of rows.                     *)
EXTENDS Vec
MatMul(a, b) == [r \in 1..Len(a) |-> [c \in 1..Len(b[1]) |-> SumTo(LAMBDA k : a[r][k] * b[k][c], Len(b))]]
Ident(n) == [r \in 1..n |-> [c \in 1..n |-> IF r = c THEN 1 ELSE 0]]
MatSub(a, b) == [r \in 1..Len(a) |-> Sub(a[r], b[r])]
Cols(m, a, b) == [r \in 1..Len(m) |-> SubSeq(m[r], a, b)]
Rows(m, a, b) == SubSeq(m, a, b)
PadCols(m, n) == [r \in 1..Len(m) |-> [c \in 1..n |-> IF c <= Len(m[r]) THEN m[r][c] ELSE 0]]
PadRows(m, n) == [r \in 1..n |-> IF r <= Len(m) THEN m[r] ELSE Zeros(Len(m[1]))]
\* modes from slopes s and commands c
Direct(R, s) == MatVec(R, s)
PseudoOL(R, D, s, c) == MatVec(R, Add(s, MatVec(D, c)))
Polc(P, R, D, s, c) == Sub(MatVec(P, PseudoOL(R, D, s, c)), c)
Implicit(P, R, D, s, c) ==
  LET C == MatMul(P, R) H == MatSub(Ident(Len(C)), MatMul(C, D)) IN Sub(MatVec(C, s), MatVec(H, c))
\* matrix edits: op [k, n, m (index), v (values)]; reconstruction matrices are [modes][slopes],
\* interaction matrices [slopes][modes]
EditOk(m, op) ==
  CASE op.k = "rec_reduce" -> op.n < Len(m)
    [] op.k = "im_reduce" -> op.n < Len(m[1])
    [] op.k = "im_slopes" -> op.n < Len(m)
    [] op.k = "im_start" -> op.n < Len(m[1])
    [] OTHER -> TRUE
Edit(m, op) ==
  CASE op.k = "rec_reduce" -> Rows(m, 1, Len(m) - op.n)
    [] op.k = "im_reduce" -> Cols(m, 1, Len(m[1]) - op.n)
    [] op.k = "im_slopes" -> Rows(m, 1, Len(m) - op.n)
    [] op.k = "im_start" -> Cols(m, op.n + 1, Len(m[1]))
    [] op.k = "im_nmodes" -> IF op.n > Len(m[1]) THEN PadCols(m, op.n) ELSE Cols(m, 1, op.n)
    [] op.k = "im_nslopes" -> IF op.n > Len(m) THEN PadRows(m, op.n) ELSE Rows(m, 1, op.n)
    [] op.k = "im_mode" -> [r \in 1..Len(m) |-> [m[r] EXCEPT ![op.n] = op.v[r]]]
    [] op.k = "im_slope" -> [m EXCEPT ![op.n] = op.v]
    [] op.k = "rec_filter" -> MatMul(m, op.m)
=============================================================================
