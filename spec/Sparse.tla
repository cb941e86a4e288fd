------------------------------- MODULE Sparse -------------------------------
(***************************************************************************)
(* Sparse matrices: convolution matrices and matrix utilities, defined     *)
(* entrywise.  Indices are zero-based, a matrix is a tensor of rank two.   *)
(* Sparse arguments arrive as triplets [s, r, c, v], duplicates add up.    *)
(***************************************************************************)
EXTENDS Calls

Mat(rows, cols, f(_, _)) ==
  [s |-> <<rows, cols>>,
   d |-> TLCEval([q \in 1..(rows * cols) |-> f((q - 1) \div cols, (q - 1) % cols)])]
At(A, i, j) == A.d[i * A.s[2] + j + 1]

FromTriplets(A) ==
  Mat(A.s[1], A.s[2],
      LAMBDA i, j : SumOver({k \in 1..Len(A.v) : A.r[k] = i /\ A.c[k] = j}, LAMBDA k : A.v[k]))

\* output index of the full convolution at which a mode starts
Start(mode, F) == CASE mode = "full" -> 0
                    [] mode \in {"same", "sameshift"} -> (F - 1) \div 2
                    [] mode = "valid" -> F - 1
OutLen(mode, n, F) == CASE mode = "full" -> n + F - 1
                        [] mode \in {"same", "sameshift"} -> n
                        [] mode = "valid" -> n - F + 1
First0(mode) == IF mode = "sameshift" THEN 1 ELSE 0
\* number of rows kept by a stride
Kept(m, first, stride) == IF m <= first THEN 0 ELSE (m - first - 1) \div stride + 1

Tap(f, F, t) == IF 0 <= t /\ t < F THEN f[t + 1] ELSE 0

\* convolution along one dimension; stride 0 means "not the strided function"
Conv1(f, n, mode, stride) ==
  LET F     == Len(f)
      m     == OutLen(mode, n, F)
      first == IF stride = 0 THEN 0 ELSE First0(mode)
      st    == IF stride = 0 THEN 1 ELSE stride
  IN Mat(Kept(m, first, st), n, LAMBDA k, c : Tap(f, F, Start(mode, F) + first + st * k - c))

\* signals and results are flattened column by column
Conv2(X, h, w, mode, stride) ==
  LET FH    == X.s[1]
      FW    == X.s[2]
      first == IF stride = 0 THEN 0 ELSE First0(mode)
      st    == IF stride = 0 THEN 1 ELSE stride
      mh    == Kept(OutLen(mode, h, FH), first, st)
      mw    == Kept(OutLen(mode, w, FW), first, st)
      tap(i, j) == IF 0 <= i /\ i < FH /\ 0 <= j /\ j < FW THEN X.d[i * FW + j + 1] ELSE 0
  IN Mat(mh * mw, h * w,
         LAMBDA k, c : tap(Start(mode, FH) + first + st * (k % mh) - (c % h),
                           Start(mode, FW) + first + st * (k \div mh) - (c \div h)))

Kron(A, B) ==
  Mat(A.s[1] * B.s[1], A.s[2] * B.s[2],
      LAMBDA i, j : Mul(At(A, i \div B.s[1], j \div B.s[2]), At(B, i % B.s[1], j % B.s[2])))

CatEye(A, n) ==
  Mat(n, n, LAMBDA i, j : IF i < A.s[1] /\ j < A.s[1] THEN At(A, i, j) ELSE IF i = j THEN 1 ELSE 0)

ReplaceRow(A, i, r) == Mat(A.s[1], A.s[2], LAMBDA k, j : IF k = i THEN At(r, 0, j) ELSE At(A, k, j))

Diag(d, off, rows, cols) ==
  Mat(rows, cols, LAMBDA i, j : IF j - i = off
                                THEN LET k == IF off >= 0 THEN i ELSE j IN Tap(d, Len(d), k)
                                ELSE 0)

BatchMM(A, X) ==
  LET b == X.s[1]  n == X.s[2]  k == X.s[3]  m == A.s[1]
  IN [s |-> <<b, m, k>>,
      d |-> TLCEval([q \in 1..(b * m * k) |->
              LET j == (q - 1) % k
                  i == ((q - 1) \div k) % m
                  c == (q - 1) \div (k * m)
              IN SumOver(0..(n - 1), LAMBDA t : At(A, i, t) * X.d[(c * n + t) * k + j + 1])])]

\* arguments for which the functions promise a ValueError
SparseRejects(e) ==
  CASE e.fn = "cat" -> e.A.s[1] # e.A.s[2] \/ e.n < e.A.s[1]
    [] e.fn = "row" -> e.A.s[2] # e.R.s[2]
    [] e.fn = "bmm" -> e.A.s[2] # e.X.s[2]
    [] e.fn \in {"conv1", "conv2"} -> e.mode \notin {"full", "same", "sameshift", "valid"}
    [] OTHER -> FALSE

SparseValue(e) ==
  CASE e.fn = "conv1" -> Conv1(e.f.d, e.n, e.mode, e.stride)
    [] e.fn = "conv2" -> Conv2(e.f, e.h, e.w, e.mode, e.stride)
    [] e.fn = "kron" -> Kron(FromTriplets(e.A), FromTriplets(e.B))
    [] e.fn = "cat"  -> CatEye(FromTriplets(e.A), e.n)
    [] e.fn = "row"  -> ReplaceRow(FromTriplets(e.A), e.i, FromTriplets(e.R))
    [] e.fn = "diag" -> Diag(e.f.d, e.off, e.rows, e.cols)
    [] e.fn = "bmm"  -> BatchMM(FromTriplets(e.A), T(e.X))

SparseVerdict(e) ==
  IF SparseRejects(e)
  THEN IF e.out.st = "ok" THEN "malformed arguments accepted"
       ELSE IF e.out.exc # "ValueError" THEN "raised " \o e.out.exc ELSE ""
  ELSE TensorVerdict(e.out, SparseValue(e), e.dt)

=============================================================================
