------------------------------- MODULE ReiEnt -------------------------------
(***************************************************************************)
(* Entropies of Laplacians, in fixed point: thousandths of a bit.          *)
(***************************************************************************)
EXTENDS ReiObs

One == 16384
(* floor of the square root of x below 2^31 *)
RECURSIVE Isqrt(_, _, _)
Isqrt(x, lo, hi) == IF lo = hi THEN lo
                    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= x THEN Isqrt(x, m, hi) ELSE Isqrt(x, lo, m - 1)
Sqrt(x) == Isqrt(x, 0, 46340)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsOf(x) == IF x < 0 THEN 0 - x ELSE x
Within(x, y, d) == x - y \in (0 - d)..d

(* 12 binary digits of the logarithm of m/One, for One <= m < 2 One *)
RECURSIVE LogBits(_, _, _)
LogBits(m, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET q == (m * m) \div One IN
       IF q >= 2 * One THEN LogBits(q \div 2, k - 1, 2 * acc + 1) ELSE LogBits(q, k - 1, 2 * acc)
(* log2(num/den) times 4096 *)
RECURSIVE Log2(_, _, _)
Log2(num, den, e) == IF num >= 2 * den THEN Log2(num, den * 2, e + 1)
                     ELSE IF num < den THEN Log2(num * 2, den, e - 1)
                     ELSE e * 4096 + LogBits((num * One) \div den, 12, 0)

(* -x log2 x times 1000, of x = num/den *)
Term(num, den) == IF num = 0 THEN 0
                  ELSE LET m == (num * 1000) \div den IN 0 - ((m * Log2(num, den, 0)) \div 4096)
(* 1000 times the root of p/q *)
Root1000(p, q) ==
  LET r == p % q IN Sqrt((p \div q) * 1000000 + ((r * 1000) \div q) * 1000 + ((((r * 1000) % q) * 1000) \div q))
(* the same as Term, of the x whose square is num/den *)
RootTerm(num, den) ==
  LET g == Gcd(num, den)
      p == num \div g
      q == den \div g
      m == Root1000(p, q)
  IN IF num = 0 THEN 0 ELSE 0 - ((m * Log2(p, q, 0)) \div 8192)
(* 1000 times a normalized entry x/2 of a column of doubled degree g *)
Norm1000(x, c, g) ==
  LET num == x * x
      den == 2 * c * c * (g + 2)
      h == Gcd(num, den)
      m == Root1000(num \div h, den \div h)
  IN IF x = 0 THEN 0 ELSE IF x < 0 THEN 0 - m ELSE m

(* The normalized Laplacian of an edge is its Laplacian divided by the number
   of edges less one and by the root of the degree plus one.               *)
EntropyOk(a) ==
  LET c == Len(a.W) - 1
      T(e, i) == LET x == L2(a, e, i, i) IN IF x <= 0 THEN 0 ELSE RootTerm(x * x, 2 * c * c * (Deg2(a, i) + 2))
  IN /\ Len(a.vec) = Len(a.W)
     /\ \A e \in DOMAIN a.W : /\ Len(a.vec[e]) = a.n
                              /\ \A i \in 1..a.n : LET t == T(e, i) IN Within(a.vec[e][i], t, 8 + AbsOf(t) \div 500)
     /\ \A e \in DOMAIN a.W, i, j \in 1..a.n : Within(a.ln[e][i][j], Norm1000(L2(a, e, i, j), c, Deg2(a, j)), 3)
     /\ Within(a.sum, SumSeq([e \in DOMAIN a.W |-> SumSeq(a.vec[e])]), 2 + a.n * Len(a.W))

(* ------------------------- eigenvalues ----------------------------------- *)
(* The eigenvalues of a matrix are those of its diagonal blocks, one for the
   rows that reach each other.  Blocks of one or two rows, and blocks with one
   number on the diagonal and one beside it, are solved here.               *)
RECURSIVE Closure(_, _)
Closure(P, n) ==
  LET Q == P \cup {x \in (1..n) \X (1..n) : \E k \in 1..n : <<x[1], k>> \in P /\ <<k, x[2]>> \in P}
  IN IF Q = P THEN P ELSE Closure(Q, n)
Blocks(M, n) ==
  LET P == Closure({<<i, i>> : i \in 1..n} \cup {x \in (1..n) \X (1..n) : M[x[1]][x[2]] # 0}, n)
  IN {{j \in 1..n : <<i, j>> \in P /\ <<j, i>> \in P} : i \in 1..n}
Uniform(M, B) == LET V == {M[i][j] : i, j \in B} IN
                 \E d, b \in V : \A i, j \in B : M[i][j] = IF i = j THEN d ELSE b
(* 512 times the absolute values of the eigenvalues of a block of M/2 *)
Eigen(M, B) ==
  LET q == SetToSeq(B)
      k == Len(q)
      d == M[q[1]][q[1]]
  IN IF k = 1 THEN <<256 * AbsOf(d)>>
     ELSE IF Uniform(M, B)
     THEN LET b == M[q[1]][q[2]] IN <<256 * AbsOf(d + (k - 1) * b)>> \o [i \in 1..(k - 1) |-> 256 * AbsOf(d - b)]
     ELSE IF k = 2
     THEN LET t == d + M[q[2]][q[2]]
              det == d * M[q[2]][q[2]] - M[q[1]][q[2]] * M[q[2]][q[1]]
              disc == t * t - 4 * det
          IN IF disc < 0 THEN <<Sqrt(65536 * det), Sqrt(65536 * det)>>
             ELSE LET r == Sqrt(65536 * disc) IN <<AbsOf(256 * t + r) \div 2, AbsOf(256 * t - r) \div 2>>
     ELSE <<>>

ProjectedOk(a) ==
  LET M == Sq(a.n, LAMBDA i, j : Lp2(a, i, j))
      tot == SumSeq(Degs2(a))
      Bs == SetToSeq(Blocks(M, a.n))
      ev == FlattenSeq([i \in DOMAIN Bs |-> Eigen(M, Bs[i])])
      ts == SortSeq([i \in DOMAIN ev |-> Term(ev[i], 256 * tot)], LAMBDA x, y : x < y)
  IN /\ Len(a.pvec) = a.n
     /\ IF Len(ev) = a.n THEN \A i \in 1..a.n : Within(a.pvec[i], ts[i], 12)
        ELSE \A i \in DOMAIN ts : \E j \in 1..a.n : Within(a.pvec[j], ts[i], 12)
     /\ Within(a.psum, SumSeq(a.pvec), 2 + a.n)

(* vec, pvec (in ascending order) and their sums are what was recorded *)
DoEntropy(s, a) ==
  {R(IF EntropyOk(a) /\ ProjectedOk(a) THEN "ok"
     ELSE IF EntropyOk(a) THEN "not:projected" ELSE "not:entropy", s, <<>>)}
=============================================================================
