-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* The real numbers the specification is about.  TLC has no reals: the     *)
(* operators below are interpreted by the Java class kdlspec.Num as IEEE   *)
(* doubles, and the specification compares results up to a tolerance       *)
(* (Close).  The definitions given here are their mathematical meaning.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

LOCAL Opaque(x) == CHOOSE y : y = x

a \oplus b  == Opaque(<<"sum", a, b>>)
a \ominus b == Opaque(<<"difference", a, b>>)
a \otimes b == Opaque(<<"product", a, b>>)
a \oslash b == Opaque(<<"quotient", a, b>>)
a \preceq b == Opaque(<<"less or equal", a, b>>)
a \prec b   == Opaque(<<"less", a, b>>)
Neg(a)      == Opaque(<<"-", a>>)
R(n)      == Opaque(<<"the real of the integer", n>>)
Dec(n, e)   == Opaque(<<"n * 10^e", n, e>>)
RAbs(a)     == Opaque(<<"absolute value", a>>)
RMax(a, b)  == Opaque(<<"maximum", a, b>>)
RMin(a, b)  == Opaque(<<"minimum", a, b>>)
Sqrt(a)     == Opaque(<<"square root", a>>)
Sin(a)      == Opaque(<<"sine", a>>)
Cos(a)      == Opaque(<<"cosine", a>>)
Atan2(y, x) == Opaque(<<"angle of the point (x, y)", y, x>>)
Acos(a)     == Opaque(<<"arc cosine of a clipped to [-1, 1]", a>>)
Exp(a)      == Opaque(<<"exponential", a>>)
Log(a)      == Opaque(<<"natural logarithm", a>>)
Pow(a, b)   == Opaque(<<"power", a, b>>)
Floor(a)    == Opaque(<<"floor", a>>)
Pi          == Opaque(<<"pi">>)
IsFinite(a) == Opaque(<<"neither NaN nor infinite", a>>)
IsReal(a)   == Opaque(<<"a real, not an integer or anything else", a>>)
\* x and y are the same structure of tuples and records, with equal strings, integers and booleans, and reals
\* which differ by at most tol * (1 + the largest magnitude in x and y).  A NaN is close to nothing.
Close(x, y, tol) == Opaque(<<"close", x, y, tol>>)
AllFinite(x) == Opaque(<<"every real in the structure is finite", x>>)
Magnitude(x) == Opaque(<<"the largest magnitude of a real in the structure", x>>)
Tup(x)      == Opaque(<<"x, with its functions on 1..n written out as tuples", x>>)
\* <<U, S, V>>: x is the sum of S[k] U[k] V[k]', S is the tuple of the singular values, largest first, as many as
\* the smaller of the numbers of rows and columns, and those of the vectors U[k], and those of the vectors V[k],
\* whose S[k] is not zero are orthonormal
Svd(x)      == Opaque(<<"the singular value decomposition of the matrix x", x>>)
EmitLines(path, lines) == Opaque(<<"TRUE; appends the lines, as JSON, to a file", path, lines>>)
Env(name)   == Opaque(<<"an environment variable", name>>)
StrLen(s)   == Opaque(<<"length of a string", s>>)
LoadTrace(path) == Opaque(<<"the events recorded in a file", path>>)

\* Op(... Op(Op(base, s[1]), s[2]) ..., s[n])
RECURSIVE FoldFrom(_, _, _, _)
FoldFrom(Op(_, _), acc, s, k) == IF k > Len(s) THEN acc ELSE FoldFrom(Op, Op(acc, s[k]), s, k + 1)
FoldL(Op(_, _), base, s) == FoldFrom(Op, base, s, 1)

R0 == R(0)
R1 == R(1)
R2 == R(2)
Half == Dec(5, -1)
Sqr(a) == a \otimes a

=============================================================================
