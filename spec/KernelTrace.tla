---------------------------- MODULE KernelTrace ----------------------------
(* Trace specification of the local numeric kernels.  The state is the memory *)
(* a kernel may touch: an in-place kernel takes the whole underlying buffer   *)
(* P0 to P1 and may change only the elements of its view, so a write outside  *)
(* the view is as much a violation as a wrong value.                          *)
EXTENDS RingSem, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
Rng(n) == 1..n

ElemWise(e) == [i \in DOMAIN e.x |-> IF e.f \in BinOps THEN Bin(e.f, e.x[i], e.y[i]) ELSE Un(e.f, e.x[i], e, i)]

\* memory after writing vals[i] at address at[i]
Store(P0, at, vals) == [a \in DOMAIN P0 |-> LET H == {i \in DOMAIN at : at[i] = a} IN IF H = {} THEN P0[a] ELSE vals[CHOOSE i \in H : TRUE]]

GfBin(e, i) ==
  CASE e.f = "add" -> GfAdd(e.x[i], e.y[i], e.p)
    [] e.f = "sub" -> GfAdd(e.x[i], GfNeg(e.y[i], e.p), e.p)
    [] e.f = "mul" -> GfMul(e.x[i], e.y[i], e.p)
    [] e.f = "mod" -> GfRed(e.x[i], e.p, e.w)
    [] e.f = "exp" -> GfPow(e.x[i], e.y[i], e.p)
\* 0 has two representations below 2^e, so elements are compared as field elements; they must be
\* representatives below 2^e
GfSame(a, b, p) == WLow(a, p) = a /\ GfCanon(a, p) = GfCanon(b, p)
Gf(e) ==
  /\ Len(e.out) = Len(e.x)
  /\ \A i \in DOMAIN e.x :
       CASE e.f = "div" -> GfSame(GfMul(e.out[i], e.y[i], e.p), e.x[i], e.p) /\ WLow(e.out[i], e.p) = e.out[i]
         [] e.f = "rand" -> WLow(e.out[i], e.p) = e.out[i]
         [] OTHER -> GfSame(e.out[i], GfBin(e, i), e.p)

\* decompression of runs <<start, value, step, length>> must give x -> f(x) in order
RunsAre(runs, n, g(_)) ==
  /\ Sum([r \in DOMAIN runs |-> runs[r][4]]) = n
  /\ \A r \in DOMAIN runs :
       /\ runs[r][1] = Sum([q \in 1..(r - 1) |-> runs[q][4]])
       /\ runs[r][2] = g(runs[r][1])
       /\ runs[r][4] > 1 => runs[r][2] + runs[r][3] = g(runs[r][1] + 1)
       /\ runs[r][2] + runs[r][3] * (runs[r][4] - 1) = g(runs[r][1] + runs[r][4] - 1)

Ok(e) ==
  CASE e.op = "matmul" ->
         LET want == MatMul(e.w, e.M, e.N, e.K,
                            LAMBDA i, t : e.A[(i - 1) * e.lda + (t - 1) * e.ida + 1],
                            LAMBDA t, j : e.B[(t - 1) * e.ldb + (j - 1) * e.idb + 1])
             at == [ij \in 1..(e.M * e.N) |-> ((ij - 1) \div e.N) * e.ldc + ((ij - 1) % e.N) * e.idc + 1]
         IN e.C1 = Store(e.C0, at, want)
    [] e.op = "mmul" -> e.out = MatMul(e.w, e.M, e.N, e.K, LAMBDA i, t : e.x[(i - 1) * e.K + t], LAMBDA t, j : e.y[(t - 1) * e.N + j])
    [] e.op = "ew" -> e.out = ElemWise(e) /\ e.osh = e.sh
    [] e.op = "inplace" -> e.P1 = Store(e.P0, e.at, ElemWise(e))
    [] e.op = "same" -> e.a = e.b
    [] e.op = "select" -> e.out = [i \in DOMAIN e.x |-> IF e.sel[i] # 0 THEN e.y[i] ELSE e.x[i]]
    [] e.op = "castbool" -> e.out = [i \in DOMAIN e.x |-> WBit(e.x[i], 0)]
    [] e.op = "sum" -> e.out = [i \in DOMAIN e.xs[1] |-> WSumAll(e.w, [j \in DOMAIN e.xs |-> e.xs[j][i]])]
    [] e.op = "splits" -> /\ Len(e.xs) = e.n
                          /\ \A j \in DOMAIN e.xs : Len(e.xs[j]) = Len(e.out)
                          /\ \A i \in DOMAIN e.out : LET s == [j \in DOMAIN e.xs |-> e.xs[j][i]]
                                                     IN e.out[i] = IF e.f = "xor" THEN WXorAll(e.w, s) ELSE WSumAll(e.w, s)
    [] e.op = "allequal" -> e.out = (\A i \in DOMAIN e.x : LET d == WAbs(WSub(e.x[i], e.y[i])) IN ~WLtU(WNat(e.w, e.err), d))
    [] e.op = "range" -> \A i \in DOMAIN e.out : ~WLtU(e.out[i], e.lo) /\ ~WLtU(e.hi, e.out[i])
    [] e.op = "fill" -> e.out = [i \in 1..Prod(e.sh) |-> e.v]
    [] e.op = "gf" -> Gf(e)
    [] e.op = "gfin" -> LET want == Store(e.P0, e.at, [i \in DOMAIN e.x |-> GfBin(e, i)])
                        IN \A a \in DOMAIN e.P0 : IF \E i \in DOMAIN e.at : e.at[i] = a THEN GfSame(e.P1[a], want[a], e.p) ELSE e.P1[a] = e.P0[a]
    [] e.op = "mulfull" -> e.lo \o e.hi = WMulFull(e.x, e.y)
    [] e.op = "vmap1" -> e.out = [i \in DOMAIN e.x |-> [j \in DOMAIN e.x[i] |-> 2 * e.x[i][j] + 1]]
    [] e.op = "vmap2" -> e.out = [i \in DOMAIN e.x |-> [j \in DOMAIN e.x[i] |-> 3 * e.x[i][j] - e.y[i][j]]]
    [] e.op = "vreduce" -> e.out = [j \in 1..e.len |-> Sum([i \in DOMAIN e.x |-> e.x[i][j]])]
    [] e.op = "tiled" -> e.osh = e.sh /\ RunsAre(e.runs, e.n, LAMBDA i : 3 * i + 5)
    [] OTHER -> FALSE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].op>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
