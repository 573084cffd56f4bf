---------------------------- MODULE TensorTrace ----------------------------
(* The array language: what every tensor operator returns, by the definition  *)
(* of each of its elements.  A result is public exactly if every operand is.   *)
EXTENDS NdArr, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)

Maxi(x, y) == IF x < y THEN y ELSE x
Mini(x, y) == IF x < y THEN x ELSE y
Clamp(x, lo, hi) == Maxi(lo, Mini(x, hi))
RECURSIVE FoldN(_, _, _, _)
FoldN(f(_, _), g(_), n, acc) == IF n = 0 THEN acc ELSE FoldN(f, g, n - 1, f(acc, g(n - 1)))     \* acc, g(n-1), ..., g(0): only for commutative f
SumN(g(_), n) == FoldN(LAMBDA x, y : x + y, g, n, 0)
Fn(f, x, y) == CASE f = "add" -> x + y [] f = "max" -> Maxi(x, y) [] f = "min" -> Mini(x, y) [] f = "mul" -> x * y [] f = "first" -> x [] f = "second" -> y
Has(s, x) == \E i \in DOMAIN s : s[i] = x
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Keep(s, drop(_)) == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : ~drop(i))

\* ---- reductions: init folded once into every result
Dims0(n) == [i \in 1..n |-> i - 1]
Reduce(a, dims, f, init, ign) ==
  LET osh == [d \in DOMAIN a.sh |-> IF Has(dims, d - 1) THEN 1 ELSE a.sh[d]]
      rsh == [d \in DOMAIN a.sh |-> IF Has(dims, d - 1) THEN a.sh[d] ELSE 1]
      n == Prod(rsh)
      at(ix, j) == LET r == Unflat(j, rsh) IN At(a, [d \in DOMAIN ix |-> ix[d] + r[d]])
  IN Mk(osh, LAMBDA ix : IF ign THEN FoldN(LAMBDA x, y : Fn(f, x, y), LAMBDA j : at(ix, j), n - 1, at(ix, n - 1))
                         ELSE FoldN(LAMBDA x, y : Fn(f, x, y), LAMBDA j : at(ix, j), n, init))
Dilate(a, init, lo, hi, bd) == Pad(a, init, lo, hi, [d \in DOMAIN bd |-> bd[d] - 1])
WinShape(sh, win, step, wd) == [d \in DOMAIN sh |-> (sh[d] - ((win[d] - 1) * wd[d] + 1)) \div step[d] + 1]
WinAt(p, ix, j, win, step, wd) == LET w == Unflat(j, win) IN At(p, [d \in DOMAIN ix |-> ix[d] * step[d] + w[d] * wd[d]])
Window(a, e, f, init, ign) ==
  LET p == Dilate(a, init, e.lo, e.hi, e.bd)
      n == Prod(e.win)
      at(ix, j) == WinAt(p, ix, j, e.win, e.step, e.wd)
  IN Mk(WinShape(p.sh, e.win, e.step, e.wd),
        LAMBDA ix : IF ign THEN FoldN(LAMBDA x, y : Fn(f, x, y), LAMBDA j : at(ix, j), n - 1, at(ix, n - 1))
                    ELSE FoldN(LAMBDA x, y : Fn(f, x, y), LAMBDA j : at(ix, j), n, init))
Ones(s) == [d \in DOMAIN s |-> 1]
\* ---- products
Conv(x, w, step) ==
  LET h == w.sh[1]  ww == w.sh[2]  c == w.sh[3]
      cube == <<h, ww, c>>
  IN Mk(<<x.sh[1], (x.sh[2] - h) \div step[1] + 1, (x.sh[3] - ww) \div step[2] + 1, w.sh[4]>>,
        LAMBDA ix : SumN(LAMBDA j : LET q == Unflat(j, cube)
                                    IN At(x, <<ix[1], ix[2] * step[1] + q[1], ix[3] * step[2] + q[2], q[3]>>) * At(w, <<q[1], q[2], q[3], ix[4]>>), Prod(cube)))
TensorDot(x, y, ix, iy) ==
  LET kx == Keep(x.sh, LAMBDA d : Has(ix, d - 1))  ky == Keep(y.sh, LAMBDA d : Has(iy, d - 1))
      con == [i \in DOMAIN ix |-> x.sh[ix[i] + 1]]
      osh == [i \in 1..(Len(kx) + Len(ky)) |-> IF i <= Len(kx) THEN x.sh[kx[i]] ELSE y.sh[ky[i - Len(kx)]]]
      ax(o, q) == [d \in DOMAIN x.sh |-> IF Has(ix, d - 1) THEN q[Pos(ix, d - 1)] ELSE o[Pos(kx, d)]]
      ay(o, q) == [d \in DOMAIN y.sh |-> IF Has(iy, d - 1) THEN q[Pos(iy, d - 1)] ELSE o[Len(kx) + Pos(ky, d)]]
  IN Mk(osh, LAMBDA o : SumN(LAMBDA j : LET q == Unflat(j, con) IN At(x, ax(o, q)) * At(y, ay(o, q)), Prod(con)))
Dot(x, y) == TensorDot(x, y, <<Len(x.sh) - 1>>, <<0>>)
DotGen(x, y) == Mk(<<x.sh[1], x.sh[2], y.sh[3]>>, LAMBDA o : SumN(LAMBDA j : At(x, <<o[1], o[2], j>>) * At(y, <<o[1], j, o[3]>>), x.sh[3]))
\* ---- scattering into overlapping windows; hit(n, j): the window element n selects
ScatterSum(src, base, win, step, hit(_)) ==
  LET at(n) == LET o == Unflat(n, src.sh)  w == Unflat(hit(n), win) IN [d \in DOMAIN o |-> o[d] * step[d] + w[d]]
  IN Mk(base, LAMBDA ix : SumN(LAMBDA n : IF at(n) = ix THEN src.el[n + 1] ELSE 0, Len(src.el)))
Best(b, n, src, win, step, mx) ==
  LET o == Unflat(n, src)
      v(j) == WinAt(b, o, j, win, step, Ones(win))
  IN CHOOSE j \in 0..(Prod(win) - 1) : \A i \in 0..(Prod(win) - 1) : IF mx = 1 THEN v(j) >= v(i) ELSE v(j) <= v(i)
\* ---- indexing: starts are moved inside
Gather(a, idx, e) ==
  LET full == IF e.ivd = Len(idx.sh) THEN Arr(Append(idx.sh, 1), idx.el) ELSE idx
      bpos == Keep(e.to, LAMBDA d : Has(e.offs, d - 1))
      wdim == Keep(a.sh, LAMBDA d : Has(e.col, d - 1))
      start(o, j) == LET b == [i \in DOMAIN bpos |-> o[bpos[i]]] IN At(full, SubSeq(b, 1, e.ivd) \o <<j>> \o SubSeq(b, e.ivd + 1, Len(b)))
      src(o) == [d \in DOMAIN a.sh |->
                   (IF Has(e.map, d - 1) THEN Clamp(start(o, Pos(e.map, d - 1) - 1), 0, a.sh[d] - e.sizes[d]) ELSE 0)
                   + (IF Has(e.col, d - 1) THEN 0 ELSE o[e.offs[Pos(wdim, d)] + 1])]
  IN Mk(e.to, LAMBDA o : At(a, src(o)))
Starts(ins, from, room(_)) == [d \in 1..(Len(ins) - from + 1) |-> Clamp(ins[from + d - 1].el[1], 0, room(d))]
DSlice(a, ins, sz) == LET s == Starts(ins, 2, LAMBDA d : a.sh[d] - sz[d]) IN Mk(sz, LAMBDA ix : At(a, [d \in DOMAIN ix |-> ix[d] + s[d]]))
DUpdate(a, u, ins) == Update(a, u, Starts(ins, 3, LAMBDA d : a.sh[d] - u.sh[d]))
Scan(a, f) ==
  LET n == Len(a.sh) IN
  Mk(a.sh, LAMBDA ix : FoldLeft(LAMBDA acc, j : Fn(f, acc, At(a, [ix EXCEPT ![n] = j])), At(a, [ix EXCEPT ![n] = 0]), [j \in 1..ix[n] |-> j]))
FoldLast(a, f) ==
  LET n == Len(a.sh)  sh == IF n = 1 THEN <<1>> ELSE SubSeq(a.sh, 1, n - 1) IN
  Mk(sh, LAMBDA ix : LET at(j) == At(a, (IF n = 1 THEN <<>> ELSE ix) \o <<j>>) IN FoldN(LAMBDA x, y : Fn(f, x, y), at, a.sh[n] - 1, at(a.sh[n] - 1)))
LScatter(a, u, idx) == Arr(a.sh, FoldLeft(LAMBDA el, i : [el EXCEPT ![idx[i] + 1] = u.el[i]], a.el, [i \in DOMAIN idx |-> i]))
Chosen(mask) == SelectSeq([i \in DOMAIN mask |-> i - 1], LAMBDA i : mask[i + 1] = 1)

\* ---- the results of an operator on its operands: In(i) the i-th
Results(e, I) ==
  CASE e.k = "transpose" -> <<Transpose(I[1], e.perm)>>
    [] e.k = "broadcast" -> <<Bcast(I[1], e.to, e.dims)>>
    [] e.k = "reshape" -> <<Reshape(I[1], e.to)>>
    [] e.k = "concat" -> <<Concat(I, e.ax)>>
    [] e.k = "slice" -> <<Slice(I[1], e.st, e.en, e.step)>>
    [] e.k = "pad" -> <<Pad(I[1], I[2].el[1], e.lo, e.hi, e.in)>>
    [] e.k = "reverse" -> <<Flip(I[1], e.dims)>>
    [] e.k = "reduce" -> IF e.fn = "pair" THEN <<Reduce(I[1], e.dims, "add", I[3].el[1], e.ign = 1), Reduce(I[2], e.dims, "max", I[4].el[1], e.ign = 1)>>
                         ELSE <<Reduce(I[1], e.dims, e.fn, I[2].el[1], e.ign = 1)>>
    [] e.k = "window" -> IF e.fn = "pair" THEN <<Window(I[1], e, "add", I[3].el[1], e.ign = 1), Window(I[2], e, "max", I[4].el[1], e.ign = 1)>>
                         ELSE <<Window(I[1], e, e.fn, I[2].el[1], e.ign = 1)>>
    [] e.k = "conv" -> <<Conv(I[1], I[2], e.step)>>
    [] e.k = "dot" -> <<Dot(I[1], I[2])>>
    [] e.k = "dotgen" -> <<DotGen(I[1], I[2])>>
    [] e.k = "tensordot" -> <<TensorDot(I[1], I[2], e.ix, e.iy)>>
    [] e.k = "sas" -> <<ScatterSum(I[2], I[1].sh, e.win, e.step, LAMBDA n : Best(I[1], n, I[2].sh, e.win, e.step, e.max))>>
    [] e.k = "mps" -> LET w == Prod(e.win) IN <<ScatterSum(I[2], e.base, e.win, e.step, LAMBDA n : (CHOOSE j \in 0..(w - 1) : I[1].el[n * w + j + 1] = 1))>>
    [] e.k = "gather" -> <<Gather(I[1], I[2], e)>>
    [] e.k = "dslice" -> <<DSlice(I[1], I, e.sz)>>
    [] e.k = "dus" -> <<DUpdate(I[1], I[2], I)>>
    [] e.k = "uslice" -> <<Update(I[1], I[2], e.st)>>
    [] e.k = "filter" -> <<Gather1(I[1], Chosen(e.mask))>>
    [] e.k = "lgather" -> <<Gather1(I[1], e.idx)>>
    [] e.k = "lscatter" -> <<LScatter(I[1], I[2], e.idx)>>
    [] e.k = "iota" -> <<Arr(<<e.n>>, [i \in 1..e.n |-> (i - 1) * e.unit])>>
    [] e.k = "scan" -> <<Scan(I[1], e.fn)>>
    [] e.k = "areduce" -> IF Last(I[1].sh) < 2 \/ Prod(I[1].sh) = 0 THEN <<I[1]>> ELSE <<FoldLast(I[1], e.fn)>>

Strip(a) == Arr(a.sh, a.el)
SameArr(a, b) == a.sh = b.sh /\ a.el = b.el
\* the operands of the real part, and of the imaginary one
Odd(s) == [i \in 1..(Len(s) \div 2) |-> s[2 * i - 1]]
Even(s) == [i \in 1..(Len(s) \div 2) |-> s[2 * i]]
Equal(outs, res) == Len(outs) = Len(res) /\ \A i \in DOMAIN res : SameArr(outs[i], res[i])
Value(e) ==
  CASE e.k = "argmax" ->
         LET a == e.ins[1]  n == Prod(e.win)  o == WinShape(a.sh, e.win, e.step, Ones(e.win))
             at(i, j) == WinAt(a, Unflat(i, o), j, e.win, e.step, Ones(e.win))
             v == e.outs[1]  h == e.outs[2]
         IN Len(e.outs) = 2 /\ v.sh = o /\ h.sh = Append(o, n) /\ Len(v.el) = Prod(o) /\ Len(h.el) = Prod(o) * n
            /\ \A i \in 0..(Prod(o) - 1) :
                 \E j \in 0..(n - 1) : /\ \A q \in 0..(n - 1) : at(i, q) <= at(i, j) /\ h.el[i * n + q + 1] = (IF q = j THEN 1 ELSE 0)
                                       /\ v.el[i + 1] = at(i, j)
    [] e.k = "uniform" -> Len(e.outs) = 1 /\ e.outs[1].sh = e.to /\ Len(e.outs[1].el) = Prod(e.to)
                          /\ \A i \in DOMAIN e.outs[1].el : e.outs[1].el[i] >= e.ins[1].el[1] /\ e.outs[1].el[i] <= e.ins[2].el[1]
    [] OTHER -> IF e.cx THEN Equal(Odd(e.outs), Results(e, Odd(e.ins))) /\ Equal(Even(e.outs), Results(e, Even(e.ins)))
                ELSE IF e.k = "dot" THEN e.outs[1].el = Results(e, e.ins)[1].el      \* vectors come back as one-row or one-column matrices
                ELSE Equal(e.outs, Results(e, e.ins))
Public(e) == \A i \in DOMAIN e.ins : e.ins[i].vis = "p"
\* the operands the i-th result depends on
Needs(e, i) ==
  LET all == DOMAIN e.ins  h == Len(e.ins) \div 2 IN
  CASE e.k \in {"reduce", "window"} -> {i} \cup (IF e.ign = 1 THEN {} ELSE {h + i})
    [] e.k = "argmax" -> IF i = 2 /\ Prod(e.win) = 1 THEN {} ELSE all
    [] e.k = "sas" -> IF Prod(e.win) = 1 THEN {2, 3} ELSE all
    [] e.k = "dus" -> {1, 2} \cup {j \in 3..Len(e.ins) : e.ins[2].sh[j - 2] < e.ins[1].sh[j - 2]}
    [] e.k = "dslice" -> {1} \cup {j \in 2..Len(e.ins) : e.sz[j - 1] < e.ins[1].sh[j - 1]}
    [] OTHER -> all
Seen(e) == \A i \in DOMAIN e.outs : /\ Public(e) => e.outs[i].vis = "p"
                                    /\ e.outs[i].vis = "p" => (e.outs[i].el = <<>> \/ \A j \in Needs(e, i) : e.ins[j].vis = "p" \/ e.ins[j].el = <<>>)
Typed(e) == CASE e.k = "iota" -> e.outs[1].dt = e.dt
              [] e.k = "mps" -> e.outs[1].dt = e.ins[2].dt
              [] e.k = "sas" -> e.outs[1].dt = e.ins[2].dt
              [] e.k = "argmax" -> e.outs[1].dt = e.ins[1].dt
              [] OTHER -> \A i \in DOMAIN e.outs : e.outs[i].dt = e.ins[1].dt
Why(e) == IF ~e.ok THEN "fails" ELSE IF ~e.same THEN "parties disagree" ELSE IF ~Value(e) THEN "value" ELSE IF ~Seen(e) THEN "visibility" ELSE IF ~Typed(e) THEN "type" ELSE ""

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  y == Why(e)
           IN IF y = "" THEN TRUE ELSE PrintT(<<"REJECT", l, e.k \o ": " \o y>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
