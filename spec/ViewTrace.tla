----------------------------- MODULE ViewTrace -----------------------------
(* Tensors as views of buffers: the state is the contents of every buffer and *)
(* for every view its shape and the address of each of its elements.  View    *)
(* operations transform addresses and keep the buffer; copying operations     *)
(* allocate; writing through a view changes the addressed elements only.      *)
(* reshape may do either.  Every reading of any view, by any accessor, and    *)
(* every dump of a buffer must agree with that memory.                        *)
EXTENDS NdArr, TLC, Json, IOUtils
VARIABLES l, mem, view
vars == <<l, mem, view>>
Trace == ndJsonDeserialize(IOEnv.TRACE)

A(v) == Arr(view[v].sh, view[v].at)                              \* addresses
V(v) == Arr(view[v].sh, [i \in DOMAIN view[v].at |-> mem[view[v].b][view[v].at[i]]])   \* contents
Iota(n) == [i \in 1..n |-> i]
Ones(n) == [i \in 1..n |-> 1]

ViewOp(e, a) ==
  LET n == Len(a.sh) IN
  CASE e.k = "transpose" -> Transpose(a, e.perm)
    [] e.k = "transpose0" -> Transpose(a, [i \in 1..n |-> n - i])
    [] e.k = "reverse" -> Flip(a, e.dims)
    [] e.k = "slice" -> Slice(a, e.st, e.en, IF e.step = <<>> THEN Ones(n) ELSE e.step)
    [] e.k = "scalar" -> Scalar(At(a, e.st))
    [] e.k = "bcast" -> Bcast(a, e.to, IF e.dims = <<>> THEN LastDims(n, Len(e.to)) ELSE e.dims)
CopyOp(e) ==
  CASE e.k = "clone" -> V(e.s)
    [] e.k = "expand" -> Full(e.to, V(e.s).el[1])
    [] e.k = "concat" -> Concat([i \in DOMAIN e.ss |-> V(e.ss[i])], e.ax)
    [] e.k = "pad" -> Pad(V(e.s), V(e.p).el[1], e.lo, e.hi, e.in)
    [] e.k = "gather" -> Gather1(V(e.s), e.idx)
    [] e.k = "reshape" -> Reshape(V(e.s), e.to)
    [] e.k = "update" -> Update(V(e.s), V(e.u), e.st)
\* memory after writing xs[i] at addresses as[i], in order
Write(b, as, xs) == [mem EXCEPT ![b] = FoldLeft(LAMBDA m, i : [m EXCEPT ![as[i]] = xs[i]], @, Iota(Len(as)))]
From(sq, i, n) == SubSeq(sq, i + 1, i + n)

\* observations
Look(e) ==
  CASE e.op = "read" -> e.sh = V(e.v).sh /\ e.out = V(e.v).el
    [] e.op = "get" -> e.out = V(e.v).el[e.i + 1]
    [] e.op = "dump" -> e.mem = mem[e.b]
    [] e.op = "compact" -> (e.out => \A i \in 2..Len(A(e.v).el) : A(e.v).el[i] = A(e.v).el[i - 1] + 1)
    [] e.op = "first" -> e.out = [i \in DOMAIN e.out |-> V(e.v).el[i]] /\ Len(e.out) = Numel(V(e.v))
    [] e.op = "vmap" -> \* each piece comes back transformed, in its own shape
         LET all == FlattenSeq([i \in DOMAIN e.ss |-> V(e.ss[i]).el])
             f == CASE e.f = "id" -> all [] e.f = "slice" -> all [] e.f = "rev2" -> all [] e.f = "rev" -> [i \in DOMAIN all |-> all[Len(all) + 1 - i]]
                    [] e.f = "bcast" -> [i \in DOMAIN all |-> all[1]]
         IN FlattenSeq(e.outs) = f /\ e.shs = [i \in DOMAIN e.ss |-> V(e.ss[i]).sh] /\ \A i \in DOMAIN e.ss : Len(e.outs[i]) = Prod(e.shs[i])
           
    [] e.op = "bits" -> e.out = (IF Numel(V(e.v)) = 0 THEN e.w ELSE CHOOSE m \in {BitLen : BitLen \in 0..8} :
                                    (\A i \in DOMAIN V(e.v).el : V(e.v).el[i] < 2^m) /\ (m > 0 => \E i \in DOMAIN V(e.v).el : V(e.v).el[i] >= 2^(m - 1)))
                       
    [] e.op = "as" -> e.osh = e.sh /\ Len(e.out) = Len(e.x) /\ \A i \in DOMAIN e.x : e.out[i] = SubSeq(e.x[i], 1, e.ns)
    [] e.op = "ranok" -> e.ok
    \* index arithmetic
    [] e.op = "flat" -> e.out = Flat(e.ix, e.sh)
    [] e.op = "unflat" -> e.out = Unflat(e.i, e.sh)
    [] e.op = "strides" -> Len(e.out) = Len(e.sh) /\ (\A d \in DOMAIN e.sh : e.out[d] = IF e.sh[d] = 1 THEN 0 ELSE Steps(e.sh)[d])
    [] e.op = "bump" -> (IF e.more THEN Flat(e.out, e.sh) = Flat(e.ix, e.sh) + 1 /\ InBounds(e.out, e.sh)
                         ELSE Flat(e.ix, e.sh) + 1 = Prod(e.sh))
    [] e.op = "inb" -> e.out = InBounds(e.ix, e.sh)
    [] e.op = "dims" -> e.numel = Prod(e.sh) /\ e.empty = (\E d \in DOMAIN e.sh : e.sh[d] = 0) /\ e.scalar = (e.sh = <<>>)
    [] OTHER -> FALSE

\* <<is the event allowed, memory after, views after>>
Step(e) ==
  CASE e.op = "new" -> <<TRUE, (e.b :> e.mem) @@ mem, (e.v :> [b |-> e.b, sh |-> e.sh, at |-> e.at]) @@ view>>
    [] e.op = "view" -> LET r == ViewOp(e, A(e.s)) IN <<e.osh = r.sh /\ e.b = view[e.s].b, mem, (e.v :> [b |-> e.b, sh |-> r.sh, at |-> r.el]) @@ view>>
    [] e.op = "reshape" /\ e.b = view[e.s].b -> <<e.osh = e.to, mem, (e.v :> [b |-> e.b, sh |-> e.to, at |-> view[e.s].at]) @@ view>>
    [] e.op \in {"copy", "reshape"} -> LET r == CopyOp(e) IN
         <<e.osh = r.sh /\ e.b \notin DOMAIN mem, (e.b :> r.el) @@ mem, (e.v :> [b |-> e.b, sh |-> r.sh, at |-> Iota(Len(r.el))]) @@ view>>
    \* values are immutable: whatever memory they share, each has contents of its own
    [] e.op = "val" -> LET r == IF e.k \in {"transpose", "transpose0", "reverse", "slice", "scalar", "bcast"} THEN ViewOp(e, V(e.s)) ELSE CopyOp(e) IN
         <<e.osh = r.sh, (e.b :> r.el) @@ mem, (e.v :> [b |-> e.b, sh |-> r.sh, at |-> Iota(Len(r.el))]) @@ view>>
    [] e.op = "poke" -> <<TRUE, Write(view[e.v].b, <<view[e.v].at[e.i + 1]>>, <<e.x>>), view>>
    [] e.op = "scatter" -> <<TRUE, Write(view[e.v].b, [i \in DOMAIN e.idx |-> view[e.v].at[e.idx[i] + 1]], SubSeq(V(e.s).el, 1, Len(e.idx))), view>>
    [] e.op = "copyslice" -> <<TRUE, Write(view[e.v].b, From(A(e.v).el, Flat(e.db, A(e.v).sh), e.n), From(V(e.s).el, Flat(e.sb, V(e.s).sh), e.n)), view>>
    [] e.op = "update" -> LET r == Update(V(e.v), V(e.s), e.st) a == A(e.v).el IN
         IF e.b = view[e.v].b  \* in place: only if no two elements share an address
         THEN <<Cardinality({a[i] : i \in DOMAIN a}) = Len(a) \/ Numel(V(e.s)) = 0, Write(e.b, a, r.el), view>>
         ELSE <<e.b \notin DOMAIN mem, (e.b :> r.el) @@ mem, [view EXCEPT ![e.v] = [b |-> e.b, sh |-> r.sh, at |-> Iota(Len(r.el))]]>>
    [] OTHER -> <<Look(e), mem, view>>

Init == l = 1 /\ mem = <<>> /\ view = <<>>
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l]  s == Step(e)  new == l < Len(Trace) /\ Trace[l + 1].c # e.c
           IN /\ (IF s[1] THEN TRUE ELSE PrintT(<<"REJECT", l, e.op>>))
              /\ mem' = IF new THEN <<>> ELSE s[2]
              /\ view' = IF new THEN <<>> ELSE s[3]
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
