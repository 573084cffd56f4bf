---------------------------- MODULE SerialTrace ----------------------------
(* The written forms of types, values and configurations.  A value is its     *)
(* element type, data type, visibility, shape and bytes; its chunks are a     *)
(* partition of the bytes into intervals.  Joining is a partial function: it  *)
(* is defined exactly when the chunks are such a partition and the            *)
(* description fits, and then returns the value; otherwise it must refuse.    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
S(n) == ToString(n)

\* ---- types: description -> text and size
Mersenne == "FM32" :> 31 @@ "FM64" :> 61 @@ "FM128" :> 127
Shares == {"semi2k.AShr", "semi2k.PShr", "aby3.AShr", "aby3.OShr", "aby3.OPShr", "aby3.PShr", "securenn.AShr", "swift.AShr", "swift.PShr", "spdz2k.AShr"}
Detail(d) ==
  CASE d.id = "Void" -> ""
    [] d.id = "Plaintext" -> d.back
    [] d.id \in {"Ring", "Pub2k"} \cup Shares -> d.field
    [] d.id = "Gfmp" -> d.field \o "," \o S(Mersenne[d.field])
    [] d.id = "Priv2k" -> d.field \o "," \o S(d.owner)
    [] d.id \in {"semi2k.BShr", "securenn.BShr", "swift.BShr"} -> d.field \o "," \o S(d.nbits)
    [] d.id = "aby3.BShr" -> d.back \o "," \o S(d.nbits)
    [] d.id = "spdz2k.BShr" -> d.back \o "," \o S(d.nbits) \o "," \o d.field
Text(d) == d.id \o "<" \o Detail(d) \o ">"
Copies(d) == CASE d.id \in {"aby3.AShr", "aby3.BShr", "aby3.OShr", "aby3.PShr", "spdz2k.AShr"} -> 2
               [] d.id \in {"swift.AShr", "swift.BShr"} -> 3
               [] d.id = "spdz2k.BShr" -> d.bits
               [] d.id = "Void" -> 0
               [] OTHER -> 1
Size(d) == Copies(d) * (d.bits \div 8)
Plain == {"Void", "Plaintext", "Ring", "Gfmp"}
Same(d, e) == /\ d.id = e.id
              /\ (d.id \notin {"Void", "Plaintext", "aby3.BShr"} => d.field = e.field)
              /\ (d.id \in {"Plaintext", "aby3.BShr", "spdz2k.BShr"} => d.back = e.back)
              /\ d.nbits = e.nbits /\ d.owner = e.owner
AKinds == {"semi2k.AShr", "aby3.AShr", "securenn.AShr", "swift.AShr", "spdz2k.AShr"}
BKinds == {"semi2k.BShr", "aby3.BShr", "securenn.BShr", "swift.BShr", "spdz2k.BShr"}
PKinds == {"semi2k.PShr", "aby3.PShr", "swift.PShr"}

\* ---- values
BytesOf(els) == FlattenSeq(els)
\* the bytes chunks (each <<total, offset, content>>) stand for, if they partition [0, n)
Ordered(ch) == SortSeq(ch, LAMBDA a, b : a[2] < b[2] \/ (a[2] = b[2] /\ Len(a[3]) < Len(b[3])))
Partition(ch, n) ==
  /\ \A i \in DOMAIN ch : ch[i][1] = n
  /\ \A i \in DOMAIN ch : \A j \in DOMAIN ch : i # j => ch[i][2] # ch[j][2]
  /\ LET o == Ordered(ch) IN
     /\ \A i \in DOMAIN o : o[i][2] = (IF i = 1 THEN 0 ELSE o[i - 1][2] + Len(o[i - 1][3]))
     /\ (IF o = <<>> THEN 0 ELSE o[Len(o)][2] + Len(o[Len(o)][3])) = n
Joined(ch) == LET o == Ordered(ch) IN FlattenSeq([i \in DOMAIN o |-> o[i][3]])
Halves(ch) == LET n == Len(ch) \div 2 IN <<SubSeq(ch, 1, n), SubSeq(ch, n + 1, Len(ch))>>
Cut(e) == LET p == e.p n == Prod(e.sh) * e.es parts == IF e.cx THEN Halves(p.chunks) ELSE <<p.chunks>> IN
  /\ p.dt = e.dt /\ p.vis = e.vis /\ p.cx = e.cx /\ p.ty = e.ty /\ p.sh = e.sh
  /\ \A i \in DOMAIN p.chunks : Len(p.chunks[i][3]) \in 1..e.max
  /\ (e.cx => Len(p.chunks) % 2 = 0)
  /\ \A i \in DOMAIN parts : Partition(parts[i], n) /\ e.count = Len(parts[i])
  /\ Joined(parts[1]) = BytesOf(e.re) /\ (e.cx => Joined(parts[2]) = BytesOf(e.im))
\* e.es0, e.vis0: size and visibility of the named storage type
Join(e) == LET p == e.p n == Prod(p.sh) * e.es0 parts == IF p.cx THEN Halves(p.chunks) ELSE <<p.chunks>>
               good == /\ p.dt # 0 /\ p.vis = e.vis0 /\ e.vis0 # 0
                       /\ (p.cx => Len(p.chunks) % 2 = 0)
                       /\ \A i \in DOMAIN parts : Partition(parts[i], n)
           IN IF ~good THEN e.threw
              ELSE /\ ~e.threw /\ e.dt = p.dt /\ e.vis = p.vis /\ e.cx = p.cx /\ e.ty = p.ty /\ e.sh = p.sh /\ e.es = e.es0
                   /\ BytesOf(e.re) = Joined(parts[1]) /\ Len(e.re) = Prod(p.sh)
                   /\ (p.cx => BytesOf(e.im) = Joined(parts[2]))

\* ---- configurations: records of texts
Sub(r, names) == \A n \in names : n \in DOMAIN r
Cheetah == {"cheetah_2pc_config.disable_matmul_pack", "cheetah_2pc_config.enable_mul_lsb_error", "cheetah_2pc_config.ot_kind"}
\* what a message stands for: a missing cheetah part is the default one
Norm(r) == LET base == [n \in DOMAIN r \ {"cheetah_2pc_config"} |-> r[n]]
           IN IF "cheetah_2pc_config" \in DOMAIN r THEN base ELSE base @@ [n \in Cheetah |-> "0"]
\* a configuration keeps its cheetah part in a message only under that protocol (4)
Kept(r) == IF r.protocol = "4" THEN r ELSE [n \in DOMAIN r |-> IF n \in Cheetah THEN "0" ELSE r[n]]
Dflt(x, d) == IF x = "0" THEN d ELSE x
FxpBits == "1" :> "8" @@ "2" :> "18" @@ "3" :> "26"
Full(a, cores) ==
  LET x == Dflt(a.fxp_exp_mode, "2")
  IN [a EXCEPT !.max_concurrency = Dflt(@, S(cores)), !.fxp_fraction_bits = Dflt(@, FxpBits[a.field]), !.fxp_div_goldschmidt_iters = Dflt(@, "2"),
               !.quick_sort_threshold = Dflt(@, "32"), !.fxp_exp_mode = x, !.fxp_exp_iters = Dflt(@, "8"),
               !.experimental_exp_prime_offset = IF x = "3" /\ a.field = "3" THEN Dflt(@, "13") ELSE @,
               !.fxp_log_mode = Dflt(@, "3"), !.fxp_log_iters = Dflt(@, "3"), !.fxp_log_orders = Dflt(@, "8"), !.sine_cosine_iters = Dflt(@, "10"),
               !.experimental_inter_op_concurrency = IF a.experimental_enable_inter_op_par = "1" THEN Dflt(@, "8") ELSE @,
               !.sigmoid_mode = Dflt(@, "3")]
\* the human-readable dump: a line for every setting that is not the default
Name(n, v) ==
  CASE n = "protocol" -> ("0" :> "INVALID" @@ "1" :> "REF2K" @@ "2" :> "SEMI2K" @@ "3" :> "ABY3" @@ "4" :> "CHEETAH" @@ "5" :> "SECURENN" @@ "6" :> "SWIFT")[v]
    [] n = "field" -> ("0" :> "INVALID" @@ "1" :> "FM32" @@ "2" :> "FM64" @@ "3" :> "FM128")[v]
    [] n = "sort_method" -> ("1" :> "RADIX" @@ "2" :> "QUICK" @@ "3" :> "NETWORK")[v]
    [] n = "fxp_exp_mode" -> ("1" :> "PADE" @@ "2" :> "TAYLOR" @@ "3" :> "PRIME")[v]
    [] n = "fxp_log_mode" -> ("1" :> "PADE" @@ "2" :> "NEWTON" @@ "3" :> "MINMAX")[v]
    [] n = "sigmoid_mode" -> ("1" :> "MM1" @@ "2" :> "SEG3" @@ "3" :> "REAL")[v]
    [] OTHER -> v
Dumped == "fxp_fraction_bits" :> "0" @@ "max_concurrency" :> "0" @@ "public_random_seed" :> "0" @@ "share_max_chunk_size" :> "134217728" @@ "sort_method" :> "0" @@
          "quick_sort_threshold" :> "32" @@ "fxp_div_goldschmidt_iters" :> "2" @@ "fxp_exp_mode" :> "0" @@ "fxp_log_mode" :> "0" @@ "sigmoid_mode" :> "0" @@
          "snapshot_dump_dir" :> ""
Flags == {"enable_action_trace", "enable_type_checker", "enable_pphlo_trace", "enable_runtime_snapshot", "enable_pphlo_profile", "enable_hal_profile",
          "enable_lower_accuracy_rsqrt", "trunc_allow_msb_error"}
Lines(a) == {n \o ": " \o Name(n, a[n]) : n \in {"protocol", "field"}}
            \cup {n \o ": " \o Name(n, a[n]) : n \in {m \in DOMAIN Dumped : a[m] # Dumped[m]}}
            \cup {n \o ": true" : n \in {m \in Flags : a[m] = "1"}}
Kinds == <<"PROT_INVALID", "REF2K", "SEMI2K", "ABY3", "CHEETAH", "SECURENN", "SWIFT">>

Ok(e) ==
  CASE e.op = "type" -> /\ e.text = Text(e.d) /\ e.size = Size(e.d) /\ ~e.threw /\ e.text2 = e.text /\ e.size2 = e.size /\ e.eq
                        /\ e.pub = (e.d.id = "Pub2k") /\ e.priv = (e.d.id = "Priv2k") /\ e.sec = (e.d.id \notin Plain \cup {"Pub2k", "Priv2k"})
                        /\ e.a = (e.d.id \in AKinds) /\ e.bs = (e.d.id \in BKinds) /\ e.p = (e.d.id \in PKinds)
    [] e.op = "tyeq" -> e.eq = Same(e.d, e.e) /\ e.ne = ~e.eq
    [] e.op = "badtype" -> e.threw
    [] e.op = "cut" -> Cut(e)
    [] e.op = "join" -> Join(e)
    [] e.op = "frompb" -> e.b = Norm(e.a)
    [] e.op = "topb" -> Norm(e.b) = Kept(e.a)
    [] e.op = "cfgcopy" -> e.ok /\ e.b = (IF e.via = "copy" THEN e.a ELSE Kept(e.a))
    [] e.op = "bad" -> ~e.ok
    [] e.op = "populate" -> IF e.a.protocol = "0" \/ e.a.field = "0" THEN e.threw ELSE ~e.threw /\ e.b = Full(e.a, e.cores)
    [] e.op = "dump" -> Len(e.lines) = Cardinality(Lines(e.a)) /\ {e.lines[i] : i \in DOMAIN e.lines} = Lines(e.a)
    [] e.op = "other" -> e.ok /\ e.a = e.b /\ e.a2 = e.a
    [] e.op = "exec" -> e.ok /\ e.n2 = e.n /\ e.i2 = e.i /\ e.o2 = e.o /\ e.code2 = e.code
    [] e.op = "kind" -> IF \E i \in DOMAIN Kinds : Kinds[i] = e.n THEN e.ok /\ Kinds[e.k + 1] = e.n /\ e.back = e.n ELSE ~e.ok /\ e.k = 0
    [] OTHER -> FALSE

Init == l = 1
Next == /\ l <= Len(Trace)
        /\ (IF Ok(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l, Trace[l].op>>))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
