----------------------------- MODULE MixintTrace -----------------------------
(* Recorded evaluations.  open: what the problem announces.  grid: the value   *)
(* of an integer point, near = 1 when it is the (scaled) value of the          *)
(* continuous problem at the place of that integer point.  eval: a point that  *)
(* has to be seen as one of the integer points with the same value.            *)
(* Values are identifiers of tuples of doubles.                                *)
EXTENDS Mixint, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, grid
vars == <<tid, i, grid>>
T == Traces[tid]
Tr == T.ev
Cont == IF T.key[1] = "bbob-mixint" THEN 5000 ELSE 100000
Ok(e) ==
  CASE e.op = "open" -> /\ e.nint = NInt(T.d)
                        /\ \A j \in 1..NInt(T.d) : e.lo[j] = 0 /\ e.hi[j] = 1000 * (Card(j, T.d) - 1)
                        /\ \A j \in (NInt(T.d) + 1)..T.d : e.lo[j] = -Cont /\ e.hi[j] = Cont
                        /\ \A j \in 1..NInt(T.d) : e.init[j] % 1000 = 0 /\ (e.init[j] \div 1000) \in 0..(Card(j, T.d) - 1)
                        /\ \A j \in (NInt(T.d) + 1)..T.d : e.init[j] \in -Cont..Cont
    [] e.op = "opt" -> Admissible(e.k, T.d) /\ e.k = e.want
    [] e.op = "grid" -> Admissible(e.k, T.d) /\ e.near = 1
    [] e.op = "eval" -> \E g \in 1..Len(grid) : grid[g].c = e.c /\ grid[g].y = e.y /\ SeenAs(e.x, grid[g].k, T.d)
    [] OTHER -> FALSE
Conforms == i <= Len(Tr) => (Ok(Tr[i]) \/ ~PrintT(<<"DIFF", T.key, Tr[i]>>))
TraceInit == tid \in 1..Len(Traces) /\ i = 1 /\ grid = <<>>
TraceNext == i <= Len(Tr) /\ grid' = (IF Tr[i].op = "grid" THEN Append(grid, Tr[i]) ELSE grid) /\ i' = i + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
