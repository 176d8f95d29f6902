----------------------------- MODULE RandLogTrace -----------------------------
(* Recorded draws, levels and messages.  T.uni and T.norm: for each seed the   *)
(* number of the value at each position (normal: made of the two from there), *)
(* by the definition of the generator; e.v is the number of the value drawn.   *)
(* work: values of noisy problems, to be the ones of the same evaluations done *)
(* with no generators and messages around (e.w = e.v).                         *)
EXTENDS RandLog, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<gens, level, out, err, tid, i>>
T == Traces[tid]
Tr == T.ev
Ok(e) ==
  CASE e.op = "uni" -> LET g == gens[e.g] IN e.v = T.uni[g.seed][g.pos + 1] /\ e.in = 1
    [] e.op = "norm" -> LET g == gens[e.g] IN e.v = T.norm[g.seed][g.pos + 1]
    [] e.op = "level" -> e.old = level
    [] e.op = "work" -> e.v = e.w
    [] e.op = "end" -> e.out = out /\ e.err = err
    [] e.op = "died" -> FALSE
    [] OTHER -> TRUE
Why(e) == CASE e.op = "end" -> <<e.out, out, e.err, err>> [] e.op = "level" -> level [] e.op \in {"uni", "norm"} -> gens[e.g] [] OTHER -> <<>>
Conforms == i <= Len(Tr) => (Ok(Tr[i]) \/ ~PrintT(<<"DIFF", Tr[i], Why(Tr[i])>>))
Step(e) == CASE e.op = "new" -> New(e.g, e.seed) [] e.op = "uni" -> Uniform(e.g) [] e.op = "norm" -> Normal(e.g) [] e.op = "drop" -> Drop(e.g)
             [] e.op = "level" -> SetLevel(e.l, e.id) [] e.op = "msg" -> Message(e.m, e.id) [] OTHER -> Work
TraceInit == tid \in 1..Len(Traces) /\ i = 1 /\ SysInit
TraceNext == i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
