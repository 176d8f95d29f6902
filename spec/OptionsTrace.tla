----------------------------- MODULE OptionsTrace -----------------------------
(* One event per observer: the tokens of its options, what the data it wrote   *)
(* shows of its settings ("*": does not show), the evaluations that were       *)
(* logged for their number (ns, of N evaluations in dimension d), and the      *)
(* options reported as unknown.                                                *)
EXTENDS Options, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<tid, i>>
T == Traces[tid]
Tr == T.ev
Tg == INSTANCE Triggers
Bases == [b \in {"1,2,5", "1,3", "2", "7", "3,4,9"} |-> CASE b = "1,2,5" -> <<1, 2, 5>> [] b = "1,3" -> <<1, 3>> [] b = "2" -> <<2>> [] b = "7" -> <<7>> [] OTHER -> <<3, 4, 9>>]
Multiples(b, d, N) == {b[j] * d * Tg!Pow10(e) : j \in DOMAIN b, e \in 0..3} \cap (2..N)
WantedWith(e, n) == LET b == Effective(e.toks, "base_evaluation_triggers")
                        t == e.tables[n]
             IN (Multiples(Bases[b], e.d, e.N - 1) \cup {t[j] : j \in DOMAIN t}) \cap (2..(e.N - 1))
Wanted(e) == WantedWith(e, Effective(e.toks, "number_evaluation_triggers"))
Shown(name, v) == CASE name \in {"log_variables", "log_constraints"} -> IF v = "none" THEN "none" ELSE "all" [] OTHER -> v
Rest(e) == /\ \A name \in DOMAIN e.found : e.found[name] = "*" \/ e.found[name] = Shown(name, Effective(e.toks, name))
           /\ {e.warned[j] : j \in DOMAIN e.warned} = Unknown(e.toks, e.kind)
Ok(e) == CASE e.op = "died" -> FALSE
           [] OTHER -> Rest(e) /\ (e.N > 0 => {e.ns[j] : j \in DOMAIN e.ns} = Wanted(e))
Why(e) == IF e.op = "died" THEN e
          ELSE IF Rest(e) /\ e.N > 0 /\ {e.ns[j] : j \in DOMAIN e.ns} = WantedWith(e, "20") THEN <<"logged as if number_evaluation_triggers were 20", e.text>> ELSE
          <<{<<name, e.found[name], Effective(e.toks, name)>> : name \in {n \in DOMAIN e.found : e.found[n] # "*" /\ e.found[n] # Shown(n, Effective(e.toks, n))}},
            IF e.N > 0 THEN LET F == {e.ns[j] : j \in DOMAIN e.ns} IN <<"rows", F \ Wanted(e), Wanted(e) \ F>> ELSE <<>>,
            IF {e.warned[j] : j \in DOMAIN e.warned} = Unknown(e.toks, e.kind) THEN <<>> ELSE <<"reported", e.warned, Unknown(e.toks, e.kind)>>, e.text>>
Conforms == i <= Len(Tr) => (Ok(Tr[i]) \/ ~PrintT(<<"DIFF", Why(Tr[i])>>))
TraceInit == tid \in 1..Len(Traces) /\ i = 1
TraceNext == i <= Len(Tr) /\ i' = i + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
