-------------------------------- MODULE Options -------------------------------
(* Options of an observer: a text "name: value name: value".  The text is a    *)
(* sequence of tokens: words (w), colons (c), blanks (b) and quoted texts (q). *)
(* A name is a word followed by a colon; names inside values or quotes are not *)
(* names.  Every option has a default, which also stands for values that make  *)
(* no sense.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Skip(_, _)
Skip(x, p) == IF p <= Len(x) /\ x[p].k = "b" THEN Skip(x, p + 1) ELSE p
\* the position after the colon, for the option whose name starts at p; 0 if there is none
Colon(x, p) == LET q == Skip(x, p + 1) IN IF x[p].k = "w" /\ q <= Len(x) /\ x[q].k = "c" THEN q + 1 ELSE 0
Names(x) == {p \in 1..Len(x) : Colon(x, p) > 0}
At(x, name) == {p \in Names(x) : x[p].t = name}
Has(x, name) == At(x, name) # {}
Value(x, name) == LET p == CHOOSE p \in At(x, name) : \A q \in At(x, name) : p <= q
                      v == Skip(x, Colon(x, p)) IN IF v <= Len(x) THEN x[v].t ELSE ""
\* ------------------------------------------------------------ known options
Numbers(a, b) == {ToString(n) : n \in a..b}
General == {"outer_folder", "result_folder", "algorithm_name", "algorithm_info", "number_target_triggers", "log_target_precision", "lin_target_precision",
            "number_evaluation_triggers", "base_evaluation_triggers", "precision_x", "precision_f", "precision_g", "log_discrete_as_int"}
Own(kind) == CASE kind = "rw" -> {"log_variables", "log_constraints", "low_dim_vars", "low_dim_cons", "log_only_better", "log_time"}
               [] kind = "toy" -> {"file_name"}
               [] kind = "bbob-biobj" -> {"log_nondominated", "log_decision_variables", "compute_indicators", "produce_all_data"}
               [] OTHER -> {}
Known(kind) == General \cup Own(kind)
Default(name) == CASE name = "outer_folder" -> "exdata" [] name = "result_folder" -> "default" [] name = "algorithm_name" -> "ALG" [] name = "algorithm_info" -> ""
                   [] name = "number_target_triggers" -> "100" [] name = "log_target_precision" -> "1e-08" [] name = "number_evaluation_triggers" -> "20"
                   [] name = "base_evaluation_triggers" -> "1,2,5" [] name = "precision_x" -> "8" [] name = "precision_f" -> "15" [] name = "precision_g" -> "3"
                   [] name = "log_discrete_as_int" -> "0" [] name = "file_name" -> "first_hitting_times.dat" [] name \in {"log_variables", "log_constraints"} -> "all"
                   [] name = "log_only_better" -> "0"
Suitable(name, v) == CASE name \in {"precision_x", "precision_f", "precision_g"} -> v \in Numbers(1, 32)
                       [] name = "number_evaluation_triggers" -> v \notin Numbers(0, 3)
                       [] name = "log_target_precision" -> v \notin {"0", "-1"}
                       [] OTHER -> TRUE
Effective(x, name) == IF Has(x, name) /\ Suitable(name, Value(x, name)) THEN Value(x, name) ELSE Default(name)
Unknown(x, kind) == {x[p].t : p \in Names(x)} \ Known(kind)
=============================================================================
