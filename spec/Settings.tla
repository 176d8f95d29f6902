------------------------------- MODULE Settings --------------------------------
(* The settings of an experiment in Python: arguments of the command line, the  *)
(* options handed to an observer, parameter files, what is printed meanwhile,   *)
(* and the simplest solver.                                                     *)
EXTENDS Options
None == "none"
Error == [error |-> "error"]
StartsWith(k, n) == Len(n) <= Len(k) /\ SubSeq(k, 1, Len(n)) = n
\* ------------------------------------------------- arguments name=value
\* what a text means: the Python literal, or the text itself
Literals == [t \in {"2.3", "4", "4.0", "True", "1", "1.0", "'4'", "[1,2]", "1,2", "None", "1e3", "0x10", "-3", "1_000"} |->
  CASE t = "2.3" -> "float 2.3" [] t = "4" -> "int 4" [] t = "4.0" -> "float 4.0" [] t = "True" -> "bool True" [] t = "1" -> "int 1" [] t = "1.0" -> "float 1.0"
    [] t = "'4'" -> "str '4'" [] t = "[1,2]" -> "list [1, 2]" [] t = "1,2" -> "tuple (1, 2)" [] t = "None" -> "NoneType None" [] t = "1e3" -> "float 1000.0"
    [] t = "0x10" -> "int 16" [] t = "-3" -> "int -3" [] t = "1_000" -> "int 1000"]
Meaning(t) == IF t \in DOMAIN Literals THEN Literals[t] ELSE "str '" \o t \o "'"
\* equal for Python
Same(a, b) == \/ a = b
              \/ \E c \in {{"int 1", "float 1.0", "bool True"}, {"int 4", "float 4.0"}, {"int 1000", "float 1000.0"}} : {a, b} \subseteq c
\* known: the set of names, or {None} when every name is accepted; batch: the two names, or <<>>
Matches(n, known) == IF known = {None} THEN {n} ELSE {k \in known : StartsWith(k, n)}
Whole == [t \in {"0", "1", "2", "3", "4", "12"} |-> "int " \o t]
Put(res, k, v) == [x \in DOMAIN res \cup {k} |-> IF x = k THEN v ELSE res[x]]
\* a: the parts of the argument between the separators; the value of a batch argument in its parts
Arg(res, a, known, batch) ==
  IF res = Error \/ Len(a.parts) # 2 THEN Error
  ELSE LET n == a.parts[1] v == a.parts[2] IN
  IF batch # <<>> /\ n = "batch"
  THEN IF Len(a.slash) # Len(batch) \/ \E j \in DOMAIN a.slash : a.slash[j] \notin DOMAIN Whole THEN Error
       ELSE Put(Put(res, batch[1], Whole[a.slash[1]]), batch[2], Whole[a.slash[2]])
  ELSE IF Cardinality(Matches(n, known)) # 1 THEN Error
  ELSE LET k == CHOOSE k \in Matches(n, known) : TRUE IN
       IF k \in DOMAIN res THEN (IF Same(res[k], Meaning(v)) THEN res ELSE Error) ELSE Put(res, k, Meaning(v))
RECURSIVE Args(_, _, _, _)
Args(res, as, known, batch) == IF as = <<>> THEN res ELSE Args(Arg(res, Head(as), known, batch), Tail(as), known, batch)
\* ------------------------------------------------- parameter files
\* values that can be read again
Readable == {"int", "neg", "float", "text", "quote", "none", "true", "list", "tuple", "dict", "bytes", "set", "complex", "nested"}
Unreadable == {"inf", "nan", "object", "function", "array", "listobj", "ordered"}
Written(d, ignore) == [k \in {k \in DOMAIN d : d[k] \in Readable /\ \A g \in ignore : ~StartsWith(k, g)} |-> d[k]]
Standard == {"_", "self"}
\* ------------------------------------------------- options of an observer
Update(o, d) == [k \in DOMAIN o \cup DOMAIN d |-> IF k \in DOMAIN d THEN d[k] ELSE o[k]]
Graceful(o, d) == Update(d, o)
\* the text x (in tokens) tells the library what the options say
Tells(x, o) == /\ \A k \in DOMAIN o : Has(x, k) /\ Value(x, k) = o[k]
               /\ {x[p].t : p \in Names(x)} = DOMAIN o
\* ------------------------------------------------- elapsed time, in quarters of seconds
Elapsed(q) == LET s == q \div 4 IN <<s \div 3600, (s \div 60) % 60, s % 60>>
\* ------------------------------------------------- progress
\* d: dimension (0 at first), f: function, last: index, calls: symbols in the line, sw: sweeps
Mini0 == [d |-> 0, f |-> 0, last |-> -1, calls |-> 0, sw |-> 0]
NewDim(m, p) == m.d # p.d \/ m.last > p.index
NewFun(m, p) == m.f # p.f \/ NewDim(m, p)
Mini(m, p) ==
  LET c0 == IF NewDim(m, p) THEN 0 ELSE m.calls
      c1 == IF NewFun(m, p) /\ ~NewDim(m, p) /\ c0 >= 50 THEN 0 ELSE c0
  IN [d |-> p.d, f |-> p.f, last |-> p.index, calls |-> c1 + 1, sw |-> IF p.final = 1 THEN m.sw + 1 ELSE m.sw]
MiniText(m, p) ==
  (IF NewDim(m, p) THEN (IF m.d # 0 THEN "\n" ELSE "") \o ToString(p.d) \o "D TIME\n" ELSE "")
  \o (IF NewFun(m, p) THEN (IF ~NewDim(m, p) /\ m.calls >= 50 THEN "\n" ELSE "") \o (IF p.f < 10 THEN " f" ELSE "f") \o ToString(p.f) ELSE "")
  \o (IF p.hit = 1 THEN "|" ELSE IF p.restarted = 1 THEN ":" ELSE ".")
  \o (IF p.final = 1 /\ p.msg # "" THEN (IF p.msg = "yes" THEN "\nSuite done (" \o ToString(m.sw + 1) \o ")\n" ELSE p.msg \o "\n") ELSE "")
\* the other kind of progress: nothing when only the instance changes
Short0 == [d |-> 0, f |-> "", runs |-> 0]
Changed(s, p) == s.f # p.fname \/ s.d # p.d
Short(s, p) == [d |-> p.d, f |-> p.fname, runs |-> IF s.f # "" /\ Changed(s, p) THEN 0 ELSE s.runs]
Pad(n) == IF n < 10 THEN "  " ELSE IF n < 100 THEN " " ELSE ""
ShortText(s, p) ==
  (IF s.f # "" /\ Changed(s, p) THEN "(" \o ToString(s.runs) \o ")" \o Pad(s.runs) \o " " ELSE "")
  \o (IF s.d # p.d THEN (IF s.d # 0 THEN "\n    " \o ToString(s.d) \o "-D done in NUM seconds/evaluation\n\n" ELSE "") \o "TIME, d=" \o ToString(p.d) \o ", running: " ELSE "")
  \o (IF Changed(s, p) THEN p.fname ELSE "")
\* ------------------------------------------------- random search
\* fs: the values of the evaluated points in order (ranks), ok: whether they are feasible; the answer: the first best feasible one, 0 for none
Best(fs, ok) == LET F == {j \in DOMAIN fs : ok[j] = 1} IN
  IF F = {} THEN 0 ELSE CHOOSE j \in F : \A l \in F : fs[j] < fs[l] \/ (fs[j] = fs[l] /\ j <= l)
=============================================================================
