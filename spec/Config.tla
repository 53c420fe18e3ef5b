------------------------------- MODULE Config -------------------------------
(* Making an instance: what the constructor's arguments resolve to, which    *)
(* are refused, and that nothing afterwards changes the configuration.       *)
EXTENDS Styles, TLC, Json

CONSTANTS Full, EmitOn

VARIABLES arg,   \* the constructor arguments, by kind
          phase, \* "new" | "made" | "used" | "refused"
          conf   \* the configuration in effect
vars == << arg, phase, conf >>

StyleArgs == StyleNames \union { "?unknown", "?empty", "?none", "?int" }
\* "-": argument left out
EscArgs  == { "-", "none", "true", "false", "empty", "str1", "str2", "int", "bytes", "truthy" }
ExpArgs  == { "-", "none", "true", "false", "one", "zero" }
ComArgs  == { "-", "none", "true", "false", "empty", "lines", "mixed", "tuples", "baditem", "badwhole" }
QuoArgs  == { "-", "none", "true", "false" }

NoConf == [esc |-> << >>, expand |-> FALSE, com |-> "none", quotes |-> FALSE]

\* Reasons to refuse the arguments.
Faults(a) ==
  (IF a.in \in { "?none", "?int" } \/ a.out \in { "?none", "?int" } THEN { "TypeError" } ELSE { })
  \union (IF a.in \in { "?unknown", "?empty" } \/ a.out \in { "?unknown", "?empty" } THEN { "KeyError" } ELSE { })
  \union (IF a.esc \in { "int", "bytes", "truthy" } THEN { "TypeError" } ELSE { })
  \union (IF a.com \in { "baditem", "badwhole" } THEN { "TypeError" } ELSE { })

Resolve(a) ==
  [esc    |-> CASE a.esc = "true" -> << Intro(a.in) >> [] a.esc = "str1" -> << 92 >> [] a.esc = "str2" -> << 33, 33 >> [] OTHER -> << >>,
   expand |-> CASE a.expand \in { "-", "none" } -> Kind(a.out) # "named" [] OTHER -> a.expand \in { "true", "one" },
   com    |-> CASE a.com \in { "-", "none", "false" } -> "none" [] a.com = "true" -> "default" [] OTHER -> a.com,
   quotes |-> a.quotes = "true" /\ a.out = "named_oracle"]

\* All combinations, or every pair of styles with the options varied one or two at a time.
Args == [in : StyleArgs, out : StyleArgs, esc : EscArgs, expand : ExpArgs, com : ComArgs, quotes : QuoArgs]
Some == { a \in [in : StyleArgs, out : StyleArgs, esc : EscArgs, expand : ExpArgs, com : { "-" }, quotes : { "-" }] : TRUE }
        \union [in : StyleNames, out : StyleNames, esc : { "-", "true" }, expand : { "-" }, com : ComArgs, quotes : QuoArgs]

Init == arg \in (IF Full THEN Args ELSE Some) /\ phase = "new" /\ conf = NoConf
Make == /\ phase = "new" /\ Faults(arg) = { }
        /\ phase' = "made" /\ conf' = Resolve(arg) /\ UNCHANGED arg
Refuse == /\ phase = "new" /\ Faults(arg) # { } /\ phase' = "refused" /\ UNCHANGED << arg, conf >>
\* Any call, failed or not, and any attempt to assign a setting.
Use == phase = "made" /\ phase' = "used" /\ UNCHANGED << arg, conf >>
Next == Make \/ Refuse \/ Use
Spec == Init /\ [][Next]_vars

\* Left out, None and False mean the same; expansion defaults by target; the
\* settings do not interact; the configuration outlives every use.
EscOk    == phase = "used" => (conf.esc = << >> <=> arg.esc \in { "-", "none", "false", "empty" })
ExpandOk == phase = "used" /\ arg.expand \in { "-", "none" } => (conf.expand <=> Kind(arg.out) \in { "numeric", "ordinal" })
ComOk    == phase = "used" => (conf.com = "none" <=> arg.com \in { "-", "none", "false" })
QuoteOk  == phase = "used" /\ conf.quotes => arg.out = "named_oracle"
Stable   == [][phase = "made" => conf' = conf]_vars

EmitBehaviour == (EmitOn /\ phase \in { "used", "refused" }) =>
   PrintT("@@" \o ToJson([arg |-> arg, ok |-> phase = "used", errs |-> Faults(arg), conf |-> conf]))
=============================================================================
