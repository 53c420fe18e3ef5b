------------------------------- MODULE Styles -------------------------------
(* The nine parameter styles: what each reads as a placeholder (ParamAt) and *)
(* what it writes as one (PlaceText).                                        *)
EXTENDS Text

StyleNames == { "named", "named_dollar", "named_oracle", "named_sqlserver", "pyformat",
                "numeric", "numeric_dollar", "format", "qmark" }

KindOf == [st \in StyleNames |->
             CASE st \in { "numeric", "numeric_dollar" } -> "numeric"
               [] st \in { "format", "qmark" }           -> "ordinal"
               [] OTHER                                  -> "named"]
Kind(st) == KindOf[st]

\* The introducing character of the style; doubling it is the default escape.
IntroOf == [st \in StyleNames |->
              CASE st \in { "named", "named_oracle", "numeric" }   -> 58   \* :
                [] st \in { "named_dollar", "numeric_dollar" }     -> 36   \* $
                [] st = "named_sqlserver"                          -> 64   \* @
                [] st \in { "pyformat", "format" }                 -> 37   \* %
                [] st = "qmark"                                    -> 63]  \* ?
Intro(st) == IntroOf[st]

IsPct(st) == Intro(st) = 37

NoParam == [n |-> 0, name |-> << >>, q |-> FALSE]

\* Identifier at i: its end, or i when there is none.
IdentEnd(s, i) == IF i <= Len(s) /\ IsStart(s[i]) THEN WordEnd(s, i) ELSE i

\* The placeholder of style st starting at position i of s (n = 0: none).  An
\* introducer directly preceded by the same introducer never starts one.
ParamAt(st, s, i) ==
  IF s[i] # Intro(st) \/ (i > 1 /\ s[i - 1] = Intro(st)) THEN NoParam
  ELSE CASE st \in { "named", "named_dollar", "named_sqlserver" } ->
              LET e == IdentEnd(s, i + 1)
              IN IF e = i + 1 THEN NoParam
                 ELSE [n |-> e - i, name |-> SubSeq(s, i + 1, e - 1), q |-> FALSE]
         [] st = "named_oracle" ->
              IF i < Len(s) /\ s[i + 1] = 34
              THEN LET e == IdentEnd(s, i + 2)
                   IN IF e = i + 2 \/ e > Len(s) \/ s[e] # 34 THEN NoParam
                      ELSE [n |-> e + 1 - i, name |-> SubSeq(s, i + 2, e - 1), q |-> TRUE]
              ELSE LET e == IdentEnd(s, i + 1)
                   IN IF e = i + 1 THEN NoParam
                      ELSE [n |-> e - i, name |-> SubSeq(s, i + 1, e - 1), q |-> FALSE]
         [] st = "pyformat" ->
              IF i + 1 > Len(s) \/ s[i + 1] # 40 THEN NoParam
              ELSE LET e == IdentEnd(s, i + 2)
                   IN IF e = i + 2 \/ ~StartsWith(s, e, << 41, 115 >>) THEN NoParam
                      ELSE [n |-> e + 2 - i, name |-> SubSeq(s, i + 2, e - 1), q |-> FALSE]
         [] st \in { "numeric", "numeric_dollar" } ->
              LET e == DigitEnd(s, i + 1)
              IN IF e = i + 1 THEN NoParam
                 ELSE [n |-> e - i, name |-> SubSeq(s, i + 1, e - 1), q |-> FALSE]
         [] st = "format" ->
              IF i + 1 <= Len(s) /\ s[i + 1] = 115 THEN [n |-> 2, name |-> << >>, q |-> FALSE] ELSE NoParam
         [] st = "qmark" ->
              IF i + 1 <= Len(s) /\ s[i + 1] = 63 THEN NoParam ELSE [n |-> 1, name |-> << >>, q |-> FALSE]

\* The placeholder text style st writes for a name / number / nothing.
PlaceText(st, name) ==
  CASE st = "pyformat" -> << 37, 40 >> \o name \o << 41, 115 >>
    [] st = "format"   -> << 37, 115 >>
    [] st = "qmark"    -> << 63 >>
    [] OTHER           -> << Intro(st) >> \o name

Quoted(name) == << 34 >> \o name \o << 34 >>
=============================================================================
