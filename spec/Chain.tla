-------------------------------- MODULE Chain --------------------------------
(* Two conversions in a row: the result of the first is the query of the     *)
(* second.  The composition binds the same values at the same places as the  *)
(* query it started from.                                                    *)
EXTENDS MC

VARIABLES third,   \* the style the second hop converts to
          leg,     \* 1 or 2
          first,   \* the first hop: its call, tokens, outcome
          clean    \* the first result holds no look-alike placeholders
cvars == << vars, third, leg, first, clean >>

CInit == /\ Init /\ third \in StyleNames /\ leg = 1 /\ clean = TRUE
         /\ first = [call |-> Base0, toks |-> << >>, places |-> << >>, res |-> NoRes]

\* The value with that identity (a tuple bound whole is still a tuple).
Known(id) == LET all == UNION { RangeOf(call.rows[j].items) : j \in 1..Len(call.rows) }
                 hit == { it \in all : it.v.id = id /\ it.v.t = "tup" }
             IN IF hit = { } THEN Sc(id) ELSE (CHOOSE it \in hit : TRUE).v

\* The second hop's parameters are the first one's result, container and all.
AsRow(sh, kv) == IF sh = "dict" THEN Row("map", [i \in 1..Len(kv) |-> It(KS(kv[i].k), Known(kv[i].v))])
                 ELSE Row("seq", [i \in 1..Len(kv) |-> It(KI(i - 1), Known(kv[i].v))])

Again ==
  /\ leg = 1 /\ pc = "done" /\ res.ok
  /\ leg' = 2 /\ first' = [call |-> call, toks |-> toks, places |-> places, res |-> res]
  /\ clean' = Proviso(call, places, res)
  /\ call' = [Base0 EXCEPT !.in = call.out, !.out = third, !.esc = IF OutPct(call) THEN "default" ELSE "none",
                           !.expand = IF call.expand = "yes" THEN "no" ELSE "yes", !.quotes = (third = "named_oracle"),
                           !.sql = res.sql, !.many = call.many,
                           !.rows = [j \in 1..Len(res.rows) |-> AsRow(res.shape, res.rows[j])]]
  /\ pc' = "strip" /\ ci' = 1 /\ src' = res.sql /\ pos' = 1 /\ toks' = << >> /\ binds' = << >> /\ tab' = << >>
  /\ occ' = 0 /\ out' = << >> /\ places' = << >> /\ ri' = 1 /\ rowsOut' = << >> /\ res' = NoRes
  /\ UNCHANGED << left, third >>

CNext == (Next /\ UNCHANGED << third, leg, first, clean >>) \/ Again
CSpec == CInit /\ [][CNext]_cvars

-----------------------------------------------------------------------------
\* What the original query means with every tuple expanded.
FullMeaning(c, tk, row) ==
  Flat([i \in 1..Len(tk) |->
          IF tk[i].k = "ref" THEN TokMeaning(c, row, [tk[i] EXCEPT !.x = (LookupKey(c, row, tk[i].key).v.t = "tup")])
          ELSE TokMeaning(c, row, tk[i])])

\* A percent target reached by the last hop only leaves them doubled.
Undouble(items) == LET RECURSIVE U(_, _)
                       U(i, acc) == IF i > Len(items) THEN acc
                                    ELSE IF items[i] = 37 /\ i < Len(items) /\ items[i + 1] = 37 THEN U(i + 2, Append(acc, 37))
                                    ELSE U(i + 1, Append(acc, items[i]))
                   IN U(1, << >>)

Composes ==
  (leg = 2 /\ pc = "done" /\ clean /\ (res.ok => Proviso(call, places, res))) =>
     /\ res.ok
     /\ \A j \in 1..Len(res.rows) :
          LET d == Read(third, FALSE, res.sql, res.rows[j])
              m == FullMeaning(first.call, first.toks, first.call.rows[j])
          IN /\ (IF OutPct(call) THEN Undouble(d.items) ELSE d.items) = m
             /\ AllUsed(third, res.rows[j], d.used)

EmitChain == (EmitOn /\ leg = 2 /\ pc = "done") =>
  PrintT("@@" \o ToJson([call |-> first.call, mid |-> first.res, call2 |-> call, exp |-> res, clean |-> clean]))
=============================================================================
