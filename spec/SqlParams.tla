------------------------------ MODULE SqlParams ------------------------------
(* One conversion call of a SQLParams instance as a state machine.           *)
(*                                                                           *)
(* The instance is its configuration (fields in, out, esc, ... of `call`),   *)
(* which no action changes; everything a conversion accumulates lives in the *)
(* per-call variables below.  One action per step of the implementation: a   *)
(* comment removed, a literal run copied, a percent doubled, an escape       *)
(* unwrapped, a placeholder replaced, one parameter row bound, the return.   *)
(*                                                                           *)
(* call = [ in, out : style names,                                           *)
(*          esc : "none" | "default" | "custom",  escs : custom escape text, *)
(*          expand : "default" | "yes" | "no",    quotes : BOOLEAN,          *)
(*          com : sequence of [t: "line"|"block", a, b],                     *)
(*          bytes, many : BOOLEAN,                                           *)
(*          input : "ok" | "badsql" | "badmany" (query or rows of no usable  *)
(*                  type at all),                                            *)
(*          sql : text,  rows : sequence of parameter rows ]                 *)
(* row  = [ t : "map" | "seq" | "bad",  items : sequence of [k, v] ]         *)
(* k    = [ t : "s" | "i" | "b" | "o", s : text, n : number ]                *)
(* v    = [ t : "sc" | "tup", id : identity, e : identities of elements ]    *)
EXTENDS Styles

VARIABLES
  call,    \* the call being executed
  pc,      \* "build" | "strip" | "check" | "scan" | "bind" | "done"
  ci,      \* comment style being stripped
  src,     \* query text (shrinks while comments are stripped)
  pos,     \* scan position in src
  toks,    \* history: what has been recognised so far
  binds,   \* conversions recorded by the scan, applied to every row
  tab,     \* numeric out-styles: number given to each (parameter, element)
  occ,     \* placeholders seen so far
  out,     \* converted text so far
  places,  \* history: where in `out` placeholders were written
  ri,      \* row being bound
  rowsOut, \* converted rows so far
  res      \* the outcome

mvars == << call, pc, ci, src, pos, toks, binds, tab, occ, out, places, ri, rowsOut, res >>

NoRes == [ok |-> FALSE, err |-> "", sql |-> << >>, ty |-> "", shape |-> "", rows |-> << >>]

-----------------------------------------------------------------------------
(* Configuration *)
EscStr(c) == CASE c.esc = "none" -> << >> [] c.esc = "default" -> << Intro(c.in) >> [] OTHER -> c.escs
OutPct(c)    == ~IsPct(c.in) /\ IsPct(c.out)
Expand(c)    == IF c.expand = "default" THEN Kind(c.out) # "named" ELSE c.expand = "yes"
OutQuotes(c) == c.quotes /\ c.out = "named_oracle"
Oracle(c)    == c.in = "named_oracle"

(* Comments: positions are line starts; a comment is the first thing on the  *)
(* line that is not a blank.                                                 *)
LineStart(s, i) == i = 1 \/ s[i - 1] = NL

\* End (exclusive) of the line break at j, if any.
BreakEnd(s, j) == IF j <= Len(s) /\ s[j] = NL THEN j + 1
                  ELSE IF StartsWith(s, j, << CR, NL >>) THEN j + 2 ELSE j

\* Exclusive end of the comment of style m whose line starts at i; 0 if none.
CommentEnd(s, i, m) ==
  LET b  == BlankEnd(s, i)
      \* a marker may itself begin with blanks: take the longest blank prefix
      ks == { k \in i..b : StartsWith(s, k, m.a) }
  IN IF ks = { } THEN 0
     ELSE LET k == CHOOSE x \in ks : \A y \in ks : y <= x
              j == k + Len(m.a)
          IN IF m.t = "line" THEN LET e == FindChar(s, j, NL) IN BreakEnd(s, e)
             ELSE LET e == FindText(s, j, m.b)
                  IN IF e = 0 THEN 0 ELSE BreakEnd(s, e + Len(m.b))

\* First line start at or after i at which a comment of style m begins; 0 if none.
NextComment(s, i, m) ==
  LET n     == Len(s) + 1
      is(j) == LineStart(s, j) /\ CommentEnd(s, j, m) # 0
  IN IF i >= n THEN 0
     ELSE LET j == CHOOSE j \in i..n : (j = n \/ is(j)) /\ \A k \in i..(j - 1) : ~is(k)
          IN IF j = n THEN 0 ELSE j

(* Escape sequence at i? *)
EscAt(c, s, i) == LET e == EscStr(c)
                  IN e # << >> /\ i + Len(e) <= Len(s) /\ StartsWith(s, i, e) /\ s[i + Len(e)] = Intro(c.in)

(* Characters at which something other than copying may happen. *)
Hots(c) == { Intro(c.in) } \union (IF OutPct(c) THEN { 37 } ELSE { }) \union (IF c.esc = "custom" THEN { c.escs[1] } ELSE { })
ColdEnd(c, s, i) == LET H == Hots(c)
                    IN CHOOSE j \in i..(Len(s) + 1) : (j = Len(s) + 1 \/ s[j] \in H) /\ \A k \in i..(j - 1) : s[k] \notin H

-----------------------------------------------------------------------------
(* Parameters *)
NoVal == [t |-> "sc", id |-> 0, e |-> << >>]
NoKey == [t |-> "o", s |-> << >>, n |-> 0]
Hit(k, v)  == [ok |-> TRUE, err |-> "", k |-> k, v |-> v]
Miss(e)    == [ok |-> FALSE, err |-> e, k |-> NoKey, v |-> NoVal]

RowOk(c, row) == row.t = "map" \/ (row.t = "seq" /\ Kind(c.in) # "named")

\* Text key, exactly.
ByText(row, name) ==
  LET is == { i \in 1..Len(row.items) : row.items[i].k.t = "s" /\ row.items[i].k.s = name }
  IN IF is = { } THEN Miss("KeyError")
     ELSE LET i == CHOOSE x \in is : TRUE IN Hit(row.items[i].k, row.items[i].v)

\* Oracle: keys are tried in order; a quoted key is exact, an unquoted key is
\* upper-cased, a half-quoted key is an error, and other keys are passed over.
ByOracle(row, name) ==
  LET key(i)  == row.items[i].k.s
      full(k) == Len(k) > 1 /\ k[1] = 34 /\ k[Len(k)] = 34
      half(k) == ~full(k) /\ Len(k) > 0 /\ (k[1] = 34 \/ k[Len(k)] = 34)
      last(k) == LET u == Upper(<< k[Len(k)] >>) IN u[Len(u)]
      same(k) == IF full(k) THEN SubSeq(k, 2, Len(k) - 1) = name
                 ELSE Len(k) > 0 /\ Len(name) > 0 /\ last(k) = name[Len(name)] /\ Upper(k) = name
      is == { i \in 1..Len(row.items) : row.items[i].k.t = "s" /\ (half(key(i)) \/ same(key(i))) }
  IN IF is = { } THEN Miss("KeyError")
     ELSE LET i == CHOOSE x \in is : \A y \in is : x <= y
          IN IF half(key(i)) THEN Miss("KeyError") ELSE Hit(row.items[i].k, row.items[i].v)

\* Number addressed by a mapping key, or -1.
KeyNum(k) == CASE k.t = "i" -> k.n
               [] k.t \in { "s", "b" } -> IF k.s # << >> /\ \A j \in 1..Len(k.s) : IsDigit(k.s[j]) THEN IntOf(k.s) ELSE -1
               [] OTHER -> -1

\* By number: element n - base of a sequence, key n of a mapping.
ByNum(row, n, base) ==
  IF row.t = "seq"
  THEN IF n - base < 0 \/ n - base >= Len(row.items) THEN Miss("IndexError")
       ELSE Hit([t |-> "i", s |-> << >>, n |-> n], row.items[n - base + 1].v)
  ELSE LET is == { i \in 1..Len(row.items) : KeyNum(row.items[i].k) = n }
       IN IF n < 0 \/ is = { } THEN Miss("KeyError")
          ELSE LET i == CHOOSE x \in is : \A y \in is : y <= x
               IN Hit([t |-> "i", s |-> << >>, n |-> n], row.items[i].v)

Base(c) == IF Kind(c.in) = "numeric" THEN 1 ELSE 0

\* Canonical identity of the placeholder p that is the o-th in the query (from 0).
Canon(c, p, o) == CASE Oracle(c) -> (IF p.q THEN p.name ELSE Upper(p.name))
                    [] Kind(c.in) = "named"   -> p.name
                    [] Kind(c.in) = "numeric" -> << IntOf(p.name) >>
                    [] OTHER                  -> << o >>

\* Value of that placeholder in the first row.
Lookup(c, row, p, o) == CASE Oracle(c) -> ByOracle(row, Canon(c, p, o))
                          [] Kind(c.in) = "named"   -> ByText(row, p.name)
                          [] Kind(c.in) = "numeric" -> ByNum(row, IntOf(p.name), 1)
                          [] OTHER                  -> ByNum(row, o, 0)

\* Value of a recorded conversion in any row (the key found in the first row).
LookupKey(c, row, k) == IF Kind(c.in) = "named" THEN ByText(row, k.s) ELSE ByNum(row, k.n, Base(c))

(* Names given to out-parameters *)
ScalarName(c, p, o) == CASE Kind(c.in) = "named"   -> Canon(c, p, o)
                         [] Kind(c.in) = "numeric" -> << 95 >> \o p.name
                         [] OTHER                  -> << 95 >> \o Digits(o)

HasText(row, name) == \E i \in 1..Len(row.items) : row.items[i].k.t = "s" /\ row.items[i].k.s = name
RECURSIVE Untaken(_, _, _)
Untaken(c, row, name) == IF HasText(row, IF Oracle(c) THEN Quoted(name) ELSE name)
                         THEN Untaken(c, row, name \o << 95 >>) ELSE name
ElemName(c, row, p, o, i) ==   \* i from 0
  CASE Kind(c.in) = "named"   -> Untaken(c, row, Canon(c, p, o) \o << 95, 95 >> \o Digits(i) \o << 95, 115, 113, 108, 112 >>)
    [] Kind(c.in) = "numeric" -> << 95 >> \o p.name \o << 95 >> \o Digits(i)
    [] OTHER                  -> << 95 >> \o Digits(o) \o << 95 >> \o Digits(i)

OutName(c, n) == IF OutQuotes(c) THEN Quoted(n) ELSE n

TabHas(t, k, e) == \E i \in 1..Len(t) : t[i].k = k /\ t[i].e = e
TabGet(t, k, e) == CHOOSE i \in 1..Len(t) : t[i].k = k /\ t[i].e = e

-----------------------------------------------------------------------------
Start(c) == /\ call = c /\ pc = "strip" /\ ci = 1 /\ src = c.sql /\ pos = 1 /\ toks = << >>
            /\ binds = << >> /\ tab = << >> /\ occ = 0 /\ out = << >> /\ places = << >>
            /\ ri = 1 /\ rowsOut = << >> /\ res = NoRes

Fail(e) == /\ res' = [NoRes EXCEPT !.err = e] /\ pc' = "done"

\* Remove the next comment of the current style.
StripOne ==
  /\ pc = "strip" /\ ci <= Len(call.com)
  /\ LET m == call.com[ci]
         i == NextComment(src, pos, m)
     IN /\ i # 0
        /\ LET e == CommentEnd(src, i, m)
           IN /\ src' = SubSeq(src, 1, i - 1) \o SubSeq(src, e, Len(src))
              /\ IF e > 1 /\ src[e - 1] = NL
                 THEN pos' = i
                 \* the rest of the line is not the start of a line
                 ELSE LET r == FindChar(src, e, NL) IN pos' = i + (r - e) + 1
  /\ UNCHANGED << call, pc, ci, toks, binds, tab, occ, out, places, ri, rowsOut, res >>

\* No more comments of this style: next style.
StripNext ==
  /\ pc = "strip"
  /\ IF ci <= Len(call.com) THEN /\ NextComment(src, pos, call.com[ci]) = 0
                                 /\ ci' = ci + 1 /\ pos' = 1 /\ UNCHANGED pc
                            ELSE pc' = "check" /\ pos' = 1 /\ UNCHANGED ci
  /\ UNCHANGED << call, src, toks, binds, tab, occ, out, places, ri, rowsOut, res >>

\* The first row is needed before the text can be converted.
Check ==
  /\ pc = "check"
  /\ IF call.input # "ok" THEN Fail("TypeError")
     ELSE IF call.rows = << >> THEN Fail("ValueError")
     ELSE IF ~RowOk(call, call.rows[1]) THEN Fail("TypeError")
     ELSE pc' = "scan" /\ UNCHANGED res
  /\ UNCHANGED << call, ci, src, pos, toks, binds, tab, occ, out, places, ri, rowsOut >>

Scanning == pc = "scan" /\ pos <= Len(src)
AtParam  == ParamAt(call.in, src, pos).n > 0
AtEsc    == EscAt(call, src, pos)
AtPct    == OutPct(call) /\ src[pos] = 37
\* A recognised token: kind, source position and length, text it contributes,
\* and for a placeholder its identity, parameter key and whether it expands.
Tok(k, n, t) == [k |-> k, p |-> pos, n |-> n, t |-> t, canon |-> << >>, key |-> NoKey, x |-> FALSE]

ScanLiteral ==
  /\ Scanning /\ ~AtEsc /\ ~AtPct /\ ~AtParam
  /\ LET e == IF src[pos] \in Hots(call) THEN pos + 1 ELSE ColdEnd(call, src, pos)
         t == SubSeq(src, pos, e - 1)
     IN /\ out' = out \o t /\ toks' = Append(toks, Tok("lit", e - pos, t)) /\ pos' = e
  /\ UNCHANGED << call, pc, ci, src, binds, tab, occ, places, ri, rowsOut, res >>

ScanEscape ==
  /\ Scanning /\ AtEsc
  /\ out' = out \o << Intro(call.in) >>
  /\ toks' = Append(toks, Tok("esc", Len(EscStr(call)) + 1, << Intro(call.in) >>))
  /\ pos' = pos + Len(EscStr(call)) + 1
  /\ UNCHANGED << call, pc, ci, src, binds, tab, occ, places, ri, rowsOut, res >>

ScanPercent ==
  /\ Scanning /\ ~AtEsc /\ AtPct
  /\ out' = out \o << 37, 37 >> /\ toks' = Append(toks, Tok("pct", 1, << 37 >>)) /\ pos' = pos + 1
  /\ UNCHANGED << call, pc, ci, src, binds, tab, occ, places, ri, rowsOut, res >>

AtRef == Scanning /\ ~AtEsc /\ ~AtPct /\ AtParam
Ref   == ParamAt(call.in, src, pos)
Found == Lookup(call, call.rows[1], Ref, occ)
Tupled(v) == Expand(call) /\ v.t = "tup"

RefTok(x) == [k |-> "ref", p |-> pos, n |-> Ref.n, t |-> Ref.name, canon |-> Canon(call, Ref, occ), key |-> Found.k, x |-> x]

ScanMissing ==
  /\ AtRef /\ ~Found.ok
  /\ Fail(Found.err)
  /\ UNCHANGED << call, ci, src, pos, toks, binds, tab, occ, out, places, ri, rowsOut >>

\* Write the placeholder texts ps (separated by commas, in parentheses iff x).
Emit(ps, x) ==
  LET w == FoldLeftDomain(
             LAMBDA a, i : LET o1 == IF i > 1 THEN a.o \o << 44 >> ELSE a.o
                           IN [o |-> o1 \o ps[i], pl |-> Append(a.pl, << Len(o1) + 1, Len(ps[i]) >>)],
             [o |-> IF x THEN out \o << 40 >> ELSE out, pl |-> places], ps)
  IN out' = (IF x THEN w.o \o << 41 >> ELSE w.o) /\ places' = w.pl

Bind(x, k, names, nums, n) == [x |-> x, k |-> k, names |-> names, nums |-> nums, n |-> n]

\* es: element numbers (from 0) or << -1 >> for a whole value
Replace(es, x) ==
  LET c == call
      k == Found.k
      canon == Canon(c, Ref, occ)
      kind == Kind(c.out)
      names == [i \in 1..Len(es) |->
                  OutName(c, IF x THEN ElemName(c, c.rows[1], Ref, occ, es[i]) ELSE ScalarName(c, Ref, occ))]
      \* numbers are handed out to all elements of a parameter at once, and reused
      isNew == kind # "numeric" \/ es = << >> \/ ~TabHas(tab, canon, es[1])
      t1 == IF kind = "numeric" /\ isNew THEN tab \o [i \in 1..Len(es) |-> [k |-> canon, e |-> es[i]]] ELSE tab
      base == IF kind # "numeric" \/ isNew THEN Len(tab) ELSE TabGet(tab, canon, es[1]) - 1
      nums == [i \in 1..Len(es) |-> IF kind = "numeric" THEN base + i ELSE 0]
      text == [i \in 1..Len(es) |->
                 CASE kind = "named"   -> PlaceText(c.out, names[i])
                   [] kind = "numeric" -> PlaceText(c.out, Digits(nums[i]))
                   [] OTHER            -> PlaceText(c.out, << >>)]
  IN /\ tab' = t1
     /\ binds' = IF isNew THEN Append(binds, Bind(x, k, IF kind = "named" THEN names ELSE << >>, nums, Len(es))) ELSE binds
     /\ IF es = << >> THEN out' = out \o << 40, 78, 85, 76, 76, 41 >> /\ UNCHANGED places
        ELSE Emit(text, x)
     /\ toks' = Append(toks, RefTok(x))
     /\ occ' = occ + 1
     /\ pos' = pos + Ref.n
     /\ UNCHANGED << call, pc, ci, src, ri, rowsOut, res >>

ScanScalar     == AtRef /\ Found.ok /\ ~Tupled(Found.v) /\ Replace(<< -1 >>, FALSE)
ScanTuple      == AtRef /\ Found.ok /\ Tupled(Found.v) /\ Found.v.e # << >>
                  /\ Replace([i \in 1..Len(Found.v.e) |-> i - 1], TRUE)
ScanEmptyTuple == AtRef /\ Found.ok /\ Tupled(Found.v) /\ Found.v.e = << >> /\ Replace(<< >>, TRUE)

EndScan ==
  /\ pc = "scan" /\ pos > Len(src)
  /\ pc' = "bind"
  /\ UNCHANGED << call, ci, src, pos, toks, binds, tab, occ, out, places, ri, rowsOut, res >>

-----------------------------------------------------------------------------
(* Binding a row: apply the recorded conversions to it. *)

\* Association list update.
Put(kv, k, v) ==
  IF \E i \in 1..Len(kv) : kv[i].k = k
  THEN [i \in 1..Len(kv) |-> IF kv[i].k = k THEN [k |-> k, v |-> v] ELSE kv[i]]
  ELSE Append(kv, [k |-> k, v |-> v])
PutAll(kv, ks, vs) ==
  LET new == RangeOf(ks)
  IN IF Len(ks) > 8 /\ Cardinality(new) = Len(ks) /\ new \intersect { kv[i].k : i \in 1..Len(kv) } = { }
     THEN kv \o [i \in 1..Len(ks) |-> [k |-> ks[i], v |-> vs[i]]]
     ELSE FoldLeftDomain(LAMBDA acc, i : Put(acc, ks[i], vs[i]), kv, ks)

PlainV(id) == [k |-> << >>, v |-> id]
PlaceAll(kv, ns, vs) == FoldLeftDomain(LAMBDA acc, i : [acc EXCEPT ![ns[i]] = PlainV(vs[i])], kv, ns)

StoreVals(c, b, kv, ids) ==
  CASE Kind(c.out) = "named"   -> PutAll(kv, b.names, ids)
    [] Kind(c.out) = "numeric" -> PlaceAll(kv, b.nums, ids)
    [] OTHER                   -> kv \o [i \in 1..Len(ids) |-> PlainV(ids[i])]

BindOne(c, row, a, b) ==
  LET f == LookupKey(c, row, b.k)
      bad(e) == [ok |-> FALSE, err |-> e, kv |-> << >>]
  IN IF ~a.ok THEN a
     ELSE IF ~f.ok THEN bad(f.err)
     ELSE IF ~b.x THEN [a EXCEPT !.kv = StoreVals(c, b, @, << f.v.id >>)]
     ELSE IF f.v.t # "tup" THEN bad("TypeError")
     ELSE IF Len(f.v.e) # b.n THEN bad("ValueError")
     ELSE [a EXCEPT !.kv = StoreVals(c, b, @, f.v.e)]

BindRow(c, row, bs, nums) ==
  FoldLeft(LAMBDA a, b : BindOne(c, row, a, b),
           [ok |-> TRUE, err |-> "", kv |-> IF Kind(c.out) = "numeric" THEN [i \in 1..nums |-> PlainV(0)] ELSE << >>], bs)

BindNext ==
  /\ pc = "bind" /\ ri <= Len(call.rows)
  /\ IF ~RowOk(call, call.rows[ri]) THEN Fail("TypeError") /\ UNCHANGED << ri, rowsOut >>
     ELSE LET r == BindRow(call, call.rows[ri], binds, Len(tab))
          IN IF r.ok THEN rowsOut' = Append(rowsOut, r.kv) /\ ri' = ri + 1 /\ UNCHANGED << pc, res >>
             ELSE Fail(r.err) /\ UNCHANGED << ri, rowsOut >>
  /\ UNCHANGED << call, ci, src, pos, toks, binds, tab, occ, out, places >>

Return ==
  /\ pc = "bind" /\ ri > Len(call.rows)
  /\ pc' = "done"
  /\ res' = [ok |-> TRUE, err |-> "", sql |-> out, ty |-> IF call.bytes THEN "bytes" ELSE "str",
             shape |-> IF Kind(call.out) = "named" THEN "dict" ELSE "list", rows |-> rowsOut]
  /\ UNCHANGED << call, ci, src, pos, toks, binds, tab, occ, out, places, ri, rowsOut >>

Step == StripOne \/ StripNext \/ Check \/ ScanLiteral \/ ScanEscape \/ ScanPercent \/ ScanMissing
        \/ ScanScalar \/ ScanTuple \/ ScanEmptyTuple \/ EndScan \/ BindNext \/ Return
=============================================================================
