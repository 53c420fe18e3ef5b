--------------------------------- MODULE MC ---------------------------------
(* Bounded exploration: the environment assembles a query from atoms (pieces *)
(* of text that exercise recognition, including ones that only matter next   *)
(* to each other), picks a configuration and parameter rows, and submits it. *)
(* Every finished call is checked against the clauses of Props and written   *)
(* out so that it can be replayed on the implementation.                     *)
EXTENDS Props, TLC, Json

CONSTANTS Prof,      \* which exploration profile
          MaxAtoms,  \* longest query, in atoms
          EmitOn     \* write behaviours for replay?

VARIABLE left        \* atoms that may still be added
vars == << mvars, left >>

NoExt == << >>

-----------------------------------------------------------------------------
\* ASCII strings to code points.
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeTab == [ch \in { SubSeq(Ascii, i, i) : i \in 1..Len(Ascii) } \union { "\n", "\t", "\r" } |->
              CASE ch = "\n" -> 10 [] ch = "\t" -> 9 [] ch = "\r" -> 13
                [] OTHER -> 31 + (CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch)]
X(str) == [i \in 1..Len(str) |-> CodeTab[SubSeq(str, i, i)]]
XS(set) == { X(e) : e \in set }

-----------------------------------------------------------------------------
Named   == { st \in StyleNames : Kind(st) = "named" }
Numeric == { st \in StyleNames : Kind(st) = "numeric" }
Ordinal == { st \in StyleNames : Kind(st) = "ordinal" }

I(st) == << Intro(st) >>

\* References to the 1st / 2nd parameter.
RefA(st) == CASE st = "pyformat" -> X("%(a)s") [] Kind(st) = "named" -> I(st) \o X("a")
              [] Kind(st) = "numeric" -> I(st) \o X("1") [] st = "format" -> X("%s") [] OTHER -> X("?")
RefB(st) == CASE st = "pyformat" -> X("%(b)s") [] Kind(st) = "named" -> I(st) \o X("b")
              [] Kind(st) = "numeric" -> I(st) \o X("2") [] OTHER -> RefA(st)

CoreAtoms(st) == { RefA(st), RefB(st), I(st), X("x"), X(" "), X("%") }
\* Text around escapes and doubled introducers.
EscAtoms(st) == { RefA(st), I(st), I(st) \o I(st), X("\\"), X("!!"), X("a"), X("%"), X(" ") }
                \union (IF st = "qmark" THEN { } ELSE { SubSeq(RefA(st), 2, Len(RefA(st))) })
\* Near misses of placeholders.
NearAtoms(st) ==
  CASE st = "pyformat" -> { RefA(st), X("%(a)"), X("%(1a)s"), X("%(a_1)s"), X("s"), X("%"), X("%("), X(" "), X("%s"), X("%()s") }
    [] st = "format"   -> { RefA(st), X("%"), X("s"), X("%d"), X("%(a)s"), X("S"), X(" ") }
    [] st = "qmark"    -> { RefA(st), X("??"), X(" "), X("a"), X("'?'") }
    [] st = "named_oracle" -> { RefA(st), X(":A"), X(":\"a\""), X(":\"A\""), X(":\"a"), X(":"), X("\""), X("12"), X(":a_1"), X(" "), X("a") }
    [] Kind(st) = "named"  -> { RefA(st), I(st), I(st) \o X("1"), I(st) \o X("A"), I(st) \o X("a_1"), I(st) \o X("_"), X("12"), X("a"), X(" ") }
    [] OTHER -> { RefA(st), I(st), X("12"), X("0"), I(st) \o X("01"), I(st) \o X("a"), X("a"), X(" ") }
PctAtoms(st) == { RefA(st), RefB(st), X("%"), X("%%"), X("%s"), X("%(a)s"), X("d"), I(st) \o I(st) }
ManyAtoms(st) == { RefA(st), RefB(st), X(" ") }
ComAtoms(st) == { RefA(st), X("--"), X("/*"), X("*/"), X("\n"), X(" "), X("x"), X("\r\n"), X("#") }
OracleAtoms(st) == { X(":a"), X(":A"), X(":\"a\""), X(":\"A\""), X(":b"), X(" ") }
\* Names that look like the ones the library makes up.
NameAtoms(st) == CASE st = "pyformat" -> { X("%(a)s"), X("%(a__0_sqlp)s"), X("%(a__0_sqlp_)s"), X("%(a__0_sqlp__0_sqlp)s"), X("%(a__1_sqlp)s") }
                   [] Kind(st) = "named" -> { I(st) \o X(n) : n \in { "a", "a__0_sqlp", "a__0_sqlp_", "a__0_sqlp__0_sqlp", "a__1_sqlp" } }
                   [] Kind(st) = "numeric" -> { I(st) \o X(n) : n \in { "1", "2", "01", "11", "10" } }
                   [] OTHER -> { RefA(st), X(" ") }
\* A bit of everything, for long random behaviours.
MixAtoms(st) == CoreAtoms(st) \union PctAtoms(st) \union EscAtoms(st) \union NearAtoms(st) \union ComAtoms(st)
AddrAtoms(st) == { RefA(st), RefB(st), X(" "), X("x") } \union
                 (IF Kind(st) = "numeric" THEN { I(st) \o X("0"), I(st) \o X("3"), I(st) \o X("02"), I(st) \o X("11") } ELSE { })

-----------------------------------------------------------------------------
\* Values. Shapes: "s" scalar, "t0".."t3" tuples; ids are unique per position.
Sc(id) == [t |-> "sc", id |-> id, e |-> << >>]
Tu(id, n) == [t |-> "tup", id |-> id, e |-> [i \in 1..n |-> id + i]]
Val(sh, id) == CASE sh = "s" -> Sc(id) [] sh = "t0" -> Tu(id, 0) [] sh = "t1" -> Tu(id, 1)
                 [] sh = "t2" -> Tu(id, 2) [] OTHER -> Tu(id, 3)
KS(s) == [t |-> "s", s |-> s, n |-> 0]
KI(n) == [t |-> "i", s |-> << >>, n |-> n]
KB(s) == [t |-> "b", s |-> s, n |-> 0]
It(k, v) == [k |-> k, v |-> v]
Row(t, items) == [t |-> t, items |-> items]

\* Row j (ids 100j...) for style st: container kind ct, value shapes sh = <<a, b>>.
\* ct: "map" | "seq" | "smap" (text keys) | "bmap" (bytes keys) | "bad" | "half" (2nd missing) | "extra"
MkRow(st, ct, sh, j) ==
  LET a == Val(sh[1], 100 * j + 10)
      b == Val(sh[2], 100 * j + 20)
      x == Val("s", 100 * j + 30)
      o == [i \in 1..4 |-> Val(sh[((i - 1) % 2) + 1], 100 * j + 10 * i)]
      kind == Kind(st)
      K(n) == CASE ct = "smap" -> KS(Digits(n)) [] ct = "bmap" -> KB(Digits(n)) [] OTHER -> KI(n)
  IN CASE ct = "bad" -> Row("bad", << >>)
       [] kind = "named" /\ ct = "seq" -> Row("seq", << It(KI(0), a), It(KI(1), b) >>)
       [] kind = "named" /\ ct = "half" -> Row("map", << It(KS(X("a")), a) >>)
       [] kind = "named" /\ ct = "extra" -> Row("map", << It(KS(X("zz")), x), It(KS(X("b")), b), It(KS(X("a")), a), It(KS(X("a__0_sqlp")), x) >>)
       [] kind = "named" -> Row("map", << It(KS(X("a")), a), It(KS(X("b")), b) >>)
       [] kind = "numeric" /\ ct = "half" -> Row("seq", << It(KI(0), a) >>)
       [] kind = "numeric" /\ ct \in { "seq", "extra" } ->
            Row("seq", << It(KI(0), a), It(KI(1), b) >> \o (IF ct = "extra" THEN << It(KI(2), x) >> ELSE << >>))
       [] kind = "numeric" -> Row("map", << It(K(2), b), It(K(1), a), It(KS(X("q")), x) >>)
       [] ct = "half" -> Row("seq", << It(KI(0), o[1]) >>)
       [] ct \in { "seq", "extra" } -> Row("seq", [i \in 1..4 |-> It(KI(i - 1), o[i])])
       [] OTHER -> Row("map", << It(KS(X("q")), x) >> \o [i \in 1..4 |-> It(K(4 - i), o[5 - i])])

NatCt(st) == IF Kind(st) = "named" THEN "map" ELSE "seq"

\* Oracle dictionaries: how the keys are spelled matters.
OracleRows(j) ==
  LET v(i) == Sc(100 * j + i) IN
  { Row("map", << It(KS(X("a")), v(1)), It(KS(X("b")), v(2)) >>),
    Row("map", << It(KS(X("A")), v(1)), It(KS(X("\"a\"")), v(2)), It(KS(X("b")), v(3)) >>),
    Row("map", << It(KS(X("\"a\"")), v(1)), It(KS(X("\"A\"")), v(2)), It(KS(X("\"B\"")), v(3)) >>),
    Row("map", << It(KS(X("\"a\"")), Tu(100 * j + 10, 2)), It(KS(X("a")), v(2)), It(KS(X("\"A__0_sqlp\"")), v(3)), It(KS(X("\"a__1_sqlp\"")), v(4)) >>) }

\* Rows for NameAtoms: a, and parameters named like its elements.
NameRow(i, sh, j) ==
  LET v(n) == Val(sh[((n - 1) % Len(sh)) + 1], 1000 * j + 10 * n)
  IN CASE Kind(i) = "named" -> Row("map", << It(KS(X("a")), v(1)), It(KS(X("a__0_sqlp")), v(2)), It(KS(X("a__0_sqlp_")), v(3)),
                                             It(KS(X("a__0_sqlp__0_sqlp")), v(4)), It(KS(X("a__1_sqlp")), v(5)) >>
                                          \o (IF i = "named_oracle"
                                              THEN << It(KS(X("\"A__0_sqlp\"")), v(6)), It(KS(X("\"A__1_sqlp\"")), v(7)) >> ELSE << >>))
       [] OTHER -> Row("seq", [n \in 1..11 |-> It(KI(n - 1), v(n))])
\* Rows with everything in them (accidental references included).
WideRow(i, sh, j) ==
  LET v(n) == Val(sh[((n - 1) % Len(sh)) + 1], 1000 * j + 10 * n)
  IN CASE Kind(i) = "named" ->
            LET ns == << "a", "b", "x", "A", "a_1", "_", "ax", "aa", "bx", "xa", "d", "s", "as", "ba", "ab", "xx", "a12", "_a", "X", "a_1a" >>
            IN Row("map", [n \in 1..Len(ns) |-> It(KS(X(ns[n])), v(n))])
       [] j = 2 /\ Kind(i) = "numeric" -> Row("map", [n \in 1..12 |-> It(KI(n), v(n))])
       [] OTHER -> Row("seq", [n \in 1..12 |-> It(KI(n - 1), v(n))])

-----------------------------------------------------------------------------
\* A call with everything at its default.
Base0 == [in |-> "named", out |-> "qmark", esc |-> "none", escs |-> << >>, expand |-> "default",
          quotes |-> FALSE, com |-> << >>, bytes |-> FALSE, many |-> FALSE, input |-> "ok", sql |-> << >>, rows |-> << >>]
LineC(a) == [t |-> "line", a |-> X(a), b |-> << >>]
BlockC(a, b) == [t |-> "block", a |-> X(a), b |-> X(b)]
DefCom == << BlockC("/*", "*/"), LineC("--") >>

Pair(i, o) == [Base0 EXCEPT !.in = i, !.out = o, !.quotes = (o = "named_oracle")]
\* One row per shape pair.
One(i, sh) == << MkRow(i, NatCt(i), sh, 1) >>

Init0 ==
  CASE Prof = "core" ->   \* every style pair, scalars and tuples
         { [Pair(i, o) EXCEPT !.rows = One(i, sh)] : i \in StyleNames, o \in StyleNames, sh \in { << "s", "s" >>, << "t2", "s" >> } }
    [] Prof = "tuple" ->  \* every kind pair x expansion switch x shapes
         { [Pair(i, o) EXCEPT !.rows = One(i, << a, b >>), !.expand = ex] :
             i \in { "named", "named_oracle", "pyformat", "numeric", "format", "qmark" },
             o \in { "named", "named_oracle", "pyformat", "numeric_dollar", "format", "qmark" },
             a \in { "s", "t0", "t1", "t3" }, b \in { "s", "t0", "t2" }, ex \in { "default", "yes", "no" } }
    [] Prof = "pct" ->    \* percent targets and percent sources
         { [Pair(i, o) EXCEPT !.rows = One(i, << a, "s" >>), !.esc = e] :
             i \in StyleNames, o \in { "format", "pyformat", "qmark", "named_dollar" },
             a \in { "s", "t2" }, e \in { "none", "default" } }
    [] Prof = "esc" ->
         { [Pair(i, o) EXCEPT !.rows = One(i, << "s", "s" >>), !.esc = e.k, !.escs = e.s] :
             i \in StyleNames, o \in { "named", "numeric", "qmark", "format" },
             e \in { [k |-> "none", s |-> << >>], [k |-> "default", s |-> << >>], [k |-> "custom", s |-> X("\\")],
                     [k |-> "custom", s |-> X("!!")], [k |-> "custom", s |-> X("%")] } }
    [] Prof = "near" ->
         { [Pair(i, o) EXCEPT !.rows = << IF Kind(i) # "named" THEN MkRow(i, "extra", << "s", "s" >>, 1)
                                          ELSE Row("map", << It(KS(X("a")), Sc(1)), It(KS(X("A")), Sc(2)), It(KS(X("a_1")), Sc(3)),
                                                             It(KS(X("_")), Sc(4)), It(KS(X("a12")), Sc(5)), It(KS(X("\"a\"")), Sc(6)),
                                                             It(KS(X("aa")), Sc(7)), It(KS(X("A12")), Sc(8)) >>) >>] :
             i \in StyleNames, o \in { "named_sqlserver", "numeric_dollar", "qmark", "pyformat" } }
    [] Prof = "many" ->   \* two rows of every combination of shapes
         { [Pair(i, o) EXCEPT !.many = TRUE, !.expand = ex,
              !.rows = << MkRow(i, c1, << a, "s" >>, 1), MkRow(i, c2, << b, s2 >>, 2) >>] :
             i \in { "named", "pyformat", "named_oracle", "numeric", "format" },
             o \in { "named_dollar", "pyformat", "numeric", "qmark" },
             a \in { "s", "t0", "t1", "t2" }, b \in { "s", "t0", "t1", "t2", "t3" }, s2 \in { "s", "t2" },
             c1 \in { "map", "seq" }, c2 \in { "map", "seq", "half", "bad" }, ex \in { "yes", "no" } }
    [] Prof = "com" ->
         { [Pair(i, o) EXCEPT !.rows = One(i, << "s", "s" >>), !.com = cm] :
             i \in { "named" }, o \in { "qmark" },
             cm \in { << >>, DefCom, << LineC("--") >>, << LineC("#"), LineC("--") >>, << LineC("--"), BlockC("/*", "*/") >>,
                      << BlockC("/*", "\n") >>, << LineC(" x") >> } }
    [] Prof = "oracle" ->
         { [Base0 EXCEPT !.in = "named_oracle", !.out = o, !.quotes = q, !.rows = << r >>, !.expand = ex] :
             o \in { "named_oracle", "named", "pyformat", "numeric", "qmark" }, q \in { TRUE, FALSE },
             r \in OracleRows(1), ex \in { "yes", "no" } }
    [] Prof = "names" ->  \* generated names against given ones
         { [Pair(i, o) EXCEPT !.rows = << NameRow(i, << a, b, "s" >>, 1) >>, !.expand = "yes", !.quotes = q] :
             i \in { "named", "named_oracle", "pyformat", "numeric", "qmark" }, o \in Named,
             a \in { "s", "t2" }, b \in { "s", "t1", "t2" }, q \in { TRUE, FALSE } }
    [] Prof = "bytes" ->
         { [Pair(i, o) EXCEPT !.rows = << MkRow(i, NatCt(i), << a, "s" >>, 1) >> \o (IF mn THEN << MkRow(i, NatCt(i), << a, "s" >>, 2) >> ELSE << >>),
                              !.bytes = TRUE, !.many = mn] :
             i \in StyleNames, o \in { "named", "pyformat", "numeric", "qmark" }, a \in { "s", "t2" }, mn \in { TRUE, FALSE } }
    [] Prof = "rows3" ->  \* the offending row may be any
         { [Pair(i, o) EXCEPT !.many = TRUE, !.expand = "yes",
              !.rows = << MkRow(i, NatCt(i), << "s", "t2" >>, 1), MkRow(i, c2, << "s", b2 >>, 2), MkRow(i, c3, << "s", b3 >>, 3) >>] :
             i \in StyleNames, o \in { "named", "numeric", "qmark" },
             b2 \in { "s", "t0", "t1", "t2", "t3" }, b3 \in { "s", "t0", "t2", "t3" },
             c2 \in { "map", "seq", "half", "bad" }, c3 \in { "map", "seq", "half", "bad" } }
    [] Prof = "norows" -> { [Pair(i, o) EXCEPT !.many = mn, !.input = x] : i \in StyleNames, o \in StyleNames,
                                mn \in { TRUE }, x \in { "ok", "badsql", "badmany" } }
                          \union { [Pair(i, o) EXCEPT !.input = "badsql", !.rows = One(i, << "s", "s" >>)] : i \in StyleNames, o \in StyleNames }
    [] Prof = "wide" ->   \* every configuration, for long random behaviours
         { [Pair(i, o) EXCEPT !.rows = << WideRow(i, sh, 1) >> \o (IF mn THEN << WideRow(i, sh, 2) >> ELSE << >>),
                              !.many = mn, !.esc = e.k, !.escs = e.s, !.expand = ex, !.com = cm] :
             i \in StyleNames, o \in StyleNames, sh \in { << "s" >>, << "s", "t2", "t0" >>, << "t3", "s" >> }, mn \in { TRUE, FALSE },
             e \in { [k |-> "none", s |-> << >>], [k |-> "default", s |-> << >>], [k |-> "custom", s |-> X("\\")], [k |-> "custom", s |-> X("!!")] },
             ex \in { "default", "yes" }, cm \in { << >>, DefCom } }
    [] Prof = "chain" ->  \* first hops of compositions
         { [Pair(i, o) EXCEPT !.rows = << MkRow(i, NatCt(i), << a, "s" >>, 1) >> \o (IF mn THEN << MkRow(i, NatCt(i), << a, "s" >>, 2) >> ELSE << >>),
                              !.expand = ex, !.many = mn] :
             i \in StyleNames, o \in StyleNames, a \in { "s", "t0", "t2" }, ex \in { "yes", "no" }, mn \in { FALSE, TRUE } }
    [] Prof = "addr" ->   \* parameters addressed by position or by key
         { [Pair(i, o) EXCEPT !.rows = << MkRow(i, ct, << a, "s" >>, 1) >>] :
             i \in StyleNames, o \in { "named", "numeric", "qmark" }, a \in { "s", "t2" },
             ct \in { "map", "seq", "smap", "bmap", "half", "extra", "bad" } }

Atoms(c) == CASE Prof = "core"   -> CoreAtoms(c.in)
              [] Prof = "tuple"  -> ManyAtoms(c.in)
              [] Prof = "pct"    -> PctAtoms(c.in)
              [] Prof = "esc"    -> EscAtoms(c.in)
              [] Prof = "near"   -> NearAtoms(c.in)
              [] Prof = "many"   -> ManyAtoms(c.in)
              [] Prof = "com"    -> ComAtoms(c.in)
              [] Prof = "oracle" -> OracleAtoms(c.in)
              [] Prof = "names"  -> NameAtoms(c.in)
              [] Prof = "bytes"  -> CoreAtoms(c.in)
              [] Prof = "rows3"  -> ManyAtoms(c.in)
              [] Prof = "norows" -> ManyAtoms(c.in)
              [] Prof = "chain"  -> ManyAtoms(c.in) \union { X("%"), X("x") }
              [] Prof = "wide"   -> MixAtoms(c.in)
              [] OTHER           -> AddrAtoms(c.in)

Init == /\ \E c \in Init0 : call = c
        /\ pc = "build" /\ (IF Prof = "wide" THEN left \in (MaxAtoms \div 4)..MaxAtoms ELSE left = MaxAtoms)
        /\ ci = 1 /\ src = << >> /\ pos = 1 /\ toks = << >> /\ binds = << >> /\ tab = << >> /\ occ = 0
        /\ out = << >> /\ places = << >> /\ ri = 1 /\ rowsOut = << >> /\ res = NoRes

AddAtom == /\ pc = "build" /\ left > 0
           /\ \E a \in Atoms(call) : call' = [call EXCEPT !.sql = @ \o a]
           /\ left' = left - 1
           /\ UNCHANGED << pc, ci, src, pos, toks, binds, tab, occ, out, places, ri, rowsOut, res >>

\* Random behaviours choose an action first: make references frequent.
AddRef == /\ Prof = "wide" /\ pc = "build" /\ left > 0
          /\ \E a \in ManyAtoms(call.in) : call' = [call EXCEPT !.sql = @ \o a]
          /\ left' = left - 1
          /\ UNCHANGED << pc, ci, src, pos, toks, binds, tab, occ, out, places, ri, rowsOut, res >>

Submit == /\ pc = "build" /\ (Prof = "wide" => left = 0) /\ pc' = "strip" /\ src' = call.sql /\ left' = 0
          /\ UNCHANGED << call, ci, pos, toks, binds, tab, occ, out, places, ri, rowsOut, res >>

Next == AddAtom \/ AddRef \/ Submit \/ (Step /\ UNCHANGED left)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done == pc = "done"

\* The design satisfies every clause on every finished call.
InvRecognition == (Done /\ res.ok) => Recognition(call, src, toks)
InvStrip     == pc \in { "scan", "bind" } => StripDecl(call, src) /\ StripOnlyDeletes(call, src)
InvSkeleton  == Done => SkeletonOk(call, toks, res, res)
InvMeaning   == Done => MeaningOk(call, toks, places, res, res)
InvStrict    == Done => StrictOk(call, toks, res, res)
InvIds       == Done => IdsOk(call, toks, res, res)
InvNumbering == Done => NumberingOk(call, toks, places, res, res)
InvOrdinal   == Done => OrdinalOk(call, toks, res, res)
InvNames     == Done => NamesOk(call, toks, places, res, res)
InvShape     == Done => TypeOk(call, res, res) /\ ShapeOk(call, res, res)
\* A call is refused exactly when its parameters cannot satisfy its query.
InvRefusal == Done => /\ res.ok <=> Errs(call, src) = { }
                      /\ ~res.ok => res.err \in Errs(call, src)
\* Which way round a mapping gives its entries does not matter, unless two of
\* its keys address the same parameter.
Norm(c, k) == IF Oracle(c) THEN (IF k.s # << >> /\ k.s[1] = 34 THEN SubSeq(k.s, 2, Len(k.s) - 1) ELSE Upper(k.s))
              ELSE IF Kind(c.in) = "named" THEN k.s ELSE << KeyNum(k) >>
Conflated(c, row) == \E i, j \in 1..Len(row.items) :
                        i # j /\ Norm(c, row.items[i].k) = Norm(c, row.items[j].k) /\ Norm(c, row.items[i].k) # << -1 >>
Turned(row) == [row EXCEPT !.items = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]]
InvContainer ==
  (Done /\ res.ok) =>
    \A j \in 1..Len(call.rows) :
      LET row == call.rows[j]
          rf  == RefsOf(call, src)
          b   == BindRow(call, Turned(row), binds, Len(tab))
      IN (row.t = "map" /\ ~Conflated(call, row)) =>
           /\ b.ok /\ b.kv = rowsOut[j]
           /\ j = 1 => \A i \in 1..Len(rf) : Lookup(call, Turned(row), rf[i].p, rf[i].o) = Lookup(call, row, rf[i].p, rf[i].o)

\* Every step brings the call closer to its end.
Rank == CASE pc = "build" -> 5 [] pc = "strip" -> 4 [] pc = "check" -> 3 [] pc = "scan" -> 2 [] pc = "bind" -> 1 [] OTHER -> 0
Measure == << Rank, IF pc = "strip" THEN Len(call.com) + 1 - ci ELSE 0,
              IF pc \in { "strip", "scan" } THEN Len(src) + 2 - pos ELSE IF pc = "bind" THEN Len(call.rows) + 1 - ri ELSE 0 >>
Below(a, b) == \E i \in 1..3 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
InvMeasure == \A i \in 1..3 : Measure[i] >= 0
Progress == [][pc # "build" => Below(Measure', Measure)]_mvars
\* ... so every call ends.
FairSpec == Spec /\ WF_vars(Next)
Ends == <>(pc = "done")

\* The configuration is never changed by a call.
ConfigConst == [][pc # "build" => call' = call]_vars
\* Text and numbers already produced are never revised.
Monotone == [][ /\ Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out
                /\ SubSeq(tab', 1, Len(tab)) = tab
                /\ SubSeq(rowsOut', 1, Len(rowsOut)) = rowsOut ]_vars

EmitBehaviour == (EmitOn /\ Done) => PrintT("@@" \o ToJson([call |-> call, exp |-> res]))
=============================================================================
