-------------------------------- MODULE Props --------------------------------
(* What a finished call must satisfy, stated without reference to how the    *)
(* machine computes its result.  Every clause takes                          *)
(*   c  the call                tk  the tokens recognised in its text        *)
(*   ex the machine's outcome   r   the outcome to judge                     *)
(* In the bounded models r = ex (the design is checked); in trace checking r *)
(* is what the implementation returned.                                      *)
EXTENDS SqlParams

-----------------------------------------------------------------------------
(* Meaning of a query: its characters, with -(id+1) where a value is bound. *)
BAD == -99999999
ValItem(id) == -(id + 1)

Join(ids) == [i \in 1..(2 * Len(ids) - 1) |-> IF i % 2 = 1 THEN ValItem(ids[(i + 1) \div 2]) ELSE 44]

RefIds(c, row, t) == LET f == LookupKey(c, row, t.key) IN IF t.x THEN f.v.e ELSE << f.v.id >>

TokMeaning(c, row, t) ==
  IF t.k # "ref" THEN t.t
  ELSE LET ids == RefIds(c, row, t)
       IN IF ~t.x THEN << ValItem(ids[1]) >>
          ELSE IF ids = << >> THEN << 40, 78, 85, 76, 76, 41 >>
          ELSE << 40 >> \o Join(ids) \o << 41 >>

Meaning(c, tk, row) == Flat([i \in 1..Len(tk) |-> TokMeaning(c, row, tk[i])])

-----------------------------------------------------------------------------
(* How the target reads a converted query.  strict = the %-formatting rules  *)
(* of the percent styles: every % must belong to a placeholder or be doubled.*)
\* (h: where it is likely to be; keys occur once)
KvGet(kv, k, h) == IF h \in 1..Len(kv) /\ kv[h].k = k THEN ValItem(kv[h].v) ELSE
                LET is == { i \in 1..Len(kv) : kv[i].k = k }
                IN IF is = { } THEN BAD ELSE ValItem(kv[CHOOSE i \in is : TRUE].v)

PhName(st, p) == IF st = "named_oracle" /\ p.q THEN Quoted(p.name) ELSE p.name

StrictAt(st, s, i) ==
  IF st = "format" THEN IF i < Len(s) /\ s[i + 1] = 115 THEN [n |-> 2, name |-> << >>, q |-> FALSE] ELSE NoParam
  ELSE IF i < Len(s) /\ s[i + 1] = 40
       THEN LET e == FindChar(s, i + 2, 41)
            IN IF e < Len(s) /\ s[e + 1] = 115
               THEN [n |-> e + 2 - i, name |-> SubSeq(s, i + 2, e - 1), q |-> FALSE] ELSE NoParam
       ELSE NoParam

\* One introducer of s, at p; a.i is the first position not read yet.
ReadAt(st, strict, s, kv, a, p) ==
  LET t  == a.items \o SubSeq(s, a.i, p - 1)
      h  == IF strict THEN StrictAt(st, s, p) ELSE ParamAt(st, s, p)
      kind == Kind(st)
      ix == CASE kind = "ordinal" -> a.k + 1 [] kind = "numeric" -> IntOf(h.name) [] OTHER -> 0
      v  == IF kind = "named" THEN KvGet(kv, PhName(st, h), a.k + 1)
            ELSE IF ix \in 1..Len(kv) THEN ValItem(kv[ix].v) ELSE BAD
      u  == IF kind = "named" THEN PhName(st, h) ELSE << ix >>
  IN IF p < a.i THEN a     \* inside what was read already
     ELSE IF strict /\ p < Len(s) /\ s[p + 1] = 37 THEN [a EXCEPT !.i = p + 2, !.items = Append(t, 37)]
     ELSE IF h.n = 0 THEN [a EXCEPT !.i = p + 1, !.items = Append(t, IF strict THEN BAD ELSE s[p])]
     ELSE [i |-> p + h.n, k |-> a.k + 1, items |-> Append(t, v), used |-> Append(a.used, u)]

Read(st, strict, s, kv) ==
  LET a == FoldLeft(LAMBDA b, p : ReadAt(st, strict, s, kv, b, p),
                    [i |-> 1, k |-> 0, items |-> << >>, used |-> << >>], Positions(s, Intro(st)))
  IN [items |-> a.items \o SubSeq(s, a.i, Len(s)), used |-> a.used]

\* Every supplied out-parameter is referred to by the converted text.
AllUsed(st, kv, used) ==
  IF Kind(st) = "named" THEN { kv[i].k : i \in 1..Len(kv) } = RangeOf(used)
  ELSE { << i >> : i \in 1..Len(kv) } = RangeOf(used)

\* The placeholders the target style itself would see in s.
SeenIn(st, s) == LET I == Intro(st) IN { << i, ParamAt(st, s, i).n >> : i \in { j \in 1..Len(s) : s[j] = I /\ ParamAt(st, s, j).n > 0 } }
\* ... in text order (none lies within another).
SeenSeq(st, s) == LET ps == SelectSeq(Positions(s, Intro(st)), LAMBDA i : ParamAt(st, s, i).n > 0)
                  IN [i \in 1..Len(ps) |-> ParamAt(st, s, ps[i])]

\* Proviso: apart from the placeholders written (pl) the expected text holds
\* nothing the target would read as one, and they read at full length.
Proviso(c, pl, ex) == SeenIn(c.out, ex.sql) = RangeOf(pl)

-----------------------------------------------------------------------------
(* Shape of the text: literals exactly, any placeholder of the out-style      *)
(* where one is due.                                                          *)
Piece(t) == [ph |-> FALSE, t |-> t]
Hole == [ph |-> TRUE, t |-> << >>]
Holes(n) == [i \in 1..(2 * n - 1) |-> IF i % 2 = 1 THEN Hole ELSE Piece(<< 44 >>)]
TokPieces(c, t) ==
  CASE t.k = "pct" -> << Piece(<< 37, 37 >>) >>
    [] t.k \in { "lit", "esc" } -> << Piece(t.t) >>
    [] OTHER -> IF ~t.x THEN << Hole >>
                ELSE LET n == Len(RefIds(c, c.rows[1], t))
                     IN IF n = 0 THEN << Piece(<< 40, 78, 85, 76, 76, 41 >>) >>
                        ELSE << Piece(<< 40 >>) >> \o Holes(n) \o << Piece(<< 41 >>) >>
Pieces(c, tk) == Flat([i \in 1..Len(tk) |-> TokPieces(c, tk[i])])

\* Possible lengths of a placeholder text of style st at i.
HoleLens(c, s, i) ==
  LET st == c.out IN
  IF i > Len(s) \/ s[i] # Intro(st) THEN { }
  ELSE CASE st = "qmark" -> { 1 }
         [] st = "format" -> IF i < Len(s) /\ s[i + 1] = 115 THEN { 2 } ELSE { }
         [] st = "pyformat" -> LET p == StrictAt(st, s, i) IN IF p.n = 0 THEN { } ELSE { p.n }
         [] Kind(st) = "numeric" -> LET e == DigitEnd(s, i + 1) IN 2..(e - i)
         [] OutQuotes(c) -> IF i < Len(s) /\ s[i + 1] = 34
                            THEN LET e == FindChar(s, i + 2, 34) IN IF e > i + 2 /\ e <= Len(s) THEN { e + 1 - i } ELSE { }
                            ELSE { }
         [] OTHER -> LET e == IdentEnd(s, i + 1) IN 2..(e - i)

Reach(c, s, ps) ==
  FoldLeft(LAMBDA P, q : IF q.ph THEN UNION { { p + n : n \in HoleLens(c, s, p) } : p \in P }
                         ELSE { p + Len(q.t) : p \in { x \in P : StartsWith(s, x, q.t) } },
           { 1 }, ps)
Skeleton(c, tk, s) == (Len(s) + 1) \in Reach(c, s, Pieces(c, tk))

-----------------------------------------------------------------------------
(* Slots: the value positions of the query in text order. *)
Slot(t, e) == [k |-> t.canon, e |-> e]
TokSlots(c, t) == IF t.k # "ref" THEN << >>
                  ELSE IF ~t.x THEN << Slot(t, -1) >>
                  ELSE [i \in 1..Len(RefIds(c, c.rows[1], t)) |-> Slot(t, i - 1)]
Slots(c, tk) == Flat([i \in 1..Len(tk) |-> TokSlots(c, tk[i])])
\* How each is written in the query.
Written(c, tk) == Flat([i \in 1..Len(tk) |-> [j \in 1..Len(TokSlots(c, tk[i])) |-> tk[i].t]])
\* Their values in a row.
Vals(c, tk, row) == Flat([i \in 1..Len(tk) |-> IF tk[i].k = "ref" THEN RefIds(c, row, tk[i]) ELSE << >>])

\* Number due to each slot: the rank of its first use among first uses.
Ranks(sl) ==
  FoldLeftDomain(LAMBDA a, i : LET known == { j \in 1..(i - 1) : sl[j] = sl[i] }
                               IN IF known = { } THEN [n |-> a.n + 1, rk |-> Append(a.rk, a.n + 1)]
                                  ELSE [a EXCEPT !.rk = Append(@, @[CHOOSE j \in known : TRUE])],
                 [n |-> 0, rk |-> << >>], sl).rk

-----------------------------------------------------------------------------
(* Clauses *)
Rows(c) == 1..Len(c.rows)

\* A complete, well-formed call succeeds.
NoRaise(ex, r)  == ex.ok => r.ok
\* The references of a text with their ordinal, parameters aside.
RefsOf(c, s) ==
  LET at(a, i) ==
        LET p == ParamAt(c.in, s, i)
        IN IF i < a.i THEN a
           ELSE IF EscAt(c, s, i) THEN [a EXCEPT !.i = i + Len(EscStr(c)) + 1]
           ELSE IF OutPct(c) /\ s[i] = 37 THEN [a EXCEPT !.i = i + 1]
           ELSE IF p.n = 0 THEN [a EXCEPT !.i = i + 1]
           ELSE [i |-> i + p.n, refs |-> Append(a.refs, [p |-> p, o |-> Len(a.refs)])]
  IN FoldLeftDomain(at, [i |-> 1, refs |-> << >>], s).refs

\* Every reason there is to refuse call c, whose comment-free text is s.
RowErrs(c, row, fs) ==
  IF ~RowOk(c, row) THEN { "TypeError" }
  ELSE UNION { LET f == LookupKey(c, row, fs[i].k)
               IN IF ~f.ok THEN { f.err }
                  ELSE IF ~(Expand(c) /\ fs[i].v.t = "tup") THEN { }
                  ELSE IF f.v.t # "tup" THEN { "TypeError" }
                  ELSE IF Len(f.v.e) # Len(fs[i].v.e) THEN { "ValueError" } ELSE { } : i \in { h \in 1..Len(fs) : fs[h].ok } }
Errs(c, s) ==
  IF c.input # "ok" THEN { "TypeError" }
  ELSE IF c.rows = << >> THEN { "ValueError" }
  ELSE IF ~RowOk(c, c.rows[1]) THEN { "TypeError" }
  ELSE LET rf == RefsOf(c, s)
           fs == [i \in 1..Len(rf) |-> Lookup(c, c.rows[1], rf[i].p, rf[i].o)]
       IN { fs[i].err : i \in { h \in 1..Len(fs) : ~fs[h].ok } }
          \union UNION { RowErrs(c, c.rows[j], fs) : j \in 2..Len(c.rows) }

\* A call that cannot be honoured is refused, for a reason that there is.
Refuses(ex, r)     == ~ex.ok => ~r.ok
ErrKind(c, s, ex, r) == (~ex.ok /\ ~r.ok) => r.err \in Errs(c, s)

Both(ex, r) == ex.ok /\ r.ok

TypeOk(c, ex, r) == Both(ex, r) => r.ty = (IF c.bytes THEN "bytes" ELSE "str")
ShapeOk(c, ex, r) == Both(ex, r) => /\ r.shape = (IF Kind(c.out) = "named" THEN "dict" ELSE "list")
                                    /\ Len(r.rows) = Len(c.rows)

SkeletonOk(c, tk, ex, r) == Both(ex, r) => Skeleton(c, tk, r.sql)

MeaningOk(c, tk, pl, ex, r) ==
  (Both(ex, r) /\ Proviso(c, pl, ex)) =>
    /\ Len(r.rows) = Len(c.rows)
    /\ \A j \in Rows(c) : LET d == Read(c.out, FALSE, r.sql, r.rows[j])
                              \* a doubled percent is still doubled in the raw reading
                              m == Flat([i \in 1..Len(tk) |-> IF tk[i].k = "pct" THEN << 37, 37 >> ELSE TokMeaning(c, c.rows[j], tk[i])])
                          IN d.items = m /\ AllUsed(c.out, r.rows[j], d.used)

\* Percent targets from other styles: no proviso at all.
StrictOk(c, tk, ex, r) ==
  (Both(ex, r) /\ OutPct(c)) =>
    /\ Len(r.rows) = Len(c.rows)
    /\ \A j \in Rows(c) : LET d == Read(c.out, TRUE, r.sql, r.rows[j])
                          IN d.items = Meaning(c, tk, c.rows[j]) /\ AllUsed(c.out, r.rows[j], d.used)

\* Exactly the referenced values arrive, by identity.
IdsOk(c, tk, ex, r) ==
  Both(ex, r) =>
    /\ Len(r.rows) = Len(c.rows)
    /\ \A j \in Rows(c) : { r.rows[j][i].v : i \in 1..Len(r.rows[j]) } = RangeOf(Vals(c, tk, c.rows[j]))

NumberingOk(c, tk, pl, ex, r) ==
  (Both(ex, r) /\ Kind(c.out) = "numeric") =>
    LET sl == Slots(c, tk)
        rk == Ranks(sl)
        n  == Cardinality(RangeOf(sl))
    IN /\ \A j \in 1..Len(r.rows) : Len(r.rows[j]) = n
       /\ Len(r.rows) = Len(c.rows)
       /\ \A j \in Rows(c) : LET vs == Vals(c, tk, c.rows[j])
                             IN \A i \in 1..Len(sl) : r.rows[j][rk[i]].v = vs[i]
       /\ Proviso(c, pl, ex) => LET seen == SeenSeq(c.out, r.sql)
                                IN /\ Len(seen) = Len(sl)
                                   /\ \A i \in 1..Len(sl) : seen[i].name = Digits(rk[i])

OrdinalOk(c, tk, ex, r) ==
  (Both(ex, r) /\ Kind(c.out) = "ordinal") =>
    /\ Len(r.rows) = Len(c.rows)
    /\ \A j \in Rows(c) : [i \in 1..Len(r.rows[j]) |-> r.rows[j][i].v] = Vals(c, tk, c.rows[j])

\* Named targets: names in the text and keys agree; distinct slots get distinct
\* names, a slot one name; a scalar named parameter keeps its name.
NamesOk(c, tk, pl, ex, r) ==
  (Both(ex, r) /\ Kind(c.out) = "named" /\ Proviso(c, pl, ex)) =>
    LET seen == SeenSeq(c.out, r.sql)
        sl   == Slots(c, tk)
        nm   == [i \in 1..Len(seen) |-> PhName(c.out, seen[i])]
        wr   == Written(c, tk)
    IN /\ Len(seen) = Len(sl)
       /\ \A j \in 1..Len(r.rows) : /\ { r.rows[j][i].k : i \in 1..Len(r.rows[j]) } = RangeOf(nm)
                                    /\ Cardinality(RangeOf(nm)) = Len(r.rows[j])
       \* one slot for a name
       /\ Cardinality({ << nm[i], sl[i] >> : i \in 1..Len(sl) }) = Cardinality(RangeOf(nm))
       \* one name for a slot (numbers: as it is written)
       /\ LET id == [i \in 1..Len(sl) |-> << sl[i], IF Kind(c.in) = "named" THEN << >> ELSE wr[i] >>]
          IN Cardinality({ << id[i], nm[i] >> : i \in 1..Len(sl) }) = Cardinality(RangeOf(id))
       /\ Kind(c.in) = "named" =>
            \A i \in 1..Len(sl) : sl[i].e = -1 => nm[i] = OutName(c, sl[i].k)

\* Same outcome of two calls, text and parameters alike.
KvSet(kv) == { << kv[i].k, kv[i].v >> : i \in 1..Len(kv) }
SameRows(sh, a, b) == /\ Len(a) = Len(b)
                      /\ \A j \in 1..Len(a) : IF sh = "dict" THEN KvSet(a[j]) = KvSet(b[j]) /\ Len(a[j]) = Len(b[j])
                                              ELSE a[j] = b[j]
SameResult(a, b) == /\ a.ok = b.ok
                    /\ ~a.ok => a.err = b.err
                    /\ a.ok => a.sql = b.sql /\ a.ty = b.ty /\ a.shape = b.shape /\ SameRows(a.shape, a.rows, b.rows)

-----------------------------------------------------------------------------
(* Recognition, stated on positions rather than by scanning. *)
\* Tokens partition the text.
Partition(s, tk) == /\ \A i \in 1..Len(tk) : tk[i].p = (IF i = 1 THEN 1 ELSE tk[i - 1].p + tk[i - 1].n) /\ tk[i].n > 0
                    /\ (IF tk = << >> THEN s = << >> ELSE tk[Len(tk)].p + tk[Len(tk)].n = Len(s) + 1)
\* A literal contributes itself; so do all characters outside placeholders and escapes.
LitFaithful(s, tk) == \A i \in 1..Len(tk) : tk[i].k \in { "lit", "pct" } => tk[i].t = SubSeq(s, tk[i].p, tk[i].p + tk[i].n - 1)
\* Every placeholder position is replaced unless an escape sequence covers its introducer.
RefsComplete(c, s, tk) ==
  LET starts == { j \in 1..Len(s) : ParamAt(c.in, s, j).n > 0 }
      refs   == { tk[i].p : i \in { h \in 1..Len(tk) : tk[h].k = "ref" } }
      escd   == UNION { tk[i].p .. (tk[i].p + tk[i].n - 1) : i \in { h \in 1..Len(tk) : tk[h].k = "esc" } }
  IN /\ refs \subseteq starts
     /\ starts \ refs \subseteq escd
     /\ refs \intersect escd = { }
\* Escapes only when enabled, and exactly the escape text plus the introducer.
EscSound(c, s, tk) == \A i \in 1..Len(tk) : tk[i].k = "esc" =>
                         c.esc # "none" /\ SubSeq(s, tk[i].p, tk[i].p + tk[i].n - 1) = EscStr(c) \o << Intro(c.in) >>
\* With the default escape, of a maximal run of introducers each pair collapses.
EscComplete(c, s, tk) ==
  c.esc # "none" =>
    \A i \in 1..Len(tk) : tk[i].k = "lit" => \A j \in tk[i].p .. (tk[i].p + tk[i].n - 1) : ~EscAt(c, s, j) \/
       \* the sequence starting here overlaps one already taken or starts inside a token
       \E h \in 1..Len(tk) : tk[h].k # "lit" /\ tk[h].p <= j /\ j < tk[h].p + tk[h].n
PctComplete(c, s, tk) == OutPct(c) => \A i \in 1..Len(tk) : tk[i].k = "lit" => \A j \in 1..Len(tk[i].t) : tk[i].t[j] # 37

Recognition(c, s, tk) == Partition(s, tk) /\ LitFaithful(s, tk) /\ RefsComplete(c, s, tk)
                         /\ EscSound(c, s, tk) /\ EscComplete(c, s, tk) /\ PctComplete(c, s, tk)

-----------------------------------------------------------------------------
(* Comments, stated on lines (single-line comment styles only). *)
RECURSIVE LinesR(_, _)
LinesR(s, i) == IF i > Len(s) THEN << >>
                ELSE LET e == FindChar(s, i, NL)
                         j == IF e > Len(s) THEN Len(s) ELSE e
                     IN << SubSeq(s, i, j) >> \o LinesR(s, j + 1)
IsCommentLine(l, m) == \E k \in 1..BlankEnd(l, 1) : StartsWith(l, k, m.a)
StripLines(s, m) == Flat([i \in 1..Len(LinesR(s, 1)) |-> IF IsCommentLine(LinesR(s, 1)[i], m) THEN << >> ELSE LinesR(s, 1)[i]])
RECURSIVE StripAll(_, _, _)
StripAll(s, com, i) == IF i > Len(com) THEN s ELSE StripAll(StripLines(s, com[i]), com, i + 1)
StripDecl(c, s) == (\A i \in 1..Len(c.com) : c.com[i].t = "line") => s = StripAll(c.sql, c.com, 1)
\* Stripping only deletes.
RECURSIVE SubseqR(_, _, _, _)
SubseqR(a, b, i, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE
                       ELSE IF a[i] = b[j] THEN SubseqR(a, b, i + 1, j + 1) ELSE SubseqR(a, b, i, j + 1)
StripOnlyDeletes(c, s) == SubseqR(s, c.sql, 1, 1) /\ (c.com = << >> => s = c.sql)
=============================================================================
