----------------------------- MODULE TraceCalls -----------------------------
(* Judges recorded executions of the implementation.  Each entry of the      *)
(* trace is a call that was really made, with what really came back and with *)
(* the outcomes of related calls (its peers).  The machine of SqlParams is   *)
(* run on the same call, step by step; when it is done the recorded outcome  *)
(* is held against the clauses of the property being decided, and a verdict  *)
(* is printed for every entry, naming the clauses that fail.                 *)
EXTENDS Props, TLC, Json, IOUtils

Data     == JsonDeserialize(IOEnv.TRACE)
TraceExt == Data.ext
Entries  == Data.entries
Prop     == Data.prop

VARIABLES idx,    \* entry being judged
          stage,  \* 1: the first hop of a chain, 2: the call itself
          hopOk   \* the first hop's result is free of look-alikes
tvars == << mvars, idx, stage, hopOk >>

E == Entries[idx]

Init == \E i \in 1..Len(Entries) :
          /\ idx = i /\ hopOk = TRUE
          /\ IF Entries[i].pre = << >> THEN stage = 2 /\ Start(Entries[i].call)
                                       ELSE stage = 1 /\ Start(Entries[i].pre[1])

\* The first hop is done: go on with the call itself.
Hop == /\ stage = 1 /\ pc = "done"
       /\ stage' = 2 /\ hopOk' = (res.ok /\ Proviso(call, places, res))
       /\ UNCHANGED idx
       /\ call' = E.call /\ pc' = "strip" /\ ci' = 1 /\ src' = E.call.sql /\ pos' = 1 /\ toks' = << >>
       /\ binds' = << >> /\ tab' = << >> /\ occ' = 0 /\ out' = << >> /\ places' = << >>
       /\ ri' = 1 /\ rowsOut' = << >> /\ res' = NoRes

Next == (Step /\ UNCHANGED << idx, stage, hopOk >>) \/ Hop
Spec == Init /\ [][Next]_tvars

-----------------------------------------------------------------------------
(* Peers *)
Peers(rel) == { i \in 1..Len(E.peers) : E.peers[i].rel = rel }

PeersSame(r) == \A i \in Peers("same") : SameResult(r, E.peers[i].res)
PeersTwin(r) == \A i \in Peers("twin") : r.ok = E.peers[i].res.ok /\ (r.ok => r.sql = E.peers[i].res.sql)
PeersBytes(r) == \A i \in Peers("bytes") :
   LET b == E.peers[i].res IN /\ r.ok = b.ok
                              /\ ~r.ok => r.err = b.err
                              /\ r.ok => /\ b.ty = "bytes" /\ r.ty = "str" /\ r.sql = b.sql
                                         /\ r.shape = b.shape /\ SameRows(r.shape, r.rows, b.rows)
\* Peer i of "row" is the conversion of row i alone.
PeersRows(r) ==
  LET ps == [i \in 1..Len(E.peers) |-> E.peers[i].res]
  IN (Peers("row") # { } /\ \A i \in 1..Len(ps) : ps[i].ok /\ ps[i].sql = ps[1].sql) =>
        /\ r.ok /\ r.sql = ps[1].sql /\ r.ty = ps[1].ty /\ r.shape = ps[1].shape
        /\ Len(r.rows) = Len(ps)
        /\ SameRows(r.shape, r.rows, [i \in 1..Len(ps) |-> ps[i].rows[1]])
PeersChain(c, tk, pl, ex) == (hopOk /\ ex.ok /\ Proviso(c, pl, ex)) =>
  \A i \in Peers("chain") : LET r == E.peers[i].res IN r.ok /\ MeaningOk(c, tk, pl, ex, r)

\* The caller's container failed during the call: so did the call, with that very failure.
PeersCaller(r) == \A i \in Peers("caller") : LET p == E.peers[i].res IN ~p.ok /\ p.err = "Caller"
\* It came to an end (the recorder gives up on a call after some seconds).
Ends(r) == r.err # "Hang" /\ \A i \in 1..Len(E.peers) : E.peers[i].res.err # "Hang"

\* Observations of the recorder about the call: arguments untouched, result new.
ArgsKept(r) == ~r.mut /\ \A i \in 1..Len(E.peers) : ~E.peers[i].res.mut
\* Nothing the caller passed was still held when the call was over.
Released(r) == ~r.kept
Fresh(r)    == ~r.shared /\ \A i \in 1..Len(E.peers) : ~E.peers[i].res.shared

-----------------------------------------------------------------------------
ClauseNames == { "NoRaise", "Refuses", "ErrKind", "Type", "Shape", "Skeleton", "Meaning", "Strict", "Ids", "Numbering",
                 "Ordinal", "Names", "PeersSame", "PeersTwin", "PeersBytes", "PeersRows", "PeersChain", "PeersCaller", "Ends", "ArgsKept", "Fresh", "Released" }
Holds(n, c, tk, pl, ex, r) ==
  CASE n = "NoRaise"    -> NoRaise(ex, r)
    [] n = "Refuses"    -> Refuses(ex, r)
    [] n = "ErrKind"    -> ErrKind(c, src, ex, r)
    [] n = "Type"       -> TypeOk(c, ex, r)
    [] n = "Shape"      -> ShapeOk(c, ex, r)
    [] n = "Skeleton"   -> SkeletonOk(c, tk, ex, r)
    [] n = "Meaning"    -> MeaningOk(c, tk, pl, ex, r)
    [] n = "Strict"     -> StrictOk(c, tk, ex, r)
    [] n = "Ids"        -> IdsOk(c, tk, ex, r)
    [] n = "Numbering"  -> NumberingOk(c, tk, pl, ex, r)
    [] n = "Ordinal"    -> OrdinalOk(c, tk, ex, r)
    [] n = "Names"      -> NamesOk(c, tk, pl, ex, r)
    [] n = "PeersSame"  -> PeersSame(r)
    [] n = "PeersTwin"  -> PeersTwin(r)
    [] n = "PeersBytes" -> PeersBytes(r)
    [] n = "PeersRows"  -> PeersRows(r)
    [] n = "PeersChain" -> PeersChain(c, tk, pl, ex)
    [] n = "PeersCaller" -> PeersCaller(r)
    [] n = "Ends"       -> Ends(r)
    [] n = "ArgsKept"   -> ArgsKept(r)
    [] n = "Fresh"      -> Fresh(r)
    [] n = "Released"   -> Released(r)

\* The clauses that make up each property.
ClausesOf(p, c) ==
  CASE p = "C01" -> { "NoRaise", "Shape", "Meaning" }
    [] p = "C02" -> { "NoRaise", "Skeleton" }
    [] p = "C03" -> { "NoRaise", "Strict", "Skeleton" }
    [] p = "C04" -> { "PeersTwin", "Skeleton" }
    [] p = "C05" -> { "NoRaise", "Ids", "Ordinal", "Numbering", "Meaning" }
    [] p = "C06" -> { "NoRaise", "Skeleton", "Ids", "Ordinal", "Numbering", "Meaning" }
    [] p = "C07" -> { "NoRaise", "Numbering" }
    [] p = "C08" -> { "NoRaise", "Ordinal" } \union (IF Kind(c.in) = "ordinal" THEN { "Meaning", "Numbering", "Ids" } ELSE { })
    [] p = "C09" -> { "NoRaise", "Names", "Meaning" }
    [] p = "C10" -> { "PeersRows", "NoRaise", "Shape" }
    [] p = "C11" -> { "NoRaise", "Refuses", "ErrKind" }
    [] p = "C12" -> { "NoRaise", "Refuses", "Skeleton", "Ids" }
    [] p = "C13" -> { "NoRaise", "Refuses", "Skeleton", "Ids" }
    [] p = "C14" -> { "NoRaise", "Refuses", "Skeleton", "Ids" }
    [] p = "C15" -> { "PeersBytes", "Type" }
    [] p = "C16" -> { "PeersSame", "ArgsKept", "Fresh", "Released" }
    [] p = "C17" -> { "NoRaise", "Refuses", "ErrKind" }
    [] p = "C18" -> { "PeersSame", "NoRaise", "Refuses", "ErrKind", "Ids", "Meaning", "Numbering", "Ordinal" }
    [] p = "C19" -> { "NoRaise", "Refuses", "Ids", "Meaning", "Names", "Numbering", "Ordinal", "Skeleton" }
    [] p = "C20" -> { "PeersChain" }
    [] p = "C21" -> { "NoRaise", "Refuses", "Skeleton", "Ids" }
    [] p = "C22" -> { "PeersCaller", "PeersSame", "ArgsKept" }
    [] p = "C23" -> { "PeersSame", "NoRaise", "Refuses", "ErrKind", "Shape", "Meaning", "Ids" }
    [] p = "C24" -> { "Ends" }
    [] p = "C25" -> { "Released" }

Failing(c, tk, pl, ex, r) == { n \in ClausesOf(Prop, c) : ~Holds(n, c, tk, pl, ex, r) }

\* What makes the entry exercise its property (for the evidence).
Refs(tk) == Cardinality({ i \in 1..Len(tk) : tk[i].k = "ref" })

Verdict == (stage = 2 /\ pc = "done") =>
  PrintT("@@" \o ToJson([i |-> idx, bad |-> Failing(call, toks, places, res, E.res), exact |-> SameResult(res, E.res),
                         ok |-> res.ok, err |-> res.err, refs |-> Refs(toks),
                         prov |-> hopOk /\ (res.ok => Proviso(call, places, res)), steps |-> Len(toks)]))

\* The machine is deterministic, so this identifies its states.
View == << idx, stage, pc, ci, pos, Len(src), ri, Len(rowsOut) >>
=============================================================================
