------------------------------ MODULE FrameTrace ------------------------------
(* Recorded worlds against Frame: kind "ops" is a history of operations with *)
(* the digest of every cell of the world after each of them, and, per        *)
(* result, the digests of its chains in this world and when the simulation   *)
(* was run alone; kind "pair" is a set of runs with the same seed and        *)
(* settings that differ only in what does not matter (Frame: the reads in    *)
(* between and the output options).                                          *)
EXTENDS Frame, J, TLC

Traces == JEnv("TRACE")
VARIABLES t, i, err
vars == <<t, i, err>>
Tr == Traces[t]
Clause(ok, props, name, r, s) == IF ok THEN {} ELSE {<<props, name, r, s>>}

CellId(c) == IF c[1] = "set" THEN "set/" \o ToString(c[2])
             ELSE IF c[1] = "res" THEN "res/" \o ToString(c[2]) \o "/" \o ToString(c[3]) ELSE "user/" \o c[2]
(* ---- ops: position i is the i-th event; event 1 is the construction ---- *)
Val(cells, id) == LET s == SelectSeq(cells, LAMBDA c : c[1] = id) IN IF s = <<>> THEN "gone" ELSE s[1][2]
What(c) == IF c[3] = "user" THEN "an operation leaves every input of the user as it was"
           ELSE IF c[3] = "set" THEN "an operation leaves the settings of other simulations as they were"
           ELSE "an operation leaves earlier results as they were"
OpErr(n) ==
  LET e == Tr.ev[n] IN
  IF n = 1
  THEN UNION { Clause(Val(e.cells, e.before[c][1]) = e.before[c][2], "C16", "building a simulation leaves the inputs as they were", c, 1) : c \in 1..Len(e.before) }
  ELSE LET p == Tr.ev[n - 1]
           free == {CellId(c) : c \in FWrites(e.op, e.k)} IN
       UNION { Clause(p.cells[c][1] \in free \/ Val(e.cells, p.cells[c][1]) = p.cells[c][2], "C16",
                      What(p.cells[c]) \o " (" \o e.op \o ": " \o p.cells[c][1] \o ")", e.k, n) : c \in 1..Len(p.cells) }
       \cup Clause({e.cells[c][1] : c \in 1..Len(e.cells)} =
                   {p.cells[c][1] : c \in 1..Len(p.cells)} \cup {CellId(c) : c \in FCreates(e.op, e.k, e.had)},
                   "C16", "an operation creates the results of its own simulation and nothing else", e.k, n)
IsoErr == UNION { Clause(Tr.iso[r].here = Tr.iso[r].alone, "C16 C15",
                         "a simulation gives the same chains as when it is run alone", Tr.iso[r].k, Tr.iso[r].n) : r \in 1..Len(Tr.iso) }
(* ---- pair: position i is the i-th variant ---- *)
RunErr(b, v, n) ==
  UNION { Clause(b[r][f] = v[r][f], "C15", "same seed and settings, same chains (" \o f \o ", " \o Tr.vars[n].what \o ")", r, n)
          : r \in 1..Len(b), f \in {"chain", "sschain", "s2chain", "rej"} }
PairErr(n) == LET b == Tr.base v == Tr.vars[n].runs IN
  IF Len(b) # Len(v) THEN Clause(FALSE, "C15", "same seed and settings, same number of runs", 0, n) ELSE RunErr(b, v, n)

Last == IF Tr.kind = "ops" THEN Len(Tr.ev) ELSE Len(Tr.vars)
Init == t \in 1..Len(Traces) /\ i = 0 /\ err = {}
Next == \/ /\ i < Last /\ i' = i + 1 /\ UNCHANGED t
           /\ err' = err \cup (IF Tr.kind = "ops" THEN OpErr(i + 1) ELSE PairErr(i + 1))
        \/ /\ i = Last /\ i' = i + 1 /\ UNCHANGED t
           /\ err' = err \cup (IF Tr.kind = "ops" THEN IsoErr ELSE {})
           /\ PrintT("VERDICT " \o ToString(t) \o " " \o ToString(err'))
Spec == Init /\ [][Next]_vars
===============================================================================
