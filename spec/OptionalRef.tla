---------------------------- MODULE OptionalRef ----------------------------
(***************************************************************************)
(* opt::optional<T&> and opt::optional<void>.  An optional reference       *)
(* designates a cell or nothing; assigning rebinds it and never changes a  *)
(* cell, writing through it changes the cell.  Kinds: "R" int&, "K" const  *)
(* int& (not writable), "X" reference to a class, "D" void (always empty). *)
(***************************************************************************)
EXTENDS Naturals, Integers, FiniteSets, Sequences

CONSTANTS Vars, Cells, Vals
VARIABLES o,        \* o[x]: the cell x designates, 0: empty
          cell
vars == <<o, cell>>
Init == o = [x \in Vars |-> 0] /\ cell = [c \in Cells |-> 1]

Refs == {"R", "K", "X"}
Ops(k) == [op : {"new"}, x : Vars, c : Cells, f : {"none", "nullopt"} \cup (IF k \in Refs THEN {"ref", "inpl", "mkref"} ELSE {})]
     \cup [op : {"newo"}, x : Vars, y : Vars, f : {"copy", "ccopy", "move"}]
     \cup [op : {"asgo"}, x : Vars, y : Vars, f : {"copy", "ccopy", "move", "temp"}]
     \cup [op : {"null", "reset"}, x : Vars]
     \cup [op : {"emp"}, x : Vars, c : Cells]
     \cup [op : {"swap"}, x : Vars, y : Vars, f : {"mem", "std", "adl"}]
     \cup (IF k \in {"R", "X"} THEN [op : {"set"}, x : Vars, v : Vals, f : {"star", "arrow", "value"}] ELSE {})
     \cup (IF k = "D" THEN [op : {"asgv"}, x : Vars, v : Vals] ELSE {})
     \cup [op : {"cell"}, c : Cells, v : Vals]
     \cup [op : {"vor"}, x : Vars, v : Vals, f : {"lv", "rv"}]

Legal(k, p) == CASE p.op = "newo" -> p.x # p.y
                 [] p.op = "set" -> o[p.x] # 0
                 [] OTHER -> TRUE

Bind(k, x, c) == o' = [o EXCEPT ![x] = IF k = "D" THEN 0 ELSE c] /\ UNCHANGED cell
Do(k, p) ==
    CASE p.op = "new" -> Bind(k, p.x, IF p.f \in {"none", "nullopt"} THEN 0 ELSE p.c)
      [] p.op \in {"newo", "asgo"} -> Bind(k, p.x, o[p.y])
      [] p.op \in {"null", "reset"} -> Bind(k, p.x, 0)
      [] p.op = "emp" -> Bind(k, p.x, p.c)
      [] p.op = "swap" -> o' = [o EXCEPT ![p.x] = o[p.y], ![p.y] = o[p.x]] /\ UNCHANGED cell
      [] p.op = "set" -> cell' = [cell EXCEPT ![o[p.x]] = p.v] /\ UNCHANGED o
      [] p.op = "cell" -> cell' = [cell EXCEPT ![p.c] = p.v] /\ UNCHANGED o
      [] OTHER -> UNCHANGED vars
Result(k, p) == IF p.op = "vor" THEN IF o[p.x] = 0 THEN p.v ELSE cell[o[p.x]] ELSE 0

\* Only writing changes a cell, and only writing to a cell changes what is read through an optional that is not rebound.
CellsOnlyBySet(k, p) == cell' # cell => p.op \in {"set", "cell"}
Isolated(k, p) == \A x \in Vars : (p.op # "cell" /\ x # p.x /\ (p.op = "swap" => x # p.y)) => o'[x] = o[x]
=============================================================================
