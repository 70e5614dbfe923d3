-------------------------------- MODULE ToolGen --------------------------------
(* The programs insertgrid and subgrid on a workspace of small grid files:    *)
(* laws of the two, and behaviours to be run - every pair of files, every     *)
(* offset, every window, one after another.                                   *)
EXTENDS Grid, Json

CONSTANTS MaxX, MaxY, \* largest size of the files
          MaxOff,    \* offsets
          AsTypes,     \* node types given to insertgrid
          Full,      \* TRUE: all presence patterns; FALSE: a few
          Runs       \* program runs

VARIABLES ws,        \* file -> grid
          hist,
          last       \* what the last run did

Sizes == (1..MaxX) \X (1..MaxY)
Offs == (-MaxOff)..MaxOff

Num(f, i, j) == <<1, 10 * f + i, 100 * f + 10 * j>>
FileOf(f, s, p) == GridOf("NO", s[1], s[2], 0, LAMBDA i, j : IF p[j * s[1] + i + 1] THEN Num(f, i, j) ELSE Empty)

Some(n) == {[k \in 1..n |-> TRUE], [k \in 1..n |-> k # 1], [k \in 1..n |-> k # n], [k \in 1..n |-> k % 2 = 0], [k \in 1..n |-> FALSE]}
Patterns(n) == IF Full THEN [1..n -> BOOLEAN] ELSE Some(n)

GInit == ws = <<>> /\ hist = <<>> /\ last = <<"-">>

With(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Does(c) == hist' = Append(hist, c)
Name(k) == CASE k = 2 -> "r" [] k = 3 -> "s" [] k = 4 -> "u" [] OTHER -> "v"

Put(f, n) == \E s \in Sizes : \E p \in Patterns(s[1] * s[2]) : \E g \in {FileOf(n, s, p)} :
               ws' = With(ws, f, g) /\ Does(<<"file", f, g.nx, g.ny, g.n>>) /\ last' = <<"-">>

Latest == IF Len(hist) = 2 THEN "g" ELSE Name(Len(hist) - 1)
Raw(g) == [g EXCEPT !.t = "NO"]

InsertGrid == \E i0, j0 \in Offs, m \in BOOLEAN, t \in AsTypes, b \in {"b", "g"} :
  \E a \in {IF Latest \in DOMAIN ws THEN Latest ELSE "g"}, d \in {Name(Len(hist))} :
  \E w \in {Insert(ws[a], ws[b], i0, j0, m, t)} :
    /\ ~(t = "CO" /\ (w.nx < 2 \/ w.ny < 2))
    /\ Does(<<"insert", a, b, i0, j0, IF m THEN 1 ELSE 0, t, d>>)
    /\ IF t = "DD" /\ (w.nx % 2 = 0 \/ w.ny % 2 = 0)
       THEN UNCHANGED ws /\ last' = <<"-">>
       ELSE /\ ws' = With(ws, d, Raw(Validate(w)))
            /\ last' = <<"insert", a, b, i0, j0, m, t, d>>

SubGridRun == \E i1, j1 \in {-1, 0, 1, 2}, di, dj \in {0, 1, 5} :
  \E a \in {IF Latest \in DOMAIN ws THEN Latest ELSE "g"}, d \in {Name(Len(hist))} :
    /\ Does(<<"sub", a, i1, i1 + di, j1, j1 + dj, d>>)
    /\ IF WindowEmpty(ws[a], i1, i1 + di, j1, j1 + dj) THEN UNCHANGED ws /\ last' = <<"-">>
       ELSE ws' = With(ws, d, Window(ws[a], i1, i1 + di, j1, j1 + dj)) /\ last' = <<"sub", a, i1, i1 + di, j1, j1 + dj, d>>

GNext == \/ Len(hist) = 0 /\ Put("g", 1)
         \/ Len(hist) = 1 /\ Put("b", 2)
         \/ Len(hist) >= 2 /\ Len(hist) < Runs + 2 /\ (InsertGrid \/ SubGridRun)

-----------------------------------------------------------------------------
(* Laws *)

\* what was inserted can be cut out again, and so can what it was inserted into
\* where the other does not lie
InsertLaw == (last[1] = "insert" /\ last[7] = "NO") =>
  LET a == ws[last[2]]
      b == ws[last[3]]
      w == ws[last[8]]
      ox == Max(0, -last[4])
      oy == Max(0, -last[5])
      cut(i0, j0, g) == Window(w, i0, i0 + g.nx - 1, j0, j0 + g.ny - 1)
  IN  \* smallest grid that holds both
      /\ w.nx = Max(a.nx + ox, last[4] + ox + b.nx) /\ w.ny = Max(a.ny + oy, last[5] + oy + b.ny)
      /\ ~last[6] => cut(last[4] + ox, last[5] + oy, b) = b
      \* with merging, b over what was there
      /\ last[6] => \E c \in {cut(last[4] + ox, last[5] + oy, b)} : \A k \in 1..Len(b.n) : b.n[k] # Empty => c.n[k] = b.n[k]
      /\ last[6] => \E c \in {cut(ox, oy, a)} : \A k \in 1..Len(a.n) : a.n[k] # Empty => c.n[k] # Empty
      /\ (last[4] >= a.nx \/ last[5] >= a.ny \/ last[4] + b.nx <= 0 \/ last[5] + b.ny <= 0) => cut(ox, oy, a) = a

SubLaw == last[1] = "sub" =>
  LET a == ws[last[2]]
      w == ws[last[7]]
  IN  /\ Insert(a, w, Max(last[3], 0), Max(last[5], 0), FALSE, "NO") = a
      /\ Insert(a, w, Max(last[3], 0), Max(last[5], 0), TRUE, "NO") = a

View == hist

Emit == PrintT(ToJson(hist'))
=============================================================================
