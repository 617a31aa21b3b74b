----------------------------- MODULE StateModel -----------------------------
(* Optimizer states as objects on a heap.  A state refers to buffers holding   *)
(* its points and its cached evaluations; the user's argument array is a       *)
(* buffer too.  Operations: full update, single-point update, slicing,         *)
(* copying, a save/load round trip and the user overwriting an array he had    *)
(* passed in.  Points are abstract numbers and F is an uninterpreted-looking   *)
(* injective evaluation, so that "the cache is that of the current point" is   *)
(* a real statement about the heap.  Schedules are exported for replay.        *)
EXTENDS Num, Json
CONSTANTS Depth, MaxStates
VARIABLES heap, states, argbuf, hist
vars == <<heap, states, argbuf, hist>>

F(p) == 100 + p * 7
Sets == << <<1, 2>>, <<3, 1, 2>> >>        \* populations an update may pass in
News == {4, 5}
Slices(n) == { s \in { <<1>>, <<2, 1>>, <<1, 1>>, <<3, 1>> } : \A i \in 1..Len(s) : s[i] <= n }

NewBuf(h, v) == Append(h, v)
Init == heap = <<>> /\ states = <<>> /\ argbuf = 0 /\ hist = <<>>

Make(X) ==  \* two fresh buffers: points and caches
  /\ heap' = heap \o << X, [i \in 1..Len(X) |-> F(X[i])] >>
Log(o) == hist' = Append(hist, o)

Create(u) == /\ Len(states) < MaxStates
             /\ heap' = heap \o << Sets[u], Sets[u], [i \in 1..Len(Sets[u]) |-> F(Sets[u][i])] >>
             /\ argbuf' = Len(heap) + 1
             /\ states' = Append(states, [x |-> Len(heap) + 2, y |-> Len(heap) + 3, evals |-> Len(Sets[u])])
             /\ Log(<<"create", u, 0, 0>>)
Update(s, u) == /\ heap' = heap \o << Sets[u], Sets[u], [i \in 1..Len(Sets[u]) |-> F(Sets[u][i])] >>
                /\ argbuf' = Len(heap) + 1
                /\ states' = [states EXCEPT ![s] = [x |-> Len(heap) + 2, y |-> Len(heap) + 3, evals |-> @.evals + Len(Sets[u])]]
                /\ Log(<<"update", s, u, 0>>)
UpdateOne(s, k, p) == /\ k <= Len(heap[states[s].x])
                      /\ heap' = [heap EXCEPT ![states[s].x][k] = p, ![states[s].y][k] = F(p)]
                      /\ states' = [states EXCEPT ![s].evals = @ + 1]
                      /\ UNCHANGED argbuf /\ Log(<<"one", s, k, p>>)
Derive(s, X, o) == /\ Len(states) < MaxStates
                   /\ heap' = heap \o << X, [i \in 1..Len(X) |-> F(X[i])] >>
                   /\ states' = Append(states, [x |-> Len(heap) + 1, y |-> Len(heap) + 2, evals |-> states[s].evals])
                   /\ UNCHANGED argbuf /\ Log(o)
SliceOp(s, sl) == LET X == heap[states[s].x] IN
    Derive(s, [i \in 1..Len(sl) |-> X[sl[i]]], <<"slice", s, sl, 0>>)
Copy(s) == Derive(s, heap[states[s].x], <<"copy", s, 0, 0>>)
Reload(s) == Derive(s, heap[states[s].x], <<"reload", s, 0, 0>>)
Overwrite == /\ argbuf # 0 /\ heap' = [heap EXCEPT ![argbuf] = [i \in 1..Len(@) |-> -1]]
             /\ argbuf' = 0 /\ UNCHANGED states /\ Log(<<"overwrite", 0, 0, 0>>)

Next == Len(hist) < Depth /\
  ( \/ (states = <<>> /\ \E u \in 1..Len(Sets) : Create(u))
    \/ \E s \in 1..Len(states) :
        \/ \E u \in 1..Len(Sets) : Update(s, u)
        \/ \E k \in 1..2, p \in {4} : UpdateOne(s, k, p)
        \/ \E sl \in Slices(Len(heap[states[s].x])) : SliceOp(s, sl)
        \/ Copy(s) \/ Reload(s)
    \/ Overwrite )
Spec == Init /\ [][Next]_vars

CacheFresh == \A s \in 1..Len(states) : LET X == heap[states[s].x] Y == heap[states[s].y] IN
   Len(X) = Len(Y) /\ \A i \in 1..Len(X) : Y[i] = F(X[i])
BufsOf(s) == {states[s].x, states[s].y}
NothingShared == \A s, r \in 1..Len(states) : s # r => BufsOf(s) \cap BufsOf(r) = {}
ArgNotShared == \A s \in 1..Len(states) : argbuf \notin BufsOf(s)
(* an operation on one state leaves every other state's points alone *)
OthersUntouched == [][\A s \in 1..Len(states) :
      (hist'[Len(hist')][1] \in {"update", "one"} /\ hist'[Len(hist')][2] # s) =>
         (heap'[states'[s].x] = heap[states[s].x] /\ heap'[states'[s].y] = heap[states[s].y])]_vars
EvalsMonotone == [][\A s \in 1..Len(states) : states'[s].evals >= states[s].evals]_vars
Emit == Len(hist) = Depth => PrintT("@SCHED " \o ToJson([ops |-> hist]))
=============================================================================
