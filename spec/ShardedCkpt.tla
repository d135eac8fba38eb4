----------------------------- MODULE ShardedCkpt ----------------------------
(* Sharded checkpoint of one H x W array.                                    *)
(*                                                                           *)
(* Saving: the array is laid out as a grid of device tiles, each held by a   *)
(* set of processes; tiles are split in chunks; chunks are assigned, in      *)
(* order, to the smallest checkpoint shard written by one of the holders     *)
(* (shard i is written by process i mod NProc); every process then writes    *)
(* its shards, in any order.                                                 *)
(* Restoring: a different grid is requested; every shard file is read in any *)
(* order and the intersections of its chunks with the requested tiles are    *)
(* copied.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS H, W, NProc, NShard, MaxChunk

Cells == (0..(H-1)) \X (0..(W-1))
Divs(n) == {d \in 1..n : n % d = 0}
Rect(r0, r1, c0, c1) == <<r0, r1, c0, c1>>        \* half open
InRect(r) == {x \in Cells : r[1] <= x[1] /\ x[1] < r[2]
                             /\ r[3] <= x[2] /\ x[2] < r[4]}
Size(r) == (r[2] - r[1]) * (r[4] - r[3])
Grid(a, b) == {Rect(i * (H \div a), (i + 1) * (H \div a),
                    j * (W \div b), (j + 1) * (W \div b)) :
               i \in 0..(a-1), j \in 0..(b-1)}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Intersect(p, q) == Rect(Max(p[1], q[1]), Min(p[2], q[2]),
                        Max(p[3], q[3]), Min(p[4], q[4]))
IsEmpty(r) == r[2] <= r[1] \/ r[4] <= r[3]

\* Split of a tile in equal chunks of h x w cells.
Chunks(t, h, w) ==
  {Rect(t[1] + i * h, t[1] + (i + 1) * h, t[3] + j * w, t[3] + (j + 1) * w) :
     i \in 0..(((t[2] - t[1]) \div h) - 1), j \in 0..(((t[4] - t[3]) \div w) - 1)}

VARIABLES owner,    \* tile -> set of processes holding it
          todo,     \* chunks still to be assigned: set of <<chunk, tile>>
          shard,    \* chunk -> checkpoint shard
          written,  \* shards already on disk
          want,     \* requested grid
          read,     \* shards already read
          buf       \* requested tile -> [local cell -> global cell] read so far
vars == <<owner, todo, shard, written, want, read, buf>>

Init ==
  \E a \in Divs(H), b \in Divs(W), c \in Divs(H), d \in Divs(W) :
    /\ owner \in [Grid(a, b) -> (SUBSET (0..(NProc-1))) \ {{}}]
    /\ \E h \in Divs(H \div a), w \in Divs(W \div b) :
         /\ h * w <= Max(1, MaxChunk)
         /\ todo = UNION {{<<k, t>> : k \in Chunks(t, h, w)} : t \in Grid(a, b)}
    /\ want = Grid(c, d)
    /\ shard = <<>> /\ written = {} /\ read = {}
    /\ buf = [t \in Grid(c, d) |-> <<>>]

Bytes(i) == LET S == {k \in DOMAIN shard : shard[k] = i}
                RECURSIVE Sum(_)
                Sum(T) == IF T = {} THEN 0
                          ELSE LET x == CHOOSE y \in T : TRUE
                               IN Size(x) + Sum(T \ {x})
            IN Sum(S)
Able(t) == {i \in 0..(NShard-1) : (i % NProc) \in owner[t]}
Before(p, q) == \E n \in 1..4 : p[n] < q[n] /\ \A m \in 1..(n-1) : p[m] = q[m]

Assign ==
  /\ todo # {}
  /\ LET x == CHOOSE y \in todo : \A z \in todo \ {y} : Before(y[1], z[1])
         i == CHOOSE i \in Able(x[2]) : \A j \in Able(x[2]) :
                 Bytes(i) < Bytes(j) \/ (Bytes(i) = Bytes(j) /\ i <= j)
     IN /\ shard' = [k \in DOMAIN shard \cup {x[1]} |->
                       IF k = x[1] THEN i ELSE shard[k]]
        /\ todo' = todo \ {x}
  /\ UNCHANGED <<owner, written, want, read, buf>>

WriteShard(i) ==
  /\ todo = {} /\ i \notin written
  /\ written' = written \cup {i}
  /\ UNCHANGED <<owner, todo, shard, want, read, buf>>

ReadShard(i) ==
  /\ written = 0..(NShard-1) /\ i \notin read
  /\ read' = read \cup {i}
  /\ buf' = [t \in want |->
       LET hits == {k \in DOMAIN shard : shard[k] = i
                                         /\ ~IsEmpty(Intersect(k, t))}
           new  == UNION {{<<x[1] - t[1], x[2] - t[3]>> :
                             x \in InRect(Intersect(k, t))} : k \in hits}
       IN [x \in DOMAIN buf[t] \cup new |->
             IF x \in new
             THEN LET k == CHOOSE k \in hits :
                             <<x[1] + t[1], x[2] + t[3]>> \in InRect(Intersect(k, t))
                      ch == <<x[1] + t[1] - k[1], x[2] + t[3] - k[3]>>
                  IN <<ch[1] + k[1], ch[2] + k[3]>>   \* cell stored at ch in k
             ELSE buf[t][x]]]
  /\ UNCHANGED <<owner, todo, shard, written, want>>

Next == Assign \/ \E i \in 0..(NShard-1) : WriteShard(i) \/ ReadShard(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Assigned == todo = {}
Tiling == Assigned =>
  /\ \A x \in Cells : Cardinality({k \in DOMAIN shard : x \in InRect(k)}) = 1
ChunkSize == \A k \in DOMAIN shard : Size(k) <= Max(1, MaxChunk)
Owned == \A k \in DOMAIN shard : \E t \in DOMAIN owner :
            InRect(k) \subseteq InRect(t) /\ (shard[k] % NProc) \in owner[t]
Balanced == Assigned =>
  \A i, j \in 0..(NShard-1) : i % NProc = j % NProc =>
     Bytes(i) - Bytes(j) <= Max(1, MaxChunk)
Restored == (read = 0..(NShard-1)) =>
  \A t \in want :
    /\ DOMAIN buf[t] = {<<x[1] - t[1], x[2] - t[3]>> : x \in InRect(t)}
    /\ \A x \in DOMAIN buf[t] : buf[t][x] = <<x[1] + t[1], x[2] + t[3]>>
Done == <>(read = 0..(NShard-1))
=============================================================================
