-------------------------- MODULE ShardedCkptTrace --------------------------
(* Judges recorded saves and restores of sharded checkpoints.                *)
EXTENDS TraceLib

\* Regions are sequences of <<lo, hi>>, half open, one per dimension.
Extent(r) == ProdSeq([i \in DOMAIN r |-> r[i][2] - r[i][1]])
Disjoint(p, q) == \E i \in DOMAIN p : p[i][2] <= q[i][1] \/ q[i][2] <= p[i][1]
Within(p, q) == \A i \in DOMAIN p : q[i][1] <= p[i][1] /\ p[i][2] <= q[i][2]
Volume(shape) == ProdSeq(shape)
InBounds(p, shape) == /\ Len(p) = Len(shape)
                      /\ \A i \in DOMAIN p : 0 <= p[i][1] /\ p[i][1] <= p[i][2]
                                              /\ p[i][2] <= shape[i]
Tiles(regions, shape) ==
  /\ \A i \in DOMAIN regions : InBounds(regions[i], shape)
  /\ SumSeq([i \in DOMAIN regions |-> Extent(regions[i])]) = Volume(shape)
  /\ \A i, j \in DOMAIN regions :
       i < j => (\/ Extent(regions[i]) = 0
                \/ Extent(regions[j]) = 0
                \/ Disjoint(regions[i], regions[j]))

\* Flat (row-major) identities of the cells of a region of a matrix.
MatrixCells(r, shape) ==
  LET h == r[1][2] - r[1][1]
      w == r[2][2] - r[2][1]
  IN  [n \in 1..(h * w) |->
         (r[1][1] + ((n - 1) \div w)) * shape[2] + r[2][1] + ((n - 1) % w)]

RestoredLeaf(r) ==
  Clause(r.dtype_got = r.dtype, "Dtype")
  \cup Clause(r.shape_got = r.shape, "Shape")
  \cup Clause(\A d \in DOMAIN r.devices : r.devices[d].at = r.devices[d].asked,
              "DeviceRegion")
  \cup Clause(\A d \in DOMAIN r.devices :
                r.devices[d].got = r.devices[d].saved, "Bits")
  \cup Clause(r.ids = 0 \/ \A d \in DOMAIN r.devices :
                r.devices[d].cells = [n \in DOMAIN r.devices[d].cells |->
                   MatrixCells(r.devices[d].asked, r.shape)[n] + r.ids],
              "Cells")
  \cup Clause(r.sharding_kept, "ShardingEquivalent")

SavedLeaf(r) ==
  LET P == r.pieces      \* [writer, shard, region, ok]
      regs == [i \in DOMAIN P |-> P[i].region]
      idx  == r.index    \* [shard, region]
      T == r.tiles       \* [region, procs]
  IN  Clause(Tiles(regs, r.shape), "StoredPiecesTileTheArray")
      \cup Clause(\A i \in DOMAIN P : P[i].ok, "StoredValues")
      \cup Clause(r.maxitems = 0 \/ \A i \in DOMAIN P :
                    Extent(P[i].region) <= r.maxitems, "ChunkTooLarge")
      \cup Clause(\A i \in DOMAIN P : P[i].writer = (P[i].shard % r.nproc),
                  "ShardWriter")
      \cup Clause(\A i \in DOMAIN P : \E t \in DOMAIN T :
                    /\ Within(P[i].region, T[t].region)
                    /\ \E k \in DOMAIN T[t].procs : T[t].procs[k] = P[i].writer,
                  "WrittenByHolder")
      \cup Clause({<<x.shard, x.region>> : x \in Range2(idx)}
                    = {<<x.shard, x.region>> : x \in Range2(P)}
                  /\ Len(idx) = Len(P), "IndexMatchesFiles")
      \cup Clause(r.index_shape = r.shape /\ r.index_dtype = r.dtype,
                  "IndexShape")

SavedFiles(r) ==
  LET F == r.files       \* [writer, kind ("data"/"index"), shard, of]
      data == {i \in DOMAIN F : F[i].kind = "data"}
      ndx  == {i \in DOMAIN F : F[i].kind = "index"}
  IN  Clause(Cardinality(ndx) = 1, "OneIndexFile")
      \cup Clause(/\ {F[i].shard : i \in data} = 0..(r.shards - 1)
                  /\ Cardinality(data) = r.shards
                  /\ \A i \in data : F[i].of = r.shards, "EachShardFileOnce")
      \cup Clause(r.index_shards = r.shards, "IndexShardCount")
      \cup Clause(\A i \in DOMAIN F : F[i].kind \in {"data", "index"},
                  "UnexpectedFile")
      \cup Clause(\A i, j \in 1..r.shards :
                    ((i - 1) % r.nproc) = ((j - 1) % r.nproc) =>
                       r.bytes[i] - r.bytes[j] <= r.largest, "Balance")

FailedClauses(r) ==
  CASE r.op = "leaf" -> RestoredLeaf(r)
    [] r.op = "tree" -> Clause(r.want = r.got, "Structure")
    [] r.op = "reject" -> Clause(r.rejected, "Accepted-" \o r.what)
    [] r.op = "saved" -> SavedLeaf(r)
    [] r.op = "files" -> SavedFiles(r)
    [] OTHER -> {"UnknownRecord"}
=============================================================================
