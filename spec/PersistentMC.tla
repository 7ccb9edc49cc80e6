----------------------------- MODULE PersistentMC -----------------------------
(***************************************************************************)
(* The on-disk protocol step by step, one action per system call, with a   *)
(* crash possible before, after and inside each of them.  Shown: whatever  *)
(* the crash point, a reader recovers every acknowledged item, in order,   *)
(* plus at most the interrupted one.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS MaxItems, ChunkItems, MaxSessions
VARIABLES meta,     \* "none", "part" (torn), "ok"  of the meta file
          tmp,      \* the same for the temporary file
          chunks,   \* Seq of [idx, data]; "absent" or Seq of items / "torn"
          pc, cur, acked, nitem, sess
vars == <<meta, tmp, chunks, pc, cur, acked, nitem, sess>>

Init == /\ meta = "none" /\ tmp = "none" /\ chunks = << >> /\ pc = "dead"
        /\ cur = 0 /\ acked = << >> /\ nitem = 0 /\ sess = 0

Has(f) == f # << -1 >>
Absent == << -1 >>
Torn == 0     \* a torn record at the end of a file
Readable(k) == /\ Has(chunks[k].idx) /\ Has(chunks[k].data)
\* the reader: complete index entries of the leading chunks with both files
Complete(q) == SelectSeq(q, LAMBDA x : x # Torn)
RECURSIVE ReadFrom(_)
ReadFrom(k) == IF k > Len(chunks) \/ ~Readable(k) THEN << >>
               ELSE Complete(chunks[k].idx) \o ReadFrom(k + 1)
Recovered == ReadFrom(1)
\* every index entry which is read refers to complete data
IndexedDataPresent ==
    \A k \in 1..Len(chunks) : Readable(k) =>
        LET i == Complete(chunks[k].idx)
        IN Len(i) <= Len(chunks[k].data) /\ \A j \in 1..Len(i) : chunks[k].data[j] = i[j]

Start == /\ pc = "dead" /\ sess < MaxSessions /\ sess' = sess + 1
         /\ pc' = IF meta = "ok" THEN "openidx" ELSE "tmpopen"
         /\ acked' = Recovered      \* what the session starts with
         /\ UNCHANGED <<meta, tmp, chunks, cur, nitem>>
TmpOpen  == pc = "tmpopen" /\ tmp' = "part" /\ pc' = "tmpwrite"
            /\ UNCHANGED <<meta, chunks, cur, acked, nitem, sess>>
TmpWrite == pc = "tmpwrite" /\ tmp' = "ok" /\ pc' = "rename"
            /\ UNCHANGED <<meta, chunks, cur, acked, nitem, sess>>
Rename   == pc = "rename" /\ meta' = tmp /\ tmp' = "none" /\ pc' = "openidx"
            /\ UNCHANGED <<chunks, cur, acked, nitem, sess>>
\* the new chunk takes the number after the readable ones (truncating leftovers)
NReadable == LET S == { k \in 0..Len(chunks) : \A j \in 1..k : Readable(j) }
             IN CHOOSE k \in S : \A j \in S : j <= k
OpenIdx  == /\ pc = "openidx"
            /\ chunks' = Append(SubSeq(chunks, 1, NReadable), [idx |-> << >>, data |-> Absent])
            /\ pc' = "opendata" /\ UNCHANGED <<meta, tmp, cur, acked, nitem, sess>>
OpenData == /\ pc = "opendata"
            /\ chunks' = [chunks EXCEPT ![Len(chunks)].data = << >>]
            /\ pc' = IF cur = 0 THEN "idle" ELSE "writedata"
            /\ UNCHANGED <<meta, tmp, cur, acked, nitem, sess>>
Begin == /\ pc = "idle" /\ nitem < MaxItems /\ nitem' = nitem + 1 /\ cur' = nitem + 1
         /\ pc' = IF Len(chunks[Len(chunks)].idx) >= ChunkItems THEN "openidx" ELSE "writedata"
         /\ UNCHANGED <<meta, tmp, chunks, acked, sess>>
WriteData == /\ pc = "writedata"
             /\ chunks' = [chunks EXCEPT ![Len(chunks)].data = Append(@, cur)]
             /\ pc' = "writeidx" /\ UNCHANGED <<meta, tmp, cur, acked, nitem, sess>>
WriteIdx == /\ pc = "writeidx"
            /\ chunks' = [chunks EXCEPT ![Len(chunks)].idx = Append(@, cur)]
            /\ pc' = "ack" /\ UNCHANGED <<meta, tmp, cur, acked, nitem, sess>>
Ack == /\ pc = "ack" /\ acked' = Append(acked, cur) /\ cur' = 0 /\ pc' = "idle"
       /\ UNCHANGED <<meta, tmp, chunks, nitem, sess>>
Crash == /\ pc # "dead" /\ pc' = "dead" /\ cur' = 0
         /\ \/ UNCHANGED chunks
            \/ pc = "writedata" /\ chunks' = [chunks EXCEPT ![Len(chunks)].data = Append(@, Torn)]
            \/ pc = "writeidx" /\ chunks' = [chunks EXCEPT ![Len(chunks)].idx = Append(@, Torn)]
         /\ UNCHANGED <<meta, tmp, acked, nitem, sess>>
Next == Start \/ TmpOpen \/ TmpWrite \/ Rename \/ OpenIdx \/ OpenData \/ Begin \/ WriteData
        \/ WriteIdx \/ Ack \/ Crash
Spec == Init /\ [][Next]_vars

CrashSafe == \/ Recovered = acked
             \/ /\ Len(Recovered) = Len(acked) + 1 /\ IsPrefix(acked, Recovered)
                /\ Recovered[Len(Recovered)] = nitem
MetaNeverTorn == meta # "part"
NoForeign == \A i, j \in 1..Len(Recovered) : i < j => Recovered[i] < Recovered[j]
=============================================================================
