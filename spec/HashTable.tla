------------------------------ MODULE HashTable ------------------------------
(* The open-addressing hash table of libeni, slot by slot.

   A table is a record
     nb  number of buckets (0: no bucket array has been allocated yet)
     ne  number of entries
     nt  number of tombstones (erased slots)
     b   sequence of nb slots, <<0>> empty, <<1>> tombstone, <<2, key, hash, value>> entry
   Hash values are pairs <<hi, lo>> of 16-bit halves (TLC integers are 32-bit signed).
   Slot indices are 0-based as in the code; b[i+1] is slot i.

   The operators below are the transitions; HashTableMC explores them and checks the properties, HashTrace binds
   recorded executions of the C++ code to them. *)
EXTENDS Integers, Sequences, TLC, SequencesExt

Ladder == <<1, 3, 17, 37, 67, 97, 197, 419, 977, 2593, 4099, 8209, 12289, 16411, 20483, 32771, 49157, 65537, 98317,
            131101, 196613>>

(* the smallest size of the ladder above n; beyond the ladder sizes grow by a constant *)
NextSize(n) == IF n >= Ladder[Len(Ladder)] THEN n + 131101
               ELSE LET i == CHOOSE i \in 1..Len(Ladder) : Ladder[i] > n /\ (i = 1 \/ Ladder[i-1] <= n) IN Ladder[i]

EmptySlot == <<0>>
TombSlot == <<1>>
Entry(k, h, v) == <<2, k, h, v>>
IsEntry(s) == s[1] = 2

Uninit == [nb |-> 0, ne |-> 0, nt |-> 0, b |-> <<>>]
AllEmpty(n) == TLCEval([i \in 1..n |-> EmptySlot])
Blank(n) == [nb |-> n, ne |-> 0, nt |-> 0, b |-> AllEmpty(n)]
New(size) == IF size = 0 THEN Uninit ELSE Blank(NextSize(size))
Initialised(t) == IF t.nb = 0 THEN Blank(NextSize(16)) ELSE t

(* exact for nb < 32768 *)
HMod(h, nb) == ((h[1] % nb) * (65536 % nb) + h[2]) % nb

(* the first slot in probing order from slot s on that satisfies Test; -2 when there is none (an endless probe) *)
FirstFrom(b, nb, s, Test(_)) ==
  IF Test(b[s + 1]) THEN s
  ELSE LET i == SelectInSeq(SubSeq(b, s + 1, nb) \o SubSeq(b, 1, s), Test) IN IF i = 0 THEN -2 ELSE (s + i - 1) % nb

(* index of the entry of key k; -1 when there is none *)
FindIdx(t, k, h) ==
  IF t.nb = 0 THEN -1
  ELSE LET i == FirstFrom(t.b, t.nb, HMod(h, t.nb), LAMBDA s : s[1] = 0 \/ (s[1] = 2 /\ s[3] = h /\ s[2] = k))
       IN IF i >= 0 /\ t.b[i + 1][1] = 0 THEN -1 ELSE i

(* first slot from i on that is a tombstone or empty; that is empty *)
FreeSlot(b, nb, i) == FirstFrom(b, nb, i, LAMBDA s : s[1] # 2)
EmptyFrom(b, nb, i) == FirstFrom(b, nb, i, LAMBDA s : s[1] = 0)

Upto(a, b) == TLCEval([i \in 1..(b - a + 1) |-> a + i - 1])    \* the sequence a, a+1, ..., b

Refill(old, new, nb) ==
  FoldLeft(LAMBDA acc, s : IF IsEntry(s) THEN LET j == EmptyFrom(acc, nb, HMod(s[3], nb)) IN [acc EXCEPT ![j + 1] = s]
                           ELSE acc, new, old)

DoRehash(t, n) == [nb |-> n, ne |-> t.ne, nt |-> 0, b |-> Refill(t.b, AllEmpty(n), n)]

MayRehash(t) == IF t.ne * 4 > t.nb * 3 THEN DoRehash(t, NextSize(t.nb))
                ELSE IF (t.nb - (t.ne + t.nt)) * 8 < t.nb THEN DoRehash(t, t.nb)
                ELSE t

(* ---- the operations: results are computed on the table before, the table after is separate ---- *)
Has(t, k, h) == FindIdx(t, k, h) >= 0
ValueOf(t, k, h) == t.b[FindIdx(t, k, h) + 1][4]

(* insert: an existing entry is left alone; a new one reuses the first tombstone on its probe path *)
Insert(t0, k, h, v) ==
  LET t == TLCEval(Initialised(t0)) IN
  IF Has(t, k, h) THEN t
  ELSE LET j == FreeSlot(t.b, t.nb, HMod(h, t.nb))
           tomb == t.b[j + 1][1] = 1
       IN MayRehash(TLCEval([t EXCEPT !.b[j + 1] = Entry(k, h, v), !.ne = @ + 1, !.nt = IF tomb THEN @ - 1 ELSE @]))

SetValue(t, k, h, v) == IF Has(t, k, h) THEN [t EXCEPT !.b[FindIdx(t, k, h) + 1][4] = v] ELSE t

Erase(t, k, h) ==
  IF ~Has(t, k, h) THEN t
  ELSE MayRehash(TLCEval([t EXCEPT !.b[FindIdx(t, k, h) + 1] = TombSlot, !.ne = @ - 1, !.nt = @ + 1]))

Clear(t) == IF t.ne = 0 THEN t ELSE Uninit

Rehash(t) == MayRehash(t)
RehashTo(t, n) == DoRehash(t, IF n <= t.ne THEN NextSize(t.ne) ELSE n)

(* ---- what can be observed ---- *)
Iteration(t) == FoldLeft(LAMBDA acc, s : IF IsEntry(s) THEN Append(acc, <<s[2], s[4]>>) ELSE acc, <<>>, t.b)

(* all entries with the hash of k, in probing order from the entry of k *)
Chain(t, k, h) ==
  IF ~Has(t, k, h) THEN <<>>
  ELSE LET f == FindIdx(t, k, h)
       IN FoldLeft(LAMBDA acc, s : IF IsEntry(s) /\ s[3] = h THEN Append(acc, <<s[2], s[4]>>) ELSE acc, <<>>,
                   SubSeq(t.b, f + 1, t.nb) \o SubSeq(t.b, 1, f))

(* ---- state predicates (the properties) ---- *)
CountTag(t, tag) == FoldLeft(LAMBDA n, s : IF s[1] = tag THEN n + 1 ELSE n, 0, t.b)
CountersExact(t) == t.ne = CountTag(t, 2) /\ t.nt = CountTag(t, 1) /\ Len(t.b) = t.nb
ProbeEnds(t) == t.nb = 0 \/ CountTag(t, 0) >= 1
NoDuplicates(t) == \A i, j \in 1..t.nb : IsEntry(t.b[i]) /\ IsEntry(t.b[j]) /\ t.b[i][2] = t.b[j][2] => i = j
Reachable(t) == \A i \in 1..t.nb : IsEntry(t.b[i]) => FindIdx(t, t.b[i][2], t.b[i][3]) = i - 1
LoadBound(t) == t.ne * 4 <= t.nb * 3
FreeBound(t) == (t.nb - t.ne - t.nt) * 8 >= t.nb
=============================================================================
