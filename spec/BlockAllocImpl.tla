---------------------------- MODULE BlockAllocImpl ----------------------------
(* The allocator's own bookkeeping: blocks of PerBlock units, a free list       *)
(* threaded through the freed units of each block, a stack of blocks with room. *)
(* Checked exhaustively to implement BlockAlloc (as mapped below) and to take   *)
(* new memory only when no unit is free.                                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS PerBlock, MaxBlocks, MaxLive

Nil == -1
VARIABLES
  blocks,   \* sequence of [has, first, link, count, end]
  room,     \* stack of indices of blocks with room, last is the top
  owner,    \* [<<block, unit>> live |-> id]
  fresh     \* did the last allocation take new memory
vars == <<blocks, room, owner, fresh>>
Units == 0..(PerBlock - 1)
NewBlock == [has |-> FALSE, first |-> Nil, link |-> [u \in Units |-> Nil], count |-> 0, end |-> 0]

Init == blocks = <<>> /\ room = <<>> /\ owner = [p \in {} |-> 0] /\ fresh = FALSE

Live == DOMAIN owner
NextId == CHOOSE i \in 1..(MaxLive + 1) : \A p \in Live : owner[p] # i

Alloc ==
  /\ Cardinality(Live) < MaxLive
  /\ LET bs == IF room = <<>> THEN Append(blocks, NewBlock) ELSE blocks
         rm == IF room = <<>> THEN <<Len(blocks) + 1>> ELSE room
         b == rm[Len(rm)]
         blk == bs[b]
         take == IF blk.first = Nil THEN (IF blk.has THEN blk.end ELSE 0) ELSE blk.first
         upd == IF blk.first = Nil
                THEN [blk EXCEPT !.has = TRUE, !.end = take + 1, !.count = @ + 1]
                ELSE [blk EXCEPT !.first = blk.link[take], !.count = @ + 1]
     IN /\ Len(bs) <= MaxBlocks
        /\ blocks' = [bs EXCEPT ![b] = upd]
        /\ room' = IF upd.count = PerBlock THEN SubSeq(rm, 1, Len(rm) - 1) ELSE rm
        /\ owner' = [p \in Live \cup {<<b, take>>} |-> IF p = <<b, take>> THEN NextId ELSE owner[p]]
        /\ fresh' = (~blk.has)

Dealloc(p) ==
  LET b == p[1]  u == p[2]  blk == blocks[b]
      upd == [blk EXCEPT !.link[u] = blk.first, !.first = u, !.count = @ - 1]
  IN /\ room' = IF blk.count = PerBlock THEN Append(room, b) ELSE room
     /\ blocks' = [blocks EXCEPT ![b] = IF upd.count = 0 THEN [upd EXCEPT !.has = FALSE, !.first = Nil] ELSE upd]
     /\ owner' = [q \in Live \ {p} |-> owner[q]]
     /\ fresh' = FALSE

Next == Alloc \/ \E p \in Live : Dealloc(p)
Spec == Init /\ [][Next]_vars

(* Each live unit lies in memory that its block owns, and no two share one.     *)
A == INSTANCE BlockAlloc WITH Ids <- 1..MaxLive,
       live <- [i \in {owner[p] : p \in Live} |->
                  LET p == CHOOSE q \in Live : owner[q] = i IN [at |-> p[1] * PerBlock + p[2], n |-> 1, tag |-> i]]
InMemory == \A p \in Live : blocks[p[1]].has /\ p[2] \in Units /\ p[2] < blocks[p[1]].end
OwnersDistinct == \A p, q \in Live : p # q => owner[p] # owner[q]
Counts == \A b \in 1..Len(blocks) : blocks[b].count = Cardinality({p \in Live : p[1] = b})
RoomExact == /\ \A b \in 1..Len(blocks) : (blocks[b].count < PerBlock) <=> (\E i \in 1..Len(room) : room[i] = b)
             /\ \A i, j \in 1..Len(room) : i # j => room[i] # room[j]
RECURSIVE Chain(_, _, _)
Chain(blk, u, n) == IF u = Nil \/ n = 0 THEN {} ELSE {u} \cup Chain(blk, blk.link[u], n - 1)
FreeChain == \A b \in 1..Len(blocks) :
  LET blk == blocks[b] IN blk.has => Chain(blk, blk.first, PerBlock + 1) = {u \in 0..(blk.end - 1) : <<b, u>> \notin Live}
Refines == A!Init /\ [][\/ \E i \in 1..MaxLive, a \in PerBlock..(MaxBlocks * PerBlock + PerBlock) : A!Allocate(i, a, 1, i)
                        \/ \E i \in 1..MaxLive : A!Free(i)]_(A!vars)
=============================================================================
