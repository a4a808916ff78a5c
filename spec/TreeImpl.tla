------------------------------ MODULE TreeImpl ------------------------------
(* The data structure of src/tree.rs: an array of slots with sibling links, a list of free slots and a counter that
   gives every node a key. It refines Tree when the handle of a node is the pair of its slot and its key. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxAdds

VARIABLES nodes,   \* slots 1..n: [up, prev, next, first, last: slot or 0, pk, d]
          free,    \* free slots, used last in first out
          counter
ivars == <<nodes, free, counter>>

Range(s) == {s[i] : i \in 1..Len(s)}
IsFree(p) == p \in Range(free)
Exists(h) == h[1] \in 1..Len(nodes) /\ ~IsFree(h[1]) /\ nodes[h[1]].pk = h[2]

RECURSIVE Chain(_)
Chain(p) == IF p = 0 THEN <<>> ELSE <<p>> \o Chain(nodes[p].next)
KidSlots(p) == Chain(nodes[p].first)
RECURSIVE DescSlots(_)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
DescSlots(p) == LET k == KidSlots(p) IN k \o Concat([i \in 1..Len(k) |-> DescSlots(k[i])])

IInit == nodes = <<>> /\ free = <<>> /\ counter = 0

IAdd(h, d) ==      \* h: handle of the parent or <<>>
  /\ IF h = <<>> THEN TRUE ELSE Exists(h)
  /\ LET p == IF h = <<>> THEN 0 ELSE h[1]
         reuse == free # <<>>
         ix == IF reuse THEN free[Len(free)] ELSE Len(nodes) + 1
         last == IF p = 0 THEN 0 ELSE nodes[p].last
         new == [up |-> p, prev |-> last, next |-> 0, first |-> 0, last |-> 0, pk |-> counter, d |-> d]
         n1 == IF p = 0 THEN nodes
               ELSE [nodes EXCEPT ![p].first = IF @ = 0 THEN ix ELSE @, ![p].last = ix]
         n2 == IF last = 0 THEN n1 ELSE [n1 EXCEPT ![last].next = ix]
     IN  /\ nodes' = IF reuse THEN [n2 EXCEPT ![ix] = new] ELSE Append(n2, new)
         /\ free' = IF reuse THEN SubSeq(free, 1, Len(free) - 1) ELSE free
  /\ counter' = counter + 1

IRemove(h) ==
  /\ Exists(h)
  /\ LET p == h[1]
         n == nodes[p]
         gone == DescSlots(p) \o <<p>>
         n1 == IF n.up = 0 THEN nodes
               ELSE [nodes EXCEPT ![n.up].first = IF @ = p THEN n.next ELSE @,
                                  ![n.up].last = IF @ = p THEN n.prev ELSE @]
         n2 == IF n.prev = 0 THEN n1 ELSE [n1 EXCEPT ![n.prev].next = n.next]
         n3 == IF n.next = 0 THEN n2 ELSE [n2 EXCEPT ![n.next].prev = n.prev]
     IN  nodes' = n3 /\ free' = free \o gone
  /\ UNCHANGED counter

Handles == (1..MaxAdds) \X (0..MaxAdds)
INext == \/ counter < MaxAdds /\ \E h \in {<<>>} \cup {x \in Handles : Exists(x)} : IAdd(h, counter)
         \/ \E h \in Handles : IRemove(h)
ISpec == IInit /\ [][INext]_ivars

-----------------------------------------------------------------------------
\* the forest the slots stand for
HandleOf(p) == <<p, nodes[p].pk>>
LiveH == {HandleOf(p) : p \in {q \in 1..Len(nodes) : ~IsFree(q)}}
Forest == [h \in LiveH |->
             [d |-> nodes[h[1]].d,
              up |-> IF nodes[h[1]].up = 0 THEN <<>> ELSE HandleOf(nodes[h[1]].up),
              kids |-> LET k == KidSlots(h[1]) IN [i \in 1..Len(k) |-> HandleOf(k[i])]]]

\* Refinement, step by step, with the actions of Tree (used is not needed to follow them: keys never repeat)
T == INSTANCE Tree WITH f <- Forest, used <- {}
FreshKeys == \A p, q \in 1..Len(nodes) : (p # q /\ ~IsFree(p) /\ ~IsFree(q)) => nodes[p].pk # nodes[q].pk
NoFreeTwice == \A i, j \in 1..Len(free) : free[i] = free[j] => i = j
NotLinkedWhenFree == \A p \in 1..Len(nodes) : ~IsFree(p) => \A k \in Range(KidSlots(p)) : ~IsFree(k) /\ nodes[k].up = p
Refines ==
  [][ LET F2 == Forest' IN
      \/ F2 = Forest
      \/ \E h \in DOMAIN F2 \ DOMAIN Forest :           \* Add
           LET p == F2[h].up
               g == IF p = <<>> THEN Forest ELSE [Forest EXCEPT ![p].kids = Append(@, h)] IN
           /\ p = <<>> \/ p \in DOMAIN Forest
           /\ h[2] = counter
           /\ F2 = [x \in DOMAIN g \cup {h} |-> IF x = h THEN [d |-> F2[h].d, up |-> p, kids |-> <<>>] ELSE g[x]]
      \/ \E h \in DOMAIN Forest \ DOMAIN F2 :           \* Remove
           LET gone == {h} \cup T!Below(Forest, h)
               u == Forest[h].up
               g == IF u = <<>> THEN Forest ELSE [Forest EXCEPT ![u].kids = T!Without(@, h)] IN
           F2 = T!Restrict(g, DOMAIN Forest \ gone) ]_ivars
=============================================================================
