------------------------------- MODULE Fabric -------------------------------
(* The NoC fabric at flit level: routers joined by links, each link carrying *)
(* virtual channels under credit-based flow control.                          *)
(* `net` describes the network and the packets:                               *)
(*   src, dst   link -> router it leaves / enters (-1: a node's side)         *)
(*   node       link -> node of an injection or ejection link                 *)
(*   vcs, buf   virtual channels per link, flits a virtual channel can hold   *)
(*   lo, hi     message class -> its lowest and highest virtual channel       *)
(*   ps, pd, pc, pn  packet -> source, destination, class, number of flits    *)
(*   hops       packet -> routers its route visits (0: any route allowed)     *)
(*   bound      packet -> packets for its node that may overtake it (0: any)  *)
(*   single     one virtual channel per class and one route per pair: order   *)
(*   pk, ix     flit -> packet and position in it                             *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  net,
  at,      \* flit -> link whose end it reached last; 0: not injected; -1: drained from the network
  nh,      \* flit -> routers visited
  vc,      \* flit -> virtual channel on that link
  use,     \* <<link, vc>> -> flits that entered the buffer behind the link and were not credited back
  cur,     \* <<link, vc>> -> last flit that crossed, 0 between packets
  inj,     \* packet -> flits injected
  rcv,     \* packet -> flits received
  ord,     \* packets in the order of their injection
  got,     \* node -> packets received
  mark     \* packet -> value of got of its destination when it was injected

fabVars == <<net, at, nh, vc, use, cur, inj, rcv, ord, got, mark>>

NL(n) == Len(n.src)
NP(n) == Len(n.ps)
Chans(n) == (1..NL(n)) \X (0..(n.vcs - 1))
IsHead(f) == net.ix[f] = 1
IsTail(f) == net.ix[f] = net.pn[net.pk[f]]
InClass(f, v) == v >= net.lo[net.pc[net.pk[f]]] /\ v <= net.hi[net.pc[net.pk[f]]]

FabInit(n) ==
  /\ net = n
  /\ at = [f \in 1..Len(n.pk) |-> 0]
  /\ nh = [f \in 1..Len(n.pk) |-> 0]
  /\ vc = [f \in 1..Len(n.pk) |-> 0]
  /\ use = [c \in Chans(n) |-> 0]
  /\ cur = [c \in Chans(n) |-> 0]
  /\ inj = [p \in 1..NP(n) |-> 0]
  /\ rcv = [p \in 1..NP(n) |-> 0]
  /\ ord = <<>>
  /\ got = [x \in {n.node[i] : i \in 1..NL(n)} |-> 0]
  /\ mark = [p \in 1..NP(n) |-> 0]

(* flits of a packet cross a virtual channel from head to tail, with nothing in between *)
Follows(f, c) ==
  IF cur[c] = 0 THEN IsHead(f) ELSE net.pk[cur[c]] = net.pk[f] /\ net.ix[f] = net.ix[cur[c]] + 1

Enter(f, l, v) ==
  LET c == <<l, v>> IN
  /\ InClass(f, v)
  /\ Follows(f, c)
  /\ use[c] < net.buf
  /\ use' = [use EXCEPT ![c] = @ + 1]
  /\ cur' = [cur EXCEPT ![c] = IF IsTail(f) THEN 0 ELSE f]
  /\ at' = [at EXCEPT ![f] = l]
  /\ vc' = [vc EXCEPT ![f] = v]

(* a node hands its next flit to the fabric *)
Inject(f, l, v) ==
  LET p == net.pk[f] IN
  /\ at[f] = 0
  /\ net.src[l] = -1 /\ net.node[l] = net.ps[p]
  /\ inj[p] = net.ix[f] - 1
  /\ inj' = [inj EXCEPT ![p] = @ + 1]
  /\ ord' = IF IsHead(f) THEN Append(ord, p) ELSE ord
  /\ mark' = IF IsHead(f) THEN [mark EXCEPT ![p] = got[net.pd[p]]] ELSE mark
  /\ Enter(f, l, v)
  /\ UNCHANGED <<net, nh, rcv, got>>

(* the router that holds the flit sends it over one of its links *)
Move(f, l, v) ==
  /\ at[f] > 0
  /\ net.dst[at[f]] # -1 /\ net.dst[at[f]] = net.src[l]
  /\ nh' = [nh EXCEPT ![f] = @ + 1]
  /\ Enter(f, l, v)
  /\ UNCHANGED <<net, inj, rcv, ord, got, mark>>

(* a slot of the buffer behind link l is given back to the sender *)
Credit(l, v) ==
  /\ use[<<l, v>>] > 0
  /\ use' = [use EXCEPT ![<<l, v>>] = @ - 1]
  /\ UNCHANGED <<net, at, nh, vc, cur, inj, rcv, ord, got, mark>>

(* packets of the same source, destination and class injected before p *)
Before(p) ==
  LET k == CHOOSE k \in 1..Len(ord) : ord[k] = p
  IN {ord[j] : j \in {j \in 1..(k - 1) : /\ net.ps[ord[j]] = net.ps[p] /\ net.pd[ord[j]] = net.pd[p]
                                         /\ net.pc[ord[j]] = net.pc[p]}}

(* the node at the end of an ejection link gets the flit *)
Receive(f, n, v, h) ==
  LET p == net.pk[f] IN
  /\ at[f] > 0
  /\ net.dst[at[f]] = -1
  /\ net.node[at[f]] = n /\ net.pd[p] = n
  /\ vc[f] = v
  /\ h = nh[f]
  /\ net.hops[p] # 0 => h = net.hops[p]
  /\ rcv[p] = net.ix[f] - 1
  /\ net.single /\ IsHead(f) => \A q \in Before(p) : rcv[q] = net.pn[q]
  /\ net.bound[p] # 0 => got[n] - mark[p] <= net.bound[p]
  /\ got' = IF IsTail(f) THEN [got EXCEPT ![n] = @ + 1] ELSE got
  /\ at' = [at EXCEPT ![f] = -1]
  /\ rcv' = [rcv EXCEPT ![p] = @ + 1]
  /\ UNCHANGED <<net, nh, vc, use, cur, inj, ord, mark>>

AllOut == \A p \in DOMAIN inj : inj[p] = net.pn[p] /\ rcv[p] = net.pn[p]
NoCreditMissing == \A c \in DOMAIN use : use[c] = 0

(* consequences, checked by TLC on small networks (FabricMC) *)
NoOverflow == \A c \in DOMAIN use : use[c] \in 0..net.buf
NoInvention == \A p \in DOMAIN inj : rcv[p] <= inj[p] /\ inj[p] <= net.pn[p]
Arrived == \A f \in DOMAIN at : at[f] = -1 => rcv[net.pk[f]] >= net.ix[f]
InOrder == net.single => \A p, q \in DOMAIN inj :
              (/\ net.ps[p] = net.ps[q] /\ net.pd[p] = net.pd[q] /\ net.pc[p] = net.pc[q]
               /\ \E i, j \in 1..Len(ord) : i < j /\ ord[i] = p /\ ord[j] = q
               /\ rcv[q] > 0) => rcv[p] = net.pn[p]
=============================================================================
