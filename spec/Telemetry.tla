----------------------------- MODULE Telemetry -----------------------------
(* The statistics of a run against what its modules saw.  A record carries  *)
(* the six stamps of a transaction: accepted, packetized (last flit),       *)
(* injected (first flit), ejected (last flit), depacketized, handed over.   *)
(* Times are in picoseconds; the files carry six significant digits.        *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
  open,   \* [flow -> sequence of <<message, record>> accepted and not handed over]
  pos,    \* [source node key -> records already assigned]
  bits,   \* [<<noc, src, dst>> -> bits of the transactions accepted]
  arrived \* pairs with a transaction handed over

teleVars == <<open, pos, bits, arrived>>

Near(a, b) == LET d == IF a > b THEN a - b ELSE b - a IN d <= (IF a > b THEN a ELSE b) \div 150000 + 1
AtMost(a, b) == a <= b \/ Near(a, b)

TeleInit(flows, srcs, pairs) ==
  /\ open = [f \in flows |-> <<>>]
  /\ pos = [s \in srcs |-> 0]
  /\ bits = [p \in pairs |-> 0]
  /\ arrived = {}

(* the record of an accepted transaction *)
Opened(r, e) ==
  /\ r.noc = e.noc /\ r.src = e.src /\ r.dst = e.dst /\ r.w = e.w
  /\ Near(r.t[1], e.t)

(* stage stamps in pipeline order; a packet of n flits takes n cycles *)
Ordered(r, e) ==
  /\ AtMost(r.t[1] + (e.nf - 1) * e.ap, r.t[2])
  /\ AtMost(r.t[1], r.t[3])
  /\ AtMost(r.t[2], r.t[4])
  /\ AtMost(r.t[3] + (e.nf - 1 + r.hops) * e.np, r.t[4])
  /\ AtMost(r.t[4], r.t[5])
  /\ AtMost(r.t[5], r.t[6])

(* with nothing of its node under way the first flit leaves at once *)
Prompt(r, e, idle) == idle => AtMost(r.t[3], r.t[1] + e.slack)

Accepted(f, m, e, recs) ==
  /\ pos[e.key] < Len(recs)
  /\ LET r == recs[pos[e.key] + 1] IN
       /\ Opened(r, e)
       /\ LET idle == \A k \in 1..pos[e.key] : recs[k].t[4] # 0 /\ recs[k].t[4] + 20 * e.np <= r.t[1]
          IN open' = [open EXCEPT ![f] = Append(@, [m |-> m, r |-> r, e |-> e, idle |-> idle])]
       /\ bits' = [bits EXCEPT ![<<e.noc, e.src, e.dst>>] = @ + r.w]
  /\ pos' = [pos EXCEPT ![e.key] = @ + 1]
  /\ UNCHANGED arrived

Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

HandedOver(p, m, t, ordered) ==
  /\ \E f \in DOMAIN open :
       /\ f[2] = p
       /\ \E i \in 1..(IF ordered THEN (IF open[f] = <<>> THEN 0 ELSE 1) ELSE Len(open[f])) :
            LET x == open[f][i] IN
            /\ x.m = m
            /\ Near(x.r.t[6], t)
            /\ Ordered(x.r, x.e)
            /\ Prompt(x.r, x.e, x.idle)
            /\ Near(x.r.lat + x.r.t[1], x.r.t[6])
            /\ x.r.hops = x.e.hops
            /\ open' = [open EXCEPT ![f] = Drop(@, i)]
            /\ arrived' = arrived \cup {<<x.r.noc, x.r.src, x.r.dst>>}
  /\ UNCHANGED <<pos, bits>>

(* stages that a transaction still under way has not reached carry no time; *)
(* one handed over in the very instant of the end may go either way         *)
Unfinished(r, now) ==
  /\ (r.t[6] = 0 /\ r.lat = 0) \/ Near(r.t[6], now)
  /\ r.t[5] # 0 => r.t[4] # 0
  /\ r.t[4] # 0 => r.t[3] # 0 /\ r.t[2] # 0

CloseTo(a, b) == LET d == IF a > b THEN a - b ELSE b - a IN d <= b \div 50000 + 1

RECURSIVE Sum(_, _)
Sum(S, g) == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN g[p] + Sum(S \ {p}, g)

(* pairs whose route length some transaction has established *)
Measured == arrived \cup {<<x.r.noc, x.r.src, x.r.dst>> : x \in {y \in UNION {{open[f][i] : i \in 1..Len(open[f])} : f \in DOMAIN open} : y.r.hops # 0}}

(* no record without a transaction; each reported flow is the traffic of    *)
(* the node pairs that its names stand for, and no traffic is left out; the *)
(* aggregate bandwidth weighs each pair with the links that it crosses      *)
Ended(total, flows, agg, links(_), now) ==
  /\ total = [s \in DOMAIN pos |-> pos[s]]
  /\ \A f \in DOMAIN open : \A i \in 1..Len(open[f]) :
       /\ Unfinished(open[f][i].r, now)
       /\ open[f][i].r.hops \in {0, open[f][i].e.hops}
  /\ {p \in DOMAIN bits : bits[p] > 0} \subseteq UNION {x.members : x \in flows}
  /\ \A x \in flows : LET b == Sum(x.members, bits) IN b > 0 /\ CloseTo(x.bits, b)
  /\ \A n \in 1..Len(agg) : CloseTo(agg[n], Sum({p \in Measured : p[1] = n - 1}, [p \in DOMAIN bits |-> bits[p] * links(p)]))
  /\ UNCHANGED teleVars
=============================================================================
