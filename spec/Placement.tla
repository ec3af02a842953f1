----------------------------- MODULE Placement -----------------------------
(* What placement and clock files mean.  A port line puts a port on a node  *)
(* of a NoC, a module line puts every port of the module there; every port  *)
(* then publishes its node, an interface identifier and, when memory-mapped,*)
(* a base address; whatever is sent to what a port published arrives at     *)
(* that port and nowhere else; modules tick at the period of their clock.   *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg, at, clkOf, pub, box, cnt, ticked
vars == <<cfg, at, clkOf, pub, box, cnt, ticked>>

Ports == DOMAIN cfg.role
Placed == DOMAIN at
Kind(p) == cfg.kind[p]
Add(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
None == [x \in {} |-> 0]

Init == at = None /\ clkOf = None /\ pub = None /\ box = None /\ cnt = None /\ ticked = {}

(* a memory-mapped node hosts one port, a stream node only stream ports *)
Room(p, noc, node) == \A q \in Placed : at[q] = <<noc, node>> => (Kind(p) = "axis" /\ Kind(q) = "axis")
PortLine(p, noc, node, kind) ==
  /\ p \in Ports \ Placed /\ kind = Kind(p) /\ Room(p, noc, node)
  /\ at' = Add(at, p, <<noc, node>>)
  /\ UNCHANGED <<cfg, clkOf, pub, box, cnt, ticked>>
ModuleLine(m, noc, node, kind) ==
  LET new == {p \in Ports \ Placed : cfg.mod[p] = m /\ Kind(p) = kind} IN
  /\ new # {} /\ (\A p \in new : Room(p, noc, node)) = TRUE
  /\ kind = "aximm" => Cardinality(new) = 1
  /\ at' = [p \in Placed \cup new |-> IF p \in new THEN <<noc, node>> ELSE at[p]]
  /\ UNCHANGED <<cfg, clkOf, pub, box, cnt, ticked>>
(* clock of the module's node adapters, then of the module *)
ClockLine(m, ai, ci) == clkOf' = Add(clkOf, m, <<ai, ci>>) /\ UNCHANGED <<cfg, at, pub, box, cnt, ticked>>

(* identifiers are the implementation's choice, as long as they tell ports apart *)
Publish(p, noc, node, itf, base) ==
  /\ p \in Placed /\ p \notin DOMAIN pub /\ at[p] = <<noc, node>>
  /\ (\A q \in DOMAIN pub : (at[q] = at[p] /\ cfg.role[q] = cfg.role[p]) => pub[q].itf # itf) = TRUE
  /\ Kind(p) = "aximm" => (\A q \in DOMAIN pub : (Kind(q) = "aximm") => pub[q].base # base) = TRUE
  /\ pub' = Add(pub, p, [itf |-> itf, base |-> base])
  /\ box' = Add(box, p, {})
  /\ UNCHANGED <<cfg, at, clkOf, cnt, ticked>>

Send(q, d, m) ==
  /\ q \in DOMAIN pub /\ d \in DOMAIN pub /\ cfg.role[q] = "m" /\ cfg.role[d] = "s"
  /\ Kind(q) = Kind(d) /\ at[q][1] = at[d][1]
  /\ box' = [box EXCEPT ![d] = @ \cup {m}]
  /\ LET k == <<at[q][1], at[q][2], at[d][2]>> IN cnt' = Add(cnt, k, (IF k \in DOMAIN cnt THEN cnt[k] ELSE 0) + 1)
  /\ UNCHANGED <<cfg, at, clkOf, pub, ticked>>
Take(d, m) ==
  /\ d \in DOMAIN box /\ m \in box[d]
  /\ box' = [box EXCEPT ![d] = @ \ {m}]
  /\ UNCHANGED <<cfg, at, clkOf, pub, cnt, ticked>>

Abs(x) == IF x < 0 THEN -x ELSE x
(* routers a packet visits on the mesh of that NoC *)
Hops(noc, a, b) == LET w == cfg.w[noc + 1] IN Abs((a % w) - (b % w)) + Abs((a \div w) - (b \div w)) + 1
(* the routers really crossed are those between the named nodes *)
Crossed(rows) ==
  /\ (\A i \in 1..Len(rows) : LET k == <<rows[i].noc, rows[i].src, rows[i].dst>> IN
        k \in DOMAIN cnt /\ cnt[k] = rows[i].n /\ rows[i].hops = Hops(k[1], k[2], k[3])) = TRUE
  /\ Len(rows) = Cardinality(DOMAIN cnt)
  /\ UNCHANGED vars
(* everything happens at an edge of the clock it belongs to: accepted and    *)
(* handed over at the module's, packed and unpacked at the adapter's,        *)
(* injected and ejected at the NoC's                                         *)
Clocks(noc, node) == {clkOf[cfg.mod[p]] : p \in {q \in Placed : at[q] = <<noc, node>>}}
Stamped(ts, noc, a, b) ==
  \A i \in 1..6 : \E c \in Clocks(noc, IF i <= 3 THEN a ELSE b) :
    ts[i] % (CASE i \in {1, 6} -> cfg.pers[c[2]] [] i \in {2, 5} -> cfg.aper[c[1]] [] OTHER -> cfg.nper[noc + 1]) = 0
Clocked(rows) == (\A i \in 1..Len(rows) : Stamped(rows[i].t, rows[i].noc, rows[i].src, rows[i].dst)) = TRUE /\ UNCHANGED vars
Ticks(m, edges, span) ==
  /\ m \in DOMAIN clkOf /\ edges >= 1
  /\ span \div edges = cfg.pers[clkOf[m][2]] /\ span % edges = 0
  /\ ticked' = ticked \cup {m}
  /\ UNCHANGED <<cfg, at, clkOf, pub, box, cnt>>
Finished == (\A d \in DOMAIN box : box[d] = {}) /\ DOMAIN pub = Ports /\ ticked = DOMAIN clkOf
=============================================================================
