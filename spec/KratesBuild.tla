----------------------------- MODULE KratesBuild ------------------------------
(***************************************************************************)
(* Building the graph as a state machine: one fact is added per step, in   *)
(* any order.  The implementation is one scheduling of these steps;        *)
(* KratesCore!Closure, which recorded runs are compared with, adds all of  *)
(* them at once.                                                           *)
(***************************************************************************)
EXTENDS KratesCore

\* the steps possible in state s: the set of states after one more fact
RootSteps(W, C, s) ==
  {[s EXCEPT !.K = @ \cup {r}, !.F = @ \cup {<<r, f>> : f \in Resolved(W, r)}] : r \in {r \in LiveRoots(W, C) : r \notin s.K \/ \E f \in Resolved(W, r) : <<r, f>> \notin s.F}}

FollowSteps(W, U, s) ==
  {[s EXCEPT !.L = @ \cup {pi}, !.K = @ \cup {DepTarget(W, pi)}] : pi \in ReadyDeps(W, U, s.K, s.F) \ s.L}

RequestSteps(W, s) ==
  {[s EXCEPT !.F = @ \cup {pf}] : pf \in UNION {DepFeatures(W, pi) : pi \in s.L} \ s.F}

ImplySteps(W, s) ==
  {[s EXCEPT !.F = @ \cup {pf}] : pf \in UNION {OwnFeatures(W, px[1], px[2], TRUE) : px \in EnabledItems(W, s.F)} \ s.F}

ToggleSteps(W, s) ==
  {[s EXCEPT !.Q = @ \cup {q}, !.F = @ \cup {<<q[2], q[3]>>}] : q \in UNION {ForeignFeatures(W, s.L, px[1], px[2]) : px \in EnabledItems(W, s.F)} \ s.Q}

Steps(W, C, U, s) == RootSteps(W, C, s) \cup FollowSteps(W, U, s) \cup RequestSteps(W, s) \cup ImplySteps(W, s) \cup ToggleSteps(W, s)

Nothing == [K |-> {}, F |-> {}, L |-> {}, Q |-> {}]

Within(s, t) == s.K \subseteq t.K /\ s.F \subseteq t.F /\ s.L \subseteq t.L /\ s.Q \subseteq t.Q

(***************************************************************************)
(* Every fact has a reason that is itself a fact of the graph              *)
(***************************************************************************)
JustifiedKrates(W, C, s) == \A p \in s.K : p \in LiveRoots(W, C) \/ \E pi \in s.L : DepTarget(W, pi) = p
JustifiedDeps(W, C, s) == \A pi \in s.L : /\ pi[1] \in s.K /\ DepTarget(W, pi) \in s.K
                                          /\ UsableDep(W, C, pi[1], pi[2])
                                          /\ W.pk[pi[1]].deps[pi[2]].opt => Activated(W, s.F, pi[1], W.pk[pi[1]].deps[pi[2]].toml)
JustifiedFeatures(W, C, s) == \A pf \in s.F : /\ pf[1] \in s.K /\ pf[2] \in Resolved(W, pf[1])
                                              /\ \/ pf[1] \in LiveRoots(W, C)
                                                 \/ \E pi \in s.L : pf \in DepFeatures(W, pi)
                                                 \/ \E q \in s.Q : <<q[2], q[3]>> = pf
                                                 \/ \E px \in EnabledItems(W, s.F) : pf \in OwnFeatures(W, px[1], px[2], TRUE)
=============================================================================
