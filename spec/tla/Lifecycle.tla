------------------------------ MODULE Lifecycle ------------------------------
(* Short lives of two adaptive filters, enumerated completely.                *)
(* What a filter is at any moment is a function of two things only: how it    *)
(* was made, and the sequence of samples it has learned.  Everything a caller *)
(* can do is one action; `ev` records the call and, as histories, what it     *)
(* must return.  TLC enumerates every reachable (flt, buf) and every call in  *)
(* it, and writes each of these transitions to a file; each one is then       *)
(* executed on all 15 real filters (lib/lifecycle.py).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Ops,      \* calls that may happen
          K,        \* samples are 1..K
          L1, L2,   \* longest history of slot 1 and slot 2
          R,        \* longest data set of run()
          Bad       \* kinds of calls that cannot be accepted

VARIABLES flt, buf, ev
vars == <<flt, buf, ev>>
view == <<flt, buf>>

Slots == 1..2
Max == <<L1, L2>>
Seqs(n) == UNION {[1..m -> 1..K] : m \in 0..n}

\* ------------------------------------------------------------- meaning of calls
(* history before each sample of q is learned *)
Before(h, q) == [k \in 1..Len(q) |-> h \o SubSeq(q, 1, k - 1)]
RECURSIVE Times(_, _)
Times(q, n) == IF n = 0 THEN <<>> ELSE q \o Times(q, n - 1)

ASSUME RunSplits ==          \* running in pieces is running at once
  \A h \in Seqs(1), p, q \in Seqs(2) :
     /\ (h \o p) \o q = h \o (p \o q)
     /\ Before(h, p \o q) = Before(h, p) \o Before(h \o p, q)
ASSUME EpochsAreRuns ==      \* n + 1 epochs are n epochs and one more
  \A q \in Seqs(2), n \in 0..2 : Times(q, n + 1) = Times(q, n) \o q

NoEv == [op |-> "init", slot |-> 1, q |-> <<>>, nt |-> 0, epochs |-> 0, how |-> "", pre |-> <<>>]
Init == /\ flt = [i \in Slots |-> [o |-> i, h |-> <<>>]]
        /\ buf = 1
        /\ ev = NoEv

Fits(i, q) == Len(flt[i].h) + Len(q) <= Max[i]
Learn(i, q) == flt' = [flt EXCEPT ![i].h = @ \o q]

Adapt(i, s) ==
  /\ "adapt" \in Ops /\ Fits(i, <<s>>)
  /\ Learn(i, <<s>>) /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "adapt", !.slot = i, !.q = <<s>>]
(* the caller keeps one array and refills it *)
Fill(s) ==
  /\ "fill" \in Ops /\ s # buf
  /\ flt' = flt /\ buf' = s
  /\ ev' = [NoEv EXCEPT !.op = "fill", !.q = <<s>>]
AdaptBuf(i) ==
  /\ "fill" \in Ops /\ Fits(i, <<buf>>)
  /\ Learn(i, <<buf>>) /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "adaptbuf", !.slot = i, !.q = <<buf>>]
Run(i, q) ==
  /\ "run" \in Ops /\ Fits(i, q)
  /\ Learn(i, q) /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "run", !.slot = i, !.q = q, !.pre = Before(flt[i].h, q)]
Predict(i, s) ==
  /\ "predict" \in Ops
  /\ flt' = flt /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "predict", !.slot = i, !.q = <<s>>, !.pre = <<flt[i].h>>]
(* nt of the Len(q) samples train `epochs` times, the rest runs once *)
Pretrained(i, q, nt, epochs) ==
  /\ "pretrained" \in Ops
  /\ LET train == Times(SubSeq(q, 1, nt), epochs)
         rest == SubSeq(q, nt + 1, Len(q))
     IN /\ Fits(i, train \o rest)
        /\ Learn(i, train \o rest)
        /\ ev' = [NoEv EXCEPT !.op = "pretrained", !.slot = i, !.q = q, !.nt = nt, !.epochs = epochs,
                              !.pre = Before(flt[i].h \o train, rest)]
  /\ buf' = buf
Reject(i, v) ==
  /\ "reject" \in Ops
  /\ flt' = flt /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "reject", !.slot = i, !.how = v]
(* slot 2 becomes a copy of slot 1 *)
Clone(how) ==
  /\ "clone" \in Ops /\ Len(flt[1].h) <= L2
  /\ flt' = [flt EXCEPT ![2] = flt[1]] /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "clone", !.slot = 2, !.how = how]
(* the caller overwrites everything it passed in or got back so far *)
Scribble ==
  /\ "scribble" \in Ops
  /\ flt' = flt /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "scribble"]
(* a new filter like the first one takes its place *)
Again(i) ==
  /\ "again" \in Ops
  /\ flt' = [flt EXCEPT ![i] = [o |-> i, h |-> <<>>]] /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "again", !.slot = i]

Next == \/ \E i \in Slots : \/ \E s \in 1..K : Adapt(i, s) \/ Predict(i, s)
                            \/ AdaptBuf(i) \/ Again(i)
                            \/ \E q \in Seqs(R) : Run(i, q)
                            \/ \E q \in [1..2 -> 1..K], nt \in 0..2, epochs \in 0..2 : Pretrained(i, q, nt, epochs)
                            \/ \E v \in Bad : Reject(i, v)
        \/ \E s \in 1..K : Fill(s)
        \/ \E how \in {"deepcopy", "pickle", "copy of copy"} : Clone(how)
        \/ Scribble
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- design
TypeOK == /\ \A i \in Slots : flt[i].o \in Slots /\ flt[i].h \in Seqs(Max[i])
          /\ buf \in 1..K
(* calls that must not teach anything do not *)
Silent == [][ev'.op \in {"predict", "reject", "fill", "scribble"} => flt' = flt]_vars
(* a call on one filter leaves the other alone *)
Separate == [][\A i \in Slots : ev'.slot # i => flt'[i] = flt[i]]_vars
(* filters learn, they never forget *)
Grows == [][ev'.op \in {"clone", "again"} \/
            \A i \in Slots : flt'[i].o = flt[i].o /\ SubSeq(flt'[i].h, 1, Len(flt[i].h)) = flt[i].h]_vars
(* every output is a prediction with the weights before its own sample *)
Causal == [][ev'.op \in {"run", "pretrained"} => \A k \in 1..Len(ev'.pre) :
               Len(ev'.pre[k]) = Len(flt'[ev'.slot].h) - Len(ev'.pre) + k - 1]_vars

\* ------------------------------------------------------------- every transition goes to the file
Key == <<flt[1].o, flt[1].h, flt[2].o, flt[2].h, buf>>
KeyN == <<flt'[1].o, flt'[1].h, flt'[2].o, flt'[2].h, buf'>>
Emit == CSVWrite("%1$s", <<ToJson([s |-> Key, t |-> KeyN, ev |-> ev'])>>, IOEnv.EDGES)
=============================================================================
