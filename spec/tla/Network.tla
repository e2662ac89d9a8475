------------------------------- MODULE Network -------------------------------
(* Short lives of two multi-layer perceptrons, enumerated completely.         *)
(* What a network is at any moment is a function of how it was made and of    *)
(* the training steps it took; a step is a pair <<x, d>> of an input and a    *)
(* target.  predict() leaves one thing behind: the input the next update()    *)
(* will use.  Every transition TLC finds is executed on real networks.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS Ops, K, L1, L2, R, Bad

VARIABLES net, buf, ev
vars == <<net, buf, ev>>
view == <<net, buf>>

Slots == 1..2
Max == <<L1, L2>>
Seqs(n) == UNION {[1..m -> 1..K] : m \in 1..n}
Steps(q) == [k \in 1..Len(q) |-> <<q[k], q[k]>>]
Before(h, q) == [k \in 1..Len(q) |-> h \o SubSeq(q, 1, k - 1)]
RECURSIVE Times(_, _)
Times(q, n) == IF n = 0 THEN <<>> ELSE q \o Times(q, n - 1)

ASSUME EpochsAreTrainings ==
  \A q \in Seqs(2), n \in 0..2 : Times(q, n + 1) = Times(q, 1) \o Times(q, n)

NoEv == [op |-> "init", slot |-> 1, q |-> <<>>, epochs |-> 0, how |-> "", pre |-> <<>>]
Init == /\ net = [i \in Slots |-> [o |-> i, h |-> <<>>, last |-> 0]]
        /\ buf = 1
        /\ ev = NoEv

Fits(i, q) == Len(net[i].h) + Len(q) <= Max[i]
Learn(i, q) == net' = [net EXCEPT ![i].h = @ \o q, ![i].last = 0]
Forget(i) == net' = [net EXCEPT ![i].last = 0]

Predict(i, s) ==
  /\ "predict" \in Ops
  /\ net' = [net EXCEPT ![i].last = s] /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "predict", !.slot = i, !.q = <<s>>, !.pre = <<net[i].h>>]
PredictBuf(i) ==
  /\ "fill" \in Ops
  /\ net' = [net EXCEPT ![i].last = buf] /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "predictbuf", !.slot = i, !.q = <<buf>>, !.pre = <<net[i].h>>]
Fill(s) ==
  /\ "fill" \in Ops /\ s # buf
  /\ net' = net /\ buf' = s
  /\ ev' = [NoEv EXCEPT !.op = "fill", !.q = <<s>>]
(* the target belongs to the input predicted last, whatever happened to other networks or to the   *)
(* caller's arrays in between                                                                      *)
Update(i, s) ==
  /\ "update" \in Ops /\ net[i].last # 0 /\ Fits(i, <<s>>)
  /\ Learn(i, <<<<net[i].last, s>>>>) /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "update", !.slot = i, !.q = <<net[i].last, s>>, !.pre = <<net[i].h>>]
Run(i, q) ==
  /\ "run" \in Ops
  /\ Forget(i) /\ buf' = buf
  /\ \E what \in {"run", "test"} :
        ev' = [NoEv EXCEPT !.op = what, !.slot = i, !.q = q, !.pre = [k \in 1..Len(q) |-> net[i].h]]
Train(i, q, epochs) ==
  /\ "train" \in Ops
  /\ LET all == Times(Steps(q), epochs)
     IN /\ Fits(i, all)
        /\ IF epochs = 0 THEN Forget(i) ELSE Learn(i, all)
        /\ ev' = [NoEv EXCEPT !.op = "train", !.slot = i, !.q = q, !.epochs = epochs, !.pre = Before(net[i].h, all)]
  /\ buf' = buf
(* a call that cannot be accepted leaves everything as it was, the input of the next update included *)
Reject(i, v) ==
  /\ "reject" \in Ops
  /\ net' = net /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "reject", !.slot = i, !.how = v]
Clone(how) ==
  /\ "clone" \in Ops /\ Len(net[1].h) <= L2
  /\ net' = [net EXCEPT ![2] = net[1]] /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "clone", !.slot = 2, !.how = how]
Scribble ==
  /\ "scribble" \in Ops
  /\ net' = net /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "scribble"]
Again(i) ==
  /\ "again" \in Ops
  /\ net' = [net EXCEPT ![i] = [o |-> i, h |-> <<>>, last |-> 0]] /\ buf' = buf
  /\ ev' = [NoEv EXCEPT !.op = "again", !.slot = i]

Next == \/ \E i \in Slots : \/ \E s \in 1..K : Predict(i, s) \/ Update(i, s)
                            \/ PredictBuf(i) \/ Again(i)
                            \/ \E q \in Seqs(R) : Run(i, q) \/ \E n \in 0..2 : Train(i, q, n)
                            \/ \E v \in Bad : Reject(i, v)
        \/ \E s \in 1..K : Fill(s)
        \/ \E how \in {"deepcopy", "pickle"} : Clone(how)
        \/ Scribble
Spec == Init /\ [][Next]_vars

TypeOK == /\ \A i \in Slots : net[i].o \in Slots /\ Len(net[i].h) <= Max[i] /\ net[i].last \in 0..K
          /\ buf \in 1..K
(* only training teaches *)
Silent == [][ev'.op \notin {"update", "train", "clone", "again"} => \A i \in Slots : net'[i].h = net[i].h]_vars
Separate == [][\A i \in Slots : ev'.slot # i => net'[i] = net[i]]_vars
Grows == [][ev'.op \in {"clone", "again"} \/
            \A i \in Slots : net'[i].o = net[i].o /\ SubSeq(net'[i].h, 1, Len(net[i].h)) = net[i].h]_vars
Causal == [][ev'.op = "train" => \A k \in 1..Len(ev'.pre) :
               Len(ev'.pre[k]) = Len(net'[ev'.slot].h) - Len(ev'.pre) + k - 1]_vars

Key == <<net[1].o, net[1].h, net[1].last, net[2].o, net[2].h, net[2].last, buf>>
KeyN == <<net'[1].o, net'[1].h, net'[1].last, net'[2].o, net'[2].h, net'[2].last, buf'>>
Emit == CSVWrite("%1$s", <<ToJson([s |-> Key, t |-> KeyN, ev |-> ev'])>>, IOEnv.EDGES)
=============================================================================
