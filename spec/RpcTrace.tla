------------------------------ MODULE RpcTrace ------------------------------
(* Judges recorded traffic: every line of the trace file is one run, a
   sequence of events in the order they happened.
     send    a caller makes a call: call, rpc, req
     handle  a handler is given a request and gives an answer: srv, rpc, req, val
     return  the caller has got an answer: call, val
   The behaviour must be one of Rpc, in which the callers and handlers see the
   same requests and answers.  Which call a handler was given is not recorded:
   any call with this request may be the one.                                *)
EXTENDS Rpc, Sequences, TLC, Json, IOUtils
Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, req, val
tvars == <<vars, tid, l, req, val>>
(* for the configuration: names of the calls *)
TCalls == 0..400
Ev == Runs[tid].events
TInit == /\ tid \in DOMAIN Runs /\ l = 1
         /\ st = <<>> /\ rpc = <<>> /\ inflight = {} /\ handled = {} /\ replies = {} /\ got = <<>>
         /\ req = <<>> /\ val = <<>>
(* Rpc's actions over the calls made so far *)
TSend(e) == /\ e.e = "send" /\ e.call \notin DOMAIN st
            /\ st' = (e.call :> "sent") @@ st
            /\ rpc' = (e.call :> e.rpc) @@ rpc
            /\ req' = (e.call :> e.req) @@ req
            /\ inflight' = inflight \cup {[call |-> e.call, subject |-> SubjectOf(e.rpc), srv |-> "s"]}
            /\ UNCHANGED <<handled, replies, got, val>>
THandle(e) == /\ e.e = "handle"
              /\ \E m \in inflight :
                   /\ rpc[m.call] = e.rpc /\ req[m.call] = e.req /\ m.srv = e.srv
                   /\ LET a == [k |-> e.k, of |-> m.call] IN
                      /\ handled' = handled \cup {[call |-> m.call, rpc |-> e.rpc, srv |-> m.srv, ans |-> a]}
                      /\ replies' = replies \cup {[inbox |-> Inbox(m.call), ans |-> a]}
                      /\ val' = (m.call :> e.val) @@ val
                   /\ inflight' = inflight \ {m}
              /\ UNCHANGED <<st, rpc, got, req>>
TReturn(e) == /\ e.e = "return" /\ e.call \in DOMAIN val /\ st[e.call] = "sent"
              /\ \E p \in replies : /\ p.inbox = Inbox(e.call) /\ p.ans.k = e.k /\ val[e.call] = e.val
                                    /\ replies' = replies \ {p}
                                    /\ got' = (e.call :> p.ans) @@ got
              /\ st' = [st EXCEPT ![e.call] = "back"]
              /\ UNCHANGED <<rpc, inflight, handled, req, val>>
TNext == /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
         /\ (TSend(Ev[l]) \/ THandle(Ev[l]) \/ TReturn(Ev[l]))
         /\ PrintT("@P " \o ToString(tid) \o " " \o ToString(l'))
TSpec == TInit /\ [][TNext]_tvars
(* Rpc's properties of the calls made so far *)
TOnce == \A c \in DOMAIN st : Cardinality({h \in handled : h.call = c}) <= 1
TIntact == \A c \in DOMAIN st : st[c] = "back" => \E h \in handled : h.call = c /\ h.ans = got[c]
=============================================================================
