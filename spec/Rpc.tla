-------------------------------- MODULE Rpc ---------------------------------
(* Calls of a service over a transport which many callers and servers share,
   such as NATS: a call is sent as a message to a subject, every server of the
   service which gets it handles it and answers to the inbox of the call.

   The constants choose between the design and faulty ones, which must be
   refuted.                                                                  *)
EXTENDS Naturals, FiniteSets
CONSTANTS Calls, Servers, Rpcs,
          Group,      \* the servers of a service share their messages
          OwnInbox,   \* every call has an inbox of its own
          OwnSubject, \* every RPC has a subject of its own
          Marked,     \* errors can be told from responses
          Others      \* servers of other services, which have other subjects
VARIABLES st,         \* call -> "new", "sent", "back"
          rpc,        \* call -> the RPC called
          inflight,   \* [call, subject, srv]
          handled,    \* [call, rpc, srv, ans]: what handlers were given and gave
          replies,    \* [inbox, ans]
          got         \* call -> the answer it came back with
vars == <<st, rpc, inflight, handled, replies, got>>

Kinds == {"ok", "err"}
NoAns == [k |-> "none", of |-> "none"]
Service == Servers \ Others
SubjectOf(r) == IF OwnSubject THEN r ELSE "all"
HandlersOf(s) == IF OwnSubject THEN {s} ELSE Rpcs
Inbox(c) == IF OwnInbox THEN c ELSE "shared"
Init == /\ st = [c \in Calls |-> "new"] /\ rpc = [c \in Calls |-> "none"] /\ inflight = {} /\ handled = {} /\ replies = {}
        /\ got = [c \in Calls |-> NoAns]
Send(c) == /\ st[c] = "new"
           /\ \E r \in Rpcs :
                /\ rpc' = [rpc EXCEPT ![c] = r]
                /\ \E s \in Service : inflight' = inflight \cup
                     {[call |-> c, subject |-> SubjectOf(r), srv |-> x] : x \in IF Group THEN {s} ELSE Service}
           /\ st' = [st EXCEPT ![c] = "sent"]
           /\ UNCHANGED <<handled, replies, got>>
(* an answer is told by what it is and by the handling it is of *)
Handle(m) == /\ m \in inflight
             /\ \E r \in HandlersOf(m.subject), k \in Kinds :
                  LET a == [k |-> k, of |-> m.call] IN
                  /\ handled' = handled \cup {[call |-> m.call, rpc |-> r, srv |-> m.srv, ans |-> a]}
                  /\ replies' = replies \cup {[inbox |-> Inbox(m.call), ans |-> a]}
             /\ inflight' = inflight \ {m}
             /\ UNCHANGED <<st, rpc, got>>
Return(c) == /\ st[c] = "sent"
             /\ \E p \in replies : /\ p.inbox = Inbox(c)
                                   /\ replies' = replies \ {p}
                                   /\ got' = [got EXCEPT ![c] = IF Marked THEN p.ans ELSE [p.ans EXCEPT !.k = "ok"]]
             /\ st' = [st EXCEPT ![c] = "back"]
             /\ UNCHANGED <<rpc, inflight, handled>>
Next == (\E c \in Calls : Send(c) \/ Return(c)) \/ (\E m \in inflight : Handle(m))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* C17, C18 *)
Once == \A c \in Calls : Cardinality({h \in handled : h.call = c}) <= 1
Right == \A h \in handled : h.rpc = rpc[h.call] /\ h.srv \in Service
Intact == \A c \in Calls : st[c] = "back" => \E h \in handled : h.call = c /\ h.ans = got[c]
Ends == \A c \in Calls : <>(st[c] = "back")
=============================================================================
