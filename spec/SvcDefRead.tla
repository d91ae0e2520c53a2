----------------------------- MODULE SvcDefRead -----------------------------
(* How the definition reader combines the Go files of a definition: files are
   read in any order, several definitions one after the other in one process.
   A file declares messages, some with oneofs, and the wrapper types of the
   options.  The result must be the declared messages with their options,
   whatever the order and the history.
   Global: the registry of oneofs outlives the call, and is filled only while
   it is empty (the design this code base once had). *)
EXTENDS Naturals, FiniteSets
CONSTANTS Global, Calls
Files == {1, 2}
Ms == {"M", "N"}
(* a definition: each message is in a file and has a oneof or not, under a name
   that tells the call apart *)
Defs == [Ms -> [file : Files, oneof : BOOLEAN]]
VARIABLES call, def, unread, registry, structs, result
vars == <<call, def, unread, registry, structs, result>>
Wrapper(c, m) == <<"wrapper", c, m>>
Declared(c, d) == {[n |-> <<"msg", c, m>>, opts |-> IF d[m].oneof THEN {Wrapper(c, m)} ELSE {}] : m \in Ms}
Init == call = 1 /\ def \in Defs /\ unread = Files /\ registry = {} /\ structs = {} /\ result = {}
Read(f) ==
  /\ f \in unread
  /\ unread' = unread \ {f}
  /\ LET here == {m \in Ms : def[m].file = f}
         own == {Wrapper(call, m) : m \in {x \in here : def[x].oneof}}
         seen == IF Global /\ registry # {} THEN {} ELSE own    \* wrappers recognised as such
     IN /\ registry' = registry \cup seen
        /\ structs' = structs \cup {<<"msg", call, m>> : m \in here} \cup (own \ seen)
        /\ IF unread' = {}
           THEN result' = {[n |-> s, opts |-> IF s[1] = "msg" /\ Wrapper(call, s[3]) \in registry' THEN {Wrapper(call, s[3])} ELSE {}] : s \in structs'}
           ELSE result' = result
  /\ UNCHANGED <<call, def>>
NextCall == /\ unread = {} /\ call < Calls
            /\ call' = call + 1 /\ def' \in Defs /\ unread' = Files /\ structs' = {} /\ result' = {}
            /\ registry' = IF Global THEN registry ELSE {}
Next == (\E f \in Files : Read(f)) \/ NextCall
Spec == Init /\ [][Next]_vars
Faithful == unread = {} => result = Declared(call, def)
=============================================================================
