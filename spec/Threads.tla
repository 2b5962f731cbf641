------------------------------ MODULE Threads ------------------------------
(* Mutexes, counting semaphores, the barrier and threads, as seen from outside: every call is two events, made and  *)
(* returned, and takes effect somewhere in between.  What may be true of an object at some moment of that interval  *)
(* is all a caller may rely on; Stuck says when it is right that nobody can move any more.                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES own,   \* own[m]: the thread known to hold mutex m (-1: none)
          tch,   \* tch[m]: threads inside a call on m or holding it
          sem,   \* sem[s]: [pb, pd: units posted (call made / returned), tk: units taken, pn: threads inside wait or trywait]
          thr,   \* thr[x]: [st, up, nowait, ret]
          cur,   \* cur[t]: the call t is inside: <<name, object>>, or <<>>
          may,   \* may[t]: during t's current try call the object may have been unavailable / the thread not running
          gate,  \* opened gates
          bar,   \* [rnd, tgt, beg, com]: barrier round, its target, arrivals begun, reach calls returned
          brd,   \* brd[t]: <<round t has arrived in, reach calls that had returned before>>
          nums,  \* nums[r]: arrival numbers handed out in round r
          fail   \* the next thread creation fails
tvars == <<own, tch, sem, thr, cur, may, gate, bar, brd, nums, fail>>
T == 0..10
MX == 0..3
Start0 == /\ own = [m \in MX |-> -1] /\ tch = [m \in MX |-> {}] /\ sem = [s \in MX |-> [pb |-> 0, pd |-> 0, tk |-> 0, pn |-> {}]]
          /\ thr = [x \in T |-> [st |-> "none", up |-> FALSE, nowait |-> FALSE, ret |-> 0]]
          /\ cur = [t \in T |-> <<>>] /\ may = [t \in T |-> FALSE] /\ gate = {} /\ bar = [rnd |-> 0, tgt |-> 0, beg |-> 0, com |-> 0]
          /\ brd = [t \in T |-> <<0, 0>>] /\ nums = <<>> /\ fail = FALSE
Reset == /\ own' = [m \in MX |-> -1] /\ tch' = [m \in MX |-> {}] /\ sem' = [s \in MX |-> [pb |-> 0, pd |-> 0, tk |-> 0, pn |-> {}]]
         /\ thr' = [x \in T |-> [st |-> "none", up |-> FALSE, nowait |-> FALSE, ret |-> 0]]
         /\ cur' = [t \in T |-> <<>>] /\ may' = [t \in T |-> FALSE] /\ gate' = {} /\ bar' = [rnd |-> 0, tgt |-> 0, beg |-> 0, com |-> 0]
         /\ brd' = [t \in T |-> <<0, 0>>] /\ nums' = <<>> /\ fail' = FALSE
Enter(t, c) == cur[t] = <<>> /\ cur' = [cur EXCEPT ![t] = c]
Leave(t, c) == cur[t] = c /\ cur' = [cur EXCEPT ![t] = <<>>]
Same == cur' = cur
\* ---------------------------------------------------------------- mutexes
MU == UNCHANGED <<sem, thr, gate, bar, brd, nums, fail>>
Touch(t, m) == tch' = [tch EXCEPT ![m] = @ \cup {t}]
\* somebody begins to use m: every pending try on it may now fail
Disturb(t, m) == may' = [u \in T |-> may[u] \/ (u # t /\ cur[u] = <<"try", m>>) \/ (u = t /\ (tch[m] # {}))]
MInit(m, res) == own[m] = -1 /\ tch[m] = {} /\ res /\ UNCHANGED <<own, tch, cur, may>> /\ MU
MDestroy(m, res) == own[m] = -1 /\ tch[m] = {} /\ res /\ UNCHANGED <<own, tch, cur, may>> /\ MU
LockCall(t, m) == Enter(t, <<"lock", m>>) /\ Touch(t, m) /\ Disturb(t, m) /\ UNCHANGED own /\ MU
LockDone(t, m) == Leave(t, <<"lock", m>>) /\ own[m] = -1 /\ own' = [own EXCEPT ![m] = t] /\ UNCHANGED <<tch, may>> /\ MU
UnlockCall(t, m) == Enter(t, <<"unlock", m>>) /\ own[m] = t /\ own' = [own EXCEPT ![m] = -1] /\ UNCHANGED <<tch, may>> /\ MU
UnlockDone(t, m) == Leave(t, <<"unlock", m>>) /\ tch' = [tch EXCEPT ![m] = @ \ {t}] /\ UNCHANGED <<own, may>> /\ MU
TryCall(t, m) == Enter(t, <<"try", m>>) /\ Touch(t, m) /\ Disturb(t, m) /\ UNCHANGED own /\ MU
TryDone(t, m, res) == /\ Leave(t, <<"try", m>>)
                      /\ IF res THEN own[m] = -1 /\ own' = [own EXCEPT ![m] = t] /\ UNCHANGED tch
                         ELSE may[t] /\ UNCHANGED own /\ tch' = (IF own[m] = t THEN tch ELSE [tch EXCEPT ![m] = @ \ {t}])
                      /\ UNCHANGED may /\ MU
\* ---------------------------------------------------------------- semaphores
SU == UNCHANGED <<own, tch, thr, gate, bar, brd, nums, fail>>
Dry(q, t) == q.pd - q.tk - Cardinality(q.pn \ {t}) <= 0     \* t may find nothing
Put(t, s, q) == sem' = [sem EXCEPT ![s] = q] /\ may' = [u \in T |-> IF u = t THEN Dry(q, t) ELSE may[u] \/ (cur[u] = <<"tw", s>> /\ Dry(q, u))]
SInit(s) == sem' = [sem EXCEPT ![s] = [pb |-> 0, pd |-> 0, tk |-> 0, pn |-> {}]] /\ UNCHANGED <<cur, may>> /\ SU
SDestroy(s) == UNCHANGED <<sem, cur, may>> /\ SU
PostCall(t, s, n) == LET k == IF n < 0 THEN 0 ELSE n IN Enter(t, <<"post", s>>) /\ Put(t, s, [sem[s] EXCEPT !.pb = @ + k]) /\ SU
PostDone(t, s, n) == LET k == IF n < 0 THEN 0 ELSE n IN Leave(t, <<"post", s>>) /\ Put(t, s, [sem[s] EXCEPT !.pd = @ + k]) /\ SU
WaitCall(t, s) == Enter(t, <<"wait", s>>) /\ Put(t, s, [sem[s] EXCEPT !.pn = @ \cup {t}]) /\ SU
WaitDone(t, s) == Leave(t, <<"wait", s>>) /\ sem[s].tk < sem[s].pb /\ Put(t, s, [sem[s] EXCEPT !.pn = @ \ {t}, !.tk = @ + 1]) /\ SU
TwCall(t, s) == Enter(t, <<"tw", s>>) /\ Put(t, s, [sem[s] EXCEPT !.pn = @ \cup {t}]) /\ SU
TwDone(t, s, res) == /\ Leave(t, <<"tw", s>>)
                     /\ IF res THEN sem[s].tk < sem[s].pb /\ Put(t, s, [sem[s] EXCEPT !.pn = @ \ {t}, !.tk = @ + 1])
                        ELSE may[t] /\ Put(t, s, [sem[s] EXCEPT !.pn = @ \ {t}])
                     /\ SU
\* ---------------------------------------------------------------- threads
TU == UNCHANGED <<own, tch, sem, gate, bar, brd, nums>>
Th(x, r) == thr' = [thr EXCEPT ![x] = r]
TInitT(t, x, nw) == thr[x].st \in {"none", "init", "joined"} /\ Th(x, [st |-> "init", up |-> FALSE, nowait |-> nw, ret |-> 0]) /\ UNCHANGED <<cur, may, fail>> /\ TU
StartCall(t, x) == Enter(t, <<"start", x>>) /\ thr[x].st \in {"init", "joined"} /\ Th(x, [thr[x] EXCEPT !.st = "starting", !.up = FALSE]) /\ UNCHANGED <<may, fail>> /\ TU
StartDone(t, x, res) == /\ Leave(t, <<"start", x>>)
                        /\ IF res THEN ~fail /\ Th(x, [thr[x] EXCEPT !.up = TRUE]) /\ UNCHANGED fail
                           ELSE fail /\ fail' = FALSE /\ thr[x].st = "starting" /\ Th(x, [thr[x] EXCEPT !.st = "init"])
                        /\ UNCHANGED may /\ TU
Begin(x, isown) == x \in 1..10 /\ isown /\ thr[x].st = "starting" /\ Th(x, [thr[x] EXCEPT !.st = "run"]) /\ UNCHANGED <<cur, may, fail>> /\ TU
End(x, ret) == cur[x] = <<>> /\ thr[x].st = "run" /\ Th(x, [thr[x] EXCEPT !.st = "ended", !.ret = ret]) /\ UNCHANGED <<cur, may, fail>> /\ TU
Off == {"none", "init", "joined"}
Sure(x) == thr[x].st = "run" \/ (thr[x].st = "starting" /\ thr[x].up /\ ~thr[x].nowait)
\* may[t] here: 'not running' is an acceptable answer / 'running' is, encoded by the two disjuncts of AskDone
RunCall(t, x) == Enter(t, <<"running", x, thr[x].st \in Off>>) /\ may' = [may EXCEPT ![t] = ~Sure(x)] /\ UNCHANGED <<thr, fail>> /\ TU
RunDone(t, x, res) == /\ cur[t] # <<>> /\ cur[t][1] = "running" /\ cur[t][2] = x /\ cur' = [cur EXCEPT ![t] = <<>>]
                      /\ IF res THEN ~(cur[t][3] /\ thr[x].st \in Off) ELSE may[t] \/ thr[x].st \in {"ended"} \cup Off
                      /\ UNCHANGED <<thr, may, fail>> /\ TU
JoinCall(t, x) == Enter(t, <<"join", x>>) /\ thr[x].st \in {"starting", "run", "ended"} /\ UNCHANGED <<thr, may, fail>> /\ TU
JoinDone(t, x, ret, rn) == Leave(t, <<"join", x>>) /\ thr[x].st = "ended" /\ ret = thr[x].ret /\ ~rn /\ Th(x, [thr[x] EXCEPT !.st = "joined", !.up = FALSE]) /\ UNCHANGED <<may, fail>> /\ TU
DestroyCall(t, x) == Enter(t, <<"tdestroy", x>>) /\ UNCHANGED <<thr, may, fail>> /\ TU
DestroyDone(t, x, ret, rn) == /\ Leave(t, <<"tdestroy", x>>) /\ ~rn
                              /\ thr[x].st \in {"init", "ended", "joined"} /\ (thr[x].st # "init" => ret = thr[x].ret)
                              /\ Th(x, [thr[x] EXCEPT !.st = "joined", !.up = FALSE]) /\ UNCHANGED <<may, fail>> /\ TU
FailNext == fail' = TRUE /\ UNCHANGED <<thr, cur, may>> /\ TU
\* ---------------------------------------------------------------- gates (the harness' own)
GU == UNCHANGED <<own, tch, sem, thr, may, bar, brd, nums, fail>>
GateCall(t, g) == Enter(t, <<"gate", g>>) /\ UNCHANGED gate /\ GU
GateDone(t, g) == Leave(t, <<"gate", g>>) /\ UNCHANGED gate /\ GU
GateOpen(g) == gate' = gate \cup {g} /\ Same /\ GU
\* ---------------------------------------------------------------- barrier
BU == UNCHANGED <<own, tch, sem, thr, may, gate, fail>>
Whole == bar.beg = bar.tgt            \* everybody of the current round has arrived
BInit == bar' = [rnd |-> 0, tgt |-> 0, beg |-> 0, com |-> 0] /\ nums' = <<>> /\ UNCHANGED <<cur, brd>> /\ BU
\* nobody may still be waiting at it
BDestroy == (\A t \in T : cur[t] = <<"reach", 0>> => brd[t][1] # bar.rnd \/ Whole) /\ UNCHANGED <<cur, bar, brd, nums>> /\ BU
TargetCall(t, n) == Enter(t, <<"target", n>>) /\ UNCHANGED <<bar, brd, nums>> /\ BU
\* a new round begins only when the one before is complete
TargetDone(t, n) == Leave(t, <<"target", n>>) /\ Whole /\ bar' = [rnd |-> bar.rnd + 1, tgt |-> n, beg |-> 0, com |-> 0] /\ nums' = Append(nums, {}) /\ UNCHANGED brd /\ BU
ReachCall(t) == /\ Enter(t, <<"reach", 0>>) /\ bar.beg < bar.tgt
                /\ brd' = [brd EXCEPT ![t] = <<bar.rnd, bar.com>>] /\ bar' = [bar EXCEPT !.beg = @ + 1] /\ UNCHANGED nums /\ BU
\* reach only counts: the numbers of one round are 1..target, each once, in the order of the calls
ReachDone(t, n) == /\ Leave(t, <<"reach", 0>>)
                   /\ LET r == brd[t][1] IN
                      /\ n > brd[t][2] /\ n \notin nums[r] /\ n >= 1
                      /\ (r = bar.rnd => n <= bar.beg)
                      /\ nums' = [nums EXCEPT ![r] = @ \cup {n}]
                      /\ bar' = IF r = bar.rnd THEN [bar EXCEPT !.com = @ + 1] ELSE bar
                   /\ UNCHANGED brd /\ BU
\* nobody passes before everybody of its round has arrived
PassDone(t) == Leave(t, <<"reach", 0>>) /\ (brd[t][1] = bar.rnd => Whole) /\ UNCHANGED <<bar, brd, nums>> /\ BU
\* ---------------------------------------------------------------- nobody can move, and that is right
Blocked(t) == LET c == cur[t] IN
  /\ c # <<>>
  /\ CASE c[1] = "lock" -> own[c[2]] # -1
       [] c[1] = "wait" -> sem[c[2]].pd = sem[c[2]].tk
       [] c[1] \in {"join", "tdestroy"} -> thr[c[2]].st = "run"
       [] c[1] = "gate" -> c[2] \notin gate
       [] c[1] = "reach" -> brd[t][1] = bar.rnd /\ ~Whole
       [] c[1] = "target" -> ~Whole
       [] OTHER -> FALSE
Stuck == /\ Blocked(0) /\ \A x \in 1..10 : thr[x].st # "starting" /\ (thr[x].st = "run" => Blocked(x))
         /\ UNCHANGED tvars
ThreadsOK == /\ \A m \in MX : own[m] # -1 => own[m] \in tch[m]
             /\ \A s \in MX : sem[s].pd <= sem[s].pb /\ sem[s].tk <= sem[s].pb
             /\ bar.beg <= bar.tgt
=============================================================================
