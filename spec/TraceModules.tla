---------------------------- MODULE TraceModules ----------------------------
EXTENDS Modules, TraceLib
VARIABLES known
\* known: what each module was first seen to do
SInit == l = 1 /\ known = [x \in {} |-> ""]
R(s) == {s[k] : k \in 1..Len(s)}
Names == {Ev.dig[k][1] : k \in 1..Len(Ev.dig)}
Dig(x) == Ev.dig[CHOOSE k \in 1..Len(Ev.dig) : Ev.dig[k][1] = x][2]
\* a usable selection builds and runs; it has the modules asked for and no others; all that is declared is there; every module does what it does in every other selection
Build == LET s == Selected(Ev.dist, R(Ev.m), R(Ev.d)) IN
         <<Usable(s) => (Ev.built /\ Ev.ran /\ R(Ev.sel) = s /\ Names = s /\ Ev.missing = <<>> /\ \A x \in s \cap DOMAIN known : known[x] = Dig(x)),
           IF Ev.ran THEN [x \in DOMAIN known \cup Names |-> IF x \in DOMAIN known THEN known[x] ELSE Dig(x)] ELSE known>>
Do == CASE Ev.op = "seg" -> <<TRUE, [x \in {} |-> ""]>>
        [] Ev.op = "build" -> Build
        [] OTHER -> <<FALSE, known>>
SNext == More /\ LET o == TLCEval(Do) IN IF o[1] THEN known' = o[2] /\ Advance ELSE Reject /\ UNCHANGED known
TSpec == SInit /\ [][SNext]_<<l, known>>
=============================================================================
