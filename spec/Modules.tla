------------------------------ MODULE Modules ------------------------------
(* Which modules a program gets for what it asks for: a distribution, modules switched on and modules switched off.                                               *)
EXTENDS FiniteSets
Mods == {"ESSENTIALS", "CORE", "HASHING", "REGEX", "DLL", "OPTS", "PROCESS", "MATH", "THREADING", "JOBS", "PARSER", "SOCKET"}
Choice == Mods \ {"ESSENTIALS"}
Base(dist) == CASE dist = "full" -> Mods [] dist = "nano" -> {"ESSENTIALS", "CORE"} [] dist = "pico" -> {"ESSENTIALS"} [] OTHER -> {"ESSENTIALS"}
\* jobs bring the threads they run on, and go when threads go; switching off wins
On(m) == IF "JOBS" \in m THEN m \cup {"THREADING"} ELSE m
Off(d) == IF "THREADING" \in d THEN d \cup {"JOBS"} ELSE d
Selected(dist, m, d) == IF dist = "custom" THEN {"ESSENTIALS"} \cup m ELSE (Base(dist) \cup On(m)) \ Off(d)
\* what a module is written with
Needs(x) == CASE x \in {"OPTS", "PROCESS", "PARSER", "REGEX"} -> {"CORE"} [] x = "JOBS" -> {"CORE", "THREADING"} [] OTHER -> {}
Usable(s) == \A x \in s : Needs(x) \subseteq s
=============================================================================
