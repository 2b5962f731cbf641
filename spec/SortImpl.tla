------------------------------ MODULE SortImpl ------------------------------
(* zpl_sort's algorithm, one comparison or exchange per step: quick sort with the larger part pushed on an explicit stack and
   insertion sort below a threshold.  Checked: every comparison looks inside the array, the stack stays logarithmic, it ends, and the
   result is the sorted permutation. *)
EXTENDS Sort, TLC
CONSTANTS Ns, Vals, Threshold
VARIABLES n, a0, a, pc, base, limit, i, j, stack
vars == <<n, a0, a, pc, base, limit, i, j, stack>>
Init == /\ n \in Ns /\ a0 \in [0..n - 1 -> Vals] /\ a = a0
        /\ pc = "top" /\ base = 0 /\ limit = n /\ i = 0 /\ j = 0 /\ stack = <<>>
Swap(f, x, y) == [f EXCEPT ![x] = f[y], ![y] = f[x]]
\* the three exchanges that leave a middling value at base and bounds for the scans at its neighbours
Med == LET m == base + (limit - base) \div 2 b == Swap(a, m, base) x == base + 1 y == limit - 1
           c == IF b[x] > b[y] THEN Swap(b, x, y) ELSE b
           d == IF c[base] > c[y] THEN Swap(c, base, y) ELSE c
       IN IF d[x] > d[base] THEN Swap(d, x, base) ELSE d
Top == /\ pc = "top"
       /\ IF limit - base > Threshold THEN a' = Med /\ i' = base + 1 + 1 /\ j' = limit - 1 /\ pc' = "up" /\ UNCHANGED <<base, limit, stack>>
          ELSE j' = base /\ i' = base + 1 /\ pc' = "ins" /\ UNCHANGED <<a, base, limit, stack>>
Up == /\ pc = "up"
      /\ IF a[i] < a[base] THEN i' = i + 1 /\ UNCHANGED <<pc, j>> ELSE j' = j - 1 /\ pc' = "down" /\ UNCHANGED i
      /\ UNCHANGED <<a, base, limit, stack>>
Down == /\ pc = "down"
        /\ IF a[j] > a[base] THEN j' = j - 1 /\ UNCHANGED <<pc, a, i, base, limit, stack>>
           ELSE IF i > j THEN LET b == Swap(a, base, j) IN
                /\ a' = b /\ pc' = "top" /\ UNCHANGED <<i, j>>
                /\ IF j - base > limit - i THEN stack' = Append(stack, <<base, j>>) /\ base' = i /\ UNCHANGED limit
                   ELSE stack' = Append(stack, <<i, limit>>) /\ limit' = j /\ UNCHANGED base
           ELSE a' = Swap(a, i, j) /\ i' = i + 1 /\ pc' = "up" /\ UNCHANGED <<j, base, limit, stack>>
Ins == /\ pc = "ins"
       /\ IF i < limit
          THEN IF a[j] > a[j + 1] THEN a' = Swap(a, j, j + 1) /\ (IF j = base THEN j' = i /\ i' = i + 1 ELSE j' = j - 1 /\ UNCHANGED i) /\ UNCHANGED <<pc, base, limit, stack>>
               ELSE j' = i /\ i' = i + 1 /\ UNCHANGED <<a, pc, base, limit, stack>>
          ELSE IF stack = <<>> THEN pc' = "done" /\ UNCHANGED <<a, i, j, base, limit, stack>>
               ELSE base' = stack[Len(stack)][1] /\ limit' = stack[Len(stack)][2] /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ pc' = "top" /\ UNCHANGED <<a, i, j>>
Next == (Top \/ Up \/ Down \/ Ins) /\ UNCHANGED <<n, a0>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Seqn(f) == [k \in 1..n |-> f[k - 1]]
InBounds == /\ pc = "up" => i \in base..limit - 1
            /\ pc = "down" => j \in base..limit - 1
            /\ pc = "ins" /\ i < limit => j \in base..limit - 2
            /\ base >= 0 /\ limit <= n
            /\ 2^Len(stack) <= n + 1
Correct == pc = "done" => Perm(Seqn(a0), Seqn(a)) /\ \A k \in 0..n - 2 : a[k] <= a[k + 1]
Ends == <>(pc = "done")
=============================================================================
