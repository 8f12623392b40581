-------------------------------- MODULE Scope --------------------------------
(* Nested scopes with guards.  frames is what is being executed, outermost   *)
(* first: guarded scopes "E", "S", "F"; tasks of guards "K"; try blocks "Y"; *)
(* destructors of other objects "O".  exc says that an exception is          *)
(* propagating in the frame (and will leave it unless caught there).         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES frames, tasks         \* tasks: guard -> the tasks it holds, oldest first (0: an empty function)

Guards == {"E", "S", "F"}
Top == frames[Len(frames)]
Under == Len(frames) - 1
SetTop(f) == [frames EXCEPT ![Len(frames)] = f]
Popped == SubSeq(frames, 1, Under)

Enter(k, g) ==
    /\ frames # <<>> => ~Top.exc \/ k = "O"         \* only destructors start while an exception propagates
    /\ frames' = Append(frames, [k |-> k, g |-> g, exc |-> FALSE, out |-> FALSE, t |-> 0])
    /\ tasks' = IF k \in Guards THEN (g :> <<>>) @@ tasks ELSE tasks

Add(g, t) == g \in DOMAIN tasks /\ tasks' = [tasks EXCEPT ![g] = Append(@, t)] /\ frames' = frames

Throw == ~Top.exc /\ frames' = SetTop([Top EXCEPT !.exc = TRUE]) /\ tasks' = tasks
Caught == Top.k \in {"Y", "O"} /\ Top.exc /\ frames' = SetTop([Top EXCEPT !.exc = FALSE]) /\ tasks' = tasks

Leave(g) == Top.k \in Guards /\ Top.g = g /\ ~Top.out /\ frames' = SetTop([Top EXCEPT !.out = TRUE]) /\ tasks' = tasks

(* Does the guard of this frame run its tasks? *)
Runs(f) == f.k = "E" \/ (f.k = "S" /\ ~f.exc) \/ (f.k = "F" /\ f.exc)

RECURSIVE DropEmpty(_)
DropEmpty(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN DropEmpty(SubSeq(s, 1, Len(s) - 1)) ELSE s

Run(t) ==       \* the newest task that is not empty
    /\ Top.k \in Guards /\ Top.out /\ Runs(Top)
    /\ LET s == DropEmpty(tasks[Top.g]) IN
       /\ s # <<>> /\ s[Len(s)] = t
       /\ tasks' = [tasks EXCEPT ![Top.g] = SubSeq(s, 1, Len(s) - 1)]
    /\ frames' = Append(frames, [k |-> "K", g |-> 0, exc |-> FALSE, out |-> FALSE, t |-> t])

Done(t) == Top.k = "K" /\ Top.t = t /\ frames' = Popped /\ tasks' = tasks   \* an exception in it goes no further

Left(k, g) ==
    /\ Top.k = k /\ Top.g = g
    /\ k \in Guards =>
         /\ Top.out
         /\ Runs(Top) => DropEmpty(tasks[g]) = <<>>
    /\ k = "O" => ~Top.exc
    /\ tasks' = IF k \in Guards THEN [x \in DOMAIN tasks \ {g} |-> tasks[x]] ELSE tasks
    /\ frames' = IF Top.exc THEN [i \in 1..Under |-> IF i = Under THEN [frames[i] EXCEPT !.exc = TRUE] ELSE frames[i]] ELSE Popped
=============================================================================
