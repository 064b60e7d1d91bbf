------------------------------- MODULE Report -------------------------------
(* One-line messages to the driver (run.py).                               *)
EXTENDS TLC, Integers, Sequences
Reject(c, key, what, why) ==
    PrintT("REJECT|" \o ToString(c) \o "|" \o key \o "|" \o ToString(what) \o "|" \o ToString(why))
Finished(c, judged) == PrintT("DONE|" \o ToString(c) \o "|" \o ToString(judged))
=============================================================================
