-------------------------------- MODULE Heap ---------------------------------
(* Who uses the heap.  A program runs as a stack of calls, each into code of  *)
(* one owner: the program that uses the library, the library, the platform's  *)
(* framework beneath it, or the language's run-time system (the standard      *)
(* library, which acts on behalf of its caller: a std::string used by the     *)
(* library is the library's).  The library takes no step that allocates.      *)
EXTENDS Naturals, Sequences, FiniteSets

Owners == {"program", "library", "platform", "system"}

VARIABLES stack,   \* owners of the active calls, innermost first
          held     \* on whose behalf memory has been allocated
hvars == <<stack, held>>

(* on whose behalf the innermost call runs *)
Responsible(s) ==
  LET real == {i \in DOMAIN s : s[i] # "system"}
  IN IF real = {} THEN "system" ELSE s[CHOOSE i \in real : \A k \in real : i <= k]

HeapInit == stack = <<"program">> /\ held = {}
Call(o) == stack' = <<o>> \o stack /\ UNCHANGED held
Return == Len(stack) > 1 /\ stack' = Tail(stack) /\ UNCHANGED held
MayAllocate(s) == Responsible(s) # "library"
Allocate == MayAllocate(stack) /\ held' = held \cup {Responsible(stack)} /\ UNCHANGED stack

NoHeap == "library" \notin held
==============================================================================
