-------------------------------- MODULE MCHeap -------------------------------
(* Every stack of calls up to a depth: the library calls the platform and the *)
(* run-time system, which call back into the library and the program.         *)
EXTENDS Heap
CONSTANT Depth
Calls(o) == CASE o = "program" -> Owners
              [] o = "library" -> Owners
              [] o = "platform" -> {"library", "platform", "system"}
              [] o = "system" -> Owners
Next == \/ Len(stack) < Depth /\ \E o \in Calls(stack[1]) : Call(o)
        \/ Return \/ Allocate
Spec == HeapInit /\ [][Next]_hvars
(* the rule is about the caller behind the run-time system, no matter how deep *)
Sound == \A i \in DOMAIN stack : (\A k \in 1..(i - 1) : stack[k] = "system") /\ stack[i] = "library" => ~MayAllocate(stack)
OthersMay == stack[1] \in {"program", "platform"} => MayAllocate(stack)
==============================================================================
