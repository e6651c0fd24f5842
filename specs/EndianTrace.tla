----------------------------- MODULE EndianTrace -----------------------------
EXTENDS Endian, TraceBase
tvars == <<tid, l>>
TraceInit == TraceBaseInit
ConvEv == /\ IsEvent("Conv")
          /\ Len(E.in) = Len(E.out)
          /\ \A i \in 1..Len(E.in) :
               CASE E.fn \in {"u16", "u32", "float"} -> E.out[i] = Reversed(E.in[i])
                 [] E.fn = "x2" -> E.out[i] = Swap16x2(E.in[i])
                 [] E.fn \in {"u16twice", "u32twice", "x2twice"} -> E.out[i] = E.in[i]
TraceNext == ConvEv \/ TraceDone
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==============================================================================
