--------------------------- MODULE TraceConverter ---------------------------
(* Accepts a recorded history of the real library iff it is a behaviour of  *)
(* Converter.  Every event carries all of its action's arguments.           *)
EXTENDS Converter, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1

TCreate == Is("create") /\ Create(E.h, E.c)
TDestroy == Is("destroy") /\ Destroy(E.h)
TInit == Is("init") /\ Reinit(E.h)
TCall == Is("call") /\ Call(E.h, E.d, E.f = 1, E.m, E.cap, E.o, E.n, E.ctr)
TCompose == Is("compose") /\ Composes(E.ab, E.a, E.b, E.x) /\ UNCHANGED vars
TSame == Is("same") /\ Same(E.a, E.b, E.x) /\ UNCHANGED vars
TChainInit == Is("init2") /\ ChainInit(E.h, E.c)
TChain == Is("pass") /\ ChainCall(E.h, E.d, E.f = 1, E.o)
TForget == Is("forget") /\ Forget

TraceInit == Init /\ l = 1
TraceNext == TCreate \/ TDestroy \/ TInit \/ TCall \/ TCompose \/ TSame \/ TChainInit \/ TChain \/ TForget
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
\* number of events accepted is the diameter minus the initial state
TraceAccepted == PrintT(<<"ACCEPTED", ToString(TLCGet("stats").diameter - 1), ToString(Len(Trace))>>)
=============================================================================
