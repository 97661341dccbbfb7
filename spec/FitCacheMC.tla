----------------------------- MODULE FitCacheMC -----------------------------
EXTENDS FitCache
V2 == [f \in Fields |-> 2]
VN == [ds |-> 5, dd |-> 6, sv |-> 5, sig0 |-> 2, dB |-> 2]
\* (what was fitted does not influence what is kept)
View == <<cur, kept, dead>>
=============================================================================
