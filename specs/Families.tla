------------------------------ MODULE Families ------------------------------
(* Weighted mixes of operation families, one per property.                 *)
EXTENDS QSim
FamC01 == <<"g1", "g1", "g1", "g1", "g1", "g1", "g1", "obs">>
FamC02 == <<"g1", "g1", "gc", "gc", "gc", "gc">>
FamC03 == <<"exp", "exp", "r", "rr", "g1", "g1", "gc">>
FamC04 == <<"ap", "ap", "ap", "g1", "g1", "gc", "sw", "al", "rel", "obs">>
FamC05 == <<"m", "jm", "jm", "jz", "mr", "g1", "g1", "g1", "gc", "gc", "exp">>
FamC06 == <<"al", "al", "als", "rel", "rel", "rels", "g1", "g1", "g1", "gc", "gc", "sw", "obs", "m">>
FamC07 == <<"sw", "sw", "g1", "g1", "g1", "gc", "gc", "dump", "obs", "pz", "zq", "al", "rel">>
FamC08 == <<"m", "mr", "rst", "rst", "g1", "g1", "g1", "gc", "gc", "exp", "rr", "jm", "sw", "m", "g1", "gc", "r", "ap", "pz", "zq", "as">>
(* Programs of a few operations, most of them the first on their qubits.  *)
FamC08f == <<"gcx", "gcx", "gc", "gc", "exp", "rr", "jm", "g1", "gx", "ap", "sw", "m", "mr", "r", "pz", "as">>
FamC10 == <<"pr", "pz", "as", "as", "zq", "fc", "g1", "g1", "g1", "gc", "gc", "exp">>
FamC10e == <<"gx", "gx", "gcx", "gcx", "ae", "ae", "ae", "pz", "zq", "fc", "sw">>
FamC11 == <<"al", "rel", "rel", "g1", "g1", "g1", "g1", "gc", "gc", "sw">>
FamC21 == <<"g1", "g1", "g1", "gc", "gc", "exp", "r", "rr", "ap", "obs", "sw">>
FamC22 == <<"g1", "g1", "g1", "gc", "gc", "exp", "r", "rr", "ap", "sw", "m", "jm", "mr", "rst", "al", "rel", "als", "rels", "pz", "zq">>
FamC22s == <<"g1", "g1", "g1", "gc", "gc", "exp", "r", "rr", "sw", "m", "jm", "mr", "rst", "zq">>
============================================================================
