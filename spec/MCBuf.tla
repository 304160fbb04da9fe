---------------------------------- MODULE MCBuf ----------------------------------
EXTENDS TecsBuf
CONSTANT Mix
T(r, w, ar) == [r |-> r \cup w, w |-> w, ar |-> ar]
All == Comps
MTypes == CASE Mix = "one" -> {T(All, All, TRUE), T({}, All, FALSE), T(All, {}, FALSE), T({}, {}, FALSE)}
            [] Mix = "two" -> {T(All, All, TRUE), T({}, {"A"}, FALSE), T({"A"}, {}, FALSE), T({"A"}, {"B"}, FALSE), T({}, {}, FALSE)}
            [] Mix = "ar" -> {T(All, All, TRUE), T({}, {}, FALSE)}
==================================================================================
