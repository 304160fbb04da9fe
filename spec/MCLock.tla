---------------------------------- MODULE MCLock ----------------------------------
EXTENDS TecsLock
CONSTANT Mix
\* Permissions over the components A and B
T(r, w, ar) == [r |-> r \cup w, w |-> w, ar |-> ar]
AllTypes == {T({"A", "B"}, {"A", "B"}, TRUE), T({}, {"A", "B"}, FALSE), T({"A", "B"}, {}, FALSE), T({"A"}, {"B"}, FALSE), T({"B"}, {"A"}, FALSE),
             T({}, {"A"}, FALSE), T({"A"}, {}, FALSE), T({"B"}, {}, FALSE), T({}, {}, FALSE)}
FewTypes == {T({"A", "B"}, {"A", "B"}, TRUE), T({}, {"A", "B"}, FALSE), T({"A", "B"}, {}, FALSE), T({"A"}, {"B"}, FALSE)}
OneTypes == {T({"A"}, {"A"}, TRUE), T({}, {"A"}, FALSE), T({"A"}, {}, FALSE)}
MTypes == CASE Mix = "all" -> AllTypes [] Mix = "few" -> FewTypes [] OTHER -> OneTypes
MComps == IF Mix = "one" THEN <<"A">> ELSE <<"A", "B">>
\* Processes are interchangeable
Perms == Permutations(Procs)
===============================================================================
