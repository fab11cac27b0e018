---------------------------- MODULE MC_ProcImpl -----------------------------
EXTENDS ProcImpl, IOUtils
O(t, d, k) == [t |-> t, d |-> d, k |-> k]
Scripts == [s1 |-> <<<<O("add", 1, 1), O("add", 2, 0), O("set", 0, 2), O("add", 3, 0), O("get", 0, 0)>>>>,
            s2 |-> <<<<O("add", 1, 1), O("add", 2, 2), O("get", 0, 0)>>, <<O("add", 3, 0), O("get", 0, 0)>>>>,
            s3 |-> <<<<O("add", 1, 1), O("get", 0, 0), O("add", 2, 0), O("get", 0, 0)>>, <<O("set", 0, 2), O("add", 3, 3)>>>>,
            s4 |-> <<<<O("add", 1, 1), O("add", 2, 0), O("add", 3, 2), O("add", 4, 0), O("get", 0, 0)>>, <<O("get", 0, 0), O("set", 0, 3), O("add", 5, 0)>>>>]
TheScript == Scripts[IOEnv.SCRIPT]
TheN == IF IOEnv.LIMIT = "1" THEN 1 ELSE IF IOEnv.LIMIT = "2" THEN 2 ELSE 3
TheCache == IOEnv.CACHE = "1"
TheDefect == IOEnv.DEFECT
=============================================================================
