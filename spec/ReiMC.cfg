SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
CONSTANTS Conf = "hier" NEls = 4 NRel = 0 Export = FALSE
INVARIANTS InvForest InvNames InvDepth InvCounted InvNumbered InvUids InvPorts InvTotal InvKin InvHyper
PROPERTIES RejectKeeps NothingLost Stamped NeverBack AddsLast RemovesResult Connects Disconnects
