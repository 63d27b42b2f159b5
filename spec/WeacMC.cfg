SPECIFICATION Spec
CONSTANTS
  Inst = {1}
  Slabs = {"b1"}
  Weaks = {"w1", "w2"}
  Loads = {}
  Phis = {"f1"}
  Cracks = {"a1"}
  SysSet = {"pst-"}
  MaxSols = 1
INVARIANTS NoLeak UpToDate HistoryFree CtxCoherent SolutionProv StagePending
PROPERTIES Isolation SolutionsStable
CHECK_DEADLOCK FALSE
