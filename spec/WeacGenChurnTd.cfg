SPECIFICATION Spec
CONSTANTS
  Inst = {1, 2}
  Slabs = {"b1", "b2", "b3"}
  Weaks = {"w0", "w1", "w2"}
  Loads = {"p0", "p1"}
  GeoToks = {"g1", "g2"}
  SysSet = {"pst-", "-pst"}
  Queries = {"raster"}
  Rejects = {"nofound"}
  TdChoices = {TRUE}
  Depth = 42
  Churn = TRUE
  Asked <- FewAsked
INVARIANT Emit
CHECK_DEADLOCK FALSE
