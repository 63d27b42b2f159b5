SPECIFICATION Spec
CONSTANTS
  Inst = {1, 2, 3}
  Slabs = {"b1", "b2", "b3"}
  Weaks = {"w0", "w1", "w2"}
  Loads = {"p0", "p1"}
  GeoToks = {"g1", "g2", "g3"}
  SysSet = {"pst-", "-pst", "vpst-", "-vpst", "skier", "skiers"}
  Queries = {"raster", "fields", "gdif", "ginc", "stress", "getter", "eval", "loads", "plot"}
  Rejects = {"nofound", "lengths", "outer", "system", "profile", "pos", "component", "unit", "field", "normalize", "dof", "noroot"}
  TdChoices = {TRUE}
  Depth = 24
  Churn = FALSE
  Asked <- NoneAsked
INVARIANT Emit
CHECK_DEADLOCK FALSE
