SPECIFICATION Spec
CONSTANT MaxLayers = 2
INVARIANTS LaminateSplit LaminateReversed LaminatePositive Homogeneous LoadMagnitude LoadDirection
  UniformState Resultants MirrorOde LinearOde WeakLayer Rates StressClosure StressSplit WedgeLaws
  ContactOrder SteadyLimit
CHECK_DEADLOCK FALSE
