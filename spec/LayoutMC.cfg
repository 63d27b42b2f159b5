SPECIFICATION Spec
CONSTANTS MaxSeg = 4  MaxLen = 2  MaxNum = 3
INVARIANTS TipWeightsInv InfiniteInv MirrorInv LengthInv NewCrackInv RasterInv MaskInv
CHECK_DEADLOCK FALSE
