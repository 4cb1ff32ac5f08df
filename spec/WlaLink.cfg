SPECIFICATION Spec
INVARIANTS InBounds NoRomOverlap NoRamOverlap Intact Aligned AfterAdjacent KeepRoots
CHECK_DEADLOCK FALSE
