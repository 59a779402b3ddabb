SPECIFICATION Spec
CONSTANTS NMax = 3 Loops = TRUE
INVARIANTS InTime FramesInTime LooksOnce HeldLittle HeldLate AllReached
