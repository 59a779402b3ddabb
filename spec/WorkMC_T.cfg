SPECIFICATION Spec
CONSTANTS NMax = 4 Loops = FALSE
INVARIANTS InTime FramesInTime LooksOnce HeldLittle HeldLate AllReached
