SPECIFICATION Spec
CONSTANTS N = 3 W <- W1
INVARIANT Correct
