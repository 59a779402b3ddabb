SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANT NMax = 8
INVARIANTS GoodLevels GoodReach GoodDist GoodClasses GoodBlocks GoodTrees GoodNbrs GoodTri GoodMis GoodJac GoodLp GoodOrders GoodRows GoodDfs
