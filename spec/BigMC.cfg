SPECIFICATION Spec
CHECK_DEADLOCK TRUE
CONSTANT NMax = 6
INVARIANTS GoodLevels GoodReach GoodDist GoodClasses GoodBlocks GoodTrees GoodNbrs GoodTri GoodMis GoodJac GoodLp GoodOrders GoodRows GoodDfs
