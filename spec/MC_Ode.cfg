CONSTANTS NU = 12  MaxTry = 9
INIT Init
NEXT Next
VIEW View
INVARIANTS StepsAllowed Monotone Inside Ends DenseInOrder DenseComplete Counted DensePlaced DenseEven
PROPERTIES LastAllowed
CHECK_DEADLOCK FALSE
