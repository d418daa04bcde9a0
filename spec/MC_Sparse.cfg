CONSTANTS Dim = 2  MaxLen = 2  Depth = 5  GenDepth = 99
INIT Init
NEXT Next
VIEW View
CONSTRAINT DepthOk
INVARIANTS ProductsAgree TriangleIsSymmetric StoredInTriangle Bounded CompressionExists CorruptRejected
PROPERTIES StepProp
CHECK_DEADLOCK FALSE
