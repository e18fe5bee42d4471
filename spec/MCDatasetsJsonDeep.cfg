SPECIFICATION Spec
INVARIANTS Exact RoundTrip CopyApart
PROPERTIES Isolated Registered
CONSTANTS Names = {"A","B"} Items = {"i"} Coders = {"c", "d"} Acts = {"new","iadd","set","touch","prop","delprop","drop","jout","jin","raw"} D = 5 Emit = FALSE UseFns = {"B"}
CHECK_DEADLOCK FALSE
VIEW View
