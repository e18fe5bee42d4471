SPECIFICATION Spec
INVARIANTS Exact RoundTrip CopyApart
PROPERTIES Isolated Registered
CONSTANTS Names = {"A","B"} Items = {"i"} Coders = {"c", "d"} Acts = {"new","copy","iadd","add","set","delc","poke","deli","touch","prop","delprop","type","coder","fmt","drop"} D = 5 Emit = FALSE UseFns = {"B"}
CHECK_DEADLOCK FALSE
VIEW View
