SPECIFICATION Spec

CONSTANTS Names = {"A","B"} Items = {"i"} Coders = {"c", "d"} Acts = {"new","copy","iadd","add","set","poke","use"} D = 4 Emit = TRUE Starts <- SystemStarts UseFns = {"B"}
CHECK_DEADLOCK FALSE
