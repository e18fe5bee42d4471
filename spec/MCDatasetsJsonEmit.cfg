SPECIFICATION Spec

CONSTANTS Names = {"A","B"} Items = {"i"} Coders = {"c", "d"} Acts = {"new","iadd","set","touch","prop","delprop","drop","jout","jin","raw"} D = 3 Emit = TRUE UseFns = {"B"}
CHECK_DEADLOCK FALSE
