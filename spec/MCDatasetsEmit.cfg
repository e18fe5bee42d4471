SPECIFICATION Spec

CONSTANTS Names = {"A","B"} Items = {"i"} Coders = {"c", "d"} Acts = {"new","copy","iadd","add","set","delc","poke","deli","touch","prop","delprop","type","coder","fmt","drop"} D = 3 Emit = TRUE UseFns = {"B"}
CHECK_DEADLOCK FALSE
