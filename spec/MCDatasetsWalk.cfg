SPECIFICATION Spec

CONSTANTS Names = {"A","B","C"} Items = {"i","j"} Coders = {"c", "d"} Acts = {"new","copy","iadd","add","set","delc","poke","deli","touch","prop","delprop","type","coder","fmt","drop"} D = 12 Emit = TRUE UseFns = {"B"}
CHECK_DEADLOCK FALSE
