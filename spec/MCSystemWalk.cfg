SPECIFICATION Spec

CONSTANTS Names = {"A","B","C"} Items = {"i","j"} Coders = {"c", "d", "e"} Acts = {"new","copy","iadd","add","set","delc","poke","deli","touch","fmt","drop","jout","jin","raw","use"} D = 16 Emit = TRUE Starts <- SystemStarts UseFns = {"B","S","pk","wd","bcm","stats"}
CHECK_DEADLOCK FALSE
