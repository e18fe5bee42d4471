SPECIFICATION Spec
INVARIANTS Exact CopiesScoreTheSame LoadedScoreTheSame MergedScores PooledAdds
PROPERTIES Isolated
CONSTANTS Names = {"A","B"} Items = {"i","j"} Coders = {"c", "d"} Acts = {"new","copy","iadd","add","set","delc","poke","deli"} D = 4 Emit = FALSE Starts <- SystemStarts UseFns = {"B"}
CHECK_DEADLOCK FALSE
VIEW View
