SPECIFICATION Spec
INVARIANT Sound
VIEW View
ACTION_CONSTRAINT Print1
CONSTANTS Scene = "ground"
 Max = 40
 Every = 0
 Seed = 1
 Diverse = 1
