SPECIFICATION Spec
CONSTANTS
  Primes = {2, 3, 5, 7}
  MaxN = 5
  ChunkLen = 3
INVARIANTS CompleteI CompleteP OneBad SoundI SoundP
