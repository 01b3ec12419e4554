SPECIFICATION Spec
CONSTANTS
  Primes = {3, 5, 7}
  MaxN = 4
  ChunkLen = 3
INVARIANTS CompleteI CompleteP OneBad SoundI SoundP
