------------------------------ MODULE LogTable ------------------------------
(* Natural logarithms of half-integers: HalfLog[k] = round(16384 * ln(k / 2)). *)
EXTENDS Integers, Sequences
HalfLog == <<
  -11357, 0, 6643, 11357, 15013, 18000, 20525, 22713, 24643, 26369, 27931, 29356, 30668, 31882,
  33012, 34070, 35063, 35999, 36885, 37726, 38525, 39287, 40015, 40713, 41382, 42024, 42642, 43238,
  43813, 44369, 44906, 45426, 45930, 46419, 46894, 47356, 47805, 48242, 48667, 49082, 49487, 49881,
  50267, 50644, 51012, 51372, 51724, 52069, 52407, 52738, 53063, 53381, 53693, 53999, 54300, 54595,
  54885, 55170, 55450, 55725, 55996, 56262, 56525, 56783, 57037, 57287, 57533, 57776, 58015, 58251,
  58483, 58712, 58938, 59161, 59381, 59598, 59812, 60024, 60233, 60439, 60642, 60843, 61042, 61238,
  61432, 61624, 61813, 62000, 62185, 62368, 62549, 62728, 62906, 63081, 63254, 63426, 63596, 63764,
  63930, 64095, 64258, 64419, 64579, 64737, 64894, 65049, 65203, 65356, 65507, 65656, 65804, 65951,
  66097, 66241, 66384, 66526, 66667, 66806, 66945, 67082, 67218, 67353, 67486, 67619, 67751, 67881,
  68011, 68139, 68267, 68393, 68519, 68643, 68767, 68890, 69011, 69132, 69252, 69372, 69490, 69607 >>
=============================================================================
