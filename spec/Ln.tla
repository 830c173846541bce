--------------------------------- MODULE Ln ---------------------------------
(***************************************************************************)
(* Natural logarithms in units of 1/10000, for 1..120, and n * ln n.        *)
(* LnLaws characterises them: products become sums, and the step from n to  *)
(* n + 1 lies between 1/(n+1) and 1/n.                                      *)
(***************************************************************************)
EXTENDS Naturals, Integers
LnT == <<
   0, 6931, 10986, 13863, 16094, 17918, 19459, 20794, 21972, 23026, 23979, 24849,
   25649, 26391, 27081, 27726, 28332, 28904, 29444, 29957, 30445, 30910, 31355, 31781,
   32189, 32581, 32958, 33322, 33673, 34012, 34340, 34657, 34965, 35264, 35553, 35835,
   36109, 36376, 36636, 36889, 37136, 37377, 37612, 37842, 38067, 38286, 38501, 38712,
   38918, 39120, 39318, 39512, 39703, 39890, 40073, 40254, 40431, 40604, 40775, 40943,
   41109, 41271, 41431, 41589, 41744, 41897, 42047, 42195, 42341, 42485, 42627, 42767,
   42905, 43041, 43175, 43307, 43438, 43567, 43694, 43820, 43944, 44067, 44188, 44308,
   44427, 44543, 44659, 44773, 44886, 44998, 45109, 45218, 45326, 45433, 45539, 45643,
   45747, 45850, 45951, 46052, 46151, 46250, 46347, 46444, 46540, 46634, 46728, 46821,
   46913, 47005, 47095, 47185, 47274, 47362, 47449, 47536, 47622, 47707, 47791, 47875>>
XLnT == <<
   0, 13863, 32958, 55452, 80472, 107506, 136214, 166355, 197750, 230259, 263768, 298189,
   333443, 369468, 406208, 443614, 481646, 520267, 559443, 599146, 639350, 680029, 721164, 762733,
   804719, 847105, 889876, 933017, 976516, 1020359, 1064536, 1109035, 1153847, 1198963, 1244372, 1290067,
   1336040, 1382283, 1428789, 1475552, 1522565, 1569821, 1617316, 1665043, 1712998, 1761175, 1809569, 1858176,
   1906992, 1956012, 2005231, 2054647, 2104255, 2154051, 2204033, 2254197, 2304539, 2355057, 2405747, 2456607,
   2507633, 2558823, 2610175, 2661685, 2713352, 2765172, 2817144, 2869265, 2921533, 2973947, 3026503, 3079200,
   3132035, 3185008, 3238116, 3291357, 3344730, 3398233, 3451864, 3505621, 3559504, 3613510, 3667638, 3721886,
   3776254, 3830739, 3885340, 3940056, 3994886, 4049829, 4104882, 4160045, 4215318, 4270697, 4326183, 4381774,
   4437470, 4493268, 4549169, 4605170, 4661272, 4717472, 4773771, 4830167, 4886658, 4943245, 4999927, 5056702,
   5113569, 5170528, 5227579, 5284719, 5341948, 5399266, 5456672, 5514165, 5571744, 5629408, 5687157, 5744990>>
LnMax == 120
LnLaws ==
  /\ LnT[1] = 0 /\ XLnT[1] = 0
  /\ \A a, b \in 1..LnMax : a * b <= LnMax => LnT[a * b] - LnT[a] - LnT[b] \in -1..1
  /\ \A n \in 1..(LnMax - 1) : LET d == LnT[n + 1] - LnT[n] IN d >= 10000 \div (n + 1) - 1 /\ d <= 10000 \div n + 1
  /\ \A n \in 1..LnMax : LET d == XLnT[n] - n * LnT[n] IN d <= n /\ d >= -n
=============================================================================
