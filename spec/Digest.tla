------------------------------- MODULE Digest -------------------------------
(* SHA-1, SHA-256, SHA-512 (FIPS 180-4), MD5 (RFC 1321), HMAC (RFC 2104) and  *)
(* PBKDF2 with one block (RFC 5802 Hi) on byte sequences.  32-bit words are    *)
(* pairs and 64-bit words quadruples of 16-bit limbs, most significant first.  *)
(* Round constants were derived from the primes / the sine function, not from  *)
(* the code under test.                                                        *)
EXTENDS Integers, Sequences, Bitwise
LOCAL M == 65536
P2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>
Pow(n) == P2[n + 1]
K256 == <<
  <<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>,
  <<14678,49755>>, <<23025,4593>>, <<37439,33444>>, <<43804,24277>>,
  <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>,
  <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>,
  <<58523,27073>>, <<61374,18310>>, <<4033,40390>>, <<9228,41420>>,
  <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>,
  <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>,
  <<50912,3059>>, <<54695,37191>>, <<1738,25425>>, <<5161,10599>>,
  <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>,
  <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>,
  <<41663,59553>>, <<43034,26187>>, <<49739,35696>>, <<51052,20899>>,
  <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>,
  <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>,
  <<14620,3251>>, <<20184,43594>>, <<23452,51791>>, <<26670,28659>>,
  <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>,
  <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>>>>
H256 == <<
  <<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>,
  <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>>>>
K512 == <<
  <<17034,12184,55080,44578>>, <<28983,17553,9199,26061>>, <<46528,64463,60493,15151>>, <<59829,56229,33161,56252>>,
  <<14678,49755,62280,46392>>, <<23025,4593,46597,53273>>, <<37439,33444,44825,20379>>, <<43804,24277,55917,33048>>,
  <<55303,43672,41731,578>>, <<4739,23297,17776,28606>>, <<9265,34238,20196,45708>>, <<21772,32195,54783,46306>>,
  <<29374,23924,62075,35183>>, <<32990,45566,15126,38577>>, <<39900,1703,9671,4661>>, <<49563,61812,53097,9876>>,
  <<58523,27073,40689,19154>>, <<61374,18310,14415,9699>>, <<4033,40390,35724,54709>>, <<9228,41420,30636,40037>>,
  <<11753,11375,22827,629>>, <<19060,33962,28326,58499>>, <<23728,43484,48449,64468>>, <<30457,35034,33553,21429>>,
  <<38974,20818,61030,57259>>, <<43057,50797,11700,12816>>, <<45059,10184,39163,8511>>, <<48985,32711,48879,3812>>,
  <<50912,3059,15784,36802>>, <<54695,37191,37642,42789>>, <<1738,25425,57347,33391>>, <<5161,10599,2574,28272>>,
  <<10167,2693,18130,12284>>, <<11803,8504,23590,51494>>, <<19756,28156,23236,10989>>, <<21304,3347,40341,46047>>,
  <<25866,29524,35759,25566>>, <<30314,2747,15479,45736>>, <<33218,51502,18413,44774>>, <<37490,11397,5250,13627>>,
  <<41663,59553,19697,868>>, <<43034,26187,48194,12289>>, <<49739,35696,53496,38801>>, <<51052,20899,1620,48688>>,
  <<53650,59417,55023,21016>>, <<54937,1572,21861,43280>>, <<62478,13701,22385,8234>>, <<4202,41072,12987,53688>>,
  <<6564,49430,47314,53448>>, <<7735,27656,20801,43859>>, <<10056,30540,57230,60313>>, <<13488,48309,57755,18600>>,
  <<14620,3251,50633,23139>>, <<20184,43594,58177,35531>>, <<23452,51791,30563,58227>>, <<26670,28659,54962,47267>>,
  <<29839,33518,24047,45820>>, <<30885,25455,17175,12128>>, <<33992,30740,41456,43890>>, <<36039,520,6756,14828>>,
  <<37054,65530,9059,7720>>, <<42064,27883,56962,48617>>, <<48889,41975,45766,30997>>, <<50801,30962,58226,21291>>,
  <<51751,16078,59942,24988>>, <<53638,47303,8640,49671>>, <<60122,32214,52704,60190>>, <<62845,20351,61038,53624>>,
  <<1776,26538,29207,28602>>, <<2659,32197,41672,39078>>, <<4415,38916,48889,3502>>, <<7025,2869,4892,18203>>,
  <<10459,30709,8964,32132>>, <<13002,43899,16583,9363>>, <<15518,48650,5577,48828>>, <<17181,26564,39952,3404>>,
  <<19653,54462,52030,17078>>, <<22911,10652,64613,32298>>, <<24523,28587,15062,64236>>, <<27716,6540,19015,22551>>>>
H512 == <<
  <<27145,58983,62396,51464>>, <<47975,44677,33994,42811>>, <<15470,62322,65172,63531>>, <<42319,62778,24349,14065>>,
  <<20750,21119,44518,33489>>, <<39685,26764,11070,27679>>, <<8067,55723,64321,48491>>, <<23520,52505,4990,8569>>>>
T5 == <<
  <<55146,42104>>, <<59591,46934>>, <<9248,28891>>, <<49597,52974>>,
  <<62844,4015>>, <<18311,50730>>, <<43056,17939>>, <<64838,38145>>,
  <<27008,39128>>, <<35652,63407>>, <<65535,23473>>, <<35164,55230>>,
  <<27536,4386>>, <<64920,29075>>, <<42617,17294>>, <<18868,2081>>,
  <<63006,9570>>, <<49216,45888>>, <<9822,23121>>, <<59830,51114>>,
  <<54831,4189>>, <<580,5203>>, <<55457,59009>>, <<59347,64456>>,
  <<8673,52710>>, <<49975,2006>>, <<62677,3463>>, <<17754,5357>>,
  <<43491,59653>>, <<64751,41976>>, <<26479,729>>, <<36138,19594>>,
  <<65530,14658>>, <<34673,63105>>, <<28061,24866>>, <<64997,14348>>,
  <<42174,59972>>, <<19422,53161>>, <<63163,19296>>, <<48831,48240>>,
  <<10395,32454>>, <<60065,10234>>, <<54511,12421>>, <<1160,7429>>,
  <<55764,53305>>, <<59099,39397>>, <<8098,31992>>, <<50348,22117>>,
  <<62505,8772>>, <<17194,65431>>, <<43924,9127>>, <<64659,41017>>,
  <<25947,22979>>, <<36620,52370>>, <<65519,62589>>, <<34180,24017>>,
  <<28584,32335>>, <<65068,59104>>, <<41729,17172>>, <<19976,4513>>,
  <<63315,32386>>, <<48442,62005>>, <<10967,53947>>, <<60294,54161>>>>
H1 == <<
  <<26437,8961>>, <<61389,43913>>, <<39098,56574>>, <<4146,21622>>,
  <<50130,57840>>>>
S5 == <<7,12,17,22, 5,9,14,20, 4,11,16,23, 6,10,15,21>>

------------------------------------------------------------------------------
(* 32-bit words *)
X2(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
A2(a, b) == <<a[1] & b[1], a[2] & b[2]>>
O2(a, b) == <<a[1] | b[1], a[2] | b[2]>>
N2(a) == <<65535 - a[1], 65535 - a[2]>>
Add2(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + l \div M) % M, l % M>>
RotL2(a, n) ==
  IF n >= 16 THEN LET m == n - 16 IN
                  <<((a[2] * Pow(m)) % M) + (a[1] \div Pow(16 - m)), ((a[1] * Pow(m)) % M) + (a[2] \div Pow(16 - m))>>
  ELSE <<((a[1] * Pow(n)) % M) + (a[2] \div Pow(16 - n)), ((a[2] * Pow(n)) % M) + (a[1] \div Pow(16 - n))>>
RotR2(a, n) == RotL2(a, 32 - n)
ShR2(a, n) == IF n >= 16 THEN <<0, a[1] \div Pow(n - 16)>>
              ELSE <<a[1] \div Pow(n), (a[2] \div Pow(n)) + ((a[1] % Pow(n)) * Pow(16 - n))>>
(* 64-bit words *)
X4(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
A4(a, b) == <<a[1] & b[1], a[2] & b[2], a[3] & b[3], a[4] & b[4]>>
N4(a) == <<65535 - a[1], 65535 - a[2], 65535 - a[3], 65535 - a[4]>>
Add4(a, b) == LET l == a[4] + b[4]
                  k == a[3] + b[3] + l \div M
                  j == a[2] + b[2] + k \div M
              IN <<(a[1] + b[1] + j \div M) % M, j % M, k % M, l % M>>
RotR4(a, n) ==
  LET q == n \div 16
      m == n % 16
      g(i) == a[((i + 7 - q) % 4) + 1]
      h(i) == (g(i) \div Pow(m)) + ((g(((i + 2) % 4) + 1) % Pow(m)) * Pow(16 - m))
  IN IF m = 0 THEN <<g(1), g(2), g(3), g(4)>> ELSE <<h(1), h(2), h(3), h(4)>>
ShR4(a, n) ==   \* n < 16
  <<a[1] \div Pow(n), (a[2] \div Pow(n)) + (a[1] % Pow(n)) * Pow(16 - n),
    (a[3] \div Pow(n)) + (a[2] % Pow(n)) * Pow(16 - n), (a[4] \div Pow(n)) + (a[3] % Pow(n)) * Pow(16 - n)>>
------------------------------------------------------------------------------
(* padding; messages here are shorter than 2^27 bytes *)
BE4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Zeros(k) == [i \in 1..k |-> 0]
PadBE(m, B) == LET n == Len(m)
                   L == B \div 8
                   z == (B - ((n + 1 + L) % B)) % B
               IN m \o <<128>> \o Zeros(z + L - 4) \o BE4(8 * n)
PadLE(m) == LET n == Len(m)
                z == (64 - ((n + 9) % 64)) % 64
            IN m \o <<128>> \o Zeros(z) \o LE4(8 * n) \o Zeros(4)
Word2(p, i) == <<p[i] * 256 + p[i+1], p[i+2] * 256 + p[i+3]>>
Word2LE(p, i) == <<p[i+3] * 256 + p[i+2], p[i+1] * 256 + p[i]>>
Word4(p, i) == <<p[i]*256 + p[i+1], p[i+2]*256 + p[i+3], p[i+4]*256 + p[i+5], p[i+6]*256 + p[i+7]>>
Bytes2(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>
Bytes2LE(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
Bytes4(w) == Bytes2(<<w[1], w[2]>>) \o Bytes2(<<w[3], w[4]>>)
------------------------------------------------------------------------------
RECURSIVE W1(_, _)
W1(w, t) == IF t > 80 THEN w
            ELSE W1(Append(w, RotL2(X2(X2(w[t-3], w[t-8]), X2(w[t-14], w[t-16])), 1)), t + 1)
F1(t, b, c, d) == IF t <= 20 THEN O2(A2(b, c), A2(N2(b), d))
                  ELSE IF t <= 40 \/ t > 60 THEN X2(X2(b, c), d)
                  ELSE X2(X2(A2(b, c), A2(b, d)), A2(c, d))
C1(t) == IF t <= 20 THEN <<23170, 31129>> ELSE IF t <= 40 THEN <<28377, 60321>>
         ELSE IF t <= 60 THEN <<36635, 48348>> ELSE <<51810, 49622>>
RECURSIVE R1(_, _, _)
R1(s, w, t) == IF t > 80 THEN s
  ELSE LET x == Add2(Add2(Add2(RotL2(s[1], 5), F1(t, s[2], s[3], s[4])), Add2(s[5], C1(t))), w[t])
       IN R1(<<x, s[1], RotL2(s[2], 30), s[3], s[4]>>, w, t + 1)
RECURSIVE B1(_, _, _)
B1(h, p, off) == IF off >= Len(p) THEN h
  ELSE LET w == W1([i \in 1..16 |-> Word2(p, off + 4*i - 3)], 17)
           s == R1(h, w, 1)
       IN B1([i \in 1..5 |-> Add2(h[i], s[i])], p, off + 64)
SHA1(m) == LET h == B1(H1, PadBE(m, 64), 0)
           IN Bytes2(h[1]) \o Bytes2(h[2]) \o Bytes2(h[3]) \o Bytes2(h[4]) \o Bytes2(h[5])
------------------------------------------------------------------------------
Sg0(x) == X2(X2(RotR2(x, 7), RotR2(x, 18)), ShR2(x, 3))
Sg1(x) == X2(X2(RotR2(x, 17), RotR2(x, 19)), ShR2(x, 10))
Su0(x) == X2(X2(RotR2(x, 2), RotR2(x, 13)), RotR2(x, 22))
Su1(x) == X2(X2(RotR2(x, 6), RotR2(x, 11)), RotR2(x, 25))
RECURSIVE W2(_, _)
W2(w, t) == IF t > 64 THEN w
            ELSE W2(Append(w, Add2(Add2(Sg1(w[t-2]), w[t-7]), Add2(Sg0(w[t-15]), w[t-16]))), t + 1)
RECURSIVE R2(_, _, _)
R2(s, w, t) == IF t > 64 THEN s
  ELSE LET ch == X2(A2(s[5], s[6]), A2(N2(s[5]), s[7]))
           mj == X2(X2(A2(s[1], s[2]), A2(s[1], s[3])), A2(s[2], s[3]))
           t1 == Add2(Add2(Add2(s[8], Su1(s[5])), Add2(ch, K256[t])), w[t])
           t2 == Add2(Su0(s[1]), mj)
       IN R2(<<Add2(t1, t2), s[1], s[2], s[3], Add2(s[4], t1), s[5], s[6], s[7]>>, w, t + 1)
RECURSIVE B2(_, _, _)
B2(h, p, off) == IF off >= Len(p) THEN h
  ELSE LET w == W2([i \in 1..16 |-> Word2(p, off + 4*i - 3)], 17)
           s == R2(h, w, 1)
       IN B2([i \in 1..8 |-> Add2(h[i], s[i])], p, off + 64)
SHA256(m) == LET h == B2(H256, PadBE(m, 64), 0)
             IN [i \in 1..32 |-> Bytes2(h[((i - 1) \div 4) + 1])[((i - 1) % 4) + 1]]
------------------------------------------------------------------------------
Lg0(x) == X4(X4(RotR4(x, 1), RotR4(x, 8)), ShR4(x, 7))
Lg1(x) == X4(X4(RotR4(x, 19), RotR4(x, 61)), ShR4(x, 6))
Lu0(x) == X4(X4(RotR4(x, 28), RotR4(x, 34)), RotR4(x, 39))
Lu1(x) == X4(X4(RotR4(x, 14), RotR4(x, 18)), RotR4(x, 41))
RECURSIVE W4(_, _)
W4(w, t) == IF t > 80 THEN w
            ELSE W4(Append(w, Add4(Add4(Lg1(w[t-2]), w[t-7]), Add4(Lg0(w[t-15]), w[t-16]))), t + 1)
RECURSIVE R4(_, _, _)
R4(s, w, t) == IF t > 80 THEN s
  ELSE LET ch == X4(A4(s[5], s[6]), A4(N4(s[5]), s[7]))
           mj == X4(X4(A4(s[1], s[2]), A4(s[1], s[3])), A4(s[2], s[3]))
           t1 == Add4(Add4(Add4(s[8], Lu1(s[5])), Add4(ch, K512[t])), w[t])
           t2 == Add4(Lu0(s[1]), mj)
       IN R4(<<Add4(t1, t2), s[1], s[2], s[3], Add4(s[4], t1), s[5], s[6], s[7]>>, w, t + 1)
RECURSIVE B4(_, _, _)
B4(h, p, off) == IF off >= Len(p) THEN h
  ELSE LET w == W4([i \in 1..16 |-> Word4(p, off + 8*i - 7)], 17)
           s == R4(h, w, 1)
       IN B4([i \in 1..8 |-> Add4(h[i], s[i])], p, off + 128)
SHA512(m) == LET h == B4(H512, PadBE(m, 128), 0)
             IN [i \in 1..64 |-> Bytes4(h[((i - 1) \div 8) + 1])[((i - 1) % 8) + 1]]
------------------------------------------------------------------------------
F5(r, b, c, d) == CASE r = 0 -> O2(A2(b, c), A2(N2(b), d))
                    [] r = 1 -> O2(A2(d, b), A2(N2(d), c))
                    [] r = 2 -> X2(X2(b, c), d)
                    [] r = 3 -> X2(c, O2(b, N2(d)))
G5(r, i) == CASE r = 0 -> i [] r = 1 -> (5 * i + 1) % 16 [] r = 2 -> (3 * i + 5) % 16 [] r = 3 -> (7 * i) % 16
RECURSIVE R5(_, _, _)
R5(s, x, i) == IF i > 63 THEN s
  ELSE LET r == i \div 16
           f == Add2(Add2(F5(r, s[2], s[3], s[4]), s[1]), Add2(T5[i + 1], x[G5(r, i) + 1]))
       IN R5(<<s[4], Add2(s[2], RotL2(f, S5[4 * r + (i % 4) + 1])), s[2], s[3]>>, x, i + 1)
RECURSIVE B5(_, _, _)
B5(h, p, off) == IF off >= Len(p) THEN h
  ELSE LET x == [i \in 1..16 |-> Word2LE(p, off + 4*i - 3)]
           s == R5(h, x, 0)
       IN B5([i \in 1..4 |-> Add2(h[i], s[i])], p, off + 64)
MD5(m) == LET h == B5(<<H1[1], H1[2], H1[3], H1[4]>>, PadLE(m), 0)
          IN Bytes2LE(h[1]) \o Bytes2LE(h[2]) \o Bytes2LE(h[3]) \o Bytes2LE(h[4])
------------------------------------------------------------------------------
Hash(alg, m) == CASE alg = "sha1" -> SHA1(m) [] alg = "sha256" -> SHA256(m)
                  [] alg = "sha512" -> SHA512(m) [] alg = "md5" -> MD5(m)
BlockLen(alg) == IF alg = "sha512" THEN 128 ELSE 64
HMACdef(alg, k, m) ==
  LET B == BlockLen(alg)
      k0 == IF Len(k) > B THEN Hash(alg, k) ELSE k
      kp == [i \in 1..B |-> IF i <= Len(k0) THEN k0[i] ELSE 0]
  IN Hash(alg, [i \in 1..B |-> kp[i] ^^ 92] \o Hash(alg, [i \in 1..B |-> kp[i] ^^ 54] \o m))
XorSeq(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
RECURSIVE HiIter(_, _, _, _, _)
HiIter(alg, pw, u, acc, n) == IF n = 0 THEN acc
  ELSE LET v == HMACdef(alg, pw, u) IN HiIter(alg, pw, v, XorSeq(acc, v), n - 1)
Hidef(alg, pw, salt, it) == LET u == HMACdef(alg, pw, salt \o <<0, 0, 0, 1>>)
                         IN HiIter(alg, pw, u, u, it - 1)
(* the operators used by other modules; DigestOverride.java may replace them   *)
(* with the JDK's implementation after CasesDigest has compared the two.       *)
HMAC(alg, k, m) == HMACdef(alg, k, m)
Hi(alg, pw, salt, it) == Hidef(alg, pw, salt, it)
FastHash(alg, m) == Hash(alg, m)
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex(s) == [i \in 1 .. 2 * Len(s) |-> HexDigit(IF i % 2 = 1 THEN s[(i + 1) \div 2] \div 16 ELSE s[i \div 2] % 16)]
(* RFC 5802 *)
ClientKey(alg, pw, salt, it) == HMAC(alg, Hi(alg, pw, salt, it), <<67,108,105,101,110,116,32,75,101,121>>)
ServerKey(alg, pw, salt, it) == HMAC(alg, Hi(alg, pw, salt, it), <<83,101,114,118,101,114,32,75,101,121>>)
ClientSig(alg, ckey, am) == HMAC(alg, FastHash(alg, ckey), am)
(* a message given as a repeated pattern: unit byte i (0-based) is (31 i + 7) mod 256 *)
Unit(n) == [i \in 1..n |-> ((i - 1) * 31 + 7) % 256]
Long(unit, reps, tail) == [i \in 1 .. unit * reps + tail |-> Unit(unit)[((i - 1) % unit) + 1]]
LongHash(alg, unit, reps, tail) == Hash(alg, Long(unit, reps, tail))
=============================================================================
