------------------------------ MODULE CodePages ----------------------------
(***************************************************************************)
(* What character a text byte stands for, as Unicode scalar values.        *)
(* Pages 437, 850, 857, 860, 863 and 865 are the IBM pages (checked against *)
(* an independent codec library when this module was written); 851, 853    *)
(* and the katakana page follow the printer documentation. -1 stands for   *)
(* "no character": such a byte prints nothing.                             *)
(***************************************************************************)
EXTENDS Bytes

Page0 ==
   <<199, 252, 233, 226, 228, 224, 229, 231, 234, 235, 232, 239, 238, 236, 196, 197,
     201, 230, 198, 244, 246, 242, 251, 249, 255, 214, 220, 162, 163, 165, 8359, 402,
     225, 237, 243, 250, 241, 209, 170, 186, 191, 8976, 172, 189, 188, 161, 171, 187,
     9617, 9618, 9619, 9474, 9508, 9569, 9570, 9558, 9557, 9571, 9553, 9559, 9565, 9564, 9563, 9488,
     9492, 9524, 9516, 9500, 9472, 9532, 9566, 9567, 9562, 9556, 9577, 9574, 9568, 9552, 9580, 9575,
     9576, 9572, 9573, 9561, 9560, 9554, 9555, 9579, 9578, 9496, 9484, 9608, 9604, 9612, 9616, 9600,
     945, 223, 915, 960, 931, 963, 181, 964, 934, 920, 937, 948, 8734, 966, 949, 8745,
     8801, 177, 8805, 8804, 8992, 8993, 247, 8776, 176, 8729, 183, 8730, 8319, 178, 9632, 160>>

Page1 ==
   <<9601, 9602, 9603, 9604, 9605, 9606, 9607, 9608, 9615, 9614, 9613, 9612, 9611, 9610, 9609, 9532,
     9524, 9516, 9508, 9500, 175, 9472, 9474, 9621, 9484, 9488, 9492, 9496, 9581, 9582, 9584, 9583,
     32, 65377, 65378, 65379, 65380, 65381, 65382, 65383, 65384, 65385, 65386, 65387, 65388, 65389, 65390, 65391,
     65392, 65393, 65394, 65395, 65396, 65397, 65398, 65399, 65400, 65401, 65402, 65403, 65404, 65405, 65406, 65407,
     65408, 65409, 65410, 65411, 65412, 65413, 65414, 65415, 65416, 65417, 65418, 65419, 65420, 65421, 65422, 65423,
     65424, 65425, 65426, 65427, 65428, 65429, 65430, 65431, 65432, 65433, 65434, 65435, 65436, 65437, 65438, 65439,
     9552, 9566, 9578, 9569, 9698, 9699, 9701, 9700, 9824, 9829, 9830, 9827, 9679, 9675, 9585, 9586,
     9587, 20870, 24180, 26376, 26085, 26178, 20998, 31186, 12306, 24066, 21306, 30010, 26449, 20154, 9619, 160>>

Page2 ==
   <<199, 252, 233, 226, 228, 224, 229, 231, 234, 235, 232, 239, 238, 236, 196, 197,
     201, 230, 198, 244, 246, 242, 251, 249, 255, 214, 220, 248, 163, 216, 215, 402,
     225, 237, 243, 250, 241, 209, 170, 186, 191, 174, 172, 189, 188, 161, 171, 187,
     9617, 9618, 9619, 9474, 9508, 193, 194, 192, 169, 9571, 9553, 9559, 9565, 162, 165, 9488,
     9492, 9524, 9516, 9500, 9472, 9532, 227, 195, 9562, 9556, 9577, 9574, 9568, 9552, 9580, 164,
     240, 208, 202, 203, 200, 305, 205, 206, 207, 9496, 9484, 9608, 9604, 166, 204, 9600,
     211, 223, 212, 210, 245, 213, 181, 254, 222, 218, 219, 217, 253, 221, 175, 180,
     45, 177, 8215, 190, 182, 167, 247, 184, 176, 168, 183, 185, 179, 178, 9632, 160>>

Page3 ==
   <<199, 252, 233, 226, 227, 224, 193, 231, 234, 202, 232, 205, 212, 236, 195, 194,
     201, 192, 200, 244, 245, 242, 218, 249, 204, 213, 220, 162, 163, 217, 8359, 211,
     225, 237, 243, 250, 241, 209, 170, 186, 191, 210, 172, 189, 188, 161, 171, 187,
     9617, 9618, 9619, 9474, 9508, 9569, 9570, 9558, 9557, 9571, 9553, 9559, 9565, 9564, 9563, 9488,
     9492, 9524, 9516, 9500, 9472, 9532, 9566, 9567, 9562, 9556, 9577, 9574, 9568, 9552, 9580, 9575,
     9576, 9572, 9573, 9561, 9560, 9554, 9555, 9579, 9578, 9496, 9484, 9608, 9604, 9612, 9616, 9600,
     945, 223, 915, 960, 931, 963, 181, 964, 934, 920, 937, 948, 8734, 966, 949, 8745,
     8801, 177, 8805, 8804, 8992, 8993, 247, 8776, 176, 8729, 183, 8730, 8319, 178, 9632, 160>>

Page4 ==
   <<199, 252, 233, 226, 194, 224, 182, 231, 234, 235, 232, 239, 238, 8215, 192, 167,
     201, 200, 202, 244, 203, 207, 251, 249, 164, 212, 220, 162, 163, 217, 219, 402,
     166, 180, 243, 250, 168, 184, 179, 175, 206, 8976, 172, 189, 188, 190, 171, 187,
     9617, 9618, 9619, 9474, 9508, 9569, 9570, 9558, 9557, 9571, 9553, 9559, 9565, 9564, 9563, 9488,
     9492, 9524, 9516, 9500, 9472, 9532, 9566, 9567, 9562, 9556, 9577, 9574, 9568, 9552, 9580, 9575,
     9576, 9572, 9573, 9561, 9560, 9554, 9555, 9579, 9578, 9496, 9484, 9608, 9604, 9612, 9616, 9600,
     945, 223, 915, 960, 931, 963, 181, 964, 934, 920, 937, 948, 8734, 966, 949, 8745,
     8801, 177, 8805, 8804, 8992, 8993, 247, 8776, 176, 8729, 183, 8730, 8319, 178, 9632, 160>>

Page5 ==
   <<199, 252, 233, 226, 228, 224, 229, 231, 234, 235, 232, 239, 238, 236, 196, 197,
     201, 230, 198, 244, 246, 242, 251, 249, 255, 214, 220, 248, 163, 216, 8359, 402,
     225, 237, 243, 250, 241, 209, 170, 186, 191, 8976, 172, 189, 188, 161, 171, 164,
     9617, 9618, 9619, 9474, 9508, 9569, 9570, 9558, 9557, 9571, 9553, 9559, 9565, 9564, 9563, 9488,
     9492, 9524, 9516, 9500, 9472, 9532, 9566, 9567, 9562, 9556, 9577, 9574, 9568, 9552, 9580, 9575,
     9576, 9572, 9573, 9561, 9560, 9554, 9555, 9579, 9578, 9496, 9484, 9608, 9604, 9612, 9616, 9600,
     945, 223, 915, 960, 931, 963, 181, 964, 934, 920, 937, 948, 8734, 966, 949, 8745,
     8801, 177, 8805, 8804, 8992, 8993, 247, 8776, 176, 8729, 183, 8730, 8319, 178, 9632, 160>>

Page11 ==
   <<199, 252, 233, 226, 228, 224, 902, 231, 234, 235, 232, 239, 238, 904, 196, 905,
     906, -1, 908, 244, 246, 910, 251, 249, 911, 214, 220, 940, 163, 941, 942, 943,
     970, 912, 972, 973, 913, 914, 915, 916, 917, 918, 919, 189, 920, 921, 171, 187,
     9617, 9618, 9619, 9474, 9508, 922, 923, 924, 925, 9571, 9553, 9559, 9565, 926, 927, 9488,
     9492, 9524, 9516, 9500, 9472, 9532, 928, 929, 9562, 9556, 9577, 9574, 9568, 9552, 9580, 931,
     932, 933, 934, 935, 936, 937, 945, 946, 947, 9496, 9484, 9608, 9604, 948, 949, 9600,
     950, 951, 952, 953, 954, 955, 956, 957, 958, 959, 960, 961, 963, 962, 964, 180,
     173, 177, 965, 966, 967, 167, 968, 184, 176, 168, 969, 971, 944, 974, 9632, 160>>

Page12 ==
   <<199, 252, 233, 226, 228, 224, 265, 231, 234, 235, 232, 239, 238, 236, 196, 264,
     201, 267, 266, 244, 246, 242, 251, 249, 304, 214, 220, 285, 163, 284, 215, 309,
     225, 237, 243, 250, 241, 209, 286, 287, 292, 293, -1, 189, 308, 351, 171, 187,
     9617, 9618, 9619, 9474, 9508, 193, 194, 192, 350, 9571, 9553, 9559, 9565, 379, 380, 9488,
     9492, 9524, 9516, 9500, 9472, 9532, 348, 349, 9562, 9556, 9577, 9574, 9568, 9552, 9580, 164,
     -1, -1, 202, 203, 200, 305, 205, 206, 207, 9496, 9484, 9608, 9604, -1, 204, 9600,
     211, 223, 212, 210, 288, 289, 181, 294, 295, 218, 219, 217, 364, 365, 183, 180,
     173, -1, 8467, 329, 728, 167, 247, 184, 176, 168, 729, -1, 179, 178, 9632, 160>>

Page13 ==
   <<199, 252, 233, 226, 228, 224, 229, 231, 234, 235, 232, 239, 238, 305, 196, 197,
     201, 230, 198, 244, 246, 242, 251, 249, 304, 214, 220, 248, 163, 216, 350, 351,
     225, 237, 243, 250, 241, 209, 286, 287, 191, 174, 172, 189, 188, 161, 171, 187,
     9617, 9618, 9619, 9474, 9508, 193, 194, 192, 169, 9571, 9553, 9559, 9565, 162, 165, 9488,
     9492, 9524, 9516, 9500, 9472, 9532, 227, 195, 9562, 9556, 9577, 9574, 9568, 9552, 9580, 164,
     186, 170, 202, 203, 200, 8364, 205, 206, 207, 9496, 9484, 9608, 9604, 166, 204, 9600,
     211, 223, 212, 210, 245, 213, 181, -1, 215, 218, 219, 217, 236, 255, 175, 180,
     173, 177, -1, 190, 182, 167, 247, 184, 176, 168, 183, 185, 179, 178, 9632, 160>>

PageTable == [n \in Byte |->
    CASE n = 1 -> Page1
      [] n = 2 -> Page2
      [] n = 3 -> Page3
      [] n = 4 -> Page4
      [] n = 5 -> Page5
      [] n = 11 -> Page11
      [] n = 12 -> Page12
      [] n = 13 -> Page13
      [] OTHER -> Page0]

(* International character sets replace some characters of the lower half *)
DigitsFrom(z) == [i \in 1 .. 10 |-> <<47 + i, z + i - 1>>]
CharsetPairs(n) ==
    CASE n = 1 -> <<<<64, 224>>, <<91, 231>>, <<92, 167>>, <<93, 94>>, <<94, 233>>, <<96, 249>>, <<123, 232>>, <<124, 168>>, <<125, 251>>, <<126, 252>>>>
      [] n = 2 -> <<<<64, 167>>, <<91, 196>>, <<92, 214>>, <<93, 220>>, <<96, 228>>, <<123, 246>>, <<124, 252>>, <<125, 223>>>>
      [] n = 3 -> <<<<35, 163>>>>
      [] n = 4 -> <<<<64, 196>>, <<91, 198>>, <<92, 216>>, <<93, 197>>, <<94, 94>>, <<96, 228>>, <<123, 230>>, <<124, 248>>, <<125, 229>>, <<126, 126>>>>
      [] n = 5 -> <<<<64, 201>>, <<91, 196>>, <<92, 214>>, <<93, 197>>, <<94, 220>>, <<96, 233>>, <<123, 228>>, <<124, 246>>, <<125, 229>>, <<126, 252>>>>
      [] n = 6 -> <<<<64, 167>>, <<92, 249>>, <<94, 233>>, <<96, 224>>, <<123, 242>>, <<124, 231>>, <<125, 232>>, <<126, 236>>>>
      [] n = 7 -> <<<<64, 209>>, <<91, 161>>, <<92, 191>>, <<93, 231>>, <<123, 241>>, <<124, 172>>, <<125, 189>>, <<126, 188>>>>
      [] n = 8 -> <<<<92, 165>>, <<124, 166>>>>
      [] n = 9 -> <<<<64, 196>>, <<91, 198>>, <<92, 216>>, <<93, 197>>, <<94, 220>>, <<96, 228>>, <<123, 230>>, <<124, 248>>, <<125, 229>>, <<126, 252>>>>
      [] n = 10 -> <<<<64, 201>>, <<91, 198>>, <<92, 216>>, <<93, 197>>, <<94, 220>>, <<96, 233>>, <<123, 230>>, <<124, 248>>, <<125, 229>>, <<126, 252>>>>
      [] n = 11 -> <<<<64, 225>>, <<91, 237>>, <<92, 209>>, <<93, 211>>, <<94, 218>>, <<96, 241>>, <<123, 225>>, <<124, 237>>, <<125, 243>>, <<126, 250>>>>
      [] n = 12 -> <<<<64, 225>>, <<91, 237>>, <<92, 209>>, <<93, 211>>, <<94, 218>>, <<96, 241>>, <<123, 233>>, <<124, 237>>, <<125, 243>>, <<126, 250>>>>
      [] n = 13 -> <<<<92, 8361>>, <<124, 8361>>>>
      [] n = 14 -> <<<<91, 352>>, <<92, 272>>, <<93, 268>>, <<123, 382>>, <<124, 273>>, <<125, 269>>>>
      [] n = 15 -> <<<<92, 165>>>>
      [] n = 16 -> <<<<35, 273>>>>
      [] n = 17 -> <<<<42, 1645>>>>
      [] n = 66 -> DigitsFrom(2406)
      [] n = 67 -> DigitsFrom(2534)
      [] n = 68 -> DigitsFrom(3046)
      [] n = 69 -> DigitsFrom(3174)
      [] n = 70 -> DigitsFrom(2534)
      [] n = 71 -> DigitsFrom(2918)
      [] n = 72 -> DigitsFrom(3302)
      [] n = 73 -> DigitsFrom(3430)
      [] n = 74 -> DigitsFrom(2790)
      [] n = 75 -> DigitsFrom(2662)
      [] n = 82 -> DigitsFrom(2406)
      [] OTHER -> <<>>


CharsetMap == [n \in Byte |->
    LET ps == CharsetPairs(n)
        dom == {ps[i][1] : i \in DOMAIN ps}
    IN [b \in dom |-> ps[CHOOSE i \in DOMAIN ps : ps[i][1] = b][2]]]

CharOf(ct, cs, b) ==
    IF b \in DOMAIN CharsetMap[cs] THEN CharsetMap[cs][b]
    ELSE IF b < 128 THEN b ELSE PageTable[ct][b - 127]

(* ------------------------------- UTF-8 --------------------------------- *)
(* <<scalar value, length>> of the character at p; <<-1, n>> when the n     *)
(* bytes at p are not one (n: the longest prefix that could have been)     *)
Cont(s, p) == p <= Len(s) /\ s[p] \in 128 .. 191
Utf8At(s, p) ==
    LET b == s[p]
        b2 == IF p + 1 <= Len(s) THEN s[p + 1] ELSE 0
    IN IF b < 128 THEN <<b, 1>>
       ELSE IF b \in 194 .. 223
       THEN IF Cont(s, p + 1) THEN <<(b - 192) * 64 + b2 - 128, 2>> ELSE <<-1, 1>>
       ELSE IF b \in 224 .. 239
       THEN IF b2 \notin (IF b = 224 THEN 160 .. 191 ELSE IF b = 237 THEN 128 .. 159 ELSE 128 .. 191)
            THEN <<-1, 1>>
            ELSE IF ~Cont(s, p + 2) THEN <<-1, 2>>
            ELSE <<(b - 224) * 4096 + (b2 - 128) * 64 + s[p + 2] - 128, 3>>
       ELSE IF b \in 240 .. 244
       THEN IF b2 \notin (IF b = 240 THEN 144 .. 191 ELSE IF b = 244 THEN 128 .. 143 ELSE 128 .. 191)
            THEN <<-1, 1>>
            ELSE IF ~Cont(s, p + 2) THEN <<-1, 2>>
            ELSE IF ~Cont(s, p + 3) THEN <<-1, 3>>
            ELSE <<(b - 240) * 262144 + (b2 - 128) * 4096 + (s[p + 2] - 128) * 64 + s[p + 3] - 128, 4>>
       ELSE <<-1, 1>>

Utf8Parts(s) ==   \* the characters of s, -1 for what is none
    FoldLeft(LAMBDA a, p : IF p < a.next THEN a
                           ELSE LET u == Utf8At(s, p) IN [out |-> Append(a.out, u[1]), next |-> p + u[2]],
             [out |-> <<>>, next |-> 1], [p \in 1 .. Len(s) |-> p]).out
Utf8Lossy(s) == FoldLeft(LAMBDA a, x : Append(a, IF x = -1 THEN 65533 ELSE x), <<>>, Utf8Parts(s))
Utf8Valid(s) == LET t == Utf8Parts(s) IN \A i \in DOMAIN t : t[i] # -1

(* Code table 255 selects UTF-8 *)
DecodeText(ct, cs, s) ==
    IF ct = 255 THEN Utf8Lossy(s)
    ELSE SelectSeq([i \in 1 .. Len(s) |-> CharOf(ct, cs, s[i])], LAMBDA x : x >= 0)
============================================================================