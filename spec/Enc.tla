-------------------------------- MODULE Enc --------------------------------
\* Generated by harness/mkenc.py from the environment's codecs.
\* Single-byte encodings: the code points of bytes 128..255 (0: unassigned).
\* Multi-byte encodings: byte sequences of a declared set of code points.
EXTENDS Integers, Sequences, TLC

ST_windows1252 ==
  <<8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 0, 381, 0,
    0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 0, 382, 376,
    160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175,
    176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191,
    192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207,
    208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223,
    224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239,
    240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255>>
T_windows1252 == LET t == ST_windows1252 I == {i \in 1..128 : t[i] # 0} IN
  [c \in {t[i] : i \in I} |-> <<127 + CHOOSE i \in I : t[i] = c>>]

ST_iso88591 ==
  <<128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143,
    144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159,
    160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175,
    176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191,
    192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207,
    208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223,
    224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239,
    240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255>>
T_iso88591 == LET t == ST_iso88591 I == {i \in 1..128 : t[i] # 0} IN
  [c \in {t[i] : i \in I} |-> <<127 + CHOOSE i \in I : t[i] = c>>]

ST_windows1251 ==
  <<1026, 1027, 8218, 1107, 8222, 8230, 8224, 8225, 8364, 8240, 1033, 8249, 1034, 1036, 1035, 1039,
    1106, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 1113, 8250, 1114, 1116, 1115, 1119,
    160, 1038, 1118, 1032, 164, 1168, 166, 167, 1025, 169, 1028, 171, 172, 173, 174, 1031,
    176, 177, 1030, 1110, 1169, 181, 182, 183, 1105, 8470, 1108, 187, 1112, 1029, 1109, 1111,
    1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055,
    1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071,
    1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087,
    1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103>>
T_windows1251 == LET t == ST_windows1251 I == {i \in 1..128 : t[i] # 0} IN
  [c \in {t[i] : i \in I} |-> <<127 + CHOOSE i \in I : t[i] = c>>]

ST_windows1250 ==
  <<8364, 0, 8218, 0, 8222, 8230, 8224, 8225, 0, 8240, 352, 8249, 346, 356, 381, 377,
    0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 353, 8250, 347, 357, 382, 378,
    160, 711, 728, 321, 164, 260, 166, 167, 168, 169, 350, 171, 172, 173, 174, 379,
    176, 177, 731, 322, 180, 181, 182, 183, 184, 261, 351, 187, 317, 733, 318, 380,
    340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270,
    272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223,
    341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271,
    273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729>>
T_windows1250 == LET t == ST_windows1250 I == {i \in 1..128 : t[i] # 0} IN
  [c \in {t[i] : i \in I} |-> <<127 + CHOOSE i \in I : t[i] = c>>]

ST_koi8r ==
  <<9472, 9474, 9484, 9488, 9492, 9496, 9500, 9508, 9516, 9524, 9532, 9600, 9604, 9608, 9612, 9616,
    9617, 9618, 9619, 8992, 9632, 8729, 8730, 8776, 8804, 8805, 160, 8993, 176, 178, 183, 247,
    9552, 9553, 9554, 1105, 9555, 9556, 9557, 9558, 9559, 9560, 9561, 9562, 9563, 9564, 9565, 9566,
    9567, 9568, 9569, 1025, 9570, 9571, 9572, 9573, 9574, 9575, 9576, 9577, 9578, 9579, 9580, 169,
    1102, 1072, 1073, 1094, 1076, 1077, 1092, 1075, 1093, 1080, 1081, 1082, 1083, 1084, 1085, 1086,
    1087, 1103, 1088, 1089, 1090, 1091, 1078, 1074, 1100, 1099, 1079, 1096, 1101, 1097, 1095, 1098,
    1070, 1040, 1041, 1062, 1044, 1045, 1060, 1043, 1061, 1048, 1049, 1050, 1051, 1052, 1053, 1054,
    1055, 1071, 1056, 1057, 1058, 1059, 1046, 1042, 1068, 1067, 1047, 1064, 1069, 1065, 1063, 1066>>
T_koi8r == LET t == ST_koi8r I == {i \in 1..128 : t[i] # 0} IN
  [c \in {t[i] : i \in I} |-> <<127 + CHOOSE i \in I : t[i] = c>>]

ST_iso88592 ==
  <<128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143,
    144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159,
    160, 260, 728, 321, 164, 317, 346, 167, 168, 352, 350, 356, 377, 173, 381, 379,
    176, 261, 731, 322, 180, 318, 347, 711, 184, 353, 351, 357, 378, 733, 382, 380,
    340, 193, 194, 258, 196, 313, 262, 199, 268, 201, 280, 203, 282, 205, 206, 270,
    272, 323, 327, 211, 212, 336, 214, 215, 344, 366, 218, 368, 220, 221, 354, 223,
    341, 225, 226, 259, 228, 314, 263, 231, 269, 233, 281, 235, 283, 237, 238, 271,
    273, 324, 328, 243, 244, 337, 246, 247, 345, 367, 250, 369, 252, 253, 355, 729>>
T_iso88592 == LET t == ST_iso88592 I == {i \in 1..128 : t[i] # 0} IN
  [c \in {t[i] : i \in I} |-> <<127 + CHOOSE i \in I : t[i] = c>>]

ST_iso88595 ==
  <<128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143,
    144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159,
    160, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 1035, 1036, 173, 1038, 1039,
    1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055,
    1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071,
    1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087,
    1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103,
    8470, 1105, 1106, 1107, 1108, 1109, 1110, 1111, 1112, 1113, 1114, 1115, 1116, 167, 1118, 1119>>
T_iso88595 == LET t == ST_iso88595 I == {i \in 1..128 : t[i] # 0} IN
  [c \in {t[i] : i \in I} |-> <<127 + CHOOSE i \in I : t[i] = c>>]

ST_iso885915 ==
  <<128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143,
    144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159,
    160, 161, 162, 163, 8364, 165, 352, 167, 353, 169, 170, 171, 172, 173, 174, 175,
    176, 177, 178, 179, 381, 181, 182, 183, 382, 185, 186, 187, 338, 339, 376, 191,
    192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207,
    208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223,
    224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239,
    240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255>>
T_iso885915 == LET t == ST_iso885915 I == {i \in 1..128 : t[i] # 0} IN
  [c \in {t[i] : i \in I} |-> <<127 + CHOOSE i \in I : t[i] = c>>]

ST_ibm866 ==
  <<1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 1053, 1054, 1055,
    1056, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1069, 1070, 1071,
    1072, 1073, 1074, 1075, 1076, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087,
    9617, 9618, 9619, 9474, 9508, 9569, 9570, 9558, 9557, 9571, 9553, 9559, 9565, 9564, 9563, 9488,
    9492, 9524, 9516, 9500, 9472, 9532, 9566, 9567, 9562, 9556, 9577, 9574, 9568, 9552, 9580, 9575,
    9576, 9572, 9573, 9561, 9560, 9554, 9555, 9579, 9578, 9496, 9484, 9608, 9604, 9612, 9616, 9600,
    1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 1096, 1097, 1098, 1099, 1100, 1101, 1102, 1103,
    1025, 1105, 1028, 1108, 1031, 1111, 1038, 1118, 176, 8729, 183, 8730, 8470, 164, 9632, 160>>
T_ibm866 == LET t == ST_ibm866 I == {i \in 1..128 : t[i] # 0} IN
  [c \in {t[i] : i \in I} |-> <<127 + CHOOSE i \in I : t[i] = c>>]

ST_windows1253 ==
  <<8364, 0, 8218, 402, 8222, 8230, 8224, 8225, 0, 8240, 0, 8249, 0, 0, 0, 0,
    0, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 0, 8482, 0, 8250, 0, 0, 0, 0,
    160, 901, 902, 163, 164, 165, 166, 167, 168, 169, 0, 171, 172, 173, 174, 8213,
    176, 177, 178, 179, 900, 181, 182, 183, 904, 905, 906, 187, 908, 189, 910, 911,
    912, 913, 914, 915, 916, 917, 918, 919, 920, 921, 922, 923, 924, 925, 926, 927,
    928, 929, 0, 931, 932, 933, 934, 935, 936, 937, 938, 939, 940, 941, 942, 943,
    944, 945, 946, 947, 948, 949, 950, 951, 952, 953, 954, 955, 956, 957, 958, 959,
    960, 961, 962, 963, 964, 965, 966, 967, 968, 969, 970, 971, 972, 973, 974, 0>>
T_windows1253 == LET t == ST_windows1253 I == {i \in 1..128 : t[i] # 0} IN
  [c \in {t[i] : i \in I} |-> <<127 + CHOOSE i \in I : t[i] = c>>]

ST_usascii ==
  <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
T_usascii == LET t == ST_usascii I == {i \in 1..128 : t[i] # 0} IN
  [c \in {t[i] : i \in I} |-> <<127 + CHOOSE i \in I : t[i] = c>>]

MBKnown == {167, 176, 233, 255, 1040, 1103, 8364, 8470, 8800, 12288, 12354, 12450, 12477, 26085, 26412, 34920, 33021, 20013, 25991, 21151, 35377, 54620, 44544, 65313, 65393, 65533, 127752, 131072}

T_shiftjis ==
  (167 :> <<129, 152>>) @@ (176 :> <<129, 139>>) @@ (1040 :> <<132, 64>>) @@
  (1103 :> <<132, 145>>) @@ (8800 :> <<129, 130>>) @@ (12288 :> <<129, 64>>) @@
  (12354 :> <<130, 160>>) @@ (12450 :> <<131, 65>>) @@ (12477 :> <<131, 92>>) @@
  (26085 :> <<147, 250>>) @@ (26412 :> <<150, 123>>) @@ (34920 :> <<149, 92>>) @@
  (33021 :> <<148, 92>>) @@ (20013 :> <<146, 134>>) @@ (25991 :> <<149, 182>>) @@
  (21151 :> <<140, 247>>) @@ (35377 :> <<139, 150>>) @@ (65313 :> <<130, 96>>) @@
  (65393 :> <<177>>)

T_eucjp ==
  (167 :> <<161, 248>>) @@ (176 :> <<161, 235>>) @@ (233 :> <<143, 171, 177>>) @@
  (255 :> <<143, 171, 243>>) @@ (1040 :> <<167, 161>>) @@ (1103 :> <<167, 241>>) @@
  (8470 :> <<143, 162, 241>>) @@ (8800 :> <<161, 226>>) @@ (12288 :> <<161, 161>>) @@
  (12354 :> <<164, 162>>) @@ (12450 :> <<165, 162>>) @@ (12477 :> <<165, 189>>) @@
  (26085 :> <<198, 252>>) @@ (26412 :> <<203, 220>>) @@ (34920 :> <<201, 189>>) @@
  (33021 :> <<199, 189>>) @@ (20013 :> <<195, 230>>) @@ (25991 :> <<202, 184>>) @@
  (21151 :> <<184, 249>>) @@ (35377 :> <<181, 246>>) @@ (65313 :> <<163, 193>>) @@
  (65393 :> <<142, 177>>)

T_euckr ==
  (167 :> <<161, 215>>) @@ (176 :> <<161, 198>>) @@ (1040 :> <<172, 161>>) @@
  (1103 :> <<172, 241>>) @@ (8364 :> <<162, 230>>) @@ (8470 :> <<162, 224>>) @@
  (8800 :> <<161, 193>>) @@ (12288 :> <<161, 161>>) @@ (12354 :> <<170, 162>>) @@
  (12450 :> <<171, 162>>) @@ (12477 :> <<171, 189>>) @@ (26085 :> <<236, 237>>) @@
  (26412 :> <<220, 226>>) @@ (34920 :> <<248, 250>>) @@ (33021 :> <<210, 246>>) @@
  (20013 :> <<241, 233>>) @@ (25991 :> <<217, 254>>) @@ (21151 :> <<205, 237>>) @@
  (35377 :> <<250, 201>>) @@ (54620 :> <<199, 209>>) @@ (44544 :> <<177, 219>>) @@
  (65313 :> <<163, 193>>)

T_big5 ==
  (167 :> <<161, 177>>) @@ (176 :> <<162, 88>>) @@ (1103 :> <<199, 232>>) @@
  (8800 :> <<161, 218>>) @@ (12288 :> <<161, 64>>) @@ (12354 :> <<198, 166>>) @@
  (12450 :> <<198, 249>>) @@ (12477 :> <<199, 85>>) @@ (26085 :> <<164, 233>>) @@
  (26412 :> <<165, 187>>) @@ (34920 :> <<170, 237>>) @@ (33021 :> <<175, 224>>) @@
  (20013 :> <<164, 164>>) @@ (25991 :> <<164, 229>>) @@ (21151 :> <<165, 92>>) @@
  (35377 :> <<179, 92>>) @@ (65313 :> <<162, 207>>)

T_gbk ==
  (167 :> <<161, 236>>) @@ (176 :> <<161, 227>>) @@ (233 :> <<168, 166>>) @@
  (1040 :> <<167, 161>>) @@ (1103 :> <<167, 241>>) @@ (8470 :> <<161, 237>>) @@
  (8800 :> <<161, 217>>) @@ (12288 :> <<161, 161>>) @@ (12354 :> <<164, 162>>) @@
  (12450 :> <<165, 162>>) @@ (12477 :> <<165, 189>>) @@ (26085 :> <<200, 213>>) @@
  (26412 :> <<177, 190>>) @@ (34920 :> <<177, 237>>) @@ (33021 :> <<196, 220>>) @@
  (20013 :> <<214, 208>>) @@ (25991 :> <<206, 196>>) @@ (21151 :> <<185, 166>>) @@
  (35377 :> <<212, 83>>) @@ (65313 :> <<163, 193>>)

T_gb18030 ==
  (167 :> <<161, 236>>) @@ (176 :> <<161, 227>>) @@ (233 :> <<168, 166>>) @@
  (255 :> <<129, 48, 139, 55>>) @@ (1040 :> <<167, 161>>) @@ (1103 :> <<167, 241>>) @@
  (8364 :> <<162, 227>>) @@ (8470 :> <<161, 237>>) @@ (8800 :> <<161, 217>>) @@
  (12288 :> <<161, 161>>) @@ (12354 :> <<164, 162>>) @@ (12450 :> <<165, 162>>) @@
  (12477 :> <<165, 189>>) @@ (26085 :> <<200, 213>>) @@ (26412 :> <<177, 190>>) @@
  (34920 :> <<177, 237>>) @@ (33021 :> <<196, 220>>) @@ (20013 :> <<214, 208>>) @@
  (25991 :> <<206, 196>>) @@ (21151 :> <<185, 166>>) @@ (35377 :> <<212, 83>>) @@
  (54620 :> <<131, 54, 132, 51>>) @@ (44544 :> <<130, 56, 132, 55>>) @@ (65313 :> <<163, 193>>) @@
  (65393 :> <<132, 49, 151, 51>>) @@ (65533 :> <<132, 49, 164, 55>>) @@ (127752 :> <<148, 57, 176, 54>>) @@
  (131072 :> <<149, 50, 130, 54>>)

MultiByte == {"shift_jis", "euc-jp", "euc-kr", "big5", "gbk", "gb18030"}
EncTable(e) ==
  CASE e = "windows-1252" -> T_windows1252
    [] e = "iso-8859-1" -> T_iso88591
    [] e = "windows-1251" -> T_windows1251
    [] e = "windows-1250" -> T_windows1250
    [] e = "koi8-r" -> T_koi8r
    [] e = "iso-8859-2" -> T_iso88592
    [] e = "iso-8859-5" -> T_iso88595
    [] e = "iso-8859-15" -> T_iso885915
    [] e = "ibm866" -> T_ibm866
    [] e = "windows-1253" -> T_windows1253
    [] e = "us-ascii" -> T_usascii
    [] e = "shift_jis" -> T_shiftjis
    [] e = "euc-jp" -> T_eucjp
    [] e = "euc-kr" -> T_euckr
    [] e = "big5" -> T_big5
    [] e = "gbk" -> T_gbk
    [] e = "gb18030" -> T_gb18030
=============================================================================
