// Unicode 15.0 as runs of code points; written by tools/mkucd.py.
#pragma once
namespace ucd
{
struct Run { unsigned lo, hi; int value; };
#define UCD_CATEGORIES(X) X(Lu) X(Ll) X(Lt) X(Lm) X(Lo) X(Mn) X(Mc) X(Me) X(Nd) X(Nl) X(No) X(Pc) X(Pd) X(Ps) X(Pe) X(Pi) X(Pf) X(Po) X(Sm) X(Sc) X(Sk) X(So) X(Zs) X(Zl) X(Zp) X(Cc) X(Cf) X(Cs) X(Co) X(Cn)
inline constexpr Run category[] = {{0,31,25},{32,32,22},{33,35,17},{36,36,19},{37,39,17},{40,40,13},{41,41,14},{42,42,17},{43,43,18},{44,44,17},{45,45,12},{46,47,17},{48,57,8},{58,59,17},{60,62,18},{63,64,17},{65,90,0},{91,91,13},{92,92,17},{93,93,14},{94,94,20},{95,95,11},{96,96,20},{97,122,1},{123,123,13},{124,124,18},{125,125,14},{126,126,18},{127,159,25},{160,160,22},{161,161,17},{162,165,19},{166,166,21},{167,167,17},{168,168,20},{169,169,21},{170,170,4},{171,171,15},{172,172,18},{173,173,26},{174,174,21},{175,175,20},{176,176,21},{177,177,18},{178,179,10},{180,180,20},{181,181,1},{182,183,17},{184,184,20},{185,185,10},{186,186,4},{187,187,16},{188,190,10},{191,191,17},{192,214,0},{215,215,18},{216,222,0},{223,246,1},{247,247,18},{248,255,1},{256,256,0},{257,257,1},{258,258,0},{259,259,1},{260,260,0},{261,261,1},{262,262,0},{263,263,1},{264,264,0},{265,265,1},{266,266,0},{267,267,1},{268,268,0},{269,269,1},{270,270,0},{271,271,1},{272,272,0},{273,273,1},{274,274,0},{275,275,1},{276,276,0},{277,277,1},{278,278,0},{279,279,1},{280,280,0},{281,281,1},{282,282,0},{283,283,1},{284,284,0},{285,285,1},{286,286,0},{287,287,1},{288,288,0},{289,289,1},{290,290,0},{291,291,1},{292,292,0},{293,293,1},{294,294,0},{295,295,1},{296,296,0},{297,297,1},{298,298,0},{299,299,1},{300,300,0},{301,301,1},{302,302,0},{303,303,1},{304,304,0},{305,305,1},{306,306,0},{307,307,1},{308,308,0},{309,309,1},{310,310,0},{311,312,1},{313,313,0},{314,314,1},{315,315,0},{316,316,1},{317,317,0},{318,318,1},{319,319,0},{320,320,1},{321,321,0},{322,322,1},{323,323,0},{324,324,1},{325,325,0},{326,326,1},{327,327,0},{328,329,1},{330,330,0},{331,331,1},{332,332,0},{333,333,1},{334,334,0},{335,335,1},{336,336,0},{337,337,1},{338,338,0},{339,339,1},{340,340,0},{341,341,1},{342,342,0},{343,343,1},{344,344,0},{345,345,1},{346,346,0},{347,347,1},{348,348,0},{349,349,1},{350,350,0},{351,351,1},{352,352,0},{353,353,1},{354,354,0},{355,355,1},{356,356,0},{357,357,1},{358,358,0},{359,359,1},{360,360,0},{361,361,1},{362,362,0},{363,363,1},{364,364,0},{365,365,1},{366,366,0},{367,367,1},{368,368,0},{369,369,1},{370,370,0},{371,371,1},{372,372,0},{373,373,1},{374,374,0},{375,375,1},{376,377,0},{378,378,1},{379,379,0},{380,380,1},{381,381,0},{382,384,1},{385,386,0},{387,387,1},{388,388,0},{389,389,1},{390,391,0},{392,392,1},{393,395,0},{396,397,1},{398,401,0},{402,402,1},{403,404,0},{405,405,1},{406,408,0},{409,411,1},{412,413,0},{414,414,1},{415,416,0},{417,417,1},{418,418,0},{419,419,1},{420,420,0},{421,421,1},{422,423,0},{424,424,1},{425,425,0},{426,427,1},{428,428,0},{429,429,1},{430,431,0},{432,432,1},{433,435,0},{436,436,1},{437,437,0},{438,438,1},{439,440,0},{441,442,1},{443,443,4},{444,444,0},{445,447,1},{448,451,4},{452,452,0},{453,453,2},{454,454,1},{455,455,0},{456,456,2},{457,457,1},{458,458,0},{459,459,2},{460,460,1},{461,461,0},{462,462,1},{463,463,0},{464,464,1},{465,465,0},{466,466,1},{467,467,0},{468,468,1},{469,469,0},{470,470,1},{471,471,0},{472,472,1},{473,473,0},{474,474,1},{475,475,0},{476,477,1},{478,478,0},{479,479,1},{480,480,0},{481,481,1},{482,482,0},{483,483,1},{484,484,0},{485,485,1},{486,486,0},{487,487,1},{488,488,0},{489,489,1},{490,490,0},{491,491,1},{492,492,0},{493,493,1},{494,494,0},{495,496,1},{497,497,0},{498,498,2},{499,499,1},{500,500,0},{501,501,1},{502,504,0},{505,505,1},{506,506,0},{507,507,1},{508,508,0},{509,509,1},{510,510,0},{511,511,1},{512,512,0},{513,513,1},{514,514,0},{515,515,1},{516,516,0},{517,517,1},{518,518,0},{519,519,1},{520,520,0},{521,521,1},{522,522,0},{523,523,1},{524,524,0},{525,525,1},{526,526,0},{527,527,1},{528,528,0},{529,529,1},{530,530,0},{531,531,1},{532,532,0},{533,533,1},{534,534,0},{535,535,1},{536,536,0},{537,537,1},{538,538,0},{539,539,1},{540,540,0},{541,541,1},{542,542,0},{543,543,1},{544,544,0},{545,545,1},{546,546,0},{547,547,1},{548,548,0},{549,549,1},{550,550,0},{551,551,1},{552,552,0},{553,553,1},{554,554,0},{555,555,1},{556,556,0},{557,557,1},{558,558,0},{559,559,1},{560,560,0},{561,561,1},{562,562,0},{563,569,1},{570,571,0},{572,572,1},{573,574,0},{575,576,1},{577,577,0},{578,578,1},{579,582,0},{583,583,1},{584,584,0},{585,585,1},{586,586,0},{587,587,1},{588,588,0},{589,589,1},{590,590,0},{591,659,1},{660,660,4},{661,687,1},{688,705,3},{706,709,20},{710,721,3},{722,735,20},{736,740,3},{741,747,20},{748,748,3},{749,749,20},{750,750,3},{751,767,20},{768,879,5},{880,880,0},{881,881,1},{882,882,0},{883,883,1},{884,884,3},{885,885,20},{886,886,0},{887,887,1},{888,889,29},{890,890,3},{891,893,1},{894,894,17},{895,895,0},{896,899,29},{900,901,20},{902,902,0},{903,903,17},{904,906,0},{907,907,29},{908,908,0},{909,909,29},{910,911,0},{912,912,1},{913,929,0},{930,930,29},{931,939,0},{940,974,1},{975,975,0},{976,977,1},{978,980,0},{981,983,1},{984,984,0},{985,985,1},{986,986,0},{987,987,1},{988,988,0},{989,989,1},{990,990,0},{991,991,1},{992,992,0},{993,993,1},{994,994,0},{995,995,1},{996,996,0},{997,997,1},{998,998,0},{999,999,1},{1000,1000,0},{1001,1001,1},{1002,1002,0},{1003,1003,1},{1004,1004,0},{1005,1005,1},{1006,1006,0},{1007,1011,1},{1012,1012,0},{1013,1013,1},{1014,1014,18},{1015,1015,0},{1016,1016,1},{1017,1018,0},{1019,1020,1},{1021,1071,0},{1072,1119,1},{1120,1120,0},{1121,1121,1},{1122,1122,0},{1123,1123,1},{1124,1124,0},{1125,1125,1},{1126,1126,0},{1127,1127,1},{1128,1128,0},{1129,1129,1},{1130,1130,0},{1131,1131,1},{1132,1132,0},{1133,1133,1},{1134,1134,0},{1135,1135,1},{1136,1136,0},{1137,1137,1},{1138,1138,0},{1139,1139,1},{1140,1140,0},{1141,1141,1},{1142,1142,0},{1143,1143,1},{1144,1144,0},{1145,1145,1},{1146,1146,0},{1147,1147,1},{1148,1148,0},{1149,1149,1},{1150,1150,0},{1151,1151,1},{1152,1152,0},{1153,1153,1},{1154,1154,21},{1155,1159,5},{1160,1161,7},{1162,1162,0},{1163,1163,1},{1164,1164,0},{1165,1165,1},{1166,1166,0},{1167,1167,1},{1168,1168,0},{1169,1169,1},{1170,1170,0},{1171,1171,1},{1172,1172,0},{1173,1173,1},{1174,1174,0},{1175,1175,1},{1176,1176,0},{1177,1177,1},{1178,1178,0},{1179,1179,1},{1180,1180,0},{1181,1181,1},{1182,1182,0},{1183,1183,1},{1184,1184,0},{1185,1185,1},{1186,1186,0},{1187,1187,1},{1188,1188,0},{1189,1189,1},{1190,1190,0},{1191,1191,1},{1192,1192,0},{1193,1193,1},{1194,1194,0},{1195,1195,1},{1196,1196,0},{1197,1197,1},{1198,1198,0},{1199,1199,1},{1200,1200,0},{1201,1201,1},{1202,1202,0},{1203,1203,1},{1204,1204,0},{1205,1205,1},{1206,1206,0},{1207,1207,1},{1208,1208,0},{1209,1209,1},{1210,1210,0},{1211,1211,1},{1212,1212,0},{1213,1213,1},{1214,1214,0},{1215,1215,1},{1216,1217,0},{1218,1218,1},{1219,1219,0},{1220,1220,1},{1221,1221,0},{1222,1222,1},{1223,1223,0},{1224,1224,1},{1225,1225,0},{1226,1226,1},{1227,1227,0},{1228,1228,1},{1229,1229,0},{1230,1231,1},{1232,1232,0},{1233,1233,1},{1234,1234,0},{1235,1235,1},{1236,1236,0},{1237,1237,1},{1238,1238,0},{1239,1239,1},{1240,1240,0},{1241,1241,1},{1242,1242,0},{1243,1243,1},{1244,1244,0},{1245,1245,1},{1246,1246,0},{1247,1247,1},{1248,1248,0},{1249,1249,1},{1250,1250,0},{1251,1251,1},{1252,1252,0},{1253,1253,1},{1254,1254,0},{1255,1255,1},{1256,1256,0},{1257,1257,1},{1258,1258,0},{1259,1259,1},{1260,1260,0},{1261,1261,1},{1262,1262,0},{1263,1263,1},{1264,1264,0},{1265,1265,1},{1266,1266,0},{1267,1267,1},{1268,1268,0},{1269,1269,1},{1270,1270,0},{1271,1271,1},{1272,1272,0},{1273,1273,1},{1274,1274,0},{1275,1275,1},{1276,1276,0},{1277,1277,1},{1278,1278,0},{1279,1279,1},{1280,1280,0},{1281,1281,1},{1282,1282,0},{1283,1283,1},{1284,1284,0},{1285,1285,1},{1286,1286,0},{1287,1287,1},{1288,1288,0},{1289,1289,1},{1290,1290,0},{1291,1291,1},{1292,1292,0},{1293,1293,1},{1294,1294,0},{1295,1295,1},{1296,1296,0},{1297,1297,1},{1298,1298,0},{1299,1299,1},{1300,1300,0},{1301,1301,1},{1302,1302,0},{1303,1303,1},{1304,1304,0},{1305,1305,1},{1306,1306,0},{1307,1307,1},{1308,1308,0},{1309,1309,1},{1310,1310,0},{1311,1311,1},{1312,1312,0},{1313,1313,1},{1314,1314,0},{1315,1315,1},{1316,1316,0},{1317,1317,1},{1318,1318,0},{1319,1319,1},{1320,1320,0},{1321,1321,1},{1322,1322,0},{1323,1323,1},{1324,1324,0},{1325,1325,1},{1326,1326,0},{1327,1327,1},{1328,1328,29},{1329,1366,0},{1367,1368,29},{1369,1369,3},{1370,1375,17},{1376,1416,1},{1417,1417,17},{1418,1418,12},{1419,1420,29},{1421,1422,21},{1423,1423,19},{1424,1424,29},{1425,1469,5},{1470,1470,12},{1471,1471,5},{1472,1472,17},{1473,1474,5},{1475,1475,17},{1476,1477,5},{1478,1478,17},{1479,1479,5},{1480,1487,29},{1488,1514,4},{1515,1518,29},{1519,1522,4},{1523,1524,17},{1525,1535,29},{1536,1541,26},{1542,1544,18},{1545,1546,17},{1547,1547,19},{1548,1549,17},{1550,1551,21},{1552,1562,5},{1563,1563,17},{1564,1564,26},{1565,1567,17},{1568,1599,4},{1600,1600,3},{1601,1610,4},{1611,1631,5},{1632,1641,8},{1642,1645,17},{1646,1647,4},{1648,1648,5},{1649,1747,4},{1748,1748,17},{1749,1749,4},{1750,1756,5},{1757,1757,26},{1758,1758,21},{1759,1764,5},{1765,1766,3},{1767,1768,5},{1769,1769,21},{1770,1773,5},{1774,1775,4},{1776,1785,8},{1786,1788,4},{1789,1790,21},{1791,1791,4},{1792,1805,17},{1806,1806,29},{1807,1807,26},{1808,1808,4},{1809,1809,5},{1810,1839,4},{1840,1866,5},{1867,1868,29},{1869,1957,4},{1958,1968,5},{1969,1969,4},{1970,1983,29},{1984,1993,8},{1994,2026,4},{2027,2035,5},{2036,2037,3},{2038,2038,21},{2039,2041,17},{2042,2042,3},{2043,2044,29},{2045,2045,5},{2046,2047,19},{2048,2069,4},{2070,2073,5},{2074,2074,3},{2075,2083,5},{2084,2084,3},{2085,2087,5},{2088,2088,3},{2089,2093,5},{2094,2095,29},{2096,2110,17},{2111,2111,29},{2112,2136,4},{2137,2139,5},{2140,2141,29},{2142,2142,17},{2143,2143,29},{2144,2154,4},{2155,2159,29},{2160,2183,4},{2184,2184,20},{2185,2190,4},{2191,2191,29},{2192,2193,26},{2194,2199,29},{2200,2207,5},{2208,2248,4},{2249,2249,3},{2250,2273,5},{2274,2274,26},{2275,2306,5},{2307,2307,6},{2308,2361,4},{2362,2362,5},{2363,2363,6},{2364,2364,5},{2365,2365,4},{2366,2368,6},{2369,2376,5},{2377,2380,6},{2381,2381,5},{2382,2383,6},{2384,2384,4},{2385,2391,5},{2392,2401,4},{2402,2403,5},{2404,2405,17},{2406,2415,8},{2416,2416,17},{2417,2417,3},{2418,2432,4},{2433,2433,5},{2434,2435,6},{2436,2436,29},{2437,2444,4},{2445,2446,29},{2447,2448,4},{2449,2450,29},{2451,2472,4},{2473,2473,29},{2474,2480,4},{2481,2481,29},{2482,2482,4},{2483,2485,29},{2486,2489,4},{2490,2491,29},{2492,2492,5},{2493,2493,4},{2494,2496,6},{2497,2500,5},{2501,2502,29},{2503,2504,6},{2505,2506,29},{2507,2508,6},{2509,2509,5},{2510,2510,4},{2511,2518,29},{2519,2519,6},{2520,2523,29},{2524,2525,4},{2526,2526,29},{2527,2529,4},{2530,2531,5},{2532,2533,29},{2534,2543,8},{2544,2545,4},{2546,2547,19},{2548,2553,10},{2554,2554,21},{2555,2555,19},{2556,2556,4},{2557,2557,17},{2558,2558,5},{2559,2560,29},{2561,2562,5},{2563,2563,6},{2564,2564,29},{2565,2570,4},{2571,2574,29},{2575,2576,4},{2577,2578,29},{2579,2600,4},{2601,2601,29},{2602,2608,4},{2609,2609,29},{2610,2611,4},{2612,2612,29},{2613,2614,4},{2615,2615,29},{2616,2617,4},{2618,2619,29},{2620,2620,5},{2621,2621,29},{2622,2624,6},{2625,2626,5},{2627,2630,29},{2631,2632,5},{2633,2634,29},{2635,2637,5},{2638,2640,29},{2641,2641,5},{2642,2648,29},{2649,2652,4},{2653,2653,29},{2654,2654,4},{2655,2661,29},{2662,2671,8},{2672,2673,5},{2674,2676,4},{2677,2677,5},{2678,2678,17},{2679,2688,29},{2689,2690,5},{2691,2691,6},{2692,2692,29},{2693,2701,4},{2702,2702,29},{2703,2705,4},{2706,2706,29},{2707,2728,4},{2729,2729,29},{2730,2736,4},{2737,2737,29},{2738,2739,4},{2740,2740,29},{2741,2745,4},{2746,2747,29},{2748,2748,5},{2749,2749,4},{2750,2752,6},{2753,2757,5},{2758,2758,29},{2759,2760,5},{2761,2761,6},{2762,2762,29},{2763,2764,6},{2765,2765,5},{2766,2767,29},{2768,2768,4},{2769,2783,29},{2784,2785,4},{2786,2787,5},{2788,2789,29},{2790,2799,8},{2800,2800,17},{2801,2801,19},{2802,2808,29},{2809,2809,4},{2810,2815,5},{2816,2816,29},{2817,2817,5},{2818,2819,6},{2820,2820,29},{2821,2828,4},{2829,2830,29},{2831,2832,4},{2833,2834,29},{2835,2856,4},{2857,2857,29},{2858,2864,4},{2865,2865,29},{2866,2867,4},{2868,2868,29},{2869,2873,4},{2874,2875,29},{2876,2876,5},{2877,2877,4},{2878,2878,6},{2879,2879,5},{2880,2880,6},{2881,2884,5},{2885,2886,29},{2887,2888,6},{2889,2890,29},{2891,2892,6},{2893,2893,5},{2894,2900,29},{2901,2902,5},{2903,2903,6},{2904,2907,29},{2908,2909,4},{2910,2910,29},{2911,2913,4},{2914,2915,5},{2916,2917,29},{2918,2927,8},{2928,2928,21},{2929,2929,4},{2930,2935,10},{2936,2945,29},{2946,2946,5},{2947,2947,4},{2948,2948,29},{2949,2954,4},{2955,2957,29},{2958,2960,4},{2961,2961,29},{2962,2965,4},{2966,2968,29},{2969,2970,4},{2971,2971,29},{2972,2972,4},{2973,2973,29},{2974,2975,4},{2976,2978,29},{2979,2980,4},{2981,2983,29},{2984,2986,4},{2987,2989,29},{2990,3001,4},{3002,3005,29},{3006,3007,6},{3008,3008,5},{3009,3010,6},{3011,3013,29},{3014,3016,6},{3017,3017,29},{3018,3020,6},{3021,3021,5},{3022,3023,29},{3024,3024,4},{3025,3030,29},{3031,3031,6},{3032,3045,29},{3046,3055,8},{3056,3058,10},{3059,3064,21},{3065,3065,19},{3066,3066,21},{3067,3071,29},{3072,3072,5},{3073,3075,6},{3076,3076,5},{3077,3084,4},{3085,3085,29},{3086,3088,4},{3089,3089,29},{3090,3112,4},{3113,3113,29},{3114,3129,4},{3130,3131,29},{3132,3132,5},{3133,3133,4},{3134,3136,5},{3137,3140,6},{3141,3141,29},{3142,3144,5},{3145,3145,29},{3146,3149,5},{3150,3156,29},{3157,3158,5},{3159,3159,29},{3160,3162,4},{3163,3164,29},{3165,3165,4},{3166,3167,29},{3168,3169,4},{3170,3171,5},{3172,3173,29},{3174,3183,8},{3184,3190,29},{3191,3191,17},{3192,3198,10},{3199,3199,21},{3200,3200,4},{3201,3201,5},{3202,3203,6},{3204,3204,17},{3205,3212,4},{3213,3213,29},{3214,3216,4},{3217,3217,29},{3218,3240,4},{3241,3241,29},{3242,3251,4},{3252,3252,29},{3253,3257,4},{3258,3259,29},{3260,3260,5},{3261,3261,4},{3262,3262,6},{3263,3263,5},{3264,3268,6},{3269,3269,29},{3270,3270,5},{3271,3272,6},{3273,3273,29},{3274,3275,6},{3276,3277,5},{3278,3284,29},{3285,3286,6},{3287,3292,29},{3293,3294,4},{3295,3295,29},{3296,3297,4},{3298,3299,5},{3300,3301,29},{3302,3311,8},{3312,3312,29},{3313,3314,4},{3315,3315,6},{3316,3327,29},{3328,3329,5},{3330,3331,6},{3332,3340,4},{3341,3341,29},{3342,3344,4},{3345,3345,29},{3346,3386,4},{3387,3388,5},{3389,3389,4},{3390,3392,6},{3393,3396,5},{3397,3397,29},{3398,3400,6},{3401,3401,29},{3402,3404,6},{3405,3405,5},{3406,3406,4},{3407,3407,21},{3408,3411,29},{3412,3414,4},{3415,3415,6},{3416,3422,10},{3423,3425,4},{3426,3427,5},{3428,3429,29},{3430,3439,8},{3440,3448,10},{3449,3449,21},{3450,3455,4},{3456,3456,29},{3457,3457,5},{3458,3459,6},{3460,3460,29},{3461,3478,4},{3479,3481,29},{3482,3505,4},{3506,3506,29},{3507,3515,4},{3516,3516,29},{3517,3517,4},{3518,3519,29},{3520,3526,4},{3527,3529,29},{3530,3530,5},{3531,3534,29},{3535,3537,6},{3538,3540,5},{3541,3541,29},{3542,3542,5},{3543,3543,29},{3544,3551,6},{3552,3557,29},{3558,3567,8},{3568,3569,29},{3570,3571,6},{3572,3572,17},{3573,3584,29},{3585,3632,4},{3633,3633,5},{3634,3635,4},{3636,3642,5},{3643,3646,29},{3647,3647,19},{3648,3653,4},{3654,3654,3},{3655,3662,5},{3663,3663,17},{3664,3673,8},{3674,3675,17},{3676,3712,29},{3713,3714,4},{3715,3715,29},{3716,3716,4},{3717,3717,29},{3718,3722,4},{3723,3723,29},{3724,3747,4},{3748,3748,29},{3749,3749,4},{3750,3750,29},{3751,3760,4},{3761,3761,5},{3762,3763,4},{3764,3772,5},{3773,3773,4},{3774,3775,29},{3776,3780,4},{3781,3781,29},{3782,3782,3},{3783,3783,29},{3784,3790,5},{3791,3791,29},{3792,3801,8},{3802,3803,29},{3804,3807,4},{3808,3839,29},{3840,3840,4},{3841,3843,21},{3844,3858,17},{3859,3859,21},{3860,3860,17},{3861,3863,21},{3864,3865,5},{3866,3871,21},{3872,3881,8},{3882,3891,10},{3892,3892,21},{3893,3893,5},{3894,3894,21},{3895,3895,5},{3896,3896,21},{3897,3897,5},{3898,3898,13},{3899,3899,14},{3900,3900,13},{3901,3901,14},{3902,3903,6},{3904,3911,4},{3912,3912,29},{3913,3948,4},{3949,3952,29},{3953,3966,5},{3967,3967,6},{3968,3972,5},{3973,3973,17},{3974,3975,5},{3976,3980,4},{3981,3991,5},{3992,3992,29},{3993,4028,5},{4029,4029,29},{4030,4037,21},{4038,4038,5},{4039,4044,21},{4045,4045,29},{4046,4047,21},{4048,4052,17},{4053,4056,21},{4057,4058,17},{4059,4095,29},{4096,4138,4},{4139,4140,6},{4141,4144,5},{4145,4145,6},{4146,4151,5},{4152,4152,6},{4153,4154,5},{4155,4156,6},{4157,4158,5},{4159,4159,4},{4160,4169,8},{4170,4175,17},{4176,4181,4},{4182,4183,6},{4184,4185,5},{4186,4189,4},{4190,4192,5},{4193,4193,4},{4194,4196,6},{4197,4198,4},{4199,4205,6},{4206,4208,4},{4209,4212,5},{4213,4225,4},{4226,4226,5},{4227,4228,6},{4229,4230,5},{4231,4236,6},{4237,4237,5},{4238,4238,4},{4239,4239,6},{4240,4249,8},{4250,4252,6},{4253,4253,5},{4254,4255,21},{4256,4293,0},{4294,4294,29},{4295,4295,0},{4296,4300,29},{4301,4301,0},{4302,4303,29},{4304,4346,1},{4347,4347,17},{4348,4348,3},{4349,4351,1},{4352,4680,4},{4681,4681,29},{4682,4685,4},{4686,4687,29},{4688,4694,4},{4695,4695,29},{4696,4696,4},{4697,4697,29},{4698,4701,4},{4702,4703,29},{4704,4744,4},{4745,4745,29},{4746,4749,4},{4750,4751,29},{4752,4784,4},{4785,4785,29},{4786,4789,4},{4790,4791,29},{4792,4798,4},{4799,4799,29},{4800,4800,4},{4801,4801,29},{4802,4805,4},{4806,4807,29},{4808,4822,4},{4823,4823,29},{4824,4880,4},{4881,4881,29},{4882,4885,4},{4886,4887,29},{4888,4954,4},{4955,4956,29},{4957,4959,5},{4960,4968,17},{4969,4988,10},{4989,4991,29},{4992,5007,4},{5008,5017,21},{5018,5023,29},{5024,5109,0},{5110,5111,29},{5112,5117,1},{5118,5119,29},{5120,5120,12},{5121,5740,4},{5741,5741,21},{5742,5742,17},{5743,5759,4},{5760,5760,22},{5761,5786,4},{5787,5787,13},{5788,5788,14},{5789,5791,29},{5792,5866,4},{5867,5869,17},{5870,5872,9},{5873,5880,4},{5881,5887,29},{5888,5905,4},{5906,5908,5},{5909,5909,6},{5910,5918,29},{5919,5937,4},{5938,5939,5},{5940,5940,6},{5941,5942,17},{5943,5951,29},{5952,5969,4},{5970,5971,5},{5972,5983,29},{5984,5996,4},{5997,5997,29},{5998,6000,4},{6001,6001,29},{6002,6003,5},{6004,6015,29},{6016,6067,4},{6068,6069,5},{6070,6070,6},{6071,6077,5},{6078,6085,6},{6086,6086,5},{6087,6088,6},{6089,6099,5},{6100,6102,17},{6103,6103,3},{6104,6106,17},{6107,6107,19},{6108,6108,4},{6109,6109,5},{6110,6111,29},{6112,6121,8},{6122,6127,29},{6128,6137,10},{6138,6143,29},{6144,6149,17},{6150,6150,12},{6151,6154,17},{6155,6157,5},{6158,6158,26},{6159,6159,5},{6160,6169,8},{6170,6175,29},{6176,6210,4},{6211,6211,3},{6212,6264,4},{6265,6271,29},{6272,6276,4},{6277,6278,5},{6279,6312,4},{6313,6313,5},{6314,6314,4},{6315,6319,29},{6320,6389,4},{6390,6399,29},{6400,6430,4},{6431,6431,29},{6432,6434,5},{6435,6438,6},{6439,6440,5},{6441,6443,6},{6444,6447,29},{6448,6449,6},{6450,6450,5},{6451,6456,6},{6457,6459,5},{6460,6463,29},{6464,6464,21},{6465,6467,29},{6468,6469,17},{6470,6479,8},{6480,6509,4},{6510,6511,29},{6512,6516,4},{6517,6527,29},{6528,6571,4},{6572,6575,29},{6576,6601,4},{6602,6607,29},{6608,6617,8},{6618,6618,10},{6619,6621,29},{6622,6655,21},{6656,6678,4},{6679,6680,5},{6681,6682,6},{6683,6683,5},{6684,6685,29},{6686,6687,17},{6688,6740,4},{6741,6741,6},{6742,6742,5},{6743,6743,6},{6744,6750,5},{6751,6751,29},{6752,6752,5},{6753,6753,6},{6754,6754,5},{6755,6756,6},{6757,6764,5},{6765,6770,6},{6771,6780,5},{6781,6782,29},{6783,6783,5},{6784,6793,8},{6794,6799,29},{6800,6809,8},{6810,6815,29},{6816,6822,17},{6823,6823,3},{6824,6829,17},{6830,6831,29},{6832,6845,5},{6846,6846,7},{6847,6862,5},{6863,6911,29},{6912,6915,5},{6916,6916,6},{6917,6963,4},{6964,6964,5},{6965,6965,6},{6966,6970,5},{6971,6971,6},{6972,6972,5},{6973,6977,6},{6978,6978,5},{6979,6980,6},{6981,6988,4},{6989,6991,29},{6992,7001,8},{7002,7008,17},{7009,7018,21},{7019,7027,5},{7028,7036,21},{7037,7038,17},{7039,7039,29},{7040,7041,5},{7042,7042,6},{7043,7072,4},{7073,7073,6},{7074,7077,5},{7078,7079,6},{7080,7081,5},{7082,7082,6},{7083,7085,5},{7086,7087,4},{7088,7097,8},{7098,7141,4},{7142,7142,5},{7143,7143,6},{7144,7145,5},{7146,7148,6},{7149,7149,5},{7150,7150,6},{7151,7153,5},{7154,7155,6},{7156,7163,29},{7164,7167,17},{7168,7203,4},{7204,7211,6},{7212,7219,5},{7220,7221,6},{7222,7223,5},{7224,7226,29},{7227,7231,17},{7232,7241,8},{7242,7244,29},{7245,7247,4},{7248,7257,8},{7258,7287,4},{7288,7293,3},{7294,7295,17},{7296,7304,1},{7305,7311,29},{7312,7354,0},{7355,7356,29},{7357,7359,0},{7360,7367,17},{7368,7375,29},{7376,7378,5},{7379,7379,17},{7380,7392,5},{7393,7393,6},{7394,7400,5},{7401,7404,4},{7405,7405,5},{7406,7411,4},{7412,7412,5},{7413,7414,4},{7415,7415,6},{7416,7417,5},{7418,7418,4},{7419,7423,29},{7424,7467,1},{7468,7530,3},{7531,7543,1},{7544,7544,3},{7545,7578,1},{7579,7615,3},{7616,7679,5},{7680,7680,0},{7681,7681,1},{7682,7682,0},{7683,7683,1},{7684,7684,0},{7685,7685,1},{7686,7686,0},{7687,7687,1},{7688,7688,0},{7689,7689,1},{7690,7690,0},{7691,7691,1},{7692,7692,0},{7693,7693,1},{7694,7694,0},{7695,7695,1},{7696,7696,0},{7697,7697,1},{7698,7698,0},{7699,7699,1},{7700,7700,0},{7701,7701,1},{7702,7702,0},{7703,7703,1},{7704,7704,0},{7705,7705,1},{7706,7706,0},{7707,7707,1},{7708,7708,0},{7709,7709,1},{7710,7710,0},{7711,7711,1},{7712,7712,0},{7713,7713,1},{7714,7714,0},{7715,7715,1},{7716,7716,0},{7717,7717,1},{7718,7718,0},{7719,7719,1},{7720,7720,0},{7721,7721,1},{7722,7722,0},{7723,7723,1},{7724,7724,0},{7725,7725,1},{7726,7726,0},{7727,7727,1},{7728,7728,0},{7729,7729,1},{7730,7730,0},{7731,7731,1},{7732,7732,0},{7733,7733,1},{7734,7734,0},{7735,7735,1},{7736,7736,0},{7737,7737,1},{7738,7738,0},{7739,7739,1},{7740,7740,0},{7741,7741,1},{7742,7742,0},{7743,7743,1},{7744,7744,0},{7745,7745,1},{7746,7746,0},{7747,7747,1},{7748,7748,0},{7749,7749,1},{7750,7750,0},{7751,7751,1},{7752,7752,0},{7753,7753,1},{7754,7754,0},{7755,7755,1},{7756,7756,0},{7757,7757,1},{7758,7758,0},{7759,7759,1},{7760,7760,0},{7761,7761,1},{7762,7762,0},{7763,7763,1},{7764,7764,0},{7765,7765,1},{7766,7766,0},{7767,7767,1},{7768,7768,0},{7769,7769,1},{7770,7770,0},{7771,7771,1},{7772,7772,0},{7773,7773,1},{7774,7774,0},{7775,7775,1},{7776,7776,0},{7777,7777,1},{7778,7778,0},{7779,7779,1},{7780,7780,0},{7781,7781,1},{7782,7782,0},{7783,7783,1},{7784,7784,0},{7785,7785,1},{7786,7786,0},{7787,7787,1},{7788,7788,0},{7789,7789,1},{7790,7790,0},{7791,7791,1},{7792,7792,0},{7793,7793,1},{7794,7794,0},{7795,7795,1},{7796,7796,0},{7797,7797,1},{7798,7798,0},{7799,7799,1},{7800,7800,0},{7801,7801,1},{7802,7802,0},{7803,7803,1},{7804,7804,0},{7805,7805,1},{7806,7806,0},{7807,7807,1},{7808,7808,0},{7809,7809,1},{7810,7810,0},{7811,7811,1},{7812,7812,0},{7813,7813,1},{7814,7814,0},{7815,7815,1},{7816,7816,0},{7817,7817,1},{7818,7818,0},{7819,7819,1},{7820,7820,0},{7821,7821,1},{7822,7822,0},{7823,7823,1},{7824,7824,0},{7825,7825,1},{7826,7826,0},{7827,7827,1},{7828,7828,0},{7829,7837,1},{7838,7838,0},{7839,7839,1},{7840,7840,0},{7841,7841,1},{7842,7842,0},{7843,7843,1},{7844,7844,0},{7845,7845,1},{7846,7846,0},{7847,7847,1},{7848,7848,0},{7849,7849,1},{7850,7850,0},{7851,7851,1},{7852,7852,0},{7853,7853,1},{7854,7854,0},{7855,7855,1},{7856,7856,0},{7857,7857,1},{7858,7858,0},{7859,7859,1},{7860,7860,0},{7861,7861,1},{7862,7862,0},{7863,7863,1},{7864,7864,0},{7865,7865,1},{7866,7866,0},{7867,7867,1},{7868,7868,0},{7869,7869,1},{7870,7870,0},{7871,7871,1},{7872,7872,0},{7873,7873,1},{7874,7874,0},{7875,7875,1},{7876,7876,0},{7877,7877,1},{7878,7878,0},{7879,7879,1},{7880,7880,0},{7881,7881,1},{7882,7882,0},{7883,7883,1},{7884,7884,0},{7885,7885,1},{7886,7886,0},{7887,7887,1},{7888,7888,0},{7889,7889,1},{7890,7890,0},{7891,7891,1},{7892,7892,0},{7893,7893,1},{7894,7894,0},{7895,7895,1},{7896,7896,0},{7897,7897,1},{7898,7898,0},{7899,7899,1},{7900,7900,0},{7901,7901,1},{7902,7902,0},{7903,7903,1},{7904,7904,0},{7905,7905,1},{7906,7906,0},{7907,7907,1},{7908,7908,0},{7909,7909,1},{7910,7910,0},{7911,7911,1},{7912,7912,0},{7913,7913,1},{7914,7914,0},{7915,7915,1},{7916,7916,0},{7917,7917,1},{7918,7918,0},{7919,7919,1},{7920,7920,0},{7921,7921,1},{7922,7922,0},{7923,7923,1},{7924,7924,0},{7925,7925,1},{7926,7926,0},{7927,7927,1},{7928,7928,0},{7929,7929,1},{7930,7930,0},{7931,7931,1},{7932,7932,0},{7933,7933,1},{7934,7934,0},{7935,7943,1},{7944,7951,0},{7952,7957,1},{7958,7959,29},{7960,7965,0},{7966,7967,29},{7968,7975,1},{7976,7983,0},{7984,7991,1},{7992,7999,0},{8000,8005,1},{8006,8007,29},{8008,8013,0},{8014,8015,29},{8016,8023,1},{8024,8024,29},{8025,8025,0},{8026,8026,29},{8027,8027,0},{8028,8028,29},{8029,8029,0},{8030,8030,29},{8031,8031,0},{8032,8039,1},{8040,8047,0},{8048,8061,1},{8062,8063,29},{8064,8071,1},{8072,8079,2},{8080,8087,1},{8088,8095,2},{8096,8103,1},{8104,8111,2},{8112,8116,1},{8117,8117,29},{8118,8119,1},{8120,8123,0},{8124,8124,2},{8125,8125,20},{8126,8126,1},{8127,8129,20},{8130,8132,1},{8133,8133,29},{8134,8135,1},{8136,8139,0},{8140,8140,2},{8141,8143,20},{8144,8147,1},{8148,8149,29},{8150,8151,1},{8152,8155,0},{8156,8156,29},{8157,8159,20},{8160,8167,1},{8168,8172,0},{8173,8175,20},{8176,8177,29},{8178,8180,1},{8181,8181,29},{8182,8183,1},{8184,8187,0},{8188,8188,2},{8189,8190,20},{8191,8191,29},{8192,8202,22},{8203,8207,26},{8208,8213,12},{8214,8215,17},{8216,8216,15},{8217,8217,16},{8218,8218,13},{8219,8220,15},{8221,8221,16},{8222,8222,13},{8223,8223,15},{8224,8231,17},{8232,8232,23},{8233,8233,24},{8234,8238,26},{8239,8239,22},{8240,8248,17},{8249,8249,15},{8250,8250,16},{8251,8254,17},{8255,8256,11},{8257,8259,17},{8260,8260,18},{8261,8261,13},{8262,8262,14},{8263,8273,17},{8274,8274,18},{8275,8275,17},{8276,8276,11},{8277,8286,17},{8287,8287,22},{8288,8292,26},{8293,8293,29},{8294,8303,26},{8304,8304,10},{8305,8305,3},{8306,8307,29},{8308,8313,10},{8314,8316,18},{8317,8317,13},{8318,8318,14},{8319,8319,3},{8320,8329,10},{8330,8332,18},{8333,8333,13},{8334,8334,14},{8335,8335,29},{8336,8348,3},{8349,8351,29},{8352,8384,19},{8385,8399,29},{8400,8412,5},{8413,8416,7},{8417,8417,5},{8418,8420,7},{8421,8432,5},{8433,8447,29},{8448,8449,21},{8450,8450,0},{8451,8454,21},{8455,8455,0},{8456,8457,21},{8458,8458,1},{8459,8461,0},{8462,8463,1},{8464,8466,0},{8467,8467,1},{8468,8468,21},{8469,8469,0},{8470,8471,21},{8472,8472,18},{8473,8477,0},{8478,8483,21},{8484,8484,0},{8485,8485,21},{8486,8486,0},{8487,8487,21},{8488,8488,0},{8489,8489,21},{8490,8493,0},{8494,8494,21},{8495,8495,1},{8496,8499,0},{8500,8500,1},{8501,8504,4},{8505,8505,1},{8506,8507,21},{8508,8509,1},{8510,8511,0},{8512,8516,18},{8517,8517,0},{8518,8521,1},{8522,8522,21},{8523,8523,18},{8524,8525,21},{8526,8526,1},{8527,8527,21},{8528,8543,10},{8544,8578,9},{8579,8579,0},{8580,8580,1},{8581,8584,9},{8585,8585,10},{8586,8587,21},{8588,8591,29},{8592,8596,18},{8597,8601,21},{8602,8603,18},{8604,8607,21},{8608,8608,18},{8609,8610,21},{8611,8611,18},{8612,8613,21},{8614,8614,18},{8615,8621,21},{8622,8622,18},{8623,8653,21},{8654,8655,18},{8656,8657,21},{8658,8658,18},{8659,8659,21},{8660,8660,18},{8661,8691,21},{8692,8959,18},{8960,8967,21},{8968,8968,13},{8969,8969,14},{8970,8970,13},{8971,8971,14},{8972,8991,21},{8992,8993,18},{8994,9000,21},{9001,9001,13},{9002,9002,14},{9003,9083,21},{9084,9084,18},{9085,9114,21},{9115,9139,18},{9140,9179,21},{9180,9185,18},{9186,9254,21},{9255,9279,29},{9280,9290,21},{9291,9311,29},{9312,9371,10},{9372,9449,21},{9450,9471,10},{9472,9654,21},{9655,9655,18},{9656,9664,21},{9665,9665,18},{9666,9719,21},{9720,9727,18},{9728,9838,21},{9839,9839,18},{9840,10087,21},{10088,10088,13},{10089,10089,14},{10090,10090,13},{10091,10091,14},{10092,10092,13},{10093,10093,14},{10094,10094,13},{10095,10095,14},{10096,10096,13},{10097,10097,14},{10098,10098,13},{10099,10099,14},{10100,10100,13},{10101,10101,14},{10102,10131,10},{10132,10175,21},{10176,10180,18},{10181,10181,13},{10182,10182,14},{10183,10213,18},{10214,10214,13},{10215,10215,14},{10216,10216,13},{10217,10217,14},{10218,10218,13},{10219,10219,14},{10220,10220,13},{10221,10221,14},{10222,10222,13},{10223,10223,14},{10224,10239,18},{10240,10495,21},{10496,10626,18},{10627,10627,13},{10628,10628,14},{10629,10629,13},{10630,10630,14},{10631,10631,13},{10632,10632,14},{10633,10633,13},{10634,10634,14},{10635,10635,13},{10636,10636,14},{10637,10637,13},{10638,10638,14},{10639,10639,13},{10640,10640,14},{10641,10641,13},{10642,10642,14},{10643,10643,13},{10644,10644,14},{10645,10645,13},{10646,10646,14},{10647,10647,13},{10648,10648,14},{10649,10711,18},{10712,10712,13},{10713,10713,14},{10714,10714,13},{10715,10715,14},{10716,10747,18},{10748,10748,13},{10749,10749,14},{10750,11007,18},{11008,11055,21},{11056,11076,18},{11077,11078,21},{11079,11084,18},{11085,11123,21},{11124,11125,29},{11126,11157,21},{11158,11158,29},{11159,11263,21},{11264,11311,0},{11312,11359,1},{11360,11360,0},{11361,11361,1},{11362,11364,0},{11365,11366,1},{11367,11367,0},{11368,11368,1},{11369,11369,0},{11370,11370,1},{11371,11371,0},{11372,11372,1},{11373,11376,0},{11377,11377,1},{11378,11378,0},{11379,11380,1},{11381,11381,0},{11382,11387,1},{11388,11389,3},{11390,11392,0},{11393,11393,1},{11394,11394,0},{11395,11395,1},{11396,11396,0},{11397,11397,1},{11398,11398,0},{11399,11399,1},{11400,11400,0},{11401,11401,1},{11402,11402,0},{11403,11403,1},{11404,11404,0},{11405,11405,1},{11406,11406,0},{11407,11407,1},{11408,11408,0},{11409,11409,1},{11410,11410,0},{11411,11411,1},{11412,11412,0},{11413,11413,1},{11414,11414,0},{11415,11415,1},{11416,11416,0},{11417,11417,1},{11418,11418,0},{11419,11419,1},{11420,11420,0},{11421,11421,1},{11422,11422,0},{11423,11423,1},{11424,11424,0},{11425,11425,1},{11426,11426,0},{11427,11427,1},{11428,11428,0},{11429,11429,1},{11430,11430,0},{11431,11431,1},{11432,11432,0},{11433,11433,1},{11434,11434,0},{11435,11435,1},{11436,11436,0},{11437,11437,1},{11438,11438,0},{11439,11439,1},{11440,11440,0},{11441,11441,1},{11442,11442,0},{11443,11443,1},{11444,11444,0},{11445,11445,1},{11446,11446,0},{11447,11447,1},{11448,11448,0},{11449,11449,1},{11450,11450,0},{11451,11451,1},{11452,11452,0},{11453,11453,1},{11454,11454,0},{11455,11455,1},{11456,11456,0},{11457,11457,1},{11458,11458,0},{11459,11459,1},{11460,11460,0},{11461,11461,1},{11462,11462,0},{11463,11463,1},{11464,11464,0},{11465,11465,1},{11466,11466,0},{11467,11467,1},{11468,11468,0},{11469,11469,1},{11470,11470,0},{11471,11471,1},{11472,11472,0},{11473,11473,1},{11474,11474,0},{11475,11475,1},{11476,11476,0},{11477,11477,1},{11478,11478,0},{11479,11479,1},{11480,11480,0},{11481,11481,1},{11482,11482,0},{11483,11483,1},{11484,11484,0},{11485,11485,1},{11486,11486,0},{11487,11487,1},{11488,11488,0},{11489,11489,1},{11490,11490,0},{11491,11492,1},{11493,11498,21},{11499,11499,0},{11500,11500,1},{11501,11501,0},{11502,11502,1},{11503,11505,5},{11506,11506,0},{11507,11507,1},{11508,11512,29},{11513,11516,17},{11517,11517,10},{11518,11519,17},{11520,11557,1},{11558,11558,29},{11559,11559,1},{11560,11564,29},{11565,11565,1},{11566,11567,29},{11568,11623,4},{11624,11630,29},{11631,11631,3},{11632,11632,17},{11633,11646,29},{11647,11647,5},{11648,11670,4},{11671,11679,29},{11680,11686,4},{11687,11687,29},{11688,11694,4},{11695,11695,29},{11696,11702,4},{11703,11703,29},{11704,11710,4},{11711,11711,29},{11712,11718,4},{11719,11719,29},{11720,11726,4},{11727,11727,29},{11728,11734,4},{11735,11735,29},{11736,11742,4},{11743,11743,29},{11744,11775,5},{11776,11777,17},{11778,11778,15},{11779,11779,16},{11780,11780,15},{11781,11781,16},{11782,11784,17},{11785,11785,15},{11786,11786,16},{11787,11787,17},{11788,11788,15},{11789,11789,16},{11790,11798,17},{11799,11799,12},{11800,11801,17},{11802,11802,12},{11803,11803,17},{11804,11804,15},{11805,11805,16},{11806,11807,17},{11808,11808,15},{11809,11809,16},{11810,11810,13},{11811,11811,14},{11812,11812,13},{11813,11813,14},{11814,11814,13},{11815,11815,14},{11816,11816,13},{11817,11817,14},{11818,11822,17},{11823,11823,3},{11824,11833,17},{11834,11835,12},{11836,11839,17},{11840,11840,12},{11841,11841,17},{11842,11842,13},{11843,11855,17},{11856,11857,21},{11858,11860,17},{11861,11861,13},{11862,11862,14},{11863,11863,13},{11864,11864,14},{11865,11865,13},{11866,11866,14},{11867,11867,13},{11868,11868,14},{11869,11869,12},{11870,11903,29},{11904,11929,21},{11930,11930,29},{11931,12019,21},{12020,12031,29},{12032,12245,21},{12246,12271,29},{12272,12283,21},{12284,12287,29},{12288,12288,22},{12289,12291,17},{12292,12292,21},{12293,12293,3},{12294,12294,4},{12295,12295,9},{12296,12296,13},{12297,12297,14},{12298,12298,13},{12299,12299,14},{12300,12300,13},{12301,12301,14},{12302,12302,13},{12303,12303,14},{12304,12304,13},{12305,12305,14},{12306,12307,21},{12308,12308,13},{12309,12309,14},{12310,12310,13},{12311,12311,14},{12312,12312,13},{12313,12313,14},{12314,12314,13},{12315,12315,14},{12316,12316,12},{12317,12317,13},{12318,12319,14},{12320,12320,21},{12321,12329,9},{12330,12333,5},{12334,12335,6},{12336,12336,12},{12337,12341,3},{12342,12343,21},{12344,12346,9},{12347,12347,3},{12348,12348,4},{12349,12349,17},{12350,12351,21},{12352,12352,29},{12353,12438,4},{12439,12440,29},{12441,12442,5},{12443,12444,20},{12445,12446,3},{12447,12447,4},{12448,12448,12},{12449,12538,4},{12539,12539,17},{12540,12542,3},{12543,12543,4},{12544,12548,29},{12549,12591,4},{12592,12592,29},{12593,12686,4},{12687,12687,29},{12688,12689,21},{12690,12693,10},{12694,12703,21},{12704,12735,4},{12736,12771,21},{12772,12783,29},{12784,12799,4},{12800,12830,21},{12831,12831,29},{12832,12841,10},{12842,12871,21},{12872,12879,10},{12880,12880,21},{12881,12895,10},{12896,12927,21},{12928,12937,10},{12938,12976,21},{12977,12991,10},{12992,13311,21},{13312,19903,4},{19904,19967,21},{19968,40980,4},{40981,40981,3},{40982,42124,4},{42125,42127,29},{42128,42182,21},{42183,42191,29},{42192,42231,4},{42232,42237,3},{42238,42239,17},{42240,42507,4},{42508,42508,3},{42509,42511,17},{42512,42527,4},{42528,42537,8},{42538,42539,4},{42540,42559,29},{42560,42560,0},{42561,42561,1},{42562,42562,0},{42563,42563,1},{42564,42564,0},{42565,42565,1},{42566,42566,0},{42567,42567,1},{42568,42568,0},{42569,42569,1},{42570,42570,0},{42571,42571,1},{42572,42572,0},{42573,42573,1},{42574,42574,0},{42575,42575,1},{42576,42576,0},{42577,42577,1},{42578,42578,0},{42579,42579,1},{42580,42580,0},{42581,42581,1},{42582,42582,0},{42583,42583,1},{42584,42584,0},{42585,42585,1},{42586,42586,0},{42587,42587,1},{42588,42588,0},{42589,42589,1},{42590,42590,0},{42591,42591,1},{42592,42592,0},{42593,42593,1},{42594,42594,0},{42595,42595,1},{42596,42596,0},{42597,42597,1},{42598,42598,0},{42599,42599,1},{42600,42600,0},{42601,42601,1},{42602,42602,0},{42603,42603,1},{42604,42604,0},{42605,42605,1},{42606,42606,4},{42607,42607,5},{42608,42610,7},{42611,42611,17},{42612,42621,5},{42622,42622,17},{42623,42623,3},{42624,42624,0},{42625,42625,1},{42626,42626,0},{42627,42627,1},{42628,42628,0},{42629,42629,1},{42630,42630,0},{42631,42631,1},{42632,42632,0},{42633,42633,1},{42634,42634,0},{42635,42635,1},{42636,42636,0},{42637,42637,1},{42638,42638,0},{42639,42639,1},{42640,42640,0},{42641,42641,1},{42642,42642,0},{42643,42643,1},{42644,42644,0},{42645,42645,1},{42646,42646,0},{42647,42647,1},{42648,42648,0},{42649,42649,1},{42650,42650,0},{42651,42651,1},{42652,42653,3},{42654,42655,5},{42656,42725,4},{42726,42735,9},{42736,42737,5},{42738,42743,17},{42744,42751,29},{42752,42774,20},{42775,42783,3},{42784,42785,20},{42786,42786,0},{42787,42787,1},{42788,42788,0},{42789,42789,1},{42790,42790,0},{42791,42791,1},{42792,42792,0},{42793,42793,1},{42794,42794,0},{42795,42795,1},{42796,42796,0},{42797,42797,1},{42798,42798,0},{42799,42801,1},{42802,42802,0},{42803,42803,1},{42804,42804,0},{42805,42805,1},{42806,42806,0},{42807,42807,1},{42808,42808,0},{42809,42809,1},{42810,42810,0},{42811,42811,1},{42812,42812,0},{42813,42813,1},{42814,42814,0},{42815,42815,1},{42816,42816,0},{42817,42817,1},{42818,42818,0},{42819,42819,1},{42820,42820,0},{42821,42821,1},{42822,42822,0},{42823,42823,1},{42824,42824,0},{42825,42825,1},{42826,42826,0},{42827,42827,1},{42828,42828,0},{42829,42829,1},{42830,42830,0},{42831,42831,1},{42832,42832,0},{42833,42833,1},{42834,42834,0},{42835,42835,1},{42836,42836,0},{42837,42837,1},{42838,42838,0},{42839,42839,1},{42840,42840,0},{42841,42841,1},{42842,42842,0},{42843,42843,1},{42844,42844,0},{42845,42845,1},{42846,42846,0},{42847,42847,1},{42848,42848,0},{42849,42849,1},{42850,42850,0},{42851,42851,1},{42852,42852,0},{42853,42853,1},{42854,42854,0},{42855,42855,1},{42856,42856,0},{42857,42857,1},{42858,42858,0},{42859,42859,1},{42860,42860,0},{42861,42861,1},{42862,42862,0},{42863,42863,1},{42864,42864,3},{42865,42872,1},{42873,42873,0},{42874,42874,1},{42875,42875,0},{42876,42876,1},{42877,42878,0},{42879,42879,1},{42880,42880,0},{42881,42881,1},{42882,42882,0},{42883,42883,1},{42884,42884,0},{42885,42885,1},{42886,42886,0},{42887,42887,1},{42888,42888,3},{42889,42890,20},{42891,42891,0},{42892,42892,1},{42893,42893,0},{42894,42894,1},{42895,42895,4},{42896,42896,0},{42897,42897,1},{42898,42898,0},{42899,42901,1},{42902,42902,0},{42903,42903,1},{42904,42904,0},{42905,42905,1},{42906,42906,0},{42907,42907,1},{42908,42908,0},{42909,42909,1},{42910,42910,0},{42911,42911,1},{42912,42912,0},{42913,42913,1},{42914,42914,0},{42915,42915,1},{42916,42916,0},{42917,42917,1},{42918,42918,0},{42919,42919,1},{42920,42920,0},{42921,42921,1},{42922,42926,0},{42927,42927,1},{42928,42932,0},{42933,42933,1},{42934,42934,0},{42935,42935,1},{42936,42936,0},{42937,42937,1},{42938,42938,0},{42939,42939,1},{42940,42940,0},{42941,42941,1},{42942,42942,0},{42943,42943,1},{42944,42944,0},{42945,42945,1},{42946,42946,0},{42947,42947,1},{42948,42951,0},{42952,42952,1},{42953,42953,0},{42954,42954,1},{42955,42959,29},{42960,42960,0},{42961,42961,1},{42962,42962,29},{42963,42963,1},{42964,42964,29},{42965,42965,1},{42966,42966,0},{42967,42967,1},{42968,42968,0},{42969,42969,1},{42970,42993,29},{42994,42996,3},{42997,42997,0},{42998,42998,1},{42999,42999,4},{43000,43001,3},{43002,43002,1},{43003,43009,4},{43010,43010,5},{43011,43013,4},{43014,43014,5},{43015,43018,4},{43019,43019,5},{43020,43042,4},{43043,43044,6},{43045,43046,5},{43047,43047,6},{43048,43051,21},{43052,43052,5},{43053,43055,29},{43056,43061,10},{43062,43063,21},{43064,43064,19},{43065,43065,21},{43066,43071,29},{43072,43123,4},{43124,43127,17},{43128,43135,29},{43136,43137,6},{43138,43187,4},{43188,43203,6},{43204,43205,5},{43206,43213,29},{43214,43215,17},{43216,43225,8},{43226,43231,29},{43232,43249,5},{43250,43255,4},{43256,43258,17},{43259,43259,4},{43260,43260,17},{43261,43262,4},{43263,43263,5},{43264,43273,8},{43274,43301,4},{43302,43309,5},{43310,43311,17},{43312,43334,4},{43335,43345,5},{43346,43347,6},{43348,43358,29},{43359,43359,17},{43360,43388,4},{43389,43391,29},{43392,43394,5},{43395,43395,6},{43396,43442,4},{43443,43443,5},{43444,43445,6},{43446,43449,5},{43450,43451,6},{43452,43453,5},{43454,43456,6},{43457,43469,17},{43470,43470,29},{43471,43471,3},{43472,43481,8},{43482,43485,29},{43486,43487,17},{43488,43492,4},{43493,43493,5},{43494,43494,3},{43495,43503,4},{43504,43513,8},{43514,43518,4},{43519,43519,29},{43520,43560,4},{43561,43566,5},{43567,43568,6},{43569,43570,5},{43571,43572,6},{43573,43574,5},{43575,43583,29},{43584,43586,4},{43587,43587,5},{43588,43595,4},{43596,43596,5},{43597,43597,6},{43598,43599,29},{43600,43609,8},{43610,43611,29},{43612,43615,17},{43616,43631,4},{43632,43632,3},{43633,43638,4},{43639,43641,21},{43642,43642,4},{43643,43643,6},{43644,43644,5},{43645,43645,6},{43646,43695,4},{43696,43696,5},{43697,43697,4},{43698,43700,5},{43701,43702,4},{43703,43704,5},{43705,43709,4},{43710,43711,5},{43712,43712,4},{43713,43713,5},{43714,43714,4},{43715,43738,29},{43739,43740,4},{43741,43741,3},{43742,43743,17},{43744,43754,4},{43755,43755,6},{43756,43757,5},{43758,43759,6},{43760,43761,17},{43762,43762,4},{43763,43764,3},{43765,43765,6},{43766,43766,5},{43767,43776,29},{43777,43782,4},{43783,43784,29},{43785,43790,4},{43791,43792,29},{43793,43798,4},{43799,43807,29},{43808,43814,4},{43815,43815,29},{43816,43822,4},{43823,43823,29},{43824,43866,1},{43867,43867,20},{43868,43871,3},{43872,43880,1},{43881,43881,3},{43882,43883,20},{43884,43887,29},{43888,43967,1},{43968,44002,4},{44003,44004,6},{44005,44005,5},{44006,44007,6},{44008,44008,5},{44009,44010,6},{44011,44011,17},{44012,44012,6},{44013,44013,5},{44014,44015,29},{44016,44025,8},{44026,44031,29},{44032,55203,4},{55204,55215,29},{55216,55238,4},{55239,55242,29},{55243,55291,4},{55292,55295,29},{55296,57343,27},{57344,63743,28},{63744,64109,4},{64110,64111,29},{64112,64217,4},{64218,64255,29},{64256,64262,1},{64263,64274,29},{64275,64279,1},{64280,64284,29},{64285,64285,4},{64286,64286,5},{64287,64296,4},{64297,64297,18},{64298,64310,4},{64311,64311,29},{64312,64316,4},{64317,64317,29},{64318,64318,4},{64319,64319,29},{64320,64321,4},{64322,64322,29},{64323,64324,4},{64325,64325,29},{64326,64433,4},{64434,64450,20},{64451,64466,29},{64467,64829,4},{64830,64830,14},{64831,64831,13},{64832,64847,21},{64848,64911,4},{64912,64913,29},{64914,64967,4},{64968,64974,29},{64975,64975,21},{64976,65007,29},{65008,65019,4},{65020,65020,19},{65021,65023,21},{65024,65039,5},{65040,65046,17},{65047,65047,13},{65048,65048,14},{65049,65049,17},{65050,65055,29},{65056,65071,5},{65072,65072,17},{65073,65074,12},{65075,65076,11},{65077,65077,13},{65078,65078,14},{65079,65079,13},{65080,65080,14},{65081,65081,13},{65082,65082,14},{65083,65083,13},{65084,65084,14},{65085,65085,13},{65086,65086,14},{65087,65087,13},{65088,65088,14},{65089,65089,13},{65090,65090,14},{65091,65091,13},{65092,65092,14},{65093,65094,17},{65095,65095,13},{65096,65096,14},{65097,65100,17},{65101,65103,11},{65104,65106,17},{65107,65107,29},{65108,65111,17},{65112,65112,12},{65113,65113,13},{65114,65114,14},{65115,65115,13},{65116,65116,14},{65117,65117,13},{65118,65118,14},{65119,65121,17},{65122,65122,18},{65123,65123,12},{65124,65126,18},{65127,65127,29},{65128,65128,17},{65129,65129,19},{65130,65131,17},{65132,65135,29},{65136,65140,4},{65141,65141,29},{65142,65276,4},{65277,65278,29},{65279,65279,26},{65280,65280,29},{65281,65283,17},{65284,65284,19},{65285,65287,17},{65288,65288,13},{65289,65289,14},{65290,65290,17},{65291,65291,18},{65292,65292,17},{65293,65293,12},{65294,65295,17},{65296,65305,8},{65306,65307,17},{65308,65310,18},{65311,65312,17},{65313,65338,0},{65339,65339,13},{65340,65340,17},{65341,65341,14},{65342,65342,20},{65343,65343,11},{65344,65344,20},{65345,65370,1},{65371,65371,13},{65372,65372,18},{65373,65373,14},{65374,65374,18},{65375,65375,13},{65376,65376,14},{65377,65377,17},{65378,65378,13},{65379,65379,14},{65380,65381,17},{65382,65391,4},{65392,65392,3},{65393,65437,4},{65438,65439,3},{65440,65470,4},{65471,65473,29},{65474,65479,4},{65480,65481,29},{65482,65487,4},{65488,65489,29},{65490,65495,4},{65496,65497,29},{65498,65500,4},{65501,65503,29},{65504,65505,19},{65506,65506,18},{65507,65507,20},{65508,65508,21},{65509,65510,19},{65511,65511,29},{65512,65512,21},{65513,65516,18},{65517,65518,21},{65519,65528,29},{65529,65531,26},{65532,65533,21},{65534,65535,29},{65536,65547,4},{65548,65548,29},{65549,65574,4},{65575,65575,29},{65576,65594,4},{65595,65595,29},{65596,65597,4},{65598,65598,29},{65599,65613,4},{65614,65615,29},{65616,65629,4},{65630,65663,29},{65664,65786,4},{65787,65791,29},{65792,65794,17},{65795,65798,29},{65799,65843,10},{65844,65846,29},{65847,65855,21},{65856,65908,9},{65909,65912,10},{65913,65929,21},{65930,65931,10},{65932,65934,21},{65935,65935,29},{65936,65948,21},{65949,65951,29},{65952,65952,21},{65953,65999,29},{66000,66044,21},{66045,66045,5},{66046,66175,29},{66176,66204,4},{66205,66207,29},{66208,66256,4},{66257,66271,29},{66272,66272,5},{66273,66299,10},{66300,66303,29},{66304,66335,4},{66336,66339,10},{66340,66348,29},{66349,66368,4},{66369,66369,9},{66370,66377,4},{66378,66378,9},{66379,66383,29},{66384,66421,4},{66422,66426,5},{66427,66431,29},{66432,66461,4},{66462,66462,29},{66463,66463,17},{66464,66499,4},{66500,66503,29},{66504,66511,4},{66512,66512,17},{66513,66517,9},{66518,66559,29},{66560,66599,0},{66600,66639,1},{66640,66717,4},{66718,66719,29},{66720,66729,8},{66730,66735,29},{66736,66771,0},{66772,66775,29},{66776,66811,1},{66812,66815,29},{66816,66855,4},{66856,66863,29},{66864,66915,4},{66916,66926,29},{66927,66927,17},{66928,66938,0},{66939,66939,29},{66940,66954,0},{66955,66955,29},{66956,66962,0},{66963,66963,29},{66964,66965,0},{66966,66966,29},{66967,66977,1},{66978,66978,29},{66979,66993,1},{66994,66994,29},{66995,67001,1},{67002,67002,29},{67003,67004,1},{67005,67071,29},{67072,67382,4},{67383,67391,29},{67392,67413,4},{67414,67423,29},{67424,67431,4},{67432,67455,29},{67456,67461,3},{67462,67462,29},{67463,67504,3},{67505,67505,29},{67506,67514,3},{67515,67583,29},{67584,67589,4},{67590,67591,29},{67592,67592,4},{67593,67593,29},{67594,67637,4},{67638,67638,29},{67639,67640,4},{67641,67643,29},{67644,67644,4},{67645,67646,29},{67647,67669,4},{67670,67670,29},{67671,67671,17},{67672,67679,10},{67680,67702,4},{67703,67704,21},{67705,67711,10},{67712,67742,4},{67743,67750,29},{67751,67759,10},{67760,67807,29},{67808,67826,4},{67827,67827,29},{67828,67829,4},{67830,67834,29},{67835,67839,10},{67840,67861,4},{67862,67867,10},{67868,67870,29},{67871,67871,17},{67872,67897,4},{67898,67902,29},{67903,67903,17},{67904,67967,29},{67968,68023,4},{68024,68027,29},{68028,68029,10},{68030,68031,4},{68032,68047,10},{68048,68049,29},{68050,68095,10},{68096,68096,4},{68097,68099,5},{68100,68100,29},{68101,68102,5},{68103,68107,29},{68108,68111,5},{68112,68115,4},{68116,68116,29},{68117,68119,4},{68120,68120,29},{68121,68149,4},{68150,68151,29},{68152,68154,5},{68155,68158,29},{68159,68159,5},{68160,68168,10},{68169,68175,29},{68176,68184,17},{68185,68191,29},{68192,68220,4},{68221,68222,10},{68223,68223,17},{68224,68252,4},{68253,68255,10},{68256,68287,29},{68288,68295,4},{68296,68296,21},{68297,68324,4},{68325,68326,5},{68327,68330,29},{68331,68335,10},{68336,68342,17},{68343,68351,29},{68352,68405,4},{68406,68408,29},{68409,68415,17},{68416,68437,4},{68438,68439,29},{68440,68447,10},{68448,68466,4},{68467,68471,29},{68472,68479,10},{68480,68497,4},{68498,68504,29},{68505,68508,17},{68509,68520,29},{68521,68527,10},{68528,68607,29},{68608,68680,4},{68681,68735,29},{68736,68786,0},{68787,68799,29},{68800,68850,1},{68851,68857,29},{68858,68863,10},{68864,68899,4},{68900,68903,5},{68904,68911,29},{68912,68921,8},{68922,69215,29},{69216,69246,10},{69247,69247,29},{69248,69289,4},{69290,69290,29},{69291,69292,5},{69293,69293,12},{69294,69295,29},{69296,69297,4},{69298,69372,29},{69373,69375,5},{69376,69404,4},{69405,69414,10},{69415,69415,4},{69416,69423,29},{69424,69445,4},{69446,69456,5},{69457,69460,10},{69461,69465,17},{69466,69487,29},{69488,69505,4},{69506,69509,5},{69510,69513,17},{69514,69551,29},{69552,69572,4},{69573,69579,10},{69580,69599,29},{69600,69622,4},{69623,69631,29},{69632,69632,6},{69633,69633,5},{69634,69634,6},{69635,69687,4},{69688,69702,5},{69703,69709,17},{69710,69713,29},{69714,69733,10},{69734,69743,8},{69744,69744,5},{69745,69746,4},{69747,69748,5},{69749,69749,4},{69750,69758,29},{69759,69761,5},{69762,69762,6},{69763,69807,4},{69808,69810,6},{69811,69814,5},{69815,69816,6},{69817,69818,5},{69819,69820,17},{69821,69821,26},{69822,69825,17},{69826,69826,5},{69827,69836,29},{69837,69837,26},{69838,69839,29},{69840,69864,4},{69865,69871,29},{69872,69881,8},{69882,69887,29},{69888,69890,5},{69891,69926,4},{69927,69931,5},{69932,69932,6},{69933,69940,5},{69941,69941,29},{69942,69951,8},{69952,69955,17},{69956,69956,4},{69957,69958,6},{69959,69959,4},{69960,69967,29},{69968,70002,4},{70003,70003,5},{70004,70005,17},{70006,70006,4},{70007,70015,29},{70016,70017,5},{70018,70018,6},{70019,70066,4},{70067,70069,6},{70070,70078,5},{70079,70080,6},{70081,70084,4},{70085,70088,17},{70089,70092,5},{70093,70093,17},{70094,70094,6},{70095,70095,5},{70096,70105,8},{70106,70106,4},{70107,70107,17},{70108,70108,4},{70109,70111,17},{70112,70112,29},{70113,70132,10},{70133,70143,29},{70144,70161,4},{70162,70162,29},{70163,70187,4},{70188,70190,6},{70191,70193,5},{70194,70195,6},{70196,70196,5},{70197,70197,6},{70198,70199,5},{70200,70205,17},{70206,70206,5},{70207,70208,4},{70209,70209,5},{70210,70271,29},{70272,70278,4},{70279,70279,29},{70280,70280,4},{70281,70281,29},{70282,70285,4},{70286,70286,29},{70287,70301,4},{70302,70302,29},{70303,70312,4},{70313,70313,17},{70314,70319,29},{70320,70366,4},{70367,70367,5},{70368,70370,6},{70371,70378,5},{70379,70383,29},{70384,70393,8},{70394,70399,29},{70400,70401,5},{70402,70403,6},{70404,70404,29},{70405,70412,4},{70413,70414,29},{70415,70416,4},{70417,70418,29},{70419,70440,4},{70441,70441,29},{70442,70448,4},{70449,70449,29},{70450,70451,4},{70452,70452,29},{70453,70457,4},{70458,70458,29},{70459,70460,5},{70461,70461,4},{70462,70463,6},{70464,70464,5},{70465,70468,6},{70469,70470,29},{70471,70472,6},{70473,70474,29},{70475,70477,6},{70478,70479,29},{70480,70480,4},{70481,70486,29},{70487,70487,6},{70488,70492,29},{70493,70497,4},{70498,70499,6},{70500,70501,29},{70502,70508,5},{70509,70511,29},{70512,70516,5},{70517,70655,29},{70656,70708,4},{70709,70711,6},{70712,70719,5},{70720,70721,6},{70722,70724,5},{70725,70725,6},{70726,70726,5},{70727,70730,4},{70731,70735,17},{70736,70745,8},{70746,70747,17},{70748,70748,29},{70749,70749,17},{70750,70750,5},{70751,70753,4},{70754,70783,29},{70784,70831,4},{70832,70834,6},{70835,70840,5},{70841,70841,6},{70842,70842,5},{70843,70846,6},{70847,70848,5},{70849,70849,6},{70850,70851,5},{70852,70853,4},{70854,70854,17},{70855,70855,4},{70856,70863,29},{70864,70873,8},{70874,71039,29},{71040,71086,4},{71087,71089,6},{71090,71093,5},{71094,71095,29},{71096,71099,6},{71100,71101,5},{71102,71102,6},{71103,71104,5},{71105,71127,17},{71128,71131,4},{71132,71133,5},{71134,71167,29},{71168,71215,4},{71216,71218,6},{71219,71226,5},{71227,71228,6},{71229,71229,5},{71230,71230,6},{71231,71232,5},{71233,71235,17},{71236,71236,4},{71237,71247,29},{71248,71257,8},{71258,71263,29},{71264,71276,17},{71277,71295,29},{71296,71338,4},{71339,71339,5},{71340,71340,6},{71341,71341,5},{71342,71343,6},{71344,71349,5},{71350,71350,6},{71351,71351,5},{71352,71352,4},{71353,71353,17},{71354,71359,29},{71360,71369,8},{71370,71423,29},{71424,71450,4},{71451,71452,29},{71453,71455,5},{71456,71457,6},{71458,71461,5},{71462,71462,6},{71463,71467,5},{71468,71471,29},{71472,71481,8},{71482,71483,10},{71484,71486,17},{71487,71487,21},{71488,71494,4},{71495,71679,29},{71680,71723,4},{71724,71726,6},{71727,71735,5},{71736,71736,6},{71737,71738,5},{71739,71739,17},{71740,71839,29},{71840,71871,0},{71872,71903,1},{71904,71913,8},{71914,71922,10},{71923,71934,29},{71935,71942,4},{71943,71944,29},{71945,71945,4},{71946,71947,29},{71948,71955,4},{71956,71956,29},{71957,71958,4},{71959,71959,29},{71960,71983,4},{71984,71989,6},{71990,71990,29},{71991,71992,6},{71993,71994,29},{71995,71996,5},{71997,71997,6},{71998,71998,5},{71999,71999,4},{72000,72000,6},{72001,72001,4},{72002,72002,6},{72003,72003,5},{72004,72006,17},{72007,72015,29},{72016,72025,8},{72026,72095,29},{72096,72103,4},{72104,72105,29},{72106,72144,4},{72145,72147,6},{72148,72151,5},{72152,72153,29},{72154,72155,5},{72156,72159,6},{72160,72160,5},{72161,72161,4},{72162,72162,17},{72163,72163,4},{72164,72164,6},{72165,72191,29},{72192,72192,4},{72193,72202,5},{72203,72242,4},{72243,72248,5},{72249,72249,6},{72250,72250,4},{72251,72254,5},{72255,72262,17},{72263,72263,5},{72264,72271,29},{72272,72272,4},{72273,72278,5},{72279,72280,6},{72281,72283,5},{72284,72329,4},{72330,72342,5},{72343,72343,6},{72344,72345,5},{72346,72348,17},{72349,72349,4},{72350,72354,17},{72355,72367,29},{72368,72440,4},{72441,72447,29},{72448,72457,17},{72458,72703,29},{72704,72712,4},{72713,72713,29},{72714,72750,4},{72751,72751,6},{72752,72758,5},{72759,72759,29},{72760,72765,5},{72766,72766,6},{72767,72767,5},{72768,72768,4},{72769,72773,17},{72774,72783,29},{72784,72793,8},{72794,72812,10},{72813,72815,29},{72816,72817,17},{72818,72847,4},{72848,72849,29},{72850,72871,5},{72872,72872,29},{72873,72873,6},{72874,72880,5},{72881,72881,6},{72882,72883,5},{72884,72884,6},{72885,72886,5},{72887,72959,29},{72960,72966,4},{72967,72967,29},{72968,72969,4},{72970,72970,29},{72971,73008,4},{73009,73014,5},{73015,73017,29},{73018,73018,5},{73019,73019,29},{73020,73021,5},{73022,73022,29},{73023,73029,5},{73030,73030,4},{73031,73031,5},{73032,73039,29},{73040,73049,8},{73050,73055,29},{73056,73061,4},{73062,73062,29},{73063,73064,4},{73065,73065,29},{73066,73097,4},{73098,73102,6},{73103,73103,29},{73104,73105,5},{73106,73106,29},{73107,73108,6},{73109,73109,5},{73110,73110,6},{73111,73111,5},{73112,73112,4},{73113,73119,29},{73120,73129,8},{73130,73439,29},{73440,73458,4},{73459,73460,5},{73461,73462,6},{73463,73464,17},{73465,73471,29},{73472,73473,5},{73474,73474,4},{73475,73475,6},{73476,73488,4},{73489,73489,29},{73490,73523,4},{73524,73525,6},{73526,73530,5},{73531,73533,29},{73534,73535,6},{73536,73536,5},{73537,73537,6},{73538,73538,5},{73539,73551,17},{73552,73561,8},{73562,73647,29},{73648,73648,4},{73649,73663,29},{73664,73684,10},{73685,73692,21},{73693,73696,19},{73697,73713,21},{73714,73726,29},{73727,73727,17},{73728,74649,4},{74650,74751,29},{74752,74862,9},{74863,74863,29},{74864,74868,17},{74869,74879,29},{74880,75075,4},{75076,77711,29},{77712,77808,4},{77809,77810,17},{77811,77823,29},{77824,78895,4},{78896,78911,26},{78912,78912,5},{78913,78918,4},{78919,78933,5},{78934,82943,29},{82944,83526,4},{83527,92159,29},{92160,92728,4},{92729,92735,29},{92736,92766,4},{92767,92767,29},{92768,92777,8},{92778,92781,29},{92782,92783,17},{92784,92862,4},{92863,92863,29},{92864,92873,8},{92874,92879,29},{92880,92909,4},{92910,92911,29},{92912,92916,5},{92917,92917,17},{92918,92927,29},{92928,92975,4},{92976,92982,5},{92983,92987,17},{92988,92991,21},{92992,92995,3},{92996,92996,17},{92997,92997,21},{92998,93007,29},{93008,93017,8},{93018,93018,29},{93019,93025,10},{93026,93026,29},{93027,93047,4},{93048,93052,29},{93053,93071,4},{93072,93759,29},{93760,93791,0},{93792,93823,1},{93824,93846,10},{93847,93850,17},{93851,93951,29},{93952,94026,4},{94027,94030,29},{94031,94031,5},{94032,94032,4},{94033,94087,6},{94088,94094,29},{94095,94098,5},{94099,94111,3},{94112,94175,29},{94176,94177,3},{94178,94178,17},{94179,94179,3},{94180,94180,5},{94181,94191,29},{94192,94193,6},{94194,94207,29},{94208,100343,4},{100344,100351,29},{100352,101589,4},{101590,101631,29},{101632,101640,4},{101641,110575,29},{110576,110579,3},{110580,110580,29},{110581,110587,3},{110588,110588,29},{110589,110590,3},{110591,110591,29},{110592,110882,4},{110883,110897,29},{110898,110898,4},{110899,110927,29},{110928,110930,4},{110931,110932,29},{110933,110933,4},{110934,110947,29},{110948,110951,4},{110952,110959,29},{110960,111355,4},{111356,113663,29},{113664,113770,4},{113771,113775,29},{113776,113788,4},{113789,113791,29},{113792,113800,4},{113801,113807,29},{113808,113817,4},{113818,113819,29},{113820,113820,21},{113821,113822,5},{113823,113823,17},{113824,113827,26},{113828,118527,29},{118528,118573,5},{118574,118575,29},{118576,118598,5},{118599,118607,29},{118608,118723,21},{118724,118783,29},{118784,119029,21},{119030,119039,29},{119040,119078,21},{119079,119080,29},{119081,119140,21},{119141,119142,6},{119143,119145,5},{119146,119148,21},{119149,119154,6},{119155,119162,26},{119163,119170,5},{119171,119172,21},{119173,119179,5},{119180,119209,21},{119210,119213,5},{119214,119274,21},{119275,119295,29},{119296,119361,21},{119362,119364,5},{119365,119365,21},{119366,119487,29},{119488,119507,10},{119508,119519,29},{119520,119539,10},{119540,119551,29},{119552,119638,21},{119639,119647,29},{119648,119672,10},{119673,119807,29},{119808,119833,0},{119834,119859,1},{119860,119885,0},{119886,119892,1},{119893,119893,29},{119894,119911,1},{119912,119937,0},{119938,119963,1},{119964,119964,0},{119965,119965,29},{119966,119967,0},{119968,119969,29},{119970,119970,0},{119971,119972,29},{119973,119974,0},{119975,119976,29},{119977,119980,0},{119981,119981,29},{119982,119989,0},{119990,119993,1},{119994,119994,29},{119995,119995,1},{119996,119996,29},{119997,120003,1},{120004,120004,29},{120005,120015,1},{120016,120041,0},{120042,120067,1},{120068,120069,0},{120070,120070,29},{120071,120074,0},{120075,120076,29},{120077,120084,0},{120085,120085,29},{120086,120092,0},{120093,120093,29},{120094,120119,1},{120120,120121,0},{120122,120122,29},{120123,120126,0},{120127,120127,29},{120128,120132,0},{120133,120133,29},{120134,120134,0},{120135,120137,29},{120138,120144,0},{120145,120145,29},{120146,120171,1},{120172,120197,0},{120198,120223,1},{120224,120249,0},{120250,120275,1},{120276,120301,0},{120302,120327,1},{120328,120353,0},{120354,120379,1},{120380,120405,0},{120406,120431,1},{120432,120457,0},{120458,120485,1},{120486,120487,29},{120488,120512,0},{120513,120513,18},{120514,120538,1},{120539,120539,18},{120540,120545,1},{120546,120570,0},{120571,120571,18},{120572,120596,1},{120597,120597,18},{120598,120603,1},{120604,120628,0},{120629,120629,18},{120630,120654,1},{120655,120655,18},{120656,120661,1},{120662,120686,0},{120687,120687,18},{120688,120712,1},{120713,120713,18},{120714,120719,1},{120720,120744,0},{120745,120745,18},{120746,120770,1},{120771,120771,18},{120772,120777,1},{120778,120778,0},{120779,120779,1},{120780,120781,29},{120782,120831,8},{120832,121343,21},{121344,121398,5},{121399,121402,21},{121403,121452,5},{121453,121460,21},{121461,121461,5},{121462,121475,21},{121476,121476,5},{121477,121478,21},{121479,121483,17},{121484,121498,29},{121499,121503,5},{121504,121504,29},{121505,121519,5},{121520,122623,29},{122624,122633,1},{122634,122634,4},{122635,122654,1},{122655,122660,29},{122661,122666,1},{122667,122879,29},{122880,122886,5},{122887,122887,29},{122888,122904,5},{122905,122906,29},{122907,122913,5},{122914,122914,29},{122915,122916,5},{122917,122917,29},{122918,122922,5},{122923,122927,29},{122928,122989,3},{122990,123022,29},{123023,123023,5},{123024,123135,29},{123136,123180,4},{123181,123183,29},{123184,123190,5},{123191,123197,3},{123198,123199,29},{123200,123209,8},{123210,123213,29},{123214,123214,4},{123215,123215,21},{123216,123535,29},{123536,123565,4},{123566,123566,5},{123567,123583,29},{123584,123627,4},{123628,123631,5},{123632,123641,8},{123642,123646,29},{123647,123647,19},{123648,124111,29},{124112,124138,4},{124139,124139,3},{124140,124143,5},{124144,124153,8},{124154,124895,29},{124896,124902,4},{124903,124903,29},{124904,124907,4},{124908,124908,29},{124909,124910,4},{124911,124911,29},{124912,124926,4},{124927,124927,29},{124928,125124,4},{125125,125126,29},{125127,125135,10},{125136,125142,5},{125143,125183,29},{125184,125217,0},{125218,125251,1},{125252,125258,5},{125259,125259,3},{125260,125263,29},{125264,125273,8},{125274,125277,29},{125278,125279,17},{125280,126064,29},{126065,126123,10},{126124,126124,21},{126125,126127,10},{126128,126128,19},{126129,126132,10},{126133,126208,29},{126209,126253,10},{126254,126254,21},{126255,126269,10},{126270,126463,29},{126464,126467,4},{126468,126468,29},{126469,126495,4},{126496,126496,29},{126497,126498,4},{126499,126499,29},{126500,126500,4},{126501,126502,29},{126503,126503,4},{126504,126504,29},{126505,126514,4},{126515,126515,29},{126516,126519,4},{126520,126520,29},{126521,126521,4},{126522,126522,29},{126523,126523,4},{126524,126529,29},{126530,126530,4},{126531,126534,29},{126535,126535,4},{126536,126536,29},{126537,126537,4},{126538,126538,29},{126539,126539,4},{126540,126540,29},{126541,126543,4},{126544,126544,29},{126545,126546,4},{126547,126547,29},{126548,126548,4},{126549,126550,29},{126551,126551,4},{126552,126552,29},{126553,126553,4},{126554,126554,29},{126555,126555,4},{126556,126556,29},{126557,126557,4},{126558,126558,29},{126559,126559,4},{126560,126560,29},{126561,126562,4},{126563,126563,29},{126564,126564,4},{126565,126566,29},{126567,126570,4},{126571,126571,29},{126572,126578,4},{126579,126579,29},{126580,126583,4},{126584,126584,29},{126585,126588,4},{126589,126589,29},{126590,126590,4},{126591,126591,29},{126592,126601,4},{126602,126602,29},{126603,126619,4},{126620,126624,29},{126625,126627,4},{126628,126628,29},{126629,126633,4},{126634,126634,29},{126635,126651,4},{126652,126703,29},{126704,126705,18},{126706,126975,29},{126976,127019,21},{127020,127023,29},{127024,127123,21},{127124,127135,29},{127136,127150,21},{127151,127152,29},{127153,127167,21},{127168,127168,29},{127169,127183,21},{127184,127184,29},{127185,127221,21},{127222,127231,29},{127232,127244,10},{127245,127405,21},{127406,127461,29},{127462,127490,21},{127491,127503,29},{127504,127547,21},{127548,127551,29},{127552,127560,21},{127561,127567,29},{127568,127569,21},{127570,127583,29},{127584,127589,21},{127590,127743,29},{127744,127994,21},{127995,127999,20},{128000,128727,21},{128728,128731,29},{128732,128748,21},{128749,128751,29},{128752,128764,21},{128765,128767,29},{128768,128886,21},{128887,128890,29},{128891,128985,21},{128986,128991,29},{128992,129003,21},{129004,129007,29},{129008,129008,21},{129009,129023,29},{129024,129035,21},{129036,129039,29},{129040,129095,21},{129096,129103,29},{129104,129113,21},{129114,129119,29},{129120,129159,21},{129160,129167,29},{129168,129197,21},{129198,129199,29},{129200,129201,21},{129202,129279,29},{129280,129619,21},{129620,129631,29},{129632,129645,21},{129646,129647,29},{129648,129660,21},{129661,129663,29},{129664,129672,21},{129673,129679,29},{129680,129725,21},{129726,129726,29},{129727,129733,21},{129734,129741,29},{129742,129755,21},{129756,129759,29},{129760,129768,21},{129769,129775,29},{129776,129784,21},{129785,129791,29},{129792,129938,21},{129939,129939,29},{129940,129994,21},{129995,130031,29},{130032,130041,8},{130042,131071,29},{131072,173791,4},{173792,173823,29},{173824,177977,4},{177978,177983,29},{177984,178205,4},{178206,178207,29},{178208,183969,4},{183970,183983,29},{183984,191456,4},{191457,194559,29},{194560,195101,4},{195102,196607,29},{196608,201546,4},{201547,201551,29},{201552,205743,4},{205744,917504,29},{917505,917505,26},{917506,917535,29},{917536,917631,26},{917632,917759,29},{917760,917999,5},{918000,983039,29},{983040,1048573,28},{1048574,1048575,29},{1048576,1114109,28},{1114110,1114111,29}};
inline constexpr Run fold[] = {{0,64,0},{65,90,32},{91,180,0},{181,181,775},{182,191,0},{192,214,32},{215,215,0},{216,222,32},{223,255,0},{256,256,1},{257,257,0},{258,258,1},{259,259,0},{260,260,1},{261,261,0},{262,262,1},{263,263,0},{264,264,1},{265,265,0},{266,266,1},{267,267,0},{268,268,1},{269,269,0},{270,270,1},{271,271,0},{272,272,1},{273,273,0},{274,274,1},{275,275,0},{276,276,1},{277,277,0},{278,278,1},{279,279,0},{280,280,1},{281,281,0},{282,282,1},{283,283,0},{284,284,1},{285,285,0},{286,286,1},{287,287,0},{288,288,1},{289,289,0},{290,290,1},{291,291,0},{292,292,1},{293,293,0},{294,294,1},{295,295,0},{296,296,1},{297,297,0},{298,298,1},{299,299,0},{300,300,1},{301,301,0},{302,302,1},{303,305,0},{306,306,1},{307,307,0},{308,308,1},{309,309,0},{310,310,1},{311,312,0},{313,313,1},{314,314,0},{315,315,1},{316,316,0},{317,317,1},{318,318,0},{319,319,1},{320,320,0},{321,321,1},{322,322,0},{323,323,1},{324,324,0},{325,325,1},{326,326,0},{327,327,1},{328,329,0},{330,330,1},{331,331,0},{332,332,1},{333,333,0},{334,334,1},{335,335,0},{336,336,1},{337,337,0},{338,338,1},{339,339,0},{340,340,1},{341,341,0},{342,342,1},{343,343,0},{344,344,1},{345,345,0},{346,346,1},{347,347,0},{348,348,1},{349,349,0},{350,350,1},{351,351,0},{352,352,1},{353,353,0},{354,354,1},{355,355,0},{356,356,1},{357,357,0},{358,358,1},{359,359,0},{360,360,1},{361,361,0},{362,362,1},{363,363,0},{364,364,1},{365,365,0},{366,366,1},{367,367,0},{368,368,1},{369,369,0},{370,370,1},{371,371,0},{372,372,1},{373,373,0},{374,374,1},{375,375,0},{376,376,-121},{377,377,1},{378,378,0},{379,379,1},{380,380,0},{381,381,1},{382,382,0},{383,383,-268},{384,384,0},{385,385,210},{386,386,1},{387,387,0},{388,388,1},{389,389,0},{390,390,206},{391,391,1},{392,392,0},{393,394,205},{395,395,1},{396,397,0},{398,398,79},{399,399,202},{400,400,203},{401,401,1},{402,402,0},{403,403,205},{404,404,207},{405,405,0},{406,406,211},{407,407,209},{408,408,1},{409,411,0},{412,412,211},{413,413,213},{414,414,0},{415,415,214},{416,416,1},{417,417,0},{418,418,1},{419,419,0},{420,420,1},{421,421,0},{422,422,218},{423,423,1},{424,424,0},{425,425,218},{426,427,0},{428,428,1},{429,429,0},{430,430,218},{431,431,1},{432,432,0},{433,434,217},{435,435,1},{436,436,0},{437,437,1},{438,438,0},{439,439,219},{440,440,1},{441,443,0},{444,444,1},{445,451,0},{452,452,2},{453,453,1},{454,454,0},{455,455,2},{456,456,1},{457,457,0},{458,458,2},{459,459,1},{460,460,0},{461,461,1},{462,462,0},{463,463,1},{464,464,0},{465,465,1},{466,466,0},{467,467,1},{468,468,0},{469,469,1},{470,470,0},{471,471,1},{472,472,0},{473,473,1},{474,474,0},{475,475,1},{476,477,0},{478,478,1},{479,479,0},{480,480,1},{481,481,0},{482,482,1},{483,483,0},{484,484,1},{485,485,0},{486,486,1},{487,487,0},{488,488,1},{489,489,0},{490,490,1},{491,491,0},{492,492,1},{493,493,0},{494,494,1},{495,496,0},{497,497,2},{498,498,1},{499,499,0},{500,500,1},{501,501,0},{502,502,-97},{503,503,-56},{504,504,1},{505,505,0},{506,506,1},{507,507,0},{508,508,1},{509,509,0},{510,510,1},{511,511,0},{512,512,1},{513,513,0},{514,514,1},{515,515,0},{516,516,1},{517,517,0},{518,518,1},{519,519,0},{520,520,1},{521,521,0},{522,522,1},{523,523,0},{524,524,1},{525,525,0},{526,526,1},{527,527,0},{528,528,1},{529,529,0},{530,530,1},{531,531,0},{532,532,1},{533,533,0},{534,534,1},{535,535,0},{536,536,1},{537,537,0},{538,538,1},{539,539,0},{540,540,1},{541,541,0},{542,542,1},{543,543,0},{544,544,-130},{545,545,0},{546,546,1},{547,547,0},{548,548,1},{549,549,0},{550,550,1},{551,551,0},{552,552,1},{553,553,0},{554,554,1},{555,555,0},{556,556,1},{557,557,0},{558,558,1},{559,559,0},{560,560,1},{561,561,0},{562,562,1},{563,569,0},{570,570,10795},{571,571,1},{572,572,0},{573,573,-163},{574,574,10792},{575,576,0},{577,577,1},{578,578,0},{579,579,-195},{580,580,69},{581,581,71},{582,582,1},{583,583,0},{584,584,1},{585,585,0},{586,586,1},{587,587,0},{588,588,1},{589,589,0},{590,590,1},{591,836,0},{837,837,116},{838,879,0},{880,880,1},{881,881,0},{882,882,1},{883,885,0},{886,886,1},{887,894,0},{895,895,116},{896,901,0},{902,902,38},{903,903,0},{904,906,37},{907,907,0},{908,908,64},{909,909,0},{910,911,63},{912,912,0},{913,929,32},{930,930,0},{931,939,32},{940,961,0},{962,962,1},{963,974,0},{975,975,8},{976,976,-30},{977,977,-25},{978,980,0},{981,981,-15},{982,982,-22},{983,983,0},{984,984,1},{985,985,0},{986,986,1},{987,987,0},{988,988,1},{989,989,0},{990,990,1},{991,991,0},{992,992,1},{993,993,0},{994,994,1},{995,995,0},{996,996,1},{997,997,0},{998,998,1},{999,999,0},{1000,1000,1},{1001,1001,0},{1002,1002,1},{1003,1003,0},{1004,1004,1},{1005,1005,0},{1006,1006,1},{1007,1007,0},{1008,1008,-54},{1009,1009,-48},{1010,1011,0},{1012,1012,-60},{1013,1013,-64},{1014,1014,0},{1015,1015,1},{1016,1016,0},{1017,1017,-7},{1018,1018,1},{1019,1020,0},{1021,1023,-130},{1024,1039,80},{1040,1071,32},{1072,1119,0},{1120,1120,1},{1121,1121,0},{1122,1122,1},{1123,1123,0},{1124,1124,1},{1125,1125,0},{1126,1126,1},{1127,1127,0},{1128,1128,1},{1129,1129,0},{1130,1130,1},{1131,1131,0},{1132,1132,1},{1133,1133,0},{1134,1134,1},{1135,1135,0},{1136,1136,1},{1137,1137,0},{1138,1138,1},{1139,1139,0},{1140,1140,1},{1141,1141,0},{1142,1142,1},{1143,1143,0},{1144,1144,1},{1145,1145,0},{1146,1146,1},{1147,1147,0},{1148,1148,1},{1149,1149,0},{1150,1150,1},{1151,1151,0},{1152,1152,1},{1153,1161,0},{1162,1162,1},{1163,1163,0},{1164,1164,1},{1165,1165,0},{1166,1166,1},{1167,1167,0},{1168,1168,1},{1169,1169,0},{1170,1170,1},{1171,1171,0},{1172,1172,1},{1173,1173,0},{1174,1174,1},{1175,1175,0},{1176,1176,1},{1177,1177,0},{1178,1178,1},{1179,1179,0},{1180,1180,1},{1181,1181,0},{1182,1182,1},{1183,1183,0},{1184,1184,1},{1185,1185,0},{1186,1186,1},{1187,1187,0},{1188,1188,1},{1189,1189,0},{1190,1190,1},{1191,1191,0},{1192,1192,1},{1193,1193,0},{1194,1194,1},{1195,1195,0},{1196,1196,1},{1197,1197,0},{1198,1198,1},{1199,1199,0},{1200,1200,1},{1201,1201,0},{1202,1202,1},{1203,1203,0},{1204,1204,1},{1205,1205,0},{1206,1206,1},{1207,1207,0},{1208,1208,1},{1209,1209,0},{1210,1210,1},{1211,1211,0},{1212,1212,1},{1213,1213,0},{1214,1214,1},{1215,1215,0},{1216,1216,15},{1217,1217,1},{1218,1218,0},{1219,1219,1},{1220,1220,0},{1221,1221,1},{1222,1222,0},{1223,1223,1},{1224,1224,0},{1225,1225,1},{1226,1226,0},{1227,1227,1},{1228,1228,0},{1229,1229,1},{1230,1231,0},{1232,1232,1},{1233,1233,0},{1234,1234,1},{1235,1235,0},{1236,1236,1},{1237,1237,0},{1238,1238,1},{1239,1239,0},{1240,1240,1},{1241,1241,0},{1242,1242,1},{1243,1243,0},{1244,1244,1},{1245,1245,0},{1246,1246,1},{1247,1247,0},{1248,1248,1},{1249,1249,0},{1250,1250,1},{1251,1251,0},{1252,1252,1},{1253,1253,0},{1254,1254,1},{1255,1255,0},{1256,1256,1},{1257,1257,0},{1258,1258,1},{1259,1259,0},{1260,1260,1},{1261,1261,0},{1262,1262,1},{1263,1263,0},{1264,1264,1},{1265,1265,0},{1266,1266,1},{1267,1267,0},{1268,1268,1},{1269,1269,0},{1270,1270,1},{1271,1271,0},{1272,1272,1},{1273,1273,0},{1274,1274,1},{1275,1275,0},{1276,1276,1},{1277,1277,0},{1278,1278,1},{1279,1279,0},{1280,1280,1},{1281,1281,0},{1282,1282,1},{1283,1283,0},{1284,1284,1},{1285,1285,0},{1286,1286,1},{1287,1287,0},{1288,1288,1},{1289,1289,0},{1290,1290,1},{1291,1291,0},{1292,1292,1},{1293,1293,0},{1294,1294,1},{1295,1295,0},{1296,1296,1},{1297,1297,0},{1298,1298,1},{1299,1299,0},{1300,1300,1},{1301,1301,0},{1302,1302,1},{1303,1303,0},{1304,1304,1},{1305,1305,0},{1306,1306,1},{1307,1307,0},{1308,1308,1},{1309,1309,0},{1310,1310,1},{1311,1311,0},{1312,1312,1},{1313,1313,0},{1314,1314,1},{1315,1315,0},{1316,1316,1},{1317,1317,0},{1318,1318,1},{1319,1319,0},{1320,1320,1},{1321,1321,0},{1322,1322,1},{1323,1323,0},{1324,1324,1},{1325,1325,0},{1326,1326,1},{1327,1328,0},{1329,1366,48},{1367,4255,0},{4256,4293,7264},{4294,4294,0},{4295,4295,7264},{4296,4300,0},{4301,4301,7264},{4302,5111,0},{5112,5117,-8},{5118,7295,0},{7296,7296,-6222},{7297,7297,-6221},{7298,7298,-6212},{7299,7300,-6210},{7301,7301,-6211},{7302,7302,-6204},{7303,7303,-6180},{7304,7304,35267},{7305,7311,0},{7312,7354,-3008},{7355,7356,0},{7357,7359,-3008},{7360,7679,0},{7680,7680,1},{7681,7681,0},{7682,7682,1},{7683,7683,0},{7684,7684,1},{7685,7685,0},{7686,7686,1},{7687,7687,0},{7688,7688,1},{7689,7689,0},{7690,7690,1},{7691,7691,0},{7692,7692,1},{7693,7693,0},{7694,7694,1},{7695,7695,0},{7696,7696,1},{7697,7697,0},{7698,7698,1},{7699,7699,0},{7700,7700,1},{7701,7701,0},{7702,7702,1},{7703,7703,0},{7704,7704,1},{7705,7705,0},{7706,7706,1},{7707,7707,0},{7708,7708,1},{7709,7709,0},{7710,7710,1},{7711,7711,0},{7712,7712,1},{7713,7713,0},{7714,7714,1},{7715,7715,0},{7716,7716,1},{7717,7717,0},{7718,7718,1},{7719,7719,0},{7720,7720,1},{7721,7721,0},{7722,7722,1},{7723,7723,0},{7724,7724,1},{7725,7725,0},{7726,7726,1},{7727,7727,0},{7728,7728,1},{7729,7729,0},{7730,7730,1},{7731,7731,0},{7732,7732,1},{7733,7733,0},{7734,7734,1},{7735,7735,0},{7736,7736,1},{7737,7737,0},{7738,7738,1},{7739,7739,0},{7740,7740,1},{7741,7741,0},{7742,7742,1},{7743,7743,0},{7744,7744,1},{7745,7745,0},{7746,7746,1},{7747,7747,0},{7748,7748,1},{7749,7749,0},{7750,7750,1},{7751,7751,0},{7752,7752,1},{7753,7753,0},{7754,7754,1},{7755,7755,0},{7756,7756,1},{7757,7757,0},{7758,7758,1},{7759,7759,0},{7760,7760,1},{7761,7761,0},{7762,7762,1},{7763,7763,0},{7764,7764,1},{7765,7765,0},{7766,7766,1},{7767,7767,0},{7768,7768,1},{7769,7769,0},{7770,7770,1},{7771,7771,0},{7772,7772,1},{7773,7773,0},{7774,7774,1},{7775,7775,0},{7776,7776,1},{7777,7777,0},{7778,7778,1},{7779,7779,0},{7780,7780,1},{7781,7781,0},{7782,7782,1},{7783,7783,0},{7784,7784,1},{7785,7785,0},{7786,7786,1},{7787,7787,0},{7788,7788,1},{7789,7789,0},{7790,7790,1},{7791,7791,0},{7792,7792,1},{7793,7793,0},{7794,7794,1},{7795,7795,0},{7796,7796,1},{7797,7797,0},{7798,7798,1},{7799,7799,0},{7800,7800,1},{7801,7801,0},{7802,7802,1},{7803,7803,0},{7804,7804,1},{7805,7805,0},{7806,7806,1},{7807,7807,0},{7808,7808,1},{7809,7809,0},{7810,7810,1},{7811,7811,0},{7812,7812,1},{7813,7813,0},{7814,7814,1},{7815,7815,0},{7816,7816,1},{7817,7817,0},{7818,7818,1},{7819,7819,0},{7820,7820,1},{7821,7821,0},{7822,7822,1},{7823,7823,0},{7824,7824,1},{7825,7825,0},{7826,7826,1},{7827,7827,0},{7828,7828,1},{7829,7834,0},{7835,7835,-58},{7836,7837,0},{7838,7838,-7615},{7839,7839,0},{7840,7840,1},{7841,7841,0},{7842,7842,1},{7843,7843,0},{7844,7844,1},{7845,7845,0},{7846,7846,1},{7847,7847,0},{7848,7848,1},{7849,7849,0},{7850,7850,1},{7851,7851,0},{7852,7852,1},{7853,7853,0},{7854,7854,1},{7855,7855,0},{7856,7856,1},{7857,7857,0},{7858,7858,1},{7859,7859,0},{7860,7860,1},{7861,7861,0},{7862,7862,1},{7863,7863,0},{7864,7864,1},{7865,7865,0},{7866,7866,1},{7867,7867,0},{7868,7868,1},{7869,7869,0},{7870,7870,1},{7871,7871,0},{7872,7872,1},{7873,7873,0},{7874,7874,1},{7875,7875,0},{7876,7876,1},{7877,7877,0},{7878,7878,1},{7879,7879,0},{7880,7880,1},{7881,7881,0},{7882,7882,1},{7883,7883,0},{7884,7884,1},{7885,7885,0},{7886,7886,1},{7887,7887,0},{7888,7888,1},{7889,7889,0},{7890,7890,1},{7891,7891,0},{7892,7892,1},{7893,7893,0},{7894,7894,1},{7895,7895,0},{7896,7896,1},{7897,7897,0},{7898,7898,1},{7899,7899,0},{7900,7900,1},{7901,7901,0},{7902,7902,1},{7903,7903,0},{7904,7904,1},{7905,7905,0},{7906,7906,1},{7907,7907,0},{7908,7908,1},{7909,7909,0},{7910,7910,1},{7911,7911,0},{7912,7912,1},{7913,7913,0},{7914,7914,1},{7915,7915,0},{7916,7916,1},{7917,7917,0},{7918,7918,1},{7919,7919,0},{7920,7920,1},{7921,7921,0},{7922,7922,1},{7923,7923,0},{7924,7924,1},{7925,7925,0},{7926,7926,1},{7927,7927,0},{7928,7928,1},{7929,7929,0},{7930,7930,1},{7931,7931,0},{7932,7932,1},{7933,7933,0},{7934,7934,1},{7935,7943,0},{7944,7951,-8},{7952,7959,0},{7960,7965,-8},{7966,7975,0},{7976,7983,-8},{7984,7991,0},{7992,7999,-8},{8000,8007,0},{8008,8013,-8},{8014,8024,0},{8025,8025,-8},{8026,8026,0},{8027,8027,-8},{8028,8028,0},{8029,8029,-8},{8030,8030,0},{8031,8031,-8},{8032,8039,0},{8040,8047,-8},{8048,8071,0},{8072,8079,-8},{8080,8087,0},{8088,8095,-8},{8096,8103,0},{8104,8111,-8},{8112,8119,0},{8120,8121,-8},{8122,8123,-74},{8124,8124,-9},{8125,8125,0},{8126,8126,-7173},{8127,8135,0},{8136,8139,-86},{8140,8140,-9},{8141,8151,0},{8152,8153,-8},{8154,8155,-100},{8156,8167,0},{8168,8169,-8},{8170,8171,-112},{8172,8172,-7},{8173,8183,0},{8184,8185,-128},{8186,8187,-126},{8188,8188,-9},{8189,8485,0},{8486,8486,-7517},{8487,8489,0},{8490,8490,-8383},{8491,8491,-8262},{8492,8497,0},{8498,8498,28},{8499,8543,0},{8544,8559,16},{8560,8578,0},{8579,8579,1},{8580,9397,0},{9398,9423,26},{9424,11263,0},{11264,11311,48},{11312,11359,0},{11360,11360,1},{11361,11361,0},{11362,11362,-10743},{11363,11363,-3814},{11364,11364,-10727},{11365,11366,0},{11367,11367,1},{11368,11368,0},{11369,11369,1},{11370,11370,0},{11371,11371,1},{11372,11372,0},{11373,11373,-10780},{11374,11374,-10749},{11375,11375,-10783},{11376,11376,-10782},{11377,11377,0},{11378,11378,1},{11379,11380,0},{11381,11381,1},{11382,11389,0},{11390,11391,-10815},{11392,11392,1},{11393,11393,0},{11394,11394,1},{11395,11395,0},{11396,11396,1},{11397,11397,0},{11398,11398,1},{11399,11399,0},{11400,11400,1},{11401,11401,0},{11402,11402,1},{11403,11403,0},{11404,11404,1},{11405,11405,0},{11406,11406,1},{11407,11407,0},{11408,11408,1},{11409,11409,0},{11410,11410,1},{11411,11411,0},{11412,11412,1},{11413,11413,0},{11414,11414,1},{11415,11415,0},{11416,11416,1},{11417,11417,0},{11418,11418,1},{11419,11419,0},{11420,11420,1},{11421,11421,0},{11422,11422,1},{11423,11423,0},{11424,11424,1},{11425,11425,0},{11426,11426,1},{11427,11427,0},{11428,11428,1},{11429,11429,0},{11430,11430,1},{11431,11431,0},{11432,11432,1},{11433,11433,0},{11434,11434,1},{11435,11435,0},{11436,11436,1},{11437,11437,0},{11438,11438,1},{11439,11439,0},{11440,11440,1},{11441,11441,0},{11442,11442,1},{11443,11443,0},{11444,11444,1},{11445,11445,0},{11446,11446,1},{11447,11447,0},{11448,11448,1},{11449,11449,0},{11450,11450,1},{11451,11451,0},{11452,11452,1},{11453,11453,0},{11454,11454,1},{11455,11455,0},{11456,11456,1},{11457,11457,0},{11458,11458,1},{11459,11459,0},{11460,11460,1},{11461,11461,0},{11462,11462,1},{11463,11463,0},{11464,11464,1},{11465,11465,0},{11466,11466,1},{11467,11467,0},{11468,11468,1},{11469,11469,0},{11470,11470,1},{11471,11471,0},{11472,11472,1},{11473,11473,0},{11474,11474,1},{11475,11475,0},{11476,11476,1},{11477,11477,0},{11478,11478,1},{11479,11479,0},{11480,11480,1},{11481,11481,0},{11482,11482,1},{11483,11483,0},{11484,11484,1},{11485,11485,0},{11486,11486,1},{11487,11487,0},{11488,11488,1},{11489,11489,0},{11490,11490,1},{11491,11498,0},{11499,11499,1},{11500,11500,0},{11501,11501,1},{11502,11505,0},{11506,11506,1},{11507,15602,0},{15603,19698,0},{19699,23794,0},{23795,27890,0},{27891,31986,0},{31987,36082,0},{36083,40178,0},{40179,42559,0},{42560,42560,1},{42561,42561,0},{42562,42562,1},{42563,42563,0},{42564,42564,1},{42565,42565,0},{42566,42566,1},{42567,42567,0},{42568,42568,1},{42569,42569,0},{42570,42570,1},{42571,42571,0},{42572,42572,1},{42573,42573,0},{42574,42574,1},{42575,42575,0},{42576,42576,1},{42577,42577,0},{42578,42578,1},{42579,42579,0},{42580,42580,1},{42581,42581,0},{42582,42582,1},{42583,42583,0},{42584,42584,1},{42585,42585,0},{42586,42586,1},{42587,42587,0},{42588,42588,1},{42589,42589,0},{42590,42590,1},{42591,42591,0},{42592,42592,1},{42593,42593,0},{42594,42594,1},{42595,42595,0},{42596,42596,1},{42597,42597,0},{42598,42598,1},{42599,42599,0},{42600,42600,1},{42601,42601,0},{42602,42602,1},{42603,42603,0},{42604,42604,1},{42605,42623,0},{42624,42624,1},{42625,42625,0},{42626,42626,1},{42627,42627,0},{42628,42628,1},{42629,42629,0},{42630,42630,1},{42631,42631,0},{42632,42632,1},{42633,42633,0},{42634,42634,1},{42635,42635,0},{42636,42636,1},{42637,42637,0},{42638,42638,1},{42639,42639,0},{42640,42640,1},{42641,42641,0},{42642,42642,1},{42643,42643,0},{42644,42644,1},{42645,42645,0},{42646,42646,1},{42647,42647,0},{42648,42648,1},{42649,42649,0},{42650,42650,1},{42651,42785,0},{42786,42786,1},{42787,42787,0},{42788,42788,1},{42789,42789,0},{42790,42790,1},{42791,42791,0},{42792,42792,1},{42793,42793,0},{42794,42794,1},{42795,42795,0},{42796,42796,1},{42797,42797,0},{42798,42798,1},{42799,42801,0},{42802,42802,1},{42803,42803,0},{42804,42804,1},{42805,42805,0},{42806,42806,1},{42807,42807,0},{42808,42808,1},{42809,42809,0},{42810,42810,1},{42811,42811,0},{42812,42812,1},{42813,42813,0},{42814,42814,1},{42815,42815,0},{42816,42816,1},{42817,42817,0},{42818,42818,1},{42819,42819,0},{42820,42820,1},{42821,42821,0},{42822,42822,1},{42823,42823,0},{42824,42824,1},{42825,42825,0},{42826,42826,1},{42827,42827,0},{42828,42828,1},{42829,42829,0},{42830,42830,1},{42831,42831,0},{42832,42832,1},{42833,42833,0},{42834,42834,1},{42835,42835,0},{42836,42836,1},{42837,42837,0},{42838,42838,1},{42839,42839,0},{42840,42840,1},{42841,42841,0},{42842,42842,1},{42843,42843,0},{42844,42844,1},{42845,42845,0},{42846,42846,1},{42847,42847,0},{42848,42848,1},{42849,42849,0},{42850,42850,1},{42851,42851,0},{42852,42852,1},{42853,42853,0},{42854,42854,1},{42855,42855,0},{42856,42856,1},{42857,42857,0},{42858,42858,1},{42859,42859,0},{42860,42860,1},{42861,42861,0},{42862,42862,1},{42863,42872,0},{42873,42873,1},{42874,42874,0},{42875,42875,1},{42876,42876,0},{42877,42877,-35332},{42878,42878,1},{42879,42879,0},{42880,42880,1},{42881,42881,0},{42882,42882,1},{42883,42883,0},{42884,42884,1},{42885,42885,0},{42886,42886,1},{42887,42890,0},{42891,42891,1},{42892,42892,0},{42893,42893,-42280},{42894,42895,0},{42896,42896,1},{42897,42897,0},{42898,42898,1},{42899,42901,0},{42902,42902,1},{42903,42903,0},{42904,42904,1},{42905,42905,0},{42906,42906,1},{42907,42907,0},{42908,42908,1},{42909,42909,0},{42910,42910,1},{42911,42911,0},{42912,42912,1},{42913,42913,0},{42914,42914,1},{42915,42915,0},{42916,42916,1},{42917,42917,0},{42918,42918,1},{42919,42919,0},{42920,42920,1},{42921,42921,0},{42922,42922,-42308},{42923,42923,-42319},{42924,42924,-42315},{42925,42925,-42305},{42926,42926,-42308},{42927,42927,0},{42928,42928,-42258},{42929,42929,-42282},{42930,42930,-42261},{42931,42931,928},{42932,42932,1},{42933,42933,0},{42934,42934,1},{42935,42935,0},{42936,42936,1},{42937,42937,0},{42938,42938,1},{42939,42939,0},{42940,42940,1},{42941,42941,0},{42942,42942,1},{42943,42943,0},{42944,42944,1},{42945,42945,0},{42946,42946,1},{42947,42947,0},{42948,42948,-48},{42949,42949,-42307},{42950,42950,-35384},{42951,42951,1},{42952,42952,0},{42953,42953,1},{42954,42959,0},{42960,42960,1},{42961,42965,0},{42966,42966,1},{42967,42967,0},{42968,42968,1},{42969,42996,0},{42997,42997,1},{42998,43887,0},{43888,43967,-38864},{43968,48063,0},{48064,52159,0},{52160,56255,0},{56256,60351,0},{60352,64447,0},{64448,65312,0},{65313,65338,32},{65339,66559,0},{66560,66599,40},{66600,66735,0},{66736,66771,40},{66772,66927,0},{66928,66938,39},{66939,66939,0},{66940,66954,39},{66955,66955,0},{66956,66962,39},{66963,66963,0},{66964,66965,39},{66966,68735,0},{68736,68786,64},{68787,71839,0},{71840,71871,32},{71872,75967,0},{75968,80063,0},{80064,84159,0},{84160,88255,0},{88256,92351,0},{92352,93759,0},{93760,93791,32},{93792,97887,0},{97888,101983,0},{101984,106079,0},{106080,110175,0},{110176,114271,0},{114272,118367,0},{118368,122463,0},{122464,125183,0},{125184,125217,34},{125218,129313,0},{129314,133409,0},{133410,137505,0},{137506,141601,0},{141602,145697,0},{145698,149793,0},{149794,153889,0},{153890,157985,0},{157986,162081,0},{162082,166177,0},{166178,170273,0},{170274,174369,0},{174370,178465,0},{178466,182561,0},{182562,186657,0},{186658,190753,0},{190754,194849,0},{194850,198945,0},{198946,203041,0},{203042,207137,0},{207138,211233,0},{211234,215329,0},{215330,219425,0},{219426,223521,0},{223522,227617,0},{227618,231713,0},{231714,235809,0},{235810,239905,0},{239906,244001,0},{244002,248097,0},{248098,252193,0},{252194,256289,0},{256290,260385,0},{260386,264481,0},{264482,268577,0},{268578,272673,0},{272674,276769,0},{276770,280865,0},{280866,284961,0},{284962,289057,0},{289058,293153,0},{293154,297249,0},{297250,301345,0},{301346,305441,0},{305442,309537,0},{309538,313633,0},{313634,317729,0},{317730,321825,0},{321826,325921,0},{325922,330017,0},{330018,334113,0},{334114,338209,0},{338210,342305,0},{342306,346401,0},{346402,350497,0},{350498,354593,0},{354594,358689,0},{358690,362785,0},{362786,366881,0},{366882,370977,0},{370978,375073,0},{375074,379169,0},{379170,383265,0},{383266,387361,0},{387362,391457,0},{391458,395553,0},{395554,399649,0},{399650,403745,0},{403746,407841,0},{407842,411937,0},{411938,416033,0},{416034,420129,0},{420130,424225,0},{424226,428321,0},{428322,432417,0},{432418,436513,0},{436514,440609,0},{440610,444705,0},{444706,448801,0},{448802,452897,0},{452898,456993,0},{456994,461089,0},{461090,465185,0},{465186,469281,0},{469282,473377,0},{473378,477473,0},{477474,481569,0},{481570,485665,0},{485666,489761,0},{489762,493857,0},{493858,497953,0},{497954,502049,0},{502050,506145,0},{506146,510241,0},{510242,514337,0},{514338,518433,0},{518434,522529,0},{522530,526625,0},{526626,530721,0},{530722,534817,0},{534818,538913,0},{538914,543009,0},{543010,547105,0},{547106,551201,0},{551202,555297,0},{555298,559393,0},{559394,563489,0},{563490,567585,0},{567586,571681,0},{571682,575777,0},{575778,579873,0},{579874,583969,0},{583970,588065,0},{588066,592161,0},{592162,596257,0},{596258,600353,0},{600354,604449,0},{604450,608545,0},{608546,612641,0},{612642,616737,0},{616738,620833,0},{620834,624929,0},{624930,629025,0},{629026,633121,0},{633122,637217,0},{637218,641313,0},{641314,645409,0},{645410,649505,0},{649506,653601,0},{653602,657697,0},{657698,661793,0},{661794,665889,0},{665890,669985,0},{669986,674081,0},{674082,678177,0},{678178,682273,0},{682274,686369,0},{686370,690465,0},{690466,694561,0},{694562,698657,0},{698658,702753,0},{702754,706849,0},{706850,710945,0},{710946,715041,0},{715042,719137,0},{719138,723233,0},{723234,727329,0},{727330,731425,0},{731426,735521,0},{735522,739617,0},{739618,743713,0},{743714,747809,0},{747810,751905,0},{751906,756001,0},{756002,760097,0},{760098,764193,0},{764194,768289,0},{768290,772385,0},{772386,776481,0},{776482,780577,0},{780578,784673,0},{784674,788769,0},{788770,792865,0},{792866,796961,0},{796962,801057,0},{801058,805153,0},{805154,809249,0},{809250,813345,0},{813346,817441,0},{817442,821537,0},{821538,825633,0},{825634,829729,0},{829730,833825,0},{833826,837921,0},{837922,842017,0},{842018,846113,0},{846114,850209,0},{850210,854305,0},{854306,858401,0},{858402,862497,0},{862498,866593,0},{866594,870689,0},{870690,874785,0},{874786,878881,0},{878882,882977,0},{882978,887073,0},{887074,891169,0},{891170,895265,0},{895266,899361,0},{899362,903457,0},{903458,907553,0},{907554,911649,0},{911650,915745,0},{915746,919841,0},{919842,923937,0},{923938,928033,0},{928034,932129,0},{932130,936225,0},{936226,940321,0},{940322,944417,0},{944418,948513,0},{948514,952609,0},{952610,956705,0},{956706,960801,0},{960802,964897,0},{964898,968993,0},{968994,973089,0},{973090,977185,0},{977186,981281,0},{981282,985377,0},{985378,989473,0},{989474,993569,0},{993570,997665,0},{997666,1001761,0},{1001762,1005857,0},{1005858,1009953,0},{1009954,1014049,0},{1014050,1018145,0},{1018146,1022241,0},{1022242,1026337,0},{1026338,1030433,0},{1030434,1034529,0},{1034530,1038625,0},{1038626,1042721,0},{1042722,1046817,0},{1046818,1050913,0},{1050914,1055009,0},{1055010,1059105,0},{1059106,1063201,0},{1063202,1067297,0},{1067298,1071393,0},{1071394,1075489,0},{1075490,1079585,0},{1079586,1083681,0},{1083682,1087777,0},{1087778,1091873,0},{1091874,1095969,0},{1095970,1100065,0},{1100066,1104161,0},{1104162,1108257,0},{1108258,1112353,0},{1112354,1114111,0}};
inline constexpr Run is_control[] = {{0,31,1},{32,126,0},{127,159,1},{160,1114111,0}};
inline constexpr Run is_blank[] = {{0,8,0},{9,9,1},{10,31,0},{32,32,1},{33,159,0},{160,160,1},{161,5759,0},{5760,5760,1},{5761,8191,0},{8192,8202,1},{8203,8238,0},{8239,8239,1},{8240,8286,0},{8287,8287,1},{8288,12287,0},{12288,12288,1},{12289,1114111,0}};
inline constexpr Run is_newline[] = {{0,9,0},{10,10,1},{11,12,0},{13,13,1},{14,132,0},{133,133,1},{134,8231,0},{8232,8233,1},{8234,1114111,0}};
inline constexpr Run is_other_space[] = {{0,10,0},{11,12,1},{13,1114111,0}};
inline constexpr Run is_space[] = {{0,8,0},{9,13,1},{14,31,0},{32,32,1},{33,132,0},{133,133,1},{134,159,0},{160,160,1},{161,5759,0},{5760,5760,1},{5761,8191,0},{8192,8202,1},{8203,8231,0},{8232,8233,1},{8234,8238,0},{8239,8239,1},{8240,8286,0},{8287,8287,1},{8288,12287,0},{12288,12288,1},{12289,1114111,0}};
inline constexpr Run is_digit[] = {{0,47,0},{48,57,1},{58,1631,0},{1632,1641,1},{1642,1775,0},{1776,1785,1},{1786,1983,0},{1984,1993,1},{1994,2405,0},{2406,2415,1},{2416,2533,0},{2534,2543,1},{2544,2661,0},{2662,2671,1},{2672,2789,0},{2790,2799,1},{2800,2917,0},{2918,2927,1},{2928,3045,0},{3046,3055,1},{3056,3173,0},{3174,3183,1},{3184,3301,0},{3302,3311,1},{3312,3429,0},{3430,3439,1},{3440,3557,0},{3558,3567,1},{3568,3663,0},{3664,3673,1},{3674,3791,0},{3792,3801,1},{3802,3871,0},{3872,3881,1},{3882,4159,0},{4160,4169,1},{4170,4239,0},{4240,4249,1},{4250,6111,0},{6112,6121,1},{6122,6159,0},{6160,6169,1},{6170,6469,0},{6470,6479,1},{6480,6607,0},{6608,6617,1},{6618,6783,0},{6784,6793,1},{6794,6799,0},{6800,6809,1},{6810,6991,0},{6992,7001,1},{7002,7087,0},{7088,7097,1},{7098,7231,0},{7232,7241,1},{7242,7247,0},{7248,7257,1},{7258,42527,0},{42528,42537,1},{42538,43215,0},{43216,43225,1},{43226,43263,0},{43264,43273,1},{43274,43471,0},{43472,43481,1},{43482,43503,0},{43504,43513,1},{43514,43599,0},{43600,43609,1},{43610,44015,0},{44016,44025,1},{44026,65295,0},{65296,65305,1},{65306,66719,0},{66720,66729,1},{66730,68911,0},{68912,68921,1},{68922,69733,0},{69734,69743,1},{69744,69871,0},{69872,69881,1},{69882,69941,0},{69942,69951,1},{69952,70095,0},{70096,70105,1},{70106,70383,0},{70384,70393,1},{70394,70735,0},{70736,70745,1},{70746,70863,0},{70864,70873,1},{70874,71247,0},{71248,71257,1},{71258,71359,0},{71360,71369,1},{71370,71471,0},{71472,71481,1},{71482,71903,0},{71904,71913,1},{71914,72015,0},{72016,72025,1},{72026,72783,0},{72784,72793,1},{72794,73039,0},{73040,73049,1},{73050,73119,0},{73120,73129,1},{73130,73551,0},{73552,73561,1},{73562,92767,0},{92768,92777,1},{92778,92863,0},{92864,92873,1},{92874,93007,0},{93008,93017,1},{93018,120781,0},{120782,120831,1},{120832,123199,0},{123200,123209,1},{123210,123631,0},{123632,123641,1},{123642,124143,0},{124144,124153,1},{124154,125263,0},{125264,125273,1},{125274,130031,0},{130032,130041,1},{130042,1114111,0}};
inline constexpr Run is_lower[] = {{0,96,0},{97,122,1},{123,169,0},{170,170,1},{171,180,0},{181,181,1},{182,185,0},{186,186,1},{187,222,0},{223,246,1},{247,247,0},{248,255,1},{256,256,0},{257,257,1},{258,258,0},{259,259,1},{260,260,0},{261,261,1},{262,262,0},{263,263,1},{264,264,0},{265,265,1},{266,266,0},{267,267,1},{268,268,0},{269,269,1},{270,270,0},{271,271,1},{272,272,0},{273,273,1},{274,274,0},{275,275,1},{276,276,0},{277,277,1},{278,278,0},{279,279,1},{280,280,0},{281,281,1},{282,282,0},{283,283,1},{284,284,0},{285,285,1},{286,286,0},{287,287,1},{288,288,0},{289,289,1},{290,290,0},{291,291,1},{292,292,0},{293,293,1},{294,294,0},{295,295,1},{296,296,0},{297,297,1},{298,298,0},{299,299,1},{300,300,0},{301,301,1},{302,302,0},{303,303,1},{304,304,0},{305,305,1},{306,306,0},{307,307,1},{308,308,0},{309,309,1},{310,310,0},{311,312,1},{313,313,0},{314,314,1},{315,315,0},{316,316,1},{317,317,0},{318,318,1},{319,319,0},{320,320,1},{321,321,0},{322,322,1},{323,323,0},{324,324,1},{325,325,0},{326,326,1},{327,327,0},{328,329,1},{330,330,0},{331,331,1},{332,332,0},{333,333,1},{334,334,0},{335,335,1},{336,336,0},{337,337,1},{338,338,0},{339,339,1},{340,340,0},{341,341,1},{342,342,0},{343,343,1},{344,344,0},{345,345,1},{346,346,0},{347,347,1},{348,348,0},{349,349,1},{350,350,0},{351,351,1},{352,352,0},{353,353,1},{354,354,0},{355,355,1},{356,356,0},{357,357,1},{358,358,0},{359,359,1},{360,360,0},{361,361,1},{362,362,0},{363,363,1},{364,364,0},{365,365,1},{366,366,0},{367,367,1},{368,368,0},{369,369,1},{370,370,0},{371,371,1},{372,372,0},{373,373,1},{374,374,0},{375,375,1},{376,377,0},{378,378,1},{379,379,0},{380,380,1},{381,381,0},{382,384,1},{385,386,0},{387,387,1},{388,388,0},{389,389,1},{390,391,0},{392,392,1},{393,395,0},{396,397,1},{398,401,0},{402,402,1},{403,404,0},{405,405,1},{406,408,0},{409,411,1},{412,413,0},{414,414,1},{415,416,0},{417,417,1},{418,418,0},{419,419,1},{420,420,0},{421,421,1},{422,423,0},{424,424,1},{425,425,0},{426,427,1},{428,428,0},{429,429,1},{430,431,0},{432,432,1},{433,435,0},{436,436,1},{437,437,0},{438,438,1},{439,440,0},{441,442,1},{443,444,0},{445,447,1},{448,453,0},{454,454,1},{455,456,0},{457,457,1},{458,459,0},{460,460,1},{461,461,0},{462,462,1},{463,463,0},{464,464,1},{465,465,0},{466,466,1},{467,467,0},{468,468,1},{469,469,0},{470,470,1},{471,471,0},{472,472,1},{473,473,0},{474,474,1},{475,475,0},{476,477,1},{478,478,0},{479,479,1},{480,480,0},{481,481,1},{482,482,0},{483,483,1},{484,484,0},{485,485,1},{486,486,0},{487,487,1},{488,488,0},{489,489,1},{490,490,0},{491,491,1},{492,492,0},{493,493,1},{494,494,0},{495,496,1},{497,498,0},{499,499,1},{500,500,0},{501,501,1},{502,504,0},{505,505,1},{506,506,0},{507,507,1},{508,508,0},{509,509,1},{510,510,0},{511,511,1},{512,512,0},{513,513,1},{514,514,0},{515,515,1},{516,516,0},{517,517,1},{518,518,0},{519,519,1},{520,520,0},{521,521,1},{522,522,0},{523,523,1},{524,524,0},{525,525,1},{526,526,0},{527,527,1},{528,528,0},{529,529,1},{530,530,0},{531,531,1},{532,532,0},{533,533,1},{534,534,0},{535,535,1},{536,536,0},{537,537,1},{538,538,0},{539,539,1},{540,540,0},{541,541,1},{542,542,0},{543,543,1},{544,544,0},{545,545,1},{546,546,0},{547,547,1},{548,548,0},{549,549,1},{550,550,0},{551,551,1},{552,552,0},{553,553,1},{554,554,0},{555,555,1},{556,556,0},{557,557,1},{558,558,0},{559,559,1},{560,560,0},{561,561,1},{562,562,0},{563,569,1},{570,571,0},{572,572,1},{573,574,0},{575,576,1},{577,577,0},{578,578,1},{579,582,0},{583,583,1},{584,584,0},{585,585,1},{586,586,0},{587,587,1},{588,588,0},{589,589,1},{590,590,0},{591,659,1},{660,660,0},{661,696,1},{697,703,0},{704,705,1},{706,735,0},{736,740,1},{741,836,0},{837,837,1},{838,880,0},{881,881,1},{882,882,0},{883,883,1},{884,886,0},{887,887,1},{888,889,0},{890,893,1},{894,911,0},{912,912,1},{913,939,0},{940,974,1},{975,975,0},{976,977,1},{978,980,0},{981,983,1},{984,984,0},{985,985,1},{986,986,0},{987,987,1},{988,988,0},{989,989,1},{990,990,0},{991,991,1},{992,992,0},{993,993,1},{994,994,0},{995,995,1},{996,996,0},{997,997,1},{998,998,0},{999,999,1},{1000,1000,0},{1001,1001,1},{1002,1002,0},{1003,1003,1},{1004,1004,0},{1005,1005,1},{1006,1006,0},{1007,1011,1},{1012,1012,0},{1013,1013,1},{1014,1015,0},{1016,1016,1},{1017,1018,0},{1019,1020,1},{1021,1071,0},{1072,1119,1},{1120,1120,0},{1121,1121,1},{1122,1122,0},{1123,1123,1},{1124,1124,0},{1125,1125,1},{1126,1126,0},{1127,1127,1},{1128,1128,0},{1129,1129,1},{1130,1130,0},{1131,1131,1},{1132,1132,0},{1133,1133,1},{1134,1134,0},{1135,1135,1},{1136,1136,0},{1137,1137,1},{1138,1138,0},{1139,1139,1},{1140,1140,0},{1141,1141,1},{1142,1142,0},{1143,1143,1},{1144,1144,0},{1145,1145,1},{1146,1146,0},{1147,1147,1},{1148,1148,0},{1149,1149,1},{1150,1150,0},{1151,1151,1},{1152,1152,0},{1153,1153,1},{1154,1162,0},{1163,1163,1},{1164,1164,0},{1165,1165,1},{1166,1166,0},{1167,1167,1},{1168,1168,0},{1169,1169,1},{1170,1170,0},{1171,1171,1},{1172,1172,0},{1173,1173,1},{1174,1174,0},{1175,1175,1},{1176,1176,0},{1177,1177,1},{1178,1178,0},{1179,1179,1},{1180,1180,0},{1181,1181,1},{1182,1182,0},{1183,1183,1},{1184,1184,0},{1185,1185,1},{1186,1186,0},{1187,1187,1},{1188,1188,0},{1189,1189,1},{1190,1190,0},{1191,1191,1},{1192,1192,0},{1193,1193,1},{1194,1194,0},{1195,1195,1},{1196,1196,0},{1197,1197,1},{1198,1198,0},{1199,1199,1},{1200,1200,0},{1201,1201,1},{1202,1202,0},{1203,1203,1},{1204,1204,0},{1205,1205,1},{1206,1206,0},{1207,1207,1},{1208,1208,0},{1209,1209,1},{1210,1210,0},{1211,1211,1},{1212,1212,0},{1213,1213,1},{1214,1214,0},{1215,1215,1},{1216,1217,0},{1218,1218,1},{1219,1219,0},{1220,1220,1},{1221,1221,0},{1222,1222,1},{1223,1223,0},{1224,1224,1},{1225,1225,0},{1226,1226,1},{1227,1227,0},{1228,1228,1},{1229,1229,0},{1230,1231,1},{1232,1232,0},{1233,1233,1},{1234,1234,0},{1235,1235,1},{1236,1236,0},{1237,1237,1},{1238,1238,0},{1239,1239,1},{1240,1240,0},{1241,1241,1},{1242,1242,0},{1243,1243,1},{1244,1244,0},{1245,1245,1},{1246,1246,0},{1247,1247,1},{1248,1248,0},{1249,1249,1},{1250,1250,0},{1251,1251,1},{1252,1252,0},{1253,1253,1},{1254,1254,0},{1255,1255,1},{1256,1256,0},{1257,1257,1},{1258,1258,0},{1259,1259,1},{1260,1260,0},{1261,1261,1},{1262,1262,0},{1263,1263,1},{1264,1264,0},{1265,1265,1},{1266,1266,0},{1267,1267,1},{1268,1268,0},{1269,1269,1},{1270,1270,0},{1271,1271,1},{1272,1272,0},{1273,1273,1},{1274,1274,0},{1275,1275,1},{1276,1276,0},{1277,1277,1},{1278,1278,0},{1279,1279,1},{1280,1280,0},{1281,1281,1},{1282,1282,0},{1283,1283,1},{1284,1284,0},{1285,1285,1},{1286,1286,0},{1287,1287,1},{1288,1288,0},{1289,1289,1},{1290,1290,0},{1291,1291,1},{1292,1292,0},{1293,1293,1},{1294,1294,0},{1295,1295,1},{1296,1296,0},{1297,1297,1},{1298,1298,0},{1299,1299,1},{1300,1300,0},{1301,1301,1},{1302,1302,0},{1303,1303,1},{1304,1304,0},{1305,1305,1},{1306,1306,0},{1307,1307,1},{1308,1308,0},{1309,1309,1},{1310,1310,0},{1311,1311,1},{1312,1312,0},{1313,1313,1},{1314,1314,0},{1315,1315,1},{1316,1316,0},{1317,1317,1},{1318,1318,0},{1319,1319,1},{1320,1320,0},{1321,1321,1},{1322,1322,0},{1323,1323,1},{1324,1324,0},{1325,1325,1},{1326,1326,0},{1327,1327,1},{1328,1375,0},{1376,1416,1},{1417,4303,0},{4304,4346,1},{4347,4347,0},{4348,4351,1},{4352,5111,0},{5112,5117,1},{5118,7295,0},{7296,7304,1},{7305,7423,0},{7424,7615,1},{7616,7680,0},{7681,7681,1},{7682,7682,0},{7683,7683,1},{7684,7684,0},{7685,7685,1},{7686,7686,0},{7687,7687,1},{7688,7688,0},{7689,7689,1},{7690,7690,0},{7691,7691,1},{7692,7692,0},{7693,7693,1},{7694,7694,0},{7695,7695,1},{7696,7696,0},{7697,7697,1},{7698,7698,0},{7699,7699,1},{7700,7700,0},{7701,7701,1},{7702,7702,0},{7703,7703,1},{7704,7704,0},{7705,7705,1},{7706,7706,0},{7707,7707,1},{7708,7708,0},{7709,7709,1},{7710,7710,0},{7711,7711,1},{7712,7712,0},{7713,7713,1},{7714,7714,0},{7715,7715,1},{7716,7716,0},{7717,7717,1},{7718,7718,0},{7719,7719,1},{7720,7720,0},{7721,7721,1},{7722,7722,0},{7723,7723,1},{7724,7724,0},{7725,7725,1},{7726,7726,0},{7727,7727,1},{7728,7728,0},{7729,7729,1},{7730,7730,0},{7731,7731,1},{7732,7732,0},{7733,7733,1},{7734,7734,0},{7735,7735,1},{7736,7736,0},{7737,7737,1},{7738,7738,0},{7739,7739,1},{7740,7740,0},{7741,7741,1},{7742,7742,0},{7743,7743,1},{7744,7744,0},{7745,7745,1},{7746,7746,0},{7747,7747,1},{7748,7748,0},{7749,7749,1},{7750,7750,0},{7751,7751,1},{7752,7752,0},{7753,7753,1},{7754,7754,0},{7755,7755,1},{7756,7756,0},{7757,7757,1},{7758,7758,0},{7759,7759,1},{7760,7760,0},{7761,7761,1},{7762,7762,0},{7763,7763,1},{7764,7764,0},{7765,7765,1},{7766,7766,0},{7767,7767,1},{7768,7768,0},{7769,7769,1},{7770,7770,0},{7771,7771,1},{7772,7772,0},{7773,7773,1},{7774,7774,0},{7775,7775,1},{7776,7776,0},{7777,7777,1},{7778,7778,0},{7779,7779,1},{7780,7780,0},{7781,7781,1},{7782,7782,0},{7783,7783,1},{7784,7784,0},{7785,7785,1},{7786,7786,0},{7787,7787,1},{7788,7788,0},{7789,7789,1},{7790,7790,0},{7791,7791,1},{7792,7792,0},{7793,7793,1},{7794,7794,0},{7795,7795,1},{7796,7796,0},{7797,7797,1},{7798,7798,0},{7799,7799,1},{7800,7800,0},{7801,7801,1},{7802,7802,0},{7803,7803,1},{7804,7804,0},{7805,7805,1},{7806,7806,0},{7807,7807,1},{7808,7808,0},{7809,7809,1},{7810,7810,0},{7811,7811,1},{7812,7812,0},{7813,7813,1},{7814,7814,0},{7815,7815,1},{7816,7816,0},{7817,7817,1},{7818,7818,0},{7819,7819,1},{7820,7820,0},{7821,7821,1},{7822,7822,0},{7823,7823,1},{7824,7824,0},{7825,7825,1},{7826,7826,0},{7827,7827,1},{7828,7828,0},{7829,7837,1},{7838,7838,0},{7839,7839,1},{7840,7840,0},{7841,7841,1},{7842,7842,0},{7843,7843,1},{7844,7844,0},{7845,7845,1},{7846,7846,0},{7847,7847,1},{7848,7848,0},{7849,7849,1},{7850,7850,0},{7851,7851,1},{7852,7852,0},{7853,7853,1},{7854,7854,0},{7855,7855,1},{7856,7856,0},{7857,7857,1},{7858,7858,0},{7859,7859,1},{7860,7860,0},{7861,7861,1},{7862,7862,0},{7863,7863,1},{7864,7864,0},{7865,7865,1},{7866,7866,0},{7867,7867,1},{7868,7868,0},{7869,7869,1},{7870,7870,0},{7871,7871,1},{7872,7872,0},{7873,7873,1},{7874,7874,0},{7875,7875,1},{7876,7876,0},{7877,7877,1},{7878,7878,0},{7879,7879,1},{7880,7880,0},{7881,7881,1},{7882,7882,0},{7883,7883,1},{7884,7884,0},{7885,7885,1},{7886,7886,0},{7887,7887,1},{7888,7888,0},{7889,7889,1},{7890,7890,0},{7891,7891,1},{7892,7892,0},{7893,7893,1},{7894,7894,0},{7895,7895,1},{7896,7896,0},{7897,7897,1},{7898,7898,0},{7899,7899,1},{7900,7900,0},{7901,7901,1},{7902,7902,0},{7903,7903,1},{7904,7904,0},{7905,7905,1},{7906,7906,0},{7907,7907,1},{7908,7908,0},{7909,7909,1},{7910,7910,0},{7911,7911,1},{7912,7912,0},{7913,7913,1},{7914,7914,0},{7915,7915,1},{7916,7916,0},{7917,7917,1},{7918,7918,0},{7919,7919,1},{7920,7920,0},{7921,7921,1},{7922,7922,0},{7923,7923,1},{7924,7924,0},{7925,7925,1},{7926,7926,0},{7927,7927,1},{7928,7928,0},{7929,7929,1},{7930,7930,0},{7931,7931,1},{7932,7932,0},{7933,7933,1},{7934,7934,0},{7935,7943,1},{7944,7951,0},{7952,7957,1},{7958,7967,0},{7968,7975,1},{7976,7983,0},{7984,7991,1},{7992,7999,0},{8000,8005,1},{8006,8015,0},{8016,8023,1},{8024,8031,0},{8032,8039,1},{8040,8047,0},{8048,8061,1},{8062,8063,0},{8064,8071,1},{8072,8079,0},{8080,8087,1},{8088,8095,0},{8096,8103,1},{8104,8111,0},{8112,8116,1},{8117,8117,0},{8118,8119,1},{8120,8125,0},{8126,8126,1},{8127,8129,0},{8130,8132,1},{8133,8133,0},{8134,8135,1},{8136,8143,0},{8144,8147,1},{8148,8149,0},{8150,8151,1},{8152,8159,0},{8160,8167,1},{8168,8177,0},{8178,8180,1},{8181,8181,0},{8182,8183,1},{8184,8304,0},{8305,8305,1},{8306,8318,0},{8319,8319,1},{8320,8335,0},{8336,8348,1},{8349,8457,0},{8458,8458,1},{8459,8461,0},{8462,8463,1},{8464,8466,0},{8467,8467,1},{8468,8494,0},{8495,8495,1},{8496,8499,0},{8500,8500,1},{8501,8504,0},{8505,8505,1},{8506,8507,0},{8508,8509,1},{8510,8517,0},{8518,8521,1},{8522,8525,0},{8526,8526,1},{8527,8559,0},{8560,8575,1},{8576,8579,0},{8580,8580,1},{8581,9423,0},{9424,9449,1},{9450,11311,0},{11312,11359,1},{11360,11360,0},{11361,11361,1},{11362,11364,0},{11365,11366,1},{11367,11367,0},{11368,11368,1},{11369,11369,0},{11370,11370,1},{11371,11371,0},{11372,11372,1},{11373,11376,0},{11377,11377,1},{11378,11378,0},{11379,11380,1},{11381,11381,0},{11382,11389,1},{11390,11392,0},{11393,11393,1},{11394,11394,0},{11395,11395,1},{11396,11396,0},{11397,11397,1},{11398,11398,0},{11399,11399,1},{11400,11400,0},{11401,11401,1},{11402,11402,0},{11403,11403,1},{11404,11404,0},{11405,11405,1},{11406,11406,0},{11407,11407,1},{11408,11408,0},{11409,11409,1},{11410,11410,0},{11411,11411,1},{11412,11412,0},{11413,11413,1},{11414,11414,0},{11415,11415,1},{11416,11416,0},{11417,11417,1},{11418,11418,0},{11419,11419,1},{11420,11420,0},{11421,11421,1},{11422,11422,0},{11423,11423,1},{11424,11424,0},{11425,11425,1},{11426,11426,0},{11427,11427,1},{11428,11428,0},{11429,11429,1},{11430,11430,0},{11431,11431,1},{11432,11432,0},{11433,11433,1},{11434,11434,0},{11435,11435,1},{11436,11436,0},{11437,11437,1},{11438,11438,0},{11439,11439,1},{11440,11440,0},{11441,11441,1},{11442,11442,0},{11443,11443,1},{11444,11444,0},{11445,11445,1},{11446,11446,0},{11447,11447,1},{11448,11448,0},{11449,11449,1},{11450,11450,0},{11451,11451,1},{11452,11452,0},{11453,11453,1},{11454,11454,0},{11455,11455,1},{11456,11456,0},{11457,11457,1},{11458,11458,0},{11459,11459,1},{11460,11460,0},{11461,11461,1},{11462,11462,0},{11463,11463,1},{11464,11464,0},{11465,11465,1},{11466,11466,0},{11467,11467,1},{11468,11468,0},{11469,11469,1},{11470,11470,0},{11471,11471,1},{11472,11472,0},{11473,11473,1},{11474,11474,0},{11475,11475,1},{11476,11476,0},{11477,11477,1},{11478,11478,0},{11479,11479,1},{11480,11480,0},{11481,11481,1},{11482,11482,0},{11483,11483,1},{11484,11484,0},{11485,11485,1},{11486,11486,0},{11487,11487,1},{11488,11488,0},{11489,11489,1},{11490,11490,0},{11491,11492,1},{11493,11499,0},{11500,11500,1},{11501,11501,0},{11502,11502,1},{11503,11506,0},{11507,11507,1},{11508,11519,0},{11520,11557,1},{11558,11558,0},{11559,11559,1},{11560,11564,0},{11565,11565,1},{11566,42560,0},{42561,42561,1},{42562,42562,0},{42563,42563,1},{42564,42564,0},{42565,42565,1},{42566,42566,0},{42567,42567,1},{42568,42568,0},{42569,42569,1},{42570,42570,0},{42571,42571,1},{42572,42572,0},{42573,42573,1},{42574,42574,0},{42575,42575,1},{42576,42576,0},{42577,42577,1},{42578,42578,0},{42579,42579,1},{42580,42580,0},{42581,42581,1},{42582,42582,0},{42583,42583,1},{42584,42584,0},{42585,42585,1},{42586,42586,0},{42587,42587,1},{42588,42588,0},{42589,42589,1},{42590,42590,0},{42591,42591,1},{42592,42592,0},{42593,42593,1},{42594,42594,0},{42595,42595,1},{42596,42596,0},{42597,42597,1},{42598,42598,0},{42599,42599,1},{42600,42600,0},{42601,42601,1},{42602,42602,0},{42603,42603,1},{42604,42604,0},{42605,42605,1},{42606,42624,0},{42625,42625,1},{42626,42626,0},{42627,42627,1},{42628,42628,0},{42629,42629,1},{42630,42630,0},{42631,42631,1},{42632,42632,0},{42633,42633,1},{42634,42634,0},{42635,42635,1},{42636,42636,0},{42637,42637,1},{42638,42638,0},{42639,42639,1},{42640,42640,0},{42641,42641,1},{42642,42642,0},{42643,42643,1},{42644,42644,0},{42645,42645,1},{42646,42646,0},{42647,42647,1},{42648,42648,0},{42649,42649,1},{42650,42650,0},{42651,42653,1},{42654,42786,0},{42787,42787,1},{42788,42788,0},{42789,42789,1},{42790,42790,0},{42791,42791,1},{42792,42792,0},{42793,42793,1},{42794,42794,0},{42795,42795,1},{42796,42796,0},{42797,42797,1},{42798,42798,0},{42799,42801,1},{42802,42802,0},{42803,42803,1},{42804,42804,0},{42805,42805,1},{42806,42806,0},{42807,42807,1},{42808,42808,0},{42809,42809,1},{42810,42810,0},{42811,42811,1},{42812,42812,0},{42813,42813,1},{42814,42814,0},{42815,42815,1},{42816,42816,0},{42817,42817,1},{42818,42818,0},{42819,42819,1},{42820,42820,0},{42821,42821,1},{42822,42822,0},{42823,42823,1},{42824,42824,0},{42825,42825,1},{42826,42826,0},{42827,42827,1},{42828,42828,0},{42829,42829,1},{42830,42830,0},{42831,42831,1},{42832,42832,0},{42833,42833,1},{42834,42834,0},{42835,42835,1},{42836,42836,0},{42837,42837,1},{42838,42838,0},{42839,42839,1},{42840,42840,0},{42841,42841,1},{42842,42842,0},{42843,42843,1},{42844,42844,0},{42845,42845,1},{42846,42846,0},{42847,42847,1},{42848,42848,0},{42849,42849,1},{42850,42850,0},{42851,42851,1},{42852,42852,0},{42853,42853,1},{42854,42854,0},{42855,42855,1},{42856,42856,0},{42857,42857,1},{42858,42858,0},{42859,42859,1},{42860,42860,0},{42861,42861,1},{42862,42862,0},{42863,42872,1},{42873,42873,0},{42874,42874,1},{42875,42875,0},{42876,42876,1},{42877,42878,0},{42879,42879,1},{42880,42880,0},{42881,42881,1},{42882,42882,0},{42883,42883,1},{42884,42884,0},{42885,42885,1},{42886,42886,0},{42887,42887,1},{42888,42891,0},{42892,42892,1},{42893,42893,0},{42894,42894,1},{42895,42896,0},{42897,42897,1},{42898,42898,0},{42899,42901,1},{42902,42902,0},{42903,42903,1},{42904,42904,0},{42905,42905,1},{42906,42906,0},{42907,42907,1},{42908,42908,0},{42909,42909,1},{42910,42910,0},{42911,42911,1},{42912,42912,0},{42913,42913,1},{42914,42914,0},{42915,42915,1},{42916,42916,0},{42917,42917,1},{42918,42918,0},{42919,42919,1},{42920,42920,0},{42921,42921,1},{42922,42926,0},{42927,42927,1},{42928,42932,0},{42933,42933,1},{42934,42934,0},{42935,42935,1},{42936,42936,0},{42937,42937,1},{42938,42938,0},{42939,42939,1},{42940,42940,0},{42941,42941,1},{42942,42942,0},{42943,42943,1},{42944,42944,0},{42945,42945,1},{42946,42946,0},{42947,42947,1},{42948,42951,0},{42952,42952,1},{42953,42953,0},{42954,42954,1},{42955,42960,0},{42961,42961,1},{42962,42962,0},{42963,42963,1},{42964,42964,0},{42965,42965,1},{42966,42966,0},{42967,42967,1},{42968,42968,0},{42969,42969,1},{42970,42993,0},{42994,42996,1},{42997,42997,0},{42998,42998,1},{42999,42999,0},{43000,43002,1},{43003,43823,0},{43824,43866,1},{43867,43867,0},{43868,43881,1},{43882,43887,0},{43888,43967,1},{43968,64255,0},{64256,64262,1},{64263,64274,0},{64275,64279,1},{64280,65344,0},{65345,65370,1},{65371,66599,0},{66600,66639,1},{66640,66775,0},{66776,66811,1},{66812,66966,0},{66967,66977,1},{66978,66978,0},{66979,66993,1},{66994,66994,0},{66995,67001,1},{67002,67002,0},{67003,67004,1},{67005,67455,0},{67456,67456,1},{67457,67458,0},{67459,67461,1},{67462,67462,0},{67463,67504,1},{67505,67505,0},{67506,67514,1},{67515,68799,0},{68800,68850,1},{68851,71871,0},{71872,71903,1},{71904,93791,0},{93792,93823,1},{93824,119833,0},{119834,119859,1},{119860,119885,0},{119886,119892,1},{119893,119893,0},{119894,119911,1},{119912,119937,0},{119938,119963,1},{119964,119989,0},{119990,119993,1},{119994,119994,0},{119995,119995,1},{119996,119996,0},{119997,120003,1},{120004,120004,0},{120005,120015,1},{120016,120041,0},{120042,120067,1},{120068,120093,0},{120094,120119,1},{120120,120145,0},{120146,120171,1},{120172,120197,0},{120198,120223,1},{120224,120249,0},{120250,120275,1},{120276,120301,0},{120302,120327,1},{120328,120353,0},{120354,120379,1},{120380,120405,0},{120406,120431,1},{120432,120457,0},{120458,120485,1},{120486,120513,0},{120514,120538,1},{120539,120539,0},{120540,120545,1},{120546,120571,0},{120572,120596,1},{120597,120597,0},{120598,120603,1},{120604,120629,0},{120630,120654,1},{120655,120655,0},{120656,120661,1},{120662,120687,0},{120688,120712,1},{120713,120713,0},{120714,120719,1},{120720,120745,0},{120746,120770,1},{120771,120771,0},{120772,120777,1},{120778,120778,0},{120779,120779,1},{120780,122623,0},{122624,122633,1},{122634,122634,0},{122635,122654,1},{122655,122660,0},{122661,122666,1},{122667,122927,0},{122928,122989,1},{122990,125217,0},{125218,125251,1},{125252,1114111,0}};
inline constexpr Run is_upper[] = {{0,64,0},{65,90,1},{91,191,0},{192,214,1},{215,215,0},{216,222,1},{223,255,0},{256,256,1},{257,257,0},{258,258,1},{259,259,0},{260,260,1},{261,261,0},{262,262,1},{263,263,0},{264,264,1},{265,265,0},{266,266,1},{267,267,0},{268,268,1},{269,269,0},{270,270,1},{271,271,0},{272,272,1},{273,273,0},{274,274,1},{275,275,0},{276,276,1},{277,277,0},{278,278,1},{279,279,0},{280,280,1},{281,281,0},{282,282,1},{283,283,0},{284,284,1},{285,285,0},{286,286,1},{287,287,0},{288,288,1},{289,289,0},{290,290,1},{291,291,0},{292,292,1},{293,293,0},{294,294,1},{295,295,0},{296,296,1},{297,297,0},{298,298,1},{299,299,0},{300,300,1},{301,301,0},{302,302,1},{303,303,0},{304,304,1},{305,305,0},{306,306,1},{307,307,0},{308,308,1},{309,309,0},{310,310,1},{311,312,0},{313,313,1},{314,314,0},{315,315,1},{316,316,0},{317,317,1},{318,318,0},{319,319,1},{320,320,0},{321,321,1},{322,322,0},{323,323,1},{324,324,0},{325,325,1},{326,326,0},{327,327,1},{328,329,0},{330,330,1},{331,331,0},{332,332,1},{333,333,0},{334,334,1},{335,335,0},{336,336,1},{337,337,0},{338,338,1},{339,339,0},{340,340,1},{341,341,0},{342,342,1},{343,343,0},{344,344,1},{345,345,0},{346,346,1},{347,347,0},{348,348,1},{349,349,0},{350,350,1},{351,351,0},{352,352,1},{353,353,0},{354,354,1},{355,355,0},{356,356,1},{357,357,0},{358,358,1},{359,359,0},{360,360,1},{361,361,0},{362,362,1},{363,363,0},{364,364,1},{365,365,0},{366,366,1},{367,367,0},{368,368,1},{369,369,0},{370,370,1},{371,371,0},{372,372,1},{373,373,0},{374,374,1},{375,375,0},{376,377,1},{378,378,0},{379,379,1},{380,380,0},{381,381,1},{382,384,0},{385,386,1},{387,387,0},{388,388,1},{389,389,0},{390,391,1},{392,392,0},{393,395,1},{396,397,0},{398,401,1},{402,402,0},{403,404,1},{405,405,0},{406,408,1},{409,411,0},{412,413,1},{414,414,0},{415,416,1},{417,417,0},{418,418,1},{419,419,0},{420,420,1},{421,421,0},{422,423,1},{424,424,0},{425,425,1},{426,427,0},{428,428,1},{429,429,0},{430,431,1},{432,432,0},{433,435,1},{436,436,0},{437,437,1},{438,438,0},{439,440,1},{441,443,0},{444,444,1},{445,451,0},{452,452,1},{453,454,0},{455,455,1},{456,457,0},{458,458,1},{459,460,0},{461,461,1},{462,462,0},{463,463,1},{464,464,0},{465,465,1},{466,466,0},{467,467,1},{468,468,0},{469,469,1},{470,470,0},{471,471,1},{472,472,0},{473,473,1},{474,474,0},{475,475,1},{476,477,0},{478,478,1},{479,479,0},{480,480,1},{481,481,0},{482,482,1},{483,483,0},{484,484,1},{485,485,0},{486,486,1},{487,487,0},{488,488,1},{489,489,0},{490,490,1},{491,491,0},{492,492,1},{493,493,0},{494,494,1},{495,496,0},{497,497,1},{498,499,0},{500,500,1},{501,501,0},{502,504,1},{505,505,0},{506,506,1},{507,507,0},{508,508,1},{509,509,0},{510,510,1},{511,511,0},{512,512,1},{513,513,0},{514,514,1},{515,515,0},{516,516,1},{517,517,0},{518,518,1},{519,519,0},{520,520,1},{521,521,0},{522,522,1},{523,523,0},{524,524,1},{525,525,0},{526,526,1},{527,527,0},{528,528,1},{529,529,0},{530,530,1},{531,531,0},{532,532,1},{533,533,0},{534,534,1},{535,535,0},{536,536,1},{537,537,0},{538,538,1},{539,539,0},{540,540,1},{541,541,0},{542,542,1},{543,543,0},{544,544,1},{545,545,0},{546,546,1},{547,547,0},{548,548,1},{549,549,0},{550,550,1},{551,551,0},{552,552,1},{553,553,0},{554,554,1},{555,555,0},{556,556,1},{557,557,0},{558,558,1},{559,559,0},{560,560,1},{561,561,0},{562,562,1},{563,569,0},{570,571,1},{572,572,0},{573,574,1},{575,576,0},{577,577,1},{578,578,0},{579,582,1},{583,583,0},{584,584,1},{585,585,0},{586,586,1},{587,587,0},{588,588,1},{589,589,0},{590,590,1},{591,879,0},{880,880,1},{881,881,0},{882,882,1},{883,885,0},{886,886,1},{887,894,0},{895,895,1},{896,901,0},{902,902,1},{903,903,0},{904,906,1},{907,907,0},{908,908,1},{909,909,0},{910,911,1},{912,912,0},{913,929,1},{930,930,0},{931,939,1},{940,974,0},{975,975,1},{976,977,0},{978,980,1},{981,983,0},{984,984,1},{985,985,0},{986,986,1},{987,987,0},{988,988,1},{989,989,0},{990,990,1},{991,991,0},{992,992,1},{993,993,0},{994,994,1},{995,995,0},{996,996,1},{997,997,0},{998,998,1},{999,999,0},{1000,1000,1},{1001,1001,0},{1002,1002,1},{1003,1003,0},{1004,1004,1},{1005,1005,0},{1006,1006,1},{1007,1011,0},{1012,1012,1},{1013,1014,0},{1015,1015,1},{1016,1016,0},{1017,1018,1},{1019,1020,0},{1021,1071,1},{1072,1119,0},{1120,1120,1},{1121,1121,0},{1122,1122,1},{1123,1123,0},{1124,1124,1},{1125,1125,0},{1126,1126,1},{1127,1127,0},{1128,1128,1},{1129,1129,0},{1130,1130,1},{1131,1131,0},{1132,1132,1},{1133,1133,0},{1134,1134,1},{1135,1135,0},{1136,1136,1},{1137,1137,0},{1138,1138,1},{1139,1139,0},{1140,1140,1},{1141,1141,0},{1142,1142,1},{1143,1143,0},{1144,1144,1},{1145,1145,0},{1146,1146,1},{1147,1147,0},{1148,1148,1},{1149,1149,0},{1150,1150,1},{1151,1151,0},{1152,1152,1},{1153,1161,0},{1162,1162,1},{1163,1163,0},{1164,1164,1},{1165,1165,0},{1166,1166,1},{1167,1167,0},{1168,1168,1},{1169,1169,0},{1170,1170,1},{1171,1171,0},{1172,1172,1},{1173,1173,0},{1174,1174,1},{1175,1175,0},{1176,1176,1},{1177,1177,0},{1178,1178,1},{1179,1179,0},{1180,1180,1},{1181,1181,0},{1182,1182,1},{1183,1183,0},{1184,1184,1},{1185,1185,0},{1186,1186,1},{1187,1187,0},{1188,1188,1},{1189,1189,0},{1190,1190,1},{1191,1191,0},{1192,1192,1},{1193,1193,0},{1194,1194,1},{1195,1195,0},{1196,1196,1},{1197,1197,0},{1198,1198,1},{1199,1199,0},{1200,1200,1},{1201,1201,0},{1202,1202,1},{1203,1203,0},{1204,1204,1},{1205,1205,0},{1206,1206,1},{1207,1207,0},{1208,1208,1},{1209,1209,0},{1210,1210,1},{1211,1211,0},{1212,1212,1},{1213,1213,0},{1214,1214,1},{1215,1215,0},{1216,1217,1},{1218,1218,0},{1219,1219,1},{1220,1220,0},{1221,1221,1},{1222,1222,0},{1223,1223,1},{1224,1224,0},{1225,1225,1},{1226,1226,0},{1227,1227,1},{1228,1228,0},{1229,1229,1},{1230,1231,0},{1232,1232,1},{1233,1233,0},{1234,1234,1},{1235,1235,0},{1236,1236,1},{1237,1237,0},{1238,1238,1},{1239,1239,0},{1240,1240,1},{1241,1241,0},{1242,1242,1},{1243,1243,0},{1244,1244,1},{1245,1245,0},{1246,1246,1},{1247,1247,0},{1248,1248,1},{1249,1249,0},{1250,1250,1},{1251,1251,0},{1252,1252,1},{1253,1253,0},{1254,1254,1},{1255,1255,0},{1256,1256,1},{1257,1257,0},{1258,1258,1},{1259,1259,0},{1260,1260,1},{1261,1261,0},{1262,1262,1},{1263,1263,0},{1264,1264,1},{1265,1265,0},{1266,1266,1},{1267,1267,0},{1268,1268,1},{1269,1269,0},{1270,1270,1},{1271,1271,0},{1272,1272,1},{1273,1273,0},{1274,1274,1},{1275,1275,0},{1276,1276,1},{1277,1277,0},{1278,1278,1},{1279,1279,0},{1280,1280,1},{1281,1281,0},{1282,1282,1},{1283,1283,0},{1284,1284,1},{1285,1285,0},{1286,1286,1},{1287,1287,0},{1288,1288,1},{1289,1289,0},{1290,1290,1},{1291,1291,0},{1292,1292,1},{1293,1293,0},{1294,1294,1},{1295,1295,0},{1296,1296,1},{1297,1297,0},{1298,1298,1},{1299,1299,0},{1300,1300,1},{1301,1301,0},{1302,1302,1},{1303,1303,0},{1304,1304,1},{1305,1305,0},{1306,1306,1},{1307,1307,0},{1308,1308,1},{1309,1309,0},{1310,1310,1},{1311,1311,0},{1312,1312,1},{1313,1313,0},{1314,1314,1},{1315,1315,0},{1316,1316,1},{1317,1317,0},{1318,1318,1},{1319,1319,0},{1320,1320,1},{1321,1321,0},{1322,1322,1},{1323,1323,0},{1324,1324,1},{1325,1325,0},{1326,1326,1},{1327,1328,0},{1329,1366,1},{1367,4255,0},{4256,4293,1},{4294,4294,0},{4295,4295,1},{4296,4300,0},{4301,4301,1},{4302,5023,0},{5024,5109,1},{5110,7311,0},{7312,7354,1},{7355,7356,0},{7357,7359,1},{7360,7679,0},{7680,7680,1},{7681,7681,0},{7682,7682,1},{7683,7683,0},{7684,7684,1},{7685,7685,0},{7686,7686,1},{7687,7687,0},{7688,7688,1},{7689,7689,0},{7690,7690,1},{7691,7691,0},{7692,7692,1},{7693,7693,0},{7694,7694,1},{7695,7695,0},{7696,7696,1},{7697,7697,0},{7698,7698,1},{7699,7699,0},{7700,7700,1},{7701,7701,0},{7702,7702,1},{7703,7703,0},{7704,7704,1},{7705,7705,0},{7706,7706,1},{7707,7707,0},{7708,7708,1},{7709,7709,0},{7710,7710,1},{7711,7711,0},{7712,7712,1},{7713,7713,0},{7714,7714,1},{7715,7715,0},{7716,7716,1},{7717,7717,0},{7718,7718,1},{7719,7719,0},{7720,7720,1},{7721,7721,0},{7722,7722,1},{7723,7723,0},{7724,7724,1},{7725,7725,0},{7726,7726,1},{7727,7727,0},{7728,7728,1},{7729,7729,0},{7730,7730,1},{7731,7731,0},{7732,7732,1},{7733,7733,0},{7734,7734,1},{7735,7735,0},{7736,7736,1},{7737,7737,0},{7738,7738,1},{7739,7739,0},{7740,7740,1},{7741,7741,0},{7742,7742,1},{7743,7743,0},{7744,7744,1},{7745,7745,0},{7746,7746,1},{7747,7747,0},{7748,7748,1},{7749,7749,0},{7750,7750,1},{7751,7751,0},{7752,7752,1},{7753,7753,0},{7754,7754,1},{7755,7755,0},{7756,7756,1},{7757,7757,0},{7758,7758,1},{7759,7759,0},{7760,7760,1},{7761,7761,0},{7762,7762,1},{7763,7763,0},{7764,7764,1},{7765,7765,0},{7766,7766,1},{7767,7767,0},{7768,7768,1},{7769,7769,0},{7770,7770,1},{7771,7771,0},{7772,7772,1},{7773,7773,0},{7774,7774,1},{7775,7775,0},{7776,7776,1},{7777,7777,0},{7778,7778,1},{7779,7779,0},{7780,7780,1},{7781,7781,0},{7782,7782,1},{7783,7783,0},{7784,7784,1},{7785,7785,0},{7786,7786,1},{7787,7787,0},{7788,7788,1},{7789,7789,0},{7790,7790,1},{7791,7791,0},{7792,7792,1},{7793,7793,0},{7794,7794,1},{7795,7795,0},{7796,7796,1},{7797,7797,0},{7798,7798,1},{7799,7799,0},{7800,7800,1},{7801,7801,0},{7802,7802,1},{7803,7803,0},{7804,7804,1},{7805,7805,0},{7806,7806,1},{7807,7807,0},{7808,7808,1},{7809,7809,0},{7810,7810,1},{7811,7811,0},{7812,7812,1},{7813,7813,0},{7814,7814,1},{7815,7815,0},{7816,7816,1},{7817,7817,0},{7818,7818,1},{7819,7819,0},{7820,7820,1},{7821,7821,0},{7822,7822,1},{7823,7823,0},{7824,7824,1},{7825,7825,0},{7826,7826,1},{7827,7827,0},{7828,7828,1},{7829,7837,0},{7838,7838,1},{7839,7839,0},{7840,7840,1},{7841,7841,0},{7842,7842,1},{7843,7843,0},{7844,7844,1},{7845,7845,0},{7846,7846,1},{7847,7847,0},{7848,7848,1},{7849,7849,0},{7850,7850,1},{7851,7851,0},{7852,7852,1},{7853,7853,0},{7854,7854,1},{7855,7855,0},{7856,7856,1},{7857,7857,0},{7858,7858,1},{7859,7859,0},{7860,7860,1},{7861,7861,0},{7862,7862,1},{7863,7863,0},{7864,7864,1},{7865,7865,0},{7866,7866,1},{7867,7867,0},{7868,7868,1},{7869,7869,0},{7870,7870,1},{7871,7871,0},{7872,7872,1},{7873,7873,0},{7874,7874,1},{7875,7875,0},{7876,7876,1},{7877,7877,0},{7878,7878,1},{7879,7879,0},{7880,7880,1},{7881,7881,0},{7882,7882,1},{7883,7883,0},{7884,7884,1},{7885,7885,0},{7886,7886,1},{7887,7887,0},{7888,7888,1},{7889,7889,0},{7890,7890,1},{7891,7891,0},{7892,7892,1},{7893,7893,0},{7894,7894,1},{7895,7895,0},{7896,7896,1},{7897,7897,0},{7898,7898,1},{7899,7899,0},{7900,7900,1},{7901,7901,0},{7902,7902,1},{7903,7903,0},{7904,7904,1},{7905,7905,0},{7906,7906,1},{7907,7907,0},{7908,7908,1},{7909,7909,0},{7910,7910,1},{7911,7911,0},{7912,7912,1},{7913,7913,0},{7914,7914,1},{7915,7915,0},{7916,7916,1},{7917,7917,0},{7918,7918,1},{7919,7919,0},{7920,7920,1},{7921,7921,0},{7922,7922,1},{7923,7923,0},{7924,7924,1},{7925,7925,0},{7926,7926,1},{7927,7927,0},{7928,7928,1},{7929,7929,0},{7930,7930,1},{7931,7931,0},{7932,7932,1},{7933,7933,0},{7934,7934,1},{7935,7943,0},{7944,7951,1},{7952,7959,0},{7960,7965,1},{7966,7975,0},{7976,7983,1},{7984,7991,0},{7992,7999,1},{8000,8007,0},{8008,8013,1},{8014,8024,0},{8025,8025,1},{8026,8026,0},{8027,8027,1},{8028,8028,0},{8029,8029,1},{8030,8030,0},{8031,8031,1},{8032,8039,0},{8040,8047,1},{8048,8119,0},{8120,8123,1},{8124,8135,0},{8136,8139,1},{8140,8151,0},{8152,8155,1},{8156,8167,0},{8168,8172,1},{8173,8183,0},{8184,8187,1},{8188,8449,0},{8450,8450,1},{8451,8454,0},{8455,8455,1},{8456,8458,0},{8459,8461,1},{8462,8463,0},{8464,8466,1},{8467,8468,0},{8469,8469,1},{8470,8472,0},{8473,8477,1},{8478,8483,0},{8484,8484,1},{8485,8485,0},{8486,8486,1},{8487,8487,0},{8488,8488,1},{8489,8489,0},{8490,8493,1},{8494,8495,0},{8496,8499,1},{8500,8509,0},{8510,8511,1},{8512,8516,0},{8517,8517,1},{8518,8543,0},{8544,8559,1},{8560,8578,0},{8579,8579,1},{8580,9397,0},{9398,9423,1},{9424,11263,0},{11264,11311,1},{11312,11359,0},{11360,11360,1},{11361,11361,0},{11362,11364,1},{11365,11366,0},{11367,11367,1},{11368,11368,0},{11369,11369,1},{11370,11370,0},{11371,11371,1},{11372,11372,0},{11373,11376,1},{11377,11377,0},{11378,11378,1},{11379,11380,0},{11381,11381,1},{11382,11389,0},{11390,11392,1},{11393,11393,0},{11394,11394,1},{11395,11395,0},{11396,11396,1},{11397,11397,0},{11398,11398,1},{11399,11399,0},{11400,11400,1},{11401,11401,0},{11402,11402,1},{11403,11403,0},{11404,11404,1},{11405,11405,0},{11406,11406,1},{11407,11407,0},{11408,11408,1},{11409,11409,0},{11410,11410,1},{11411,11411,0},{11412,11412,1},{11413,11413,0},{11414,11414,1},{11415,11415,0},{11416,11416,1},{11417,11417,0},{11418,11418,1},{11419,11419,0},{11420,11420,1},{11421,11421,0},{11422,11422,1},{11423,11423,0},{11424,11424,1},{11425,11425,0},{11426,11426,1},{11427,11427,0},{11428,11428,1},{11429,11429,0},{11430,11430,1},{11431,11431,0},{11432,11432,1},{11433,11433,0},{11434,11434,1},{11435,11435,0},{11436,11436,1},{11437,11437,0},{11438,11438,1},{11439,11439,0},{11440,11440,1},{11441,11441,0},{11442,11442,1},{11443,11443,0},{11444,11444,1},{11445,11445,0},{11446,11446,1},{11447,11447,0},{11448,11448,1},{11449,11449,0},{11450,11450,1},{11451,11451,0},{11452,11452,1},{11453,11453,0},{11454,11454,1},{11455,11455,0},{11456,11456,1},{11457,11457,0},{11458,11458,1},{11459,11459,0},{11460,11460,1},{11461,11461,0},{11462,11462,1},{11463,11463,0},{11464,11464,1},{11465,11465,0},{11466,11466,1},{11467,11467,0},{11468,11468,1},{11469,11469,0},{11470,11470,1},{11471,11471,0},{11472,11472,1},{11473,11473,0},{11474,11474,1},{11475,11475,0},{11476,11476,1},{11477,11477,0},{11478,11478,1},{11479,11479,0},{11480,11480,1},{11481,11481,0},{11482,11482,1},{11483,11483,0},{11484,11484,1},{11485,11485,0},{11486,11486,1},{11487,11487,0},{11488,11488,1},{11489,11489,0},{11490,11490,1},{11491,11498,0},{11499,11499,1},{11500,11500,0},{11501,11501,1},{11502,11505,0},{11506,11506,1},{11507,42559,0},{42560,42560,1},{42561,42561,0},{42562,42562,1},{42563,42563,0},{42564,42564,1},{42565,42565,0},{42566,42566,1},{42567,42567,0},{42568,42568,1},{42569,42569,0},{42570,42570,1},{42571,42571,0},{42572,42572,1},{42573,42573,0},{42574,42574,1},{42575,42575,0},{42576,42576,1},{42577,42577,0},{42578,42578,1},{42579,42579,0},{42580,42580,1},{42581,42581,0},{42582,42582,1},{42583,42583,0},{42584,42584,1},{42585,42585,0},{42586,42586,1},{42587,42587,0},{42588,42588,1},{42589,42589,0},{42590,42590,1},{42591,42591,0},{42592,42592,1},{42593,42593,0},{42594,42594,1},{42595,42595,0},{42596,42596,1},{42597,42597,0},{42598,42598,1},{42599,42599,0},{42600,42600,1},{42601,42601,0},{42602,42602,1},{42603,42603,0},{42604,42604,1},{42605,42623,0},{42624,42624,1},{42625,42625,0},{42626,42626,1},{42627,42627,0},{42628,42628,1},{42629,42629,0},{42630,42630,1},{42631,42631,0},{42632,42632,1},{42633,42633,0},{42634,42634,1},{42635,42635,0},{42636,42636,1},{42637,42637,0},{42638,42638,1},{42639,42639,0},{42640,42640,1},{42641,42641,0},{42642,42642,1},{42643,42643,0},{42644,42644,1},{42645,42645,0},{42646,42646,1},{42647,42647,0},{42648,42648,1},{42649,42649,0},{42650,42650,1},{42651,42785,0},{42786,42786,1},{42787,42787,0},{42788,42788,1},{42789,42789,0},{42790,42790,1},{42791,42791,0},{42792,42792,1},{42793,42793,0},{42794,42794,1},{42795,42795,0},{42796,42796,1},{42797,42797,0},{42798,42798,1},{42799,42801,0},{42802,42802,1},{42803,42803,0},{42804,42804,1},{42805,42805,0},{42806,42806,1},{42807,42807,0},{42808,42808,1},{42809,42809,0},{42810,42810,1},{42811,42811,0},{42812,42812,1},{42813,42813,0},{42814,42814,1},{42815,42815,0},{42816,42816,1},{42817,42817,0},{42818,42818,1},{42819,42819,0},{42820,42820,1},{42821,42821,0},{42822,42822,1},{42823,42823,0},{42824,42824,1},{42825,42825,0},{42826,42826,1},{42827,42827,0},{42828,42828,1},{42829,42829,0},{42830,42830,1},{42831,42831,0},{42832,42832,1},{42833,42833,0},{42834,42834,1},{42835,42835,0},{42836,42836,1},{42837,42837,0},{42838,42838,1},{42839,42839,0},{42840,42840,1},{42841,42841,0},{42842,42842,1},{42843,42843,0},{42844,42844,1},{42845,42845,0},{42846,42846,1},{42847,42847,0},{42848,42848,1},{42849,42849,0},{42850,42850,1},{42851,42851,0},{42852,42852,1},{42853,42853,0},{42854,42854,1},{42855,42855,0},{42856,42856,1},{42857,42857,0},{42858,42858,1},{42859,42859,0},{42860,42860,1},{42861,42861,0},{42862,42862,1},{42863,42872,0},{42873,42873,1},{42874,42874,0},{42875,42875,1},{42876,42876,0},{42877,42878,1},{42879,42879,0},{42880,42880,1},{42881,42881,0},{42882,42882,1},{42883,42883,0},{42884,42884,1},{42885,42885,0},{42886,42886,1},{42887,42890,0},{42891,42891,1},{42892,42892,0},{42893,42893,1},{42894,42895,0},{42896,42896,1},{42897,42897,0},{42898,42898,1},{42899,42901,0},{42902,42902,1},{42903,42903,0},{42904,42904,1},{42905,42905,0},{42906,42906,1},{42907,42907,0},{42908,42908,1},{42909,42909,0},{42910,42910,1},{42911,42911,0},{42912,42912,1},{42913,42913,0},{42914,42914,1},{42915,42915,0},{42916,42916,1},{42917,42917,0},{42918,42918,1},{42919,42919,0},{42920,42920,1},{42921,42921,0},{42922,42926,1},{42927,42927,0},{42928,42932,1},{42933,42933,0},{42934,42934,1},{42935,42935,0},{42936,42936,1},{42937,42937,0},{42938,42938,1},{42939,42939,0},{42940,42940,1},{42941,42941,0},{42942,42942,1},{42943,42943,0},{42944,42944,1},{42945,42945,0},{42946,42946,1},{42947,42947,0},{42948,42951,1},{42952,42952,0},{42953,42953,1},{42954,42959,0},{42960,42960,1},{42961,42965,0},{42966,42966,1},{42967,42967,0},{42968,42968,1},{42969,42996,0},{42997,42997,1},{42998,65312,0},{65313,65338,1},{65339,66559,0},{66560,66599,1},{66600,66735,0},{66736,66771,1},{66772,66927,0},{66928,66938,1},{66939,66939,0},{66940,66954,1},{66955,66955,0},{66956,66962,1},{66963,66963,0},{66964,66965,1},{66966,68735,0},{68736,68786,1},{68787,71839,0},{71840,71871,1},{71872,93759,0},{93760,93791,1},{93792,119807,0},{119808,119833,1},{119834,119859,0},{119860,119885,1},{119886,119911,0},{119912,119937,1},{119938,119963,0},{119964,119964,1},{119965,119965,0},{119966,119967,1},{119968,119969,0},{119970,119970,1},{119971,119972,0},{119973,119974,1},{119975,119976,0},{119977,119980,1},{119981,119981,0},{119982,119989,1},{119990,120015,0},{120016,120041,1},{120042,120067,0},{120068,120069,1},{120070,120070,0},{120071,120074,1},{120075,120076,0},{120077,120084,1},{120085,120085,0},{120086,120092,1},{120093,120119,0},{120120,120121,1},{120122,120122,0},{120123,120126,1},{120127,120127,0},{120128,120132,1},{120133,120133,0},{120134,120134,1},{120135,120137,0},{120138,120144,1},{120145,120171,0},{120172,120197,1},{120198,120223,0},{120224,120249,1},{120250,120275,0},{120276,120301,1},{120302,120327,0},{120328,120353,1},{120354,120379,0},{120380,120405,1},{120406,120431,0},{120432,120457,1},{120458,120487,0},{120488,120512,1},{120513,120545,0},{120546,120570,1},{120571,120603,0},{120604,120628,1},{120629,120661,0},{120662,120686,1},{120687,120719,0},{120720,120744,1},{120745,120777,0},{120778,120778,1},{120779,125183,0},{125184,125217,1},{125218,127279,0},{127280,127305,1},{127306,127311,0},{127312,127337,1},{127338,127343,0},{127344,127369,1},{127370,1114111,0}};
inline constexpr Run is_alpha[] = {{0,64,0},{65,90,1},{91,96,0},{97,122,1},{123,169,0},{170,170,1},{171,180,0},{181,181,1},{182,185,0},{186,186,1},{187,191,0},{192,214,1},{215,215,0},{216,246,1},{247,247,0},{248,705,1},{706,709,0},{710,721,1},{722,735,0},{736,740,1},{741,747,0},{748,748,1},{749,749,0},{750,750,1},{751,836,0},{837,837,1},{838,879,0},{880,884,1},{885,885,0},{886,887,1},{888,889,0},{890,893,1},{894,894,0},{895,895,1},{896,901,0},{902,902,1},{903,903,0},{904,906,1},{907,907,0},{908,908,1},{909,909,0},{910,929,1},{930,930,0},{931,1013,1},{1014,1014,0},{1015,1153,1},{1154,1161,0},{1162,1327,1},{1328,1328,0},{1329,1366,1},{1367,1368,0},{1369,1369,1},{1370,1375,0},{1376,1416,1},{1417,1455,0},{1456,1469,1},{1470,1470,0},{1471,1471,1},{1472,1472,0},{1473,1474,1},{1475,1475,0},{1476,1477,1},{1478,1478,0},{1479,1479,1},{1480,1487,0},{1488,1514,1},{1515,1518,0},{1519,1522,1},{1523,1551,0},{1552,1562,1},{1563,1567,0},{1568,1623,1},{1624,1624,0},{1625,1631,1},{1632,1645,0},{1646,1747,1},{1748,1748,0},{1749,1756,1},{1757,1760,0},{1761,1768,1},{1769,1772,0},{1773,1775,1},{1776,1785,0},{1786,1788,1},{1789,1790,0},{1791,1791,1},{1792,1807,0},{1808,1855,1},{1856,1868,0},{1869,1969,1},{1970,1993,0},{1994,2026,1},{2027,2035,0},{2036,2037,1},{2038,2041,0},{2042,2042,1},{2043,2047,0},{2048,2071,1},{2072,2073,0},{2074,2092,1},{2093,2111,0},{2112,2136,1},{2137,2143,0},{2144,2154,1},{2155,2159,0},{2160,2183,1},{2184,2184,0},{2185,2190,1},{2191,2207,0},{2208,2249,1},{2250,2259,0},{2260,2271,1},{2272,2274,0},{2275,2281,1},{2282,2287,0},{2288,2363,1},{2364,2364,0},{2365,2380,1},{2381,2381,0},{2382,2384,1},{2385,2388,0},{2389,2403,1},{2404,2416,0},{2417,2435,1},{2436,2436,0},{2437,2444,1},{2445,2446,0},{2447,2448,1},{2449,2450,0},{2451,2472,1},{2473,2473,0},{2474,2480,1},{2481,2481,0},{2482,2482,1},{2483,2485,0},{2486,2489,1},{2490,2492,0},{2493,2500,1},{2501,2502,0},{2503,2504,1},{2505,2506,0},{2507,2508,1},{2509,2509,0},{2510,2510,1},{2511,2518,0},{2519,2519,1},{2520,2523,0},{2524,2525,1},{2526,2526,0},{2527,2531,1},{2532,2543,0},{2544,2545,1},{2546,2555,0},{2556,2556,1},{2557,2560,0},{2561,2563,1},{2564,2564,0},{2565,2570,1},{2571,2574,0},{2575,2576,1},{2577,2578,0},{2579,2600,1},{2601,2601,0},{2602,2608,1},{2609,2609,0},{2610,2611,1},{2612,2612,0},{2613,2614,1},{2615,2615,0},{2616,2617,1},{2618,2621,0},{2622,2626,1},{2627,2630,0},{2631,2632,1},{2633,2634,0},{2635,2636,1},{2637,2640,0},{2641,2641,1},{2642,2648,0},{2649,2652,1},{2653,2653,0},{2654,2654,1},{2655,2671,0},{2672,2677,1},{2678,2688,0},{2689,2691,1},{2692,2692,0},{2693,2701,1},{2702,2702,0},{2703,2705,1},{2706,2706,0},{2707,2728,1},{2729,2729,0},{2730,2736,1},{2737,2737,0},{2738,2739,1},{2740,2740,0},{2741,2745,1},{2746,2748,0},{2749,2757,1},{2758,2758,0},{2759,2761,1},{2762,2762,0},{2763,2764,1},{2765,2767,0},{2768,2768,1},{2769,2783,0},{2784,2787,1},{2788,2808,0},{2809,2812,1},{2813,2816,0},{2817,2819,1},{2820,2820,0},{2821,2828,1},{2829,2830,0},{2831,2832,1},{2833,2834,0},{2835,2856,1},{2857,2857,0},{2858,2864,1},{2865,2865,0},{2866,2867,1},{2868,2868,0},{2869,2873,1},{2874,2876,0},{2877,2884,1},{2885,2886,0},{2887,2888,1},{2889,2890,0},{2891,2892,1},{2893,2901,0},{2902,2903,1},{2904,2907,0},{2908,2909,1},{2910,2910,0},{2911,2915,1},{2916,2928,0},{2929,2929,1},{2930,2945,0},{2946,2947,1},{2948,2948,0},{2949,2954,1},{2955,2957,0},{2958,2960,1},{2961,2961,0},{2962,2965,1},{2966,2968,0},{2969,2970,1},{2971,2971,0},{2972,2972,1},{2973,2973,0},{2974,2975,1},{2976,2978,0},{2979,2980,1},{2981,2983,0},{2984,2986,1},{2987,2989,0},{2990,3001,1},{3002,3005,0},{3006,3010,1},{3011,3013,0},{3014,3016,1},{3017,3017,0},{3018,3020,1},{3021,3023,0},{3024,3024,1},{3025,3030,0},{3031,3031,1},{3032,3071,0},{3072,3084,1},{3085,3085,0},{3086,3088,1},{3089,3089,0},{3090,3112,1},{3113,3113,0},{3114,3129,1},{3130,3132,0},{3133,3140,1},{3141,3141,0},{3142,3144,1},{3145,3145,0},{3146,3148,1},{3149,3156,0},{3157,3158,1},{3159,3159,0},{3160,3162,1},{3163,3164,0},{3165,3165,1},{3166,3167,0},{3168,3171,1},{3172,3199,0},{3200,3203,1},{3204,3204,0},{3205,3212,1},{3213,3213,0},{3214,3216,1},{3217,3217,0},{3218,3240,1},{3241,3241,0},{3242,3251,1},{3252,3252,0},{3253,3257,1},{3258,3260,0},{3261,3268,1},{3269,3269,0},{3270,3272,1},{3273,3273,0},{3274,3276,1},{3277,3284,0},{3285,3286,1},{3287,3292,0},{3293,3294,1},{3295,3295,0},{3296,3299,1},{3300,3312,0},{3313,3315,1},{3316,3327,0},{3328,3340,1},{3341,3341,0},{3342,3344,1},{3345,3345,0},{3346,3386,1},{3387,3388,0},{3389,3396,1},{3397,3397,0},{3398,3400,1},{3401,3401,0},{3402,3404,1},{3405,3405,0},{3406,3406,1},{3407,3411,0},{3412,3415,1},{3416,3422,0},{3423,3427,1},{3428,3449,0},{3450,3455,1},{3456,3456,0},{3457,3459,1},{3460,3460,0},{3461,3478,1},{3479,3481,0},{3482,3505,1},{3506,3506,0},{3507,3515,1},{3516,3516,0},{3517,3517,1},{3518,3519,0},{3520,3526,1},{3527,3534,0},{3535,3540,1},{3541,3541,0},{3542,3542,1},{3543,3543,0},{3544,3551,1},{3552,3569,0},{3570,3571,1},{3572,3584,0},{3585,3642,1},{3643,3647,0},{3648,3654,1},{3655,3660,0},{3661,3661,1},{3662,3712,0},{3713,3714,1},{3715,3715,0},{3716,3716,1},{3717,3717,0},{3718,3722,1},{3723,3723,0},{3724,3747,1},{3748,3748,0},{3749,3749,1},{3750,3750,0},{3751,3769,1},{3770,3770,0},{3771,3773,1},{3774,3775,0},{3776,3780,1},{3781,3781,0},{3782,3782,1},{3783,3788,0},{3789,3789,1},{3790,3803,0},{3804,3807,1},{3808,3839,0},{3840,3840,1},{3841,3903,0},{3904,3911,1},{3912,3912,0},{3913,3948,1},{3949,3952,0},{3953,3971,1},{3972,3975,0},{3976,3991,1},{3992,3992,0},{3993,4028,1},{4029,4095,0},{4096,4150,1},{4151,4151,0},{4152,4152,1},{4153,4154,0},{4155,4159,1},{4160,4175,0},{4176,4239,1},{4240,4249,0},{4250,4253,1},{4254,4255,0},{4256,4293,1},{4294,4294,0},{4295,4295,1},{4296,4300,0},{4301,4301,1},{4302,4303,0},{4304,4346,1},{4347,4347,0},{4348,4680,1},{4681,4681,0},{4682,4685,1},{4686,4687,0},{4688,4694,1},{4695,4695,0},{4696,4696,1},{4697,4697,0},{4698,4701,1},{4702,4703,0},{4704,4744,1},{4745,4745,0},{4746,4749,1},{4750,4751,0},{4752,4784,1},{4785,4785,0},{4786,4789,1},{4790,4791,0},{4792,4798,1},{4799,4799,0},{4800,4800,1},{4801,4801,0},{4802,4805,1},{4806,4807,0},{4808,4822,1},{4823,4823,0},{4824,4880,1},{4881,4881,0},{4882,4885,1},{4886,4887,0},{4888,4954,1},{4955,4991,0},{4992,5007,1},{5008,5023,0},{5024,5109,1},{5110,5111,0},{5112,5117,1},{5118,5120,0},{5121,5740,1},{5741,5742,0},{5743,5759,1},{5760,5760,0},{5761,5786,1},{5787,5791,0},{5792,5866,1},{5867,5869,0},{5870,5880,1},{5881,5887,0},{5888,5907,1},{5908,5918,0},{5919,5939,1},{5940,5951,0},{5952,5971,1},{5972,5983,0},{5984,5996,1},{5997,5997,0},{5998,6000,1},{6001,6001,0},{6002,6003,1},{6004,6015,0},{6016,6067,1},{6068,6069,0},{6070,6088,1},{6089,6102,0},{6103,6103,1},{6104,6107,0},{6108,6108,1},{6109,6175,0},{6176,6264,1},{6265,6271,0},{6272,6314,1},{6315,6319,0},{6320,6389,1},{6390,6399,0},{6400,6430,1},{6431,6431,0},{6432,6443,1},{6444,6447,0},{6448,6456,1},{6457,6479,0},{6480,6509,1},{6510,6511,0},{6512,6516,1},{6517,6527,0},{6528,6571,1},{6572,6575,0},{6576,6601,1},{6602,6655,0},{6656,6683,1},{6684,6687,0},{6688,6750,1},{6751,6752,0},{6753,6772,1},{6773,6822,0},{6823,6823,1},{6824,6846,0},{6847,6848,1},{6849,6859,0},{6860,6862,1},{6863,6911,0},{6912,6963,1},{6964,6964,0},{6965,6979,1},{6980,6980,0},{6981,6988,1},{6989,7039,0},{7040,7081,1},{7082,7083,0},{7084,7087,1},{7088,7097,0},{7098,7141,1},{7142,7142,0},{7143,7153,1},{7154,7167,0},{7168,7222,1},{7223,7244,0},{7245,7247,1},{7248,7257,0},{7258,7293,1},{7294,7295,0},{7296,7304,1},{7305,7311,0},{7312,7354,1},{7355,7356,0},{7357,7359,1},{7360,7400,0},{7401,7404,1},{7405,7405,0},{7406,7411,1},{7412,7412,0},{7413,7414,1},{7415,7417,0},{7418,7418,1},{7419,7423,0},{7424,7615,1},{7616,7654,0},{7655,7668,1},{7669,7679,0},{7680,7957,1},{7958,7959,0},{7960,7965,1},{7966,7967,0},{7968,8005,1},{8006,8007,0},{8008,8013,1},{8014,8015,0},{8016,8023,1},{8024,8024,0},{8025,8025,1},{8026,8026,0},{8027,8027,1},{8028,8028,0},{8029,8029,1},{8030,8030,0},{8031,8061,1},{8062,8063,0},{8064,8116,1},{8117,8117,0},{8118,8124,1},{8125,8125,0},{8126,8126,1},{8127,8129,0},{8130,8132,1},{8133,8133,0},{8134,8140,1},{8141,8143,0},{8144,8147,1},{8148,8149,0},{8150,8155,1},{8156,8159,0},{8160,8172,1},{8173,8177,0},{8178,8180,1},{8181,8181,0},{8182,8188,1},{8189,8304,0},{8305,8305,1},{8306,8318,0},{8319,8319,1},{8320,8335,0},{8336,8348,1},{8349,8449,0},{8450,8450,1},{8451,8454,0},{8455,8455,1},{8456,8457,0},{8458,8467,1},{8468,8468,0},{8469,8469,1},{8470,8472,0},{8473,8477,1},{8478,8483,0},{8484,8484,1},{8485,8485,0},{8486,8486,1},{8487,8487,0},{8488,8488,1},{8489,8489,0},{8490,8493,1},{8494,8494,0},{8495,8505,1},{8506,8507,0},{8508,8511,1},{8512,8516,0},{8517,8521,1},{8522,8525,0},{8526,8526,1},{8527,8543,0},{8544,8584,1},{8585,9397,0},{9398,9449,1},{9450,11263,0},{11264,11492,1},{11493,11498,0},{11499,11502,1},{11503,11505,0},{11506,11507,1},{11508,11519,0},{11520,11557,1},{11558,11558,0},{11559,11559,1},{11560,11564,0},{11565,11565,1},{11566,11567,0},{11568,11623,1},{11624,11630,0},{11631,11631,1},{11632,11647,0},{11648,11670,1},{11671,11679,0},{11680,11686,1},{11687,11687,0},{11688,11694,1},{11695,11695,0},{11696,11702,1},{11703,11703,0},{11704,11710,1},{11711,11711,0},{11712,11718,1},{11719,11719,0},{11720,11726,1},{11727,11727,0},{11728,11734,1},{11735,11735,0},{11736,11742,1},{11743,11743,0},{11744,11775,1},{11776,11822,0},{11823,11823,1},{11824,12292,0},{12293,12295,1},{12296,12320,0},{12321,12329,1},{12330,12336,0},{12337,12341,1},{12342,12343,0},{12344,12348,1},{12349,12352,0},{12353,12438,1},{12439,12444,0},{12445,12447,1},{12448,12448,0},{12449,12538,1},{12539,12539,0},{12540,12543,1},{12544,12548,0},{12549,12591,1},{12592,12592,0},{12593,12686,1},{12687,12703,0},{12704,12735,1},{12736,12783,0},{12784,12799,1},{12800,13311,0},{13312,19903,1},{19904,19967,0},{19968,42124,1},{42125,42191,0},{42192,42237,1},{42238,42239,0},{42240,42508,1},{42509,42511,0},{42512,42527,1},{42528,42537,0},{42538,42539,1},{42540,42559,0},{42560,42606,1},{42607,42611,0},{42612,42619,1},{42620,42622,0},{42623,42735,1},{42736,42774,0},{42775,42783,1},{42784,42785,0},{42786,42888,1},{42889,42890,0},{42891,42954,1},{42955,42959,0},{42960,42961,1},{42962,42962,0},{42963,42963,1},{42964,42964,0},{42965,42969,1},{42970,42993,0},{42994,43013,1},{43014,43014,0},{43015,43047,1},{43048,43071,0},{43072,43123,1},{43124,43135,0},{43136,43203,1},{43204,43204,0},{43205,43205,1},{43206,43249,0},{43250,43255,1},{43256,43258,0},{43259,43259,1},{43260,43260,0},{43261,43263,1},{43264,43273,0},{43274,43306,1},{43307,43311,0},{43312,43346,1},{43347,43359,0},{43360,43388,1},{43389,43391,0},{43392,43442,1},{43443,43443,0},{43444,43455,1},{43456,43470,0},{43471,43471,1},{43472,43487,0},{43488,43503,1},{43504,43513,0},{43514,43518,1},{43519,43519,0},{43520,43574,1},{43575,43583,0},{43584,43597,1},{43598,43615,0},{43616,43638,1},{43639,43641,0},{43642,43710,1},{43711,43711,0},{43712,43712,1},{43713,43713,0},{43714,43714,1},{43715,43738,0},{43739,43741,1},{43742,43743,0},{43744,43759,1},{43760,43761,0},{43762,43765,1},{43766,43776,0},{43777,43782,1},{43783,43784,0},{43785,43790,1},{43791,43792,0},{43793,43798,1},{43799,43807,0},{43808,43814,1},{43815,43815,0},{43816,43822,1},{43823,43823,0},{43824,43866,1},{43867,43867,0},{43868,43881,1},{43882,43887,0},{43888,44010,1},{44011,44031,0},{44032,55203,1},{55204,55215,0},{55216,55238,1},{55239,55242,0},{55243,55291,1},{55292,63743,0},{63744,64109,1},{64110,64111,0},{64112,64217,1},{64218,64255,0},{64256,64262,1},{64263,64274,0},{64275,64279,1},{64280,64284,0},{64285,64296,1},{64297,64297,0},{64298,64310,1},{64311,64311,0},{64312,64316,1},{64317,64317,0},{64318,64318,1},{64319,64319,0},{64320,64321,1},{64322,64322,0},{64323,64324,1},{64325,64325,0},{64326,64433,1},{64434,64466,0},{64467,64829,1},{64830,64847,0},{64848,64911,1},{64912,64913,0},{64914,64967,1},{64968,65007,0},{65008,65019,1},{65020,65135,0},{65136,65140,1},{65141,65141,0},{65142,65276,1},{65277,65312,0},{65313,65338,1},{65339,65344,0},{65345,65370,1},{65371,65381,0},{65382,65470,1},{65471,65473,0},{65474,65479,1},{65480,65481,0},{65482,65487,1},{65488,65489,0},{65490,65495,1},{65496,65497,0},{65498,65500,1},{65501,65535,0},{65536,65547,1},{65548,65548,0},{65549,65574,1},{65575,65575,0},{65576,65594,1},{65595,65595,0},{65596,65597,1},{65598,65598,0},{65599,65613,1},{65614,65615,0},{65616,65629,1},{65630,65663,0},{65664,65786,1},{65787,65855,0},{65856,65908,1},{65909,66175,0},{66176,66204,1},{66205,66207,0},{66208,66256,1},{66257,66303,0},{66304,66335,1},{66336,66348,0},{66349,66378,1},{66379,66383,0},{66384,66426,1},{66427,66431,0},{66432,66461,1},{66462,66463,0},{66464,66499,1},{66500,66503,0},{66504,66511,1},{66512,66512,0},{66513,66517,1},{66518,66559,0},{66560,66717,1},{66718,66735,0},{66736,66771,1},{66772,66775,0},{66776,66811,1},{66812,66815,0},{66816,66855,1},{66856,66863,0},{66864,66915,1},{66916,66927,0},{66928,66938,1},{66939,66939,0},{66940,66954,1},{66955,66955,0},{66956,66962,1},{66963,66963,0},{66964,66965,1},{66966,66966,0},{66967,66977,1},{66978,66978,0},{66979,66993,1},{66994,66994,0},{66995,67001,1},{67002,67002,0},{67003,67004,1},{67005,67071,0},{67072,67382,1},{67383,67391,0},{67392,67413,1},{67414,67423,0},{67424,67431,1},{67432,67455,0},{67456,67461,1},{67462,67462,0},{67463,67504,1},{67505,67505,0},{67506,67514,1},{67515,67583,0},{67584,67589,1},{67590,67591,0},{67592,67592,1},{67593,67593,0},{67594,67637,1},{67638,67638,0},{67639,67640,1},{67641,67643,0},{67644,67644,1},{67645,67646,0},{67647,67669,1},{67670,67679,0},{67680,67702,1},{67703,67711,0},{67712,67742,1},{67743,67807,0},{67808,67826,1},{67827,67827,0},{67828,67829,1},{67830,67839,0},{67840,67861,1},{67862,67871,0},{67872,67897,1},{67898,67967,0},{67968,68023,1},{68024,68029,0},{68030,68031,1},{68032,68095,0},{68096,68099,1},{68100,68100,0},{68101,68102,1},{68103,68107,0},{68108,68115,1},{68116,68116,0},{68117,68119,1},{68120,68120,0},{68121,68149,1},{68150,68191,0},{68192,68220,1},{68221,68223,0},{68224,68252,1},{68253,68287,0},{68288,68295,1},{68296,68296,0},{68297,68324,1},{68325,68351,0},{68352,68405,1},{68406,68415,0},{68416,68437,1},{68438,68447,0},{68448,68466,1},{68467,68479,0},{68480,68497,1},{68498,68607,0},{68608,68680,1},{68681,68735,0},{68736,68786,1},{68787,68799,0},{68800,68850,1},{68851,68863,0},{68864,68903,1},{68904,69247,0},{69248,69289,1},{69290,69290,0},{69291,69292,1},{69293,69295,0},{69296,69297,1},{69298,69375,0},{69376,69404,1},{69405,69414,0},{69415,69415,1},{69416,69423,0},{69424,69445,1},{69446,69487,0},{69488,69505,1},{69506,69551,0},{69552,69572,1},{69573,69599,0},{69600,69622,1},{69623,69631,0},{69632,69701,1},{69702,69744,0},{69745,69749,1},{69750,69759,0},{69760,69816,1},{69817,69825,0},{69826,69826,1},{69827,69839,0},{69840,69864,1},{69865,69887,0},{69888,69938,1},{69939,69955,0},{69956,69959,1},{69960,69967,0},{69968,70002,1},{70003,70005,0},{70006,70006,1},{70007,70015,0},{70016,70079,1},{70080,70080,0},{70081,70084,1},{70085,70093,0},{70094,70095,1},{70096,70105,0},{70106,70106,1},{70107,70107,0},{70108,70108,1},{70109,70143,0},{70144,70161,1},{70162,70162,0},{70163,70196,1},{70197,70198,0},{70199,70199,1},{70200,70205,0},{70206,70209,1},{70210,70271,0},{70272,70278,1},{70279,70279,0},{70280,70280,1},{70281,70281,0},{70282,70285,1},{70286,70286,0},{70287,70301,1},{70302,70302,0},{70303,70312,1},{70313,70319,0},{70320,70376,1},{70377,70399,0},{70400,70403,1},{70404,70404,0},{70405,70412,1},{70413,70414,0},{70415,70416,1},{70417,70418,0},{70419,70440,1},{70441,70441,0},{70442,70448,1},{70449,70449,0},{70450,70451,1},{70452,70452,0},{70453,70457,1},{70458,70460,0},{70461,70468,1},{70469,70470,0},{70471,70472,1},{70473,70474,0},{70475,70476,1},{70477,70479,0},{70480,70480,1},{70481,70486,0},{70487,70487,1},{70488,70492,0},{70493,70499,1},{70500,70655,0},{70656,70721,1},{70722,70722,0},{70723,70725,1},{70726,70726,0},{70727,70730,1},{70731,70750,0},{70751,70753,1},{70754,70783,0},{70784,70849,1},{70850,70851,0},{70852,70853,1},{70854,70854,0},{70855,70855,1},{70856,71039,0},{71040,71093,1},{71094,71095,0},{71096,71102,1},{71103,71127,0},{71128,71133,1},{71134,71167,0},{71168,71230,1},{71231,71231,0},{71232,71232,1},{71233,71235,0},{71236,71236,1},{71237,71295,0},{71296,71349,1},{71350,71351,0},{71352,71352,1},{71353,71423,0},{71424,71450,1},{71451,71452,0},{71453,71466,1},{71467,71487,0},{71488,71494,1},{71495,71679,0},{71680,71736,1},{71737,71839,0},{71840,71903,1},{71904,71934,0},{71935,71942,1},{71943,71944,0},{71945,71945,1},{71946,71947,0},{71948,71955,1},{71956,71956,0},{71957,71958,1},{71959,71959,0},{71960,71989,1},{71990,71990,0},{71991,71992,1},{71993,71994,0},{71995,71996,1},{71997,71998,0},{71999,72002,1},{72003,72095,0},{72096,72103,1},{72104,72105,0},{72106,72151,1},{72152,72153,0},{72154,72159,1},{72160,72160,0},{72161,72161,1},{72162,72162,0},{72163,72164,1},{72165,72191,0},{72192,72242,1},{72243,72244,0},{72245,72254,1},{72255,72271,0},{72272,72343,1},{72344,72348,0},{72349,72349,1},{72350,72367,0},{72368,72440,1},{72441,72703,0},{72704,72712,1},{72713,72713,0},{72714,72758,1},{72759,72759,0},{72760,72766,1},{72767,72767,0},{72768,72768,1},{72769,72817,0},{72818,72847,1},{72848,72849,0},{72850,72871,1},{72872,72872,0},{72873,72886,1},{72887,72959,0},{72960,72966,1},{72967,72967,0},{72968,72969,1},{72970,72970,0},{72971,73014,1},{73015,73017,0},{73018,73018,1},{73019,73019,0},{73020,73021,1},{73022,73022,0},{73023,73025,1},{73026,73026,0},{73027,73027,1},{73028,73029,0},{73030,73031,1},{73032,73055,0},{73056,73061,1},{73062,73062,0},{73063,73064,1},{73065,73065,0},{73066,73102,1},{73103,73103,0},{73104,73105,1},{73106,73106,0},{73107,73110,1},{73111,73111,0},{73112,73112,1},{73113,73439,0},{73440,73462,1},{73463,73471,0},{73472,73488,1},{73489,73489,0},{73490,73530,1},{73531,73533,0},{73534,73536,1},{73537,73647,0},{73648,73648,1},{73649,73727,0},{73728,74649,1},{74650,74751,0},{74752,74862,1},{74863,74879,0},{74880,75075,1},{75076,77711,0},{77712,77808,1},{77809,77823,0},{77824,78895,1},{78896,78912,0},{78913,78918,1},{78919,82943,0},{82944,83526,1},{83527,92159,0},{92160,92728,1},{92729,92735,0},{92736,92766,1},{92767,92783,0},{92784,92862,1},{92863,92879,0},{92880,92909,1},{92910,92927,0},{92928,92975,1},{92976,92991,0},{92992,92995,1},{92996,93026,0},{93027,93047,1},{93048,93052,0},{93053,93071,1},{93072,93759,0},{93760,93823,1},{93824,93951,0},{93952,94026,1},{94027,94030,0},{94031,94087,1},{94088,94094,0},{94095,94111,1},{94112,94175,0},{94176,94177,1},{94178,94178,0},{94179,94179,1},{94180,94191,0},{94192,94193,1},{94194,94207,0},{94208,100343,1},{100344,100351,0},{100352,101589,1},{101590,101631,0},{101632,101640,1},{101641,110575,0},{110576,110579,1},{110580,110580,0},{110581,110587,1},{110588,110588,0},{110589,110590,1},{110591,110591,0},{110592,110882,1},{110883,110897,0},{110898,110898,1},{110899,110927,0},{110928,110930,1},{110931,110932,0},{110933,110933,1},{110934,110947,0},{110948,110951,1},{110952,110959,0},{110960,111355,1},{111356,113663,0},{113664,113770,1},{113771,113775,0},{113776,113788,1},{113789,113791,0},{113792,113800,1},{113801,113807,0},{113808,113817,1},{113818,113821,0},{113822,113822,1},{113823,119807,0},{119808,119892,1},{119893,119893,0},{119894,119964,1},{119965,119965,0},{119966,119967,1},{119968,119969,0},{119970,119970,1},{119971,119972,0},{119973,119974,1},{119975,119976,0},{119977,119980,1},{119981,119981,0},{119982,119993,1},{119994,119994,0},{119995,119995,1},{119996,119996,0},{119997,120003,1},{120004,120004,0},{120005,120069,1},{120070,120070,0},{120071,120074,1},{120075,120076,0},{120077,120084,1},{120085,120085,0},{120086,120092,1},{120093,120093,0},{120094,120121,1},{120122,120122,0},{120123,120126,1},{120127,120127,0},{120128,120132,1},{120133,120133,0},{120134,120134,1},{120135,120137,0},{120138,120144,1},{120145,120145,0},{120146,120485,1},{120486,120487,0},{120488,120512,1},{120513,120513,0},{120514,120538,1},{120539,120539,0},{120540,120570,1},{120571,120571,0},{120572,120596,1},{120597,120597,0},{120598,120628,1},{120629,120629,0},{120630,120654,1},{120655,120655,0},{120656,120686,1},{120687,120687,0},{120688,120712,1},{120713,120713,0},{120714,120744,1},{120745,120745,0},{120746,120770,1},{120771,120771,0},{120772,120779,1},{120780,122623,0},{122624,122654,1},{122655,122660,0},{122661,122666,1},{122667,122879,0},{122880,122886,1},{122887,122887,0},{122888,122904,1},{122905,122906,0},{122907,122913,1},{122914,122914,0},{122915,122916,1},{122917,122917,0},{122918,122922,1},{122923,122927,0},{122928,122989,1},{122990,123022,0},{123023,123023,1},{123024,123135,0},{123136,123180,1},{123181,123190,0},{123191,123197,1},{123198,123213,0},{123214,123214,1},{123215,123535,0},{123536,123565,1},{123566,123583,0},{123584,123627,1},{123628,124111,0},{124112,124139,1},{124140,124895,0},{124896,124902,1},{124903,124903,0},{124904,124907,1},{124908,124908,0},{124909,124910,1},{124911,124911,0},{124912,124926,1},{124927,124927,0},{124928,125124,1},{125125,125183,0},{125184,125251,1},{125252,125254,0},{125255,125255,1},{125256,125258,0},{125259,125259,1},{125260,126463,0},{126464,126467,1},{126468,126468,0},{126469,126495,1},{126496,126496,0},{126497,126498,1},{126499,126499,0},{126500,126500,1},{126501,126502,0},{126503,126503,1},{126504,126504,0},{126505,126514,1},{126515,126515,0},{126516,126519,1},{126520,126520,0},{126521,126521,1},{126522,126522,0},{126523,126523,1},{126524,126529,0},{126530,126530,1},{126531,126534,0},{126535,126535,1},{126536,126536,0},{126537,126537,1},{126538,126538,0},{126539,126539,1},{126540,126540,0},{126541,126543,1},{126544,126544,0},{126545,126546,1},{126547,126547,0},{126548,126548,1},{126549,126550,0},{126551,126551,1},{126552,126552,0},{126553,126553,1},{126554,126554,0},{126555,126555,1},{126556,126556,0},{126557,126557,1},{126558,126558,0},{126559,126559,1},{126560,126560,0},{126561,126562,1},{126563,126563,0},{126564,126564,1},{126565,126566,0},{126567,126570,1},{126571,126571,0},{126572,126578,1},{126579,126579,0},{126580,126583,1},{126584,126584,0},{126585,126588,1},{126589,126589,0},{126590,126590,1},{126591,126591,0},{126592,126601,1},{126602,126602,0},{126603,126619,1},{126620,126624,0},{126625,126627,1},{126628,126628,0},{126629,126633,1},{126634,126634,0},{126635,126651,1},{126652,127279,0},{127280,127305,1},{127306,127311,0},{127312,127337,1},{127338,127343,0},{127344,127369,1},{127370,131071,0},{131072,173791,1},{173792,173823,0},{173824,177977,1},{177978,177983,0},{177984,178205,1},{178206,178207,0},{178208,183969,1},{183970,183983,0},{183984,191456,1},{191457,194559,0},{194560,195101,1},{195102,196607,0},{196608,201546,1},{201547,201551,0},{201552,205743,1},{205744,1114111,0}};
inline constexpr Run is_alpha_digit[] = {{0,47,0},{48,57,1},{58,64,0},{65,90,1},{91,96,0},{97,122,1},{123,169,0},{170,170,1},{171,180,0},{181,181,1},{182,185,0},{186,186,1},{187,191,0},{192,214,1},{215,215,0},{216,246,1},{247,247,0},{248,705,1},{706,709,0},{710,721,1},{722,735,0},{736,740,1},{741,747,0},{748,748,1},{749,749,0},{750,750,1},{751,836,0},{837,837,1},{838,879,0},{880,884,1},{885,885,0},{886,887,1},{888,889,0},{890,893,1},{894,894,0},{895,895,1},{896,901,0},{902,902,1},{903,903,0},{904,906,1},{907,907,0},{908,908,1},{909,909,0},{910,929,1},{930,930,0},{931,1013,1},{1014,1014,0},{1015,1153,1},{1154,1161,0},{1162,1327,1},{1328,1328,0},{1329,1366,1},{1367,1368,0},{1369,1369,1},{1370,1375,0},{1376,1416,1},{1417,1455,0},{1456,1469,1},{1470,1470,0},{1471,1471,1},{1472,1472,0},{1473,1474,1},{1475,1475,0},{1476,1477,1},{1478,1478,0},{1479,1479,1},{1480,1487,0},{1488,1514,1},{1515,1518,0},{1519,1522,1},{1523,1551,0},{1552,1562,1},{1563,1567,0},{1568,1623,1},{1624,1624,0},{1625,1641,1},{1642,1645,0},{1646,1747,1},{1748,1748,0},{1749,1756,1},{1757,1760,0},{1761,1768,1},{1769,1772,0},{1773,1788,1},{1789,1790,0},{1791,1791,1},{1792,1807,0},{1808,1855,1},{1856,1868,0},{1869,1969,1},{1970,1983,0},{1984,2026,1},{2027,2035,0},{2036,2037,1},{2038,2041,0},{2042,2042,1},{2043,2047,0},{2048,2071,1},{2072,2073,0},{2074,2092,1},{2093,2111,0},{2112,2136,1},{2137,2143,0},{2144,2154,1},{2155,2159,0},{2160,2183,1},{2184,2184,0},{2185,2190,1},{2191,2207,0},{2208,2249,1},{2250,2259,0},{2260,2271,1},{2272,2274,0},{2275,2281,1},{2282,2287,0},{2288,2363,1},{2364,2364,0},{2365,2380,1},{2381,2381,0},{2382,2384,1},{2385,2388,0},{2389,2403,1},{2404,2405,0},{2406,2415,1},{2416,2416,0},{2417,2435,1},{2436,2436,0},{2437,2444,1},{2445,2446,0},{2447,2448,1},{2449,2450,0},{2451,2472,1},{2473,2473,0},{2474,2480,1},{2481,2481,0},{2482,2482,1},{2483,2485,0},{2486,2489,1},{2490,2492,0},{2493,2500,1},{2501,2502,0},{2503,2504,1},{2505,2506,0},{2507,2508,1},{2509,2509,0},{2510,2510,1},{2511,2518,0},{2519,2519,1},{2520,2523,0},{2524,2525,1},{2526,2526,0},{2527,2531,1},{2532,2533,0},{2534,2545,1},{2546,2555,0},{2556,2556,1},{2557,2560,0},{2561,2563,1},{2564,2564,0},{2565,2570,1},{2571,2574,0},{2575,2576,1},{2577,2578,0},{2579,2600,1},{2601,2601,0},{2602,2608,1},{2609,2609,0},{2610,2611,1},{2612,2612,0},{2613,2614,1},{2615,2615,0},{2616,2617,1},{2618,2621,0},{2622,2626,1},{2627,2630,0},{2631,2632,1},{2633,2634,0},{2635,2636,1},{2637,2640,0},{2641,2641,1},{2642,2648,0},{2649,2652,1},{2653,2653,0},{2654,2654,1},{2655,2661,0},{2662,2677,1},{2678,2688,0},{2689,2691,1},{2692,2692,0},{2693,2701,1},{2702,2702,0},{2703,2705,1},{2706,2706,0},{2707,2728,1},{2729,2729,0},{2730,2736,1},{2737,2737,0},{2738,2739,1},{2740,2740,0},{2741,2745,1},{2746,2748,0},{2749,2757,1},{2758,2758,0},{2759,2761,1},{2762,2762,0},{2763,2764,1},{2765,2767,0},{2768,2768,1},{2769,2783,0},{2784,2787,1},{2788,2789,0},{2790,2799,1},{2800,2808,0},{2809,2812,1},{2813,2816,0},{2817,2819,1},{2820,2820,0},{2821,2828,1},{2829,2830,0},{2831,2832,1},{2833,2834,0},{2835,2856,1},{2857,2857,0},{2858,2864,1},{2865,2865,0},{2866,2867,1},{2868,2868,0},{2869,2873,1},{2874,2876,0},{2877,2884,1},{2885,2886,0},{2887,2888,1},{2889,2890,0},{2891,2892,1},{2893,2901,0},{2902,2903,1},{2904,2907,0},{2908,2909,1},{2910,2910,0},{2911,2915,1},{2916,2917,0},{2918,2927,1},{2928,2928,0},{2929,2929,1},{2930,2945,0},{2946,2947,1},{2948,2948,0},{2949,2954,1},{2955,2957,0},{2958,2960,1},{2961,2961,0},{2962,2965,1},{2966,2968,0},{2969,2970,1},{2971,2971,0},{2972,2972,1},{2973,2973,0},{2974,2975,1},{2976,2978,0},{2979,2980,1},{2981,2983,0},{2984,2986,1},{2987,2989,0},{2990,3001,1},{3002,3005,0},{3006,3010,1},{3011,3013,0},{3014,3016,1},{3017,3017,0},{3018,3020,1},{3021,3023,0},{3024,3024,1},{3025,3030,0},{3031,3031,1},{3032,3045,0},{3046,3055,1},{3056,3071,0},{3072,3084,1},{3085,3085,0},{3086,3088,1},{3089,3089,0},{3090,3112,1},{3113,3113,0},{3114,3129,1},{3130,3132,0},{3133,3140,1},{3141,3141,0},{3142,3144,1},{3145,3145,0},{3146,3148,1},{3149,3156,0},{3157,3158,1},{3159,3159,0},{3160,3162,1},{3163,3164,0},{3165,3165,1},{3166,3167,0},{3168,3171,1},{3172,3173,0},{3174,3183,1},{3184,3199,0},{3200,3203,1},{3204,3204,0},{3205,3212,1},{3213,3213,0},{3214,3216,1},{3217,3217,0},{3218,3240,1},{3241,3241,0},{3242,3251,1},{3252,3252,0},{3253,3257,1},{3258,3260,0},{3261,3268,1},{3269,3269,0},{3270,3272,1},{3273,3273,0},{3274,3276,1},{3277,3284,0},{3285,3286,1},{3287,3292,0},{3293,3294,1},{3295,3295,0},{3296,3299,1},{3300,3301,0},{3302,3311,1},{3312,3312,0},{3313,3315,1},{3316,3327,0},{3328,3340,1},{3341,3341,0},{3342,3344,1},{3345,3345,0},{3346,3386,1},{3387,3388,0},{3389,3396,1},{3397,3397,0},{3398,3400,1},{3401,3401,0},{3402,3404,1},{3405,3405,0},{3406,3406,1},{3407,3411,0},{3412,3415,1},{3416,3422,0},{3423,3427,1},{3428,3429,0},{3430,3439,1},{3440,3449,0},{3450,3455,1},{3456,3456,0},{3457,3459,1},{3460,3460,0},{3461,3478,1},{3479,3481,0},{3482,3505,1},{3506,3506,0},{3507,3515,1},{3516,3516,0},{3517,3517,1},{3518,3519,0},{3520,3526,1},{3527,3534,0},{3535,3540,1},{3541,3541,0},{3542,3542,1},{3543,3543,0},{3544,3551,1},{3552,3557,0},{3558,3567,1},{3568,3569,0},{3570,3571,1},{3572,3584,0},{3585,3642,1},{3643,3647,0},{3648,3654,1},{3655,3660,0},{3661,3661,1},{3662,3663,0},{3664,3673,1},{3674,3712,0},{3713,3714,1},{3715,3715,0},{3716,3716,1},{3717,3717,0},{3718,3722,1},{3723,3723,0},{3724,3747,1},{3748,3748,0},{3749,3749,1},{3750,3750,0},{3751,3769,1},{3770,3770,0},{3771,3773,1},{3774,3775,0},{3776,3780,1},{3781,3781,0},{3782,3782,1},{3783,3788,0},{3789,3789,1},{3790,3791,0},{3792,3801,1},{3802,3803,0},{3804,3807,1},{3808,3839,0},{3840,3840,1},{3841,3871,0},{3872,3881,1},{3882,3903,0},{3904,3911,1},{3912,3912,0},{3913,3948,1},{3949,3952,0},{3953,3971,1},{3972,3975,0},{3976,3991,1},{3992,3992,0},{3993,4028,1},{4029,4095,0},{4096,4150,1},{4151,4151,0},{4152,4152,1},{4153,4154,0},{4155,4169,1},{4170,4175,0},{4176,4253,1},{4254,4255,0},{4256,4293,1},{4294,4294,0},{4295,4295,1},{4296,4300,0},{4301,4301,1},{4302,4303,0},{4304,4346,1},{4347,4347,0},{4348,4680,1},{4681,4681,0},{4682,4685,1},{4686,4687,0},{4688,4694,1},{4695,4695,0},{4696,4696,1},{4697,4697,0},{4698,4701,1},{4702,4703,0},{4704,4744,1},{4745,4745,0},{4746,4749,1},{4750,4751,0},{4752,4784,1},{4785,4785,0},{4786,4789,1},{4790,4791,0},{4792,4798,1},{4799,4799,0},{4800,4800,1},{4801,4801,0},{4802,4805,1},{4806,4807,0},{4808,4822,1},{4823,4823,0},{4824,4880,1},{4881,4881,0},{4882,4885,1},{4886,4887,0},{4888,4954,1},{4955,4991,0},{4992,5007,1},{5008,5023,0},{5024,5109,1},{5110,5111,0},{5112,5117,1},{5118,5120,0},{5121,5740,1},{5741,5742,0},{5743,5759,1},{5760,5760,0},{5761,5786,1},{5787,5791,0},{5792,5866,1},{5867,5869,0},{5870,5880,1},{5881,5887,0},{5888,5907,1},{5908,5918,0},{5919,5939,1},{5940,5951,0},{5952,5971,1},{5972,5983,0},{5984,5996,1},{5997,5997,0},{5998,6000,1},{6001,6001,0},{6002,6003,1},{6004,6015,0},{6016,6067,1},{6068,6069,0},{6070,6088,1},{6089,6102,0},{6103,6103,1},{6104,6107,0},{6108,6108,1},{6109,6111,0},{6112,6121,1},{6122,6159,0},{6160,6169,1},{6170,6175,0},{6176,6264,1},{6265,6271,0},{6272,6314,1},{6315,6319,0},{6320,6389,1},{6390,6399,0},{6400,6430,1},{6431,6431,0},{6432,6443,1},{6444,6447,0},{6448,6456,1},{6457,6469,0},{6470,6509,1},{6510,6511,0},{6512,6516,1},{6517,6527,0},{6528,6571,1},{6572,6575,0},{6576,6601,1},{6602,6607,0},{6608,6617,1},{6618,6655,0},{6656,6683,1},{6684,6687,0},{6688,6750,1},{6751,6752,0},{6753,6772,1},{6773,6783,0},{6784,6793,1},{6794,6799,0},{6800,6809,1},{6810,6822,0},{6823,6823,1},{6824,6846,0},{6847,6848,1},{6849,6859,0},{6860,6862,1},{6863,6911,0},{6912,6963,1},{6964,6964,0},{6965,6979,1},{6980,6980,0},{6981,6988,1},{6989,6991,0},{6992,7001,1},{7002,7039,0},{7040,7081,1},{7082,7083,0},{7084,7141,1},{7142,7142,0},{7143,7153,1},{7154,7167,0},{7168,7222,1},{7223,7231,0},{7232,7241,1},{7242,7244,0},{7245,7293,1},{7294,7295,0},{7296,7304,1},{7305,7311,0},{7312,7354,1},{7355,7356,0},{7357,7359,1},{7360,7400,0},{7401,7404,1},{7405,7405,0},{7406,7411,1},{7412,7412,0},{7413,7414,1},{7415,7417,0},{7418,7418,1},{7419,7423,0},{7424,7615,1},{7616,7654,0},{7655,7668,1},{7669,7679,0},{7680,7957,1},{7958,7959,0},{7960,7965,1},{7966,7967,0},{7968,8005,1},{8006,8007,0},{8008,8013,1},{8014,8015,0},{8016,8023,1},{8024,8024,0},{8025,8025,1},{8026,8026,0},{8027,8027,1},{8028,8028,0},{8029,8029,1},{8030,8030,0},{8031,8061,1},{8062,8063,0},{8064,8116,1},{8117,8117,0},{8118,8124,1},{8125,8125,0},{8126,8126,1},{8127,8129,0},{8130,8132,1},{8133,8133,0},{8134,8140,1},{8141,8143,0},{8144,8147,1},{8148,8149,0},{8150,8155,1},{8156,8159,0},{8160,8172,1},{8173,8177,0},{8178,8180,1},{8181,8181,0},{8182,8188,1},{8189,8304,0},{8305,8305,1},{8306,8318,0},{8319,8319,1},{8320,8335,0},{8336,8348,1},{8349,8449,0},{8450,8450,1},{8451,8454,0},{8455,8455,1},{8456,8457,0},{8458,8467,1},{8468,8468,0},{8469,8469,1},{8470,8472,0},{8473,8477,1},{8478,8483,0},{8484,8484,1},{8485,8485,0},{8486,8486,1},{8487,8487,0},{8488,8488,1},{8489,8489,0},{8490,8493,1},{8494,8494,0},{8495,8505,1},{8506,8507,0},{8508,8511,1},{8512,8516,0},{8517,8521,1},{8522,8525,0},{8526,8526,1},{8527,8543,0},{8544,8584,1},{8585,9397,0},{9398,9449,1},{9450,11263,0},{11264,11492,1},{11493,11498,0},{11499,11502,1},{11503,11505,0},{11506,11507,1},{11508,11519,0},{11520,11557,1},{11558,11558,0},{11559,11559,1},{11560,11564,0},{11565,11565,1},{11566,11567,0},{11568,11623,1},{11624,11630,0},{11631,11631,1},{11632,11647,0},{11648,11670,1},{11671,11679,0},{11680,11686,1},{11687,11687,0},{11688,11694,1},{11695,11695,0},{11696,11702,1},{11703,11703,0},{11704,11710,1},{11711,11711,0},{11712,11718,1},{11719,11719,0},{11720,11726,1},{11727,11727,0},{11728,11734,1},{11735,11735,0},{11736,11742,1},{11743,11743,0},{11744,11775,1},{11776,11822,0},{11823,11823,1},{11824,12292,0},{12293,12295,1},{12296,12320,0},{12321,12329,1},{12330,12336,0},{12337,12341,1},{12342,12343,0},{12344,12348,1},{12349,12352,0},{12353,12438,1},{12439,12444,0},{12445,12447,1},{12448,12448,0},{12449,12538,1},{12539,12539,0},{12540,12543,1},{12544,12548,0},{12549,12591,1},{12592,12592,0},{12593,12686,1},{12687,12703,0},{12704,12735,1},{12736,12783,0},{12784,12799,1},{12800,13311,0},{13312,19903,1},{19904,19967,0},{19968,42124,1},{42125,42191,0},{42192,42237,1},{42238,42239,0},{42240,42508,1},{42509,42511,0},{42512,42539,1},{42540,42559,0},{42560,42606,1},{42607,42611,0},{42612,42619,1},{42620,42622,0},{42623,42735,1},{42736,42774,0},{42775,42783,1},{42784,42785,0},{42786,42888,1},{42889,42890,0},{42891,42954,1},{42955,42959,0},{42960,42961,1},{42962,42962,0},{42963,42963,1},{42964,42964,0},{42965,42969,1},{42970,42993,0},{42994,43013,1},{43014,43014,0},{43015,43047,1},{43048,43071,0},{43072,43123,1},{43124,43135,0},{43136,43203,1},{43204,43204,0},{43205,43205,1},{43206,43215,0},{43216,43225,1},{43226,43249,0},{43250,43255,1},{43256,43258,0},{43259,43259,1},{43260,43260,0},{43261,43306,1},{43307,43311,0},{43312,43346,1},{43347,43359,0},{43360,43388,1},{43389,43391,0},{43392,43442,1},{43443,43443,0},{43444,43455,1},{43456,43470,0},{43471,43481,1},{43482,43487,0},{43488,43518,1},{43519,43519,0},{43520,43574,1},{43575,43583,0},{43584,43597,1},{43598,43599,0},{43600,43609,1},{43610,43615,0},{43616,43638,1},{43639,43641,0},{43642,43710,1},{43711,43711,0},{43712,43712,1},{43713,43713,0},{43714,43714,1},{43715,43738,0},{43739,43741,1},{43742,43743,0},{43744,43759,1},{43760,43761,0},{43762,43765,1},{43766,43776,0},{43777,43782,1},{43783,43784,0},{43785,43790,1},{43791,43792,0},{43793,43798,1},{43799,43807,0},{43808,43814,1},{43815,43815,0},{43816,43822,1},{43823,43823,0},{43824,43866,1},{43867,43867,0},{43868,43881,1},{43882,43887,0},{43888,44010,1},{44011,44015,0},{44016,44025,1},{44026,44031,0},{44032,55203,1},{55204,55215,0},{55216,55238,1},{55239,55242,0},{55243,55291,1},{55292,63743,0},{63744,64109,1},{64110,64111,0},{64112,64217,1},{64218,64255,0},{64256,64262,1},{64263,64274,0},{64275,64279,1},{64280,64284,0},{64285,64296,1},{64297,64297,0},{64298,64310,1},{64311,64311,0},{64312,64316,1},{64317,64317,0},{64318,64318,1},{64319,64319,0},{64320,64321,1},{64322,64322,0},{64323,64324,1},{64325,64325,0},{64326,64433,1},{64434,64466,0},{64467,64829,1},{64830,64847,0},{64848,64911,1},{64912,64913,0},{64914,64967,1},{64968,65007,0},{65008,65019,1},{65020,65135,0},{65136,65140,1},{65141,65141,0},{65142,65276,1},{65277,65295,0},{65296,65305,1},{65306,65312,0},{65313,65338,1},{65339,65344,0},{65345,65370,1},{65371,65381,0},{65382,65470,1},{65471,65473,0},{65474,65479,1},{65480,65481,0},{65482,65487,1},{65488,65489,0},{65490,65495,1},{65496,65497,0},{65498,65500,1},{65501,65535,0},{65536,65547,1},{65548,65548,0},{65549,65574,1},{65575,65575,0},{65576,65594,1},{65595,65595,0},{65596,65597,1},{65598,65598,0},{65599,65613,1},{65614,65615,0},{65616,65629,1},{65630,65663,0},{65664,65786,1},{65787,65855,0},{65856,65908,1},{65909,66175,0},{66176,66204,1},{66205,66207,0},{66208,66256,1},{66257,66303,0},{66304,66335,1},{66336,66348,0},{66349,66378,1},{66379,66383,0},{66384,66426,1},{66427,66431,0},{66432,66461,1},{66462,66463,0},{66464,66499,1},{66500,66503,0},{66504,66511,1},{66512,66512,0},{66513,66517,1},{66518,66559,0},{66560,66717,1},{66718,66719,0},{66720,66729,1},{66730,66735,0},{66736,66771,1},{66772,66775,0},{66776,66811,1},{66812,66815,0},{66816,66855,1},{66856,66863,0},{66864,66915,1},{66916,66927,0},{66928,66938,1},{66939,66939,0},{66940,66954,1},{66955,66955,0},{66956,66962,1},{66963,66963,0},{66964,66965,1},{66966,66966,0},{66967,66977,1},{66978,66978,0},{66979,66993,1},{66994,66994,0},{66995,67001,1},{67002,67002,0},{67003,67004,1},{67005,67071,0},{67072,67382,1},{67383,67391,0},{67392,67413,1},{67414,67423,0},{67424,67431,1},{67432,67455,0},{67456,67461,1},{67462,67462,0},{67463,67504,1},{67505,67505,0},{67506,67514,1},{67515,67583,0},{67584,67589,1},{67590,67591,0},{67592,67592,1},{67593,67593,0},{67594,67637,1},{67638,67638,0},{67639,67640,1},{67641,67643,0},{67644,67644,1},{67645,67646,0},{67647,67669,1},{67670,67679,0},{67680,67702,1},{67703,67711,0},{67712,67742,1},{67743,67807,0},{67808,67826,1},{67827,67827,0},{67828,67829,1},{67830,67839,0},{67840,67861,1},{67862,67871,0},{67872,67897,1},{67898,67967,0},{67968,68023,1},{68024,68029,0},{68030,68031,1},{68032,68095,0},{68096,68099,1},{68100,68100,0},{68101,68102,1},{68103,68107,0},{68108,68115,1},{68116,68116,0},{68117,68119,1},{68120,68120,0},{68121,68149,1},{68150,68191,0},{68192,68220,1},{68221,68223,0},{68224,68252,1},{68253,68287,0},{68288,68295,1},{68296,68296,0},{68297,68324,1},{68325,68351,0},{68352,68405,1},{68406,68415,0},{68416,68437,1},{68438,68447,0},{68448,68466,1},{68467,68479,0},{68480,68497,1},{68498,68607,0},{68608,68680,1},{68681,68735,0},{68736,68786,1},{68787,68799,0},{68800,68850,1},{68851,68863,0},{68864,68903,1},{68904,68911,0},{68912,68921,1},{68922,69247,0},{69248,69289,1},{69290,69290,0},{69291,69292,1},{69293,69295,0},{69296,69297,1},{69298,69375,0},{69376,69404,1},{69405,69414,0},{69415,69415,1},{69416,69423,0},{69424,69445,1},{69446,69487,0},{69488,69505,1},{69506,69551,0},{69552,69572,1},{69573,69599,0},{69600,69622,1},{69623,69631,0},{69632,69701,1},{69702,69733,0},{69734,69743,1},{69744,69744,0},{69745,69749,1},{69750,69759,0},{69760,69816,1},{69817,69825,0},{69826,69826,1},{69827,69839,0},{69840,69864,1},{69865,69871,0},{69872,69881,1},{69882,69887,0},{69888,69938,1},{69939,69941,0},{69942,69951,1},{69952,69955,0},{69956,69959,1},{69960,69967,0},{69968,70002,1},{70003,70005,0},{70006,70006,1},{70007,70015,0},{70016,70079,1},{70080,70080,0},{70081,70084,1},{70085,70093,0},{70094,70106,1},{70107,70107,0},{70108,70108,1},{70109,70143,0},{70144,70161,1},{70162,70162,0},{70163,70196,1},{70197,70198,0},{70199,70199,1},{70200,70205,0},{70206,70209,1},{70210,70271,0},{70272,70278,1},{70279,70279,0},{70280,70280,1},{70281,70281,0},{70282,70285,1},{70286,70286,0},{70287,70301,1},{70302,70302,0},{70303,70312,1},{70313,70319,0},{70320,70376,1},{70377,70383,0},{70384,70393,1},{70394,70399,0},{70400,70403,1},{70404,70404,0},{70405,70412,1},{70413,70414,0},{70415,70416,1},{70417,70418,0},{70419,70440,1},{70441,70441,0},{70442,70448,1},{70449,70449,0},{70450,70451,1},{70452,70452,0},{70453,70457,1},{70458,70460,0},{70461,70468,1},{70469,70470,0},{70471,70472,1},{70473,70474,0},{70475,70476,1},{70477,70479,0},{70480,70480,1},{70481,70486,0},{70487,70487,1},{70488,70492,0},{70493,70499,1},{70500,70655,0},{70656,70721,1},{70722,70722,0},{70723,70725,1},{70726,70726,0},{70727,70730,1},{70731,70735,0},{70736,70745,1},{70746,70750,0},{70751,70753,1},{70754,70783,0},{70784,70849,1},{70850,70851,0},{70852,70853,1},{70854,70854,0},{70855,70855,1},{70856,70863,0},{70864,70873,1},{70874,71039,0},{71040,71093,1},{71094,71095,0},{71096,71102,1},{71103,71127,0},{71128,71133,1},{71134,71167,0},{71168,71230,1},{71231,71231,0},{71232,71232,1},{71233,71235,0},{71236,71236,1},{71237,71247,0},{71248,71257,1},{71258,71295,0},{71296,71349,1},{71350,71351,0},{71352,71352,1},{71353,71359,0},{71360,71369,1},{71370,71423,0},{71424,71450,1},{71451,71452,0},{71453,71466,1},{71467,71471,0},{71472,71481,1},{71482,71487,0},{71488,71494,1},{71495,71679,0},{71680,71736,1},{71737,71839,0},{71840,71913,1},{71914,71934,0},{71935,71942,1},{71943,71944,0},{71945,71945,1},{71946,71947,0},{71948,71955,1},{71956,71956,0},{71957,71958,1},{71959,71959,0},{71960,71989,1},{71990,71990,0},{71991,71992,1},{71993,71994,0},{71995,71996,1},{71997,71998,0},{71999,72002,1},{72003,72015,0},{72016,72025,1},{72026,72095,0},{72096,72103,1},{72104,72105,0},{72106,72151,1},{72152,72153,0},{72154,72159,1},{72160,72160,0},{72161,72161,1},{72162,72162,0},{72163,72164,1},{72165,72191,0},{72192,72242,1},{72243,72244,0},{72245,72254,1},{72255,72271,0},{72272,72343,1},{72344,72348,0},{72349,72349,1},{72350,72367,0},{72368,72440,1},{72441,72703,0},{72704,72712,1},{72713,72713,0},{72714,72758,1},{72759,72759,0},{72760,72766,1},{72767,72767,0},{72768,72768,1},{72769,72783,0},{72784,72793,1},{72794,72817,0},{72818,72847,1},{72848,72849,0},{72850,72871,1},{72872,72872,0},{72873,72886,1},{72887,72959,0},{72960,72966,1},{72967,72967,0},{72968,72969,1},{72970,72970,0},{72971,73014,1},{73015,73017,0},{73018,73018,1},{73019,73019,0},{73020,73021,1},{73022,73022,0},{73023,73025,1},{73026,73026,0},{73027,73027,1},{73028,73029,0},{73030,73031,1},{73032,73039,0},{73040,73049,1},{73050,73055,0},{73056,73061,1},{73062,73062,0},{73063,73064,1},{73065,73065,0},{73066,73102,1},{73103,73103,0},{73104,73105,1},{73106,73106,0},{73107,73110,1},{73111,73111,0},{73112,73112,1},{73113,73119,0},{73120,73129,1},{73130,73439,0},{73440,73462,1},{73463,73471,0},{73472,73488,1},{73489,73489,0},{73490,73530,1},{73531,73533,0},{73534,73536,1},{73537,73551,0},{73552,73561,1},{73562,73647,0},{73648,73648,1},{73649,73727,0},{73728,74649,1},{74650,74751,0},{74752,74862,1},{74863,74879,0},{74880,75075,1},{75076,77711,0},{77712,77808,1},{77809,77823,0},{77824,78895,1},{78896,78912,0},{78913,78918,1},{78919,82943,0},{82944,83526,1},{83527,92159,0},{92160,92728,1},{92729,92735,0},{92736,92766,1},{92767,92767,0},{92768,92777,1},{92778,92783,0},{92784,92862,1},{92863,92863,0},{92864,92873,1},{92874,92879,0},{92880,92909,1},{92910,92927,0},{92928,92975,1},{92976,92991,0},{92992,92995,1},{92996,93007,0},{93008,93017,1},{93018,93026,0},{93027,93047,1},{93048,93052,0},{93053,93071,1},{93072,93759,0},{93760,93823,1},{93824,93951,0},{93952,94026,1},{94027,94030,0},{94031,94087,1},{94088,94094,0},{94095,94111,1},{94112,94175,0},{94176,94177,1},{94178,94178,0},{94179,94179,1},{94180,94191,0},{94192,94193,1},{94194,94207,0},{94208,100343,1},{100344,100351,0},{100352,101589,1},{101590,101631,0},{101632,101640,1},{101641,110575,0},{110576,110579,1},{110580,110580,0},{110581,110587,1},{110588,110588,0},{110589,110590,1},{110591,110591,0},{110592,110882,1},{110883,110897,0},{110898,110898,1},{110899,110927,0},{110928,110930,1},{110931,110932,0},{110933,110933,1},{110934,110947,0},{110948,110951,1},{110952,110959,0},{110960,111355,1},{111356,113663,0},{113664,113770,1},{113771,113775,0},{113776,113788,1},{113789,113791,0},{113792,113800,1},{113801,113807,0},{113808,113817,1},{113818,113821,0},{113822,113822,1},{113823,119807,0},{119808,119892,1},{119893,119893,0},{119894,119964,1},{119965,119965,0},{119966,119967,1},{119968,119969,0},{119970,119970,1},{119971,119972,0},{119973,119974,1},{119975,119976,0},{119977,119980,1},{119981,119981,0},{119982,119993,1},{119994,119994,0},{119995,119995,1},{119996,119996,0},{119997,120003,1},{120004,120004,0},{120005,120069,1},{120070,120070,0},{120071,120074,1},{120075,120076,0},{120077,120084,1},{120085,120085,0},{120086,120092,1},{120093,120093,0},{120094,120121,1},{120122,120122,0},{120123,120126,1},{120127,120127,0},{120128,120132,1},{120133,120133,0},{120134,120134,1},{120135,120137,0},{120138,120144,1},{120145,120145,0},{120146,120485,1},{120486,120487,0},{120488,120512,1},{120513,120513,0},{120514,120538,1},{120539,120539,0},{120540,120570,1},{120571,120571,0},{120572,120596,1},{120597,120597,0},{120598,120628,1},{120629,120629,0},{120630,120654,1},{120655,120655,0},{120656,120686,1},{120687,120687,0},{120688,120712,1},{120713,120713,0},{120714,120744,1},{120745,120745,0},{120746,120770,1},{120771,120771,0},{120772,120779,1},{120780,120781,0},{120782,120831,1},{120832,122623,0},{122624,122654,1},{122655,122660,0},{122661,122666,1},{122667,122879,0},{122880,122886,1},{122887,122887,0},{122888,122904,1},{122905,122906,0},{122907,122913,1},{122914,122914,0},{122915,122916,1},{122917,122917,0},{122918,122922,1},{122923,122927,0},{122928,122989,1},{122990,123022,0},{123023,123023,1},{123024,123135,0},{123136,123180,1},{123181,123190,0},{123191,123197,1},{123198,123199,0},{123200,123209,1},{123210,123213,0},{123214,123214,1},{123215,123535,0},{123536,123565,1},{123566,123583,0},{123584,123627,1},{123628,123631,0},{123632,123641,1},{123642,124111,0},{124112,124139,1},{124140,124143,0},{124144,124153,1},{124154,124895,0},{124896,124902,1},{124903,124903,0},{124904,124907,1},{124908,124908,0},{124909,124910,1},{124911,124911,0},{124912,124926,1},{124927,124927,0},{124928,125124,1},{125125,125183,0},{125184,125251,1},{125252,125254,0},{125255,125255,1},{125256,125258,0},{125259,125259,1},{125260,125263,0},{125264,125273,1},{125274,126463,0},{126464,126467,1},{126468,126468,0},{126469,126495,1},{126496,126496,0},{126497,126498,1},{126499,126499,0},{126500,126500,1},{126501,126502,0},{126503,126503,1},{126504,126504,0},{126505,126514,1},{126515,126515,0},{126516,126519,1},{126520,126520,0},{126521,126521,1},{126522,126522,0},{126523,126523,1},{126524,126529,0},{126530,126530,1},{126531,126534,0},{126535,126535,1},{126536,126536,0},{126537,126537,1},{126538,126538,0},{126539,126539,1},{126540,126540,0},{126541,126543,1},{126544,126544,0},{126545,126546,1},{126547,126547,0},{126548,126548,1},{126549,126550,0},{126551,126551,1},{126552,126552,0},{126553,126553,1},{126554,126554,0},{126555,126555,1},{126556,126556,0},{126557,126557,1},{126558,126558,0},{126559,126559,1},{126560,126560,0},{126561,126562,1},{126563,126563,0},{126564,126564,1},{126565,126566,0},{126567,126570,1},{126571,126571,0},{126572,126578,1},{126579,126579,0},{126580,126583,1},{126584,126584,0},{126585,126588,1},{126589,126589,0},{126590,126590,1},{126591,126591,0},{126592,126601,1},{126602,126602,0},{126603,126619,1},{126620,126624,0},{126625,126627,1},{126628,126628,0},{126629,126633,1},{126634,126634,0},{126635,126651,1},{126652,127279,0},{127280,127305,1},{127306,127311,0},{127312,127337,1},{127338,127343,0},{127344,127369,1},{127370,130031,0},{130032,130041,1},{130042,131071,0},{131072,173791,1},{173792,173823,0},{173824,177977,1},{177978,177983,0},{177984,178205,1},{178206,178207,0},{178208,183969,1},{183970,183983,0},{183984,191456,1},{191457,194559,0},{194560,195101,1},{195102,196607,0},{196608,201546,1},{201547,201551,0},{201552,205743,1},{205744,1114111,0}};
inline constexpr Run is_word[] = {{0,47,0},{48,57,1},{58,64,0},{65,90,1},{91,94,0},{95,95,1},{96,96,0},{97,122,1},{123,169,0},{170,170,1},{171,180,0},{181,181,1},{182,185,0},{186,186,1},{187,191,0},{192,214,1},{215,215,0},{216,246,1},{247,247,0},{248,705,1},{706,709,0},{710,721,1},{722,735,0},{736,740,1},{741,747,0},{748,748,1},{749,749,0},{750,750,1},{751,767,0},{768,884,1},{885,885,0},{886,887,1},{888,889,0},{890,893,1},{894,894,0},{895,895,1},{896,901,0},{902,902,1},{903,903,0},{904,906,1},{907,907,0},{908,908,1},{909,909,0},{910,929,1},{930,930,0},{931,1013,1},{1014,1014,0},{1015,1153,1},{1154,1154,0},{1155,1327,1},{1328,1328,0},{1329,1366,1},{1367,1368,0},{1369,1369,1},{1370,1375,0},{1376,1416,1},{1417,1424,0},{1425,1469,1},{1470,1470,0},{1471,1471,1},{1472,1472,0},{1473,1474,1},{1475,1475,0},{1476,1477,1},{1478,1478,0},{1479,1479,1},{1480,1487,0},{1488,1514,1},{1515,1518,0},{1519,1522,1},{1523,1551,0},{1552,1562,1},{1563,1567,0},{1568,1641,1},{1642,1645,0},{1646,1747,1},{1748,1748,0},{1749,1756,1},{1757,1758,0},{1759,1768,1},{1769,1769,0},{1770,1788,1},{1789,1790,0},{1791,1791,1},{1792,1807,0},{1808,1866,1},{1867,1868,0},{1869,1969,1},{1970,1983,0},{1984,2037,1},{2038,2041,0},{2042,2042,1},{2043,2044,0},{2045,2045,1},{2046,2047,0},{2048,2093,1},{2094,2111,0},{2112,2139,1},{2140,2143,0},{2144,2154,1},{2155,2159,0},{2160,2183,1},{2184,2184,0},{2185,2190,1},{2191,2199,0},{2200,2273,1},{2274,2274,0},{2275,2403,1},{2404,2405,0},{2406,2415,1},{2416,2416,0},{2417,2435,1},{2436,2436,0},{2437,2444,1},{2445,2446,0},{2447,2448,1},{2449,2450,0},{2451,2472,1},{2473,2473,0},{2474,2480,1},{2481,2481,0},{2482,2482,1},{2483,2485,0},{2486,2489,1},{2490,2491,0},{2492,2500,1},{2501,2502,0},{2503,2504,1},{2505,2506,0},{2507,2510,1},{2511,2518,0},{2519,2519,1},{2520,2523,0},{2524,2525,1},{2526,2526,0},{2527,2531,1},{2532,2533,0},{2534,2545,1},{2546,2555,0},{2556,2556,1},{2557,2557,0},{2558,2558,1},{2559,2560,0},{2561,2563,1},{2564,2564,0},{2565,2570,1},{2571,2574,0},{2575,2576,1},{2577,2578,0},{2579,2600,1},{2601,2601,0},{2602,2608,1},{2609,2609,0},{2610,2611,1},{2612,2612,0},{2613,2614,1},{2615,2615,0},{2616,2617,1},{2618,2619,0},{2620,2620,1},{2621,2621,0},{2622,2626,1},{2627,2630,0},{2631,2632,1},{2633,2634,0},{2635,2637,1},{2638,2640,0},{2641,2641,1},{2642,2648,0},{2649,2652,1},{2653,2653,0},{2654,2654,1},{2655,2661,0},{2662,2677,1},{2678,2688,0},{2689,2691,1},{2692,2692,0},{2693,2701,1},{2702,2702,0},{2703,2705,1},{2706,2706,0},{2707,2728,1},{2729,2729,0},{2730,2736,1},{2737,2737,0},{2738,2739,1},{2740,2740,0},{2741,2745,1},{2746,2747,0},{2748,2757,1},{2758,2758,0},{2759,2761,1},{2762,2762,0},{2763,2765,1},{2766,2767,0},{2768,2768,1},{2769,2783,0},{2784,2787,1},{2788,2789,0},{2790,2799,1},{2800,2808,0},{2809,2815,1},{2816,2816,0},{2817,2819,1},{2820,2820,0},{2821,2828,1},{2829,2830,0},{2831,2832,1},{2833,2834,0},{2835,2856,1},{2857,2857,0},{2858,2864,1},{2865,2865,0},{2866,2867,1},{2868,2868,0},{2869,2873,1},{2874,2875,0},{2876,2884,1},{2885,2886,0},{2887,2888,1},{2889,2890,0},{2891,2893,1},{2894,2900,0},{2901,2903,1},{2904,2907,0},{2908,2909,1},{2910,2910,0},{2911,2915,1},{2916,2917,0},{2918,2927,1},{2928,2928,0},{2929,2929,1},{2930,2945,0},{2946,2947,1},{2948,2948,0},{2949,2954,1},{2955,2957,0},{2958,2960,1},{2961,2961,0},{2962,2965,1},{2966,2968,0},{2969,2970,1},{2971,2971,0},{2972,2972,1},{2973,2973,0},{2974,2975,1},{2976,2978,0},{2979,2980,1},{2981,2983,0},{2984,2986,1},{2987,2989,0},{2990,3001,1},{3002,3005,0},{3006,3010,1},{3011,3013,0},{3014,3016,1},{3017,3017,0},{3018,3021,1},{3022,3023,0},{3024,3024,1},{3025,3030,0},{3031,3031,1},{3032,3045,0},{3046,3055,1},{3056,3071,0},{3072,3084,1},{3085,3085,0},{3086,3088,1},{3089,3089,0},{3090,3112,1},{3113,3113,0},{3114,3129,1},{3130,3131,0},{3132,3140,1},{3141,3141,0},{3142,3144,1},{3145,3145,0},{3146,3149,1},{3150,3156,0},{3157,3158,1},{3159,3159,0},{3160,3162,1},{3163,3164,0},{3165,3165,1},{3166,3167,0},{3168,3171,1},{3172,3173,0},{3174,3183,1},{3184,3199,0},{3200,3203,1},{3204,3204,0},{3205,3212,1},{3213,3213,0},{3214,3216,1},{3217,3217,0},{3218,3240,1},{3241,3241,0},{3242,3251,1},{3252,3252,0},{3253,3257,1},{3258,3259,0},{3260,3268,1},{3269,3269,0},{3270,3272,1},{3273,3273,0},{3274,3277,1},{3278,3284,0},{3285,3286,1},{3287,3292,0},{3293,3294,1},{3295,3295,0},{3296,3299,1},{3300,3301,0},{3302,3311,1},{3312,3312,0},{3313,3315,1},{3316,3327,0},{3328,3340,1},{3341,3341,0},{3342,3344,1},{3345,3345,0},{3346,3396,1},{3397,3397,0},{3398,3400,1},{3401,3401,0},{3402,3406,1},{3407,3411,0},{3412,3415,1},{3416,3422,0},{3423,3427,1},{3428,3429,0},{3430,3439,1},{3440,3449,0},{3450,3455,1},{3456,3456,0},{3457,3459,1},{3460,3460,0},{3461,3478,1},{3479,3481,0},{3482,3505,1},{3506,3506,0},{3507,3515,1},{3516,3516,0},{3517,3517,1},{3518,3519,0},{3520,3526,1},{3527,3529,0},{3530,3530,1},{3531,3534,0},{3535,3540,1},{3541,3541,0},{3542,3542,1},{3543,3543,0},{3544,3551,1},{3552,3557,0},{3558,3567,1},{3568,3569,0},{3570,3571,1},{3572,3584,0},{3585,3642,1},{3643,3647,0},{3648,3662,1},{3663,3663,0},{3664,3673,1},{3674,3712,0},{3713,3714,1},{3715,3715,0},{3716,3716,1},{3717,3717,0},{3718,3722,1},{3723,3723,0},{3724,3747,1},{3748,3748,0},{3749,3749,1},{3750,3750,0},{3751,3773,1},{3774,3775,0},{3776,3780,1},{3781,3781,0},{3782,3782,1},{3783,3783,0},{3784,3790,1},{3791,3791,0},{3792,3801,1},{3802,3803,0},{3804,3807,1},{3808,3839,0},{3840,3840,1},{3841,3863,0},{3864,3865,1},{3866,3871,0},{3872,3881,1},{3882,3892,0},{3893,3893,1},{3894,3894,0},{3895,3895,1},{3896,3896,0},{3897,3897,1},{3898,3901,0},{3902,3911,1},{3912,3912,0},{3913,3948,1},{3949,3952,0},{3953,3972,1},{3973,3973,0},{3974,3991,1},{3992,3992,0},{3993,4028,1},{4029,4037,0},{4038,4038,1},{4039,4095,0},{4096,4169,1},{4170,4175,0},{4176,4253,1},{4254,4255,0},{4256,4293,1},{4294,4294,0},{4295,4295,1},{4296,4300,0},{4301,4301,1},{4302,4303,0},{4304,4346,1},{4347,4347,0},{4348,4680,1},{4681,4681,0},{4682,4685,1},{4686,4687,0},{4688,4694,1},{4695,4695,0},{4696,4696,1},{4697,4697,0},{4698,4701,1},{4702,4703,0},{4704,4744,1},{4745,4745,0},{4746,4749,1},{4750,4751,0},{4752,4784,1},{4785,4785,0},{4786,4789,1},{4790,4791,0},{4792,4798,1},{4799,4799,0},{4800,4800,1},{4801,4801,0},{4802,4805,1},{4806,4807,0},{4808,4822,1},{4823,4823,0},{4824,4880,1},{4881,4881,0},{4882,4885,1},{4886,4887,0},{4888,4954,1},{4955,4956,0},{4957,4959,1},{4960,4991,0},{4992,5007,1},{5008,5023,0},{5024,5109,1},{5110,5111,0},{5112,5117,1},{5118,5120,0},{5121,5740,1},{5741,5742,0},{5743,5759,1},{5760,5760,0},{5761,5786,1},{5787,5791,0},{5792,5866,1},{5867,5869,0},{5870,5880,1},{5881,5887,0},{5888,5909,1},{5910,5918,0},{5919,5940,1},{5941,5951,0},{5952,5971,1},{5972,5983,0},{5984,5996,1},{5997,5997,0},{5998,6000,1},{6001,6001,0},{6002,6003,1},{6004,6015,0},{6016,6099,1},{6100,6102,0},{6103,6103,1},{6104,6107,0},{6108,6109,1},{6110,6111,0},{6112,6121,1},{6122,6154,0},{6155,6157,1},{6158,6158,0},{6159,6169,1},{6170,6175,0},{6176,6264,1},{6265,6271,0},{6272,6314,1},{6315,6319,0},{6320,6389,1},{6390,6399,0},{6400,6430,1},{6431,6431,0},{6432,6443,1},{6444,6447,0},{6448,6459,1},{6460,6469,0},{6470,6509,1},{6510,6511,0},{6512,6516,1},{6517,6527,0},{6528,6571,1},{6572,6575,0},{6576,6601,1},{6602,6607,0},{6608,6617,1},{6618,6655,0},{6656,6683,1},{6684,6687,0},{6688,6750,1},{6751,6751,0},{6752,6780,1},{6781,6782,0},{6783,6793,1},{6794,6799,0},{6800,6809,1},{6810,6822,0},{6823,6823,1},{6824,6831,0},{6832,6862,1},{6863,6911,0},{6912,6988,1},{6989,6991,0},{6992,7001,1},{7002,7018,0},{7019,7027,1},{7028,7039,0},{7040,7155,1},{7156,7167,0},{7168,7223,1},{7224,7231,0},{7232,7241,1},{7242,7244,0},{7245,7293,1},{7294,7295,0},{7296,7304,1},{7305,7311,0},{7312,7354,1},{7355,7356,0},{7357,7359,1},{7360,7375,0},{7376,7378,1},{7379,7379,0},{7380,7418,1},{7419,7423,0},{7424,7957,1},{7958,7959,0},{7960,7965,1},{7966,7967,0},{7968,8005,1},{8006,8007,0},{8008,8013,1},{8014,8015,0},{8016,8023,1},{8024,8024,0},{8025,8025,1},{8026,8026,0},{8027,8027,1},{8028,8028,0},{8029,8029,1},{8030,8030,0},{8031,8061,1},{8062,8063,0},{8064,8116,1},{8117,8117,0},{8118,8124,1},{8125,8125,0},{8126,8126,1},{8127,8129,0},{8130,8132,1},{8133,8133,0},{8134,8140,1},{8141,8143,0},{8144,8147,1},{8148,8149,0},{8150,8155,1},{8156,8159,0},{8160,8172,1},{8173,8177,0},{8178,8180,1},{8181,8181,0},{8182,8188,1},{8189,8203,0},{8204,8205,1},{8206,8254,0},{8255,8256,1},{8257,8275,0},{8276,8276,1},{8277,8304,0},{8305,8305,1},{8306,8318,0},{8319,8319,1},{8320,8335,0},{8336,8348,1},{8349,8399,0},{8400,8432,1},{8433,8449,0},{8450,8450,1},{8451,8454,0},{8455,8455,1},{8456,8457,0},{8458,8467,1},{8468,8468,0},{8469,8469,1},{8470,8472,0},{8473,8477,1},{8478,8483,0},{8484,8484,1},{8485,8485,0},{8486,8486,1},{8487,8487,0},{8488,8488,1},{8489,8489,0},{8490,8493,1},{8494,8494,0},{8495,8505,1},{8506,8507,0},{8508,8511,1},{8512,8516,0},{8517,8521,1},{8522,8525,0},{8526,8526,1},{8527,8543,0},{8544,8584,1},{8585,9397,0},{9398,9449,1},{9450,11263,0},{11264,11492,1},{11493,11498,0},{11499,11507,1},{11508,11519,0},{11520,11557,1},{11558,11558,0},{11559,11559,1},{11560,11564,0},{11565,11565,1},{11566,11567,0},{11568,11623,1},{11624,11630,0},{11631,11631,1},{11632,11646,0},{11647,11670,1},{11671,11679,0},{11680,11686,1},{11687,11687,0},{11688,11694,1},{11695,11695,0},{11696,11702,1},{11703,11703,0},{11704,11710,1},{11711,11711,0},{11712,11718,1},{11719,11719,0},{11720,11726,1},{11727,11727,0},{11728,11734,1},{11735,11735,0},{11736,11742,1},{11743,11743,0},{11744,11775,1},{11776,11822,0},{11823,11823,1},{11824,12292,0},{12293,12295,1},{12296,12320,0},{12321,12335,1},{12336,12336,0},{12337,12341,1},{12342,12343,0},{12344,12348,1},{12349,12352,0},{12353,12438,1},{12439,12440,0},{12441,12442,1},{12443,12444,0},{12445,12447,1},{12448,12448,0},{12449,12538,1},{12539,12539,0},{12540,12543,1},{12544,12548,0},{12549,12591,1},{12592,12592,0},{12593,12686,1},{12687,12703,0},{12704,12735,1},{12736,12783,0},{12784,12799,1},{12800,13311,0},{13312,19903,1},{19904,19967,0},{19968,42124,1},{42125,42191,0},{42192,42237,1},{42238,42239,0},{42240,42508,1},{42509,42511,0},{42512,42539,1},{42540,42559,0},{42560,42610,1},{42611,42611,0},{42612,42621,1},{42622,42622,0},{42623,42737,1},{42738,42774,0},{42775,42783,1},{42784,42785,0},{42786,42888,1},{42889,42890,0},{42891,42954,1},{42955,42959,0},{42960,42961,1},{42962,42962,0},{42963,42963,1},{42964,42964,0},{42965,42969,1},{42970,42993,0},{42994,43047,1},{43048,43051,0},{43052,43052,1},{43053,43071,0},{43072,43123,1},{43124,43135,0},{43136,43205,1},{43206,43215,0},{43216,43225,1},{43226,43231,0},{43232,43255,1},{43256,43258,0},{43259,43259,1},{43260,43260,0},{43261,43309,1},{43310,43311,0},{43312,43347,1},{43348,43359,0},{43360,43388,1},{43389,43391,0},{43392,43456,1},{43457,43470,0},{43471,43481,1},{43482,43487,0},{43488,43518,1},{43519,43519,0},{43520,43574,1},{43575,43583,0},{43584,43597,1},{43598,43599,0},{43600,43609,1},{43610,43615,0},{43616,43638,1},{43639,43641,0},{43642,43714,1},{43715,43738,0},{43739,43741,1},{43742,43743,0},{43744,43759,1},{43760,43761,0},{43762,43766,1},{43767,43776,0},{43777,43782,1},{43783,43784,0},{43785,43790,1},{43791,43792,0},{43793,43798,1},{43799,43807,0},{43808,43814,1},{43815,43815,0},{43816,43822,1},{43823,43823,0},{43824,43866,1},{43867,43867,0},{43868,43881,1},{43882,43887,0},{43888,44010,1},{44011,44011,0},{44012,44013,1},{44014,44015,0},{44016,44025,1},{44026,44031,0},{44032,55203,1},{55204,55215,0},{55216,55238,1},{55239,55242,0},{55243,55291,1},{55292,63743,0},{63744,64109,1},{64110,64111,0},{64112,64217,1},{64218,64255,0},{64256,64262,1},{64263,64274,0},{64275,64279,1},{64280,64284,0},{64285,64296,1},{64297,64297,0},{64298,64310,1},{64311,64311,0},{64312,64316,1},{64317,64317,0},{64318,64318,1},{64319,64319,0},{64320,64321,1},{64322,64322,0},{64323,64324,1},{64325,64325,0},{64326,64433,1},{64434,64466,0},{64467,64829,1},{64830,64847,0},{64848,64911,1},{64912,64913,0},{64914,64967,1},{64968,65007,0},{65008,65019,1},{65020,65023,0},{65024,65039,1},{65040,65055,0},{65056,65071,1},{65072,65074,0},{65075,65076,1},{65077,65100,0},{65101,65103,1},{65104,65135,0},{65136,65140,1},{65141,65141,0},{65142,65276,1},{65277,65295,0},{65296,65305,1},{65306,65312,0},{65313,65338,1},{65339,65342,0},{65343,65343,1},{65344,65344,0},{65345,65370,1},{65371,65381,0},{65382,65470,1},{65471,65473,0},{65474,65479,1},{65480,65481,0},{65482,65487,1},{65488,65489,0},{65490,65495,1},{65496,65497,0},{65498,65500,1},{65501,65535,0},{65536,65547,1},{65548,65548,0},{65549,65574,1},{65575,65575,0},{65576,65594,1},{65595,65595,0},{65596,65597,1},{65598,65598,0},{65599,65613,1},{65614,65615,0},{65616,65629,1},{65630,65663,0},{65664,65786,1},{65787,65855,0},{65856,65908,1},{65909,66044,0},{66045,66045,1},{66046,66175,0},{66176,66204,1},{66205,66207,0},{66208,66256,1},{66257,66271,0},{66272,66272,1},{66273,66303,0},{66304,66335,1},{66336,66348,0},{66349,66378,1},{66379,66383,0},{66384,66426,1},{66427,66431,0},{66432,66461,1},{66462,66463,0},{66464,66499,1},{66500,66503,0},{66504,66511,1},{66512,66512,0},{66513,66517,1},{66518,66559,0},{66560,66717,1},{66718,66719,0},{66720,66729,1},{66730,66735,0},{66736,66771,1},{66772,66775,0},{66776,66811,1},{66812,66815,0},{66816,66855,1},{66856,66863,0},{66864,66915,1},{66916,66927,0},{66928,66938,1},{66939,66939,0},{66940,66954,1},{66955,66955,0},{66956,66962,1},{66963,66963,0},{66964,66965,1},{66966,66966,0},{66967,66977,1},{66978,66978,0},{66979,66993,1},{66994,66994,0},{66995,67001,1},{67002,67002,0},{67003,67004,1},{67005,67071,0},{67072,67382,1},{67383,67391,0},{67392,67413,1},{67414,67423,0},{67424,67431,1},{67432,67455,0},{67456,67461,1},{67462,67462,0},{67463,67504,1},{67505,67505,0},{67506,67514,1},{67515,67583,0},{67584,67589,1},{67590,67591,0},{67592,67592,1},{67593,67593,0},{67594,67637,1},{67638,67638,0},{67639,67640,1},{67641,67643,0},{67644,67644,1},{67645,67646,0},{67647,67669,1},{67670,67679,0},{67680,67702,1},{67703,67711,0},{67712,67742,1},{67743,67807,0},{67808,67826,1},{67827,67827,0},{67828,67829,1},{67830,67839,0},{67840,67861,1},{67862,67871,0},{67872,67897,1},{67898,67967,0},{67968,68023,1},{68024,68029,0},{68030,68031,1},{68032,68095,0},{68096,68099,1},{68100,68100,0},{68101,68102,1},{68103,68107,0},{68108,68115,1},{68116,68116,0},{68117,68119,1},{68120,68120,0},{68121,68149,1},{68150,68151,0},{68152,68154,1},{68155,68158,0},{68159,68159,1},{68160,68191,0},{68192,68220,1},{68221,68223,0},{68224,68252,1},{68253,68287,0},{68288,68295,1},{68296,68296,0},{68297,68326,1},{68327,68351,0},{68352,68405,1},{68406,68415,0},{68416,68437,1},{68438,68447,0},{68448,68466,1},{68467,68479,0},{68480,68497,1},{68498,68607,0},{68608,68680,1},{68681,68735,0},{68736,68786,1},{68787,68799,0},{68800,68850,1},{68851,68863,0},{68864,68903,1},{68904,68911,0},{68912,68921,1},{68922,69247,0},{69248,69289,1},{69290,69290,0},{69291,69292,1},{69293,69295,0},{69296,69297,1},{69298,69372,0},{69373,69404,1},{69405,69414,0},{69415,69415,1},{69416,69423,0},{69424,69456,1},{69457,69487,0},{69488,69509,1},{69510,69551,0},{69552,69572,1},{69573,69599,0},{69600,69622,1},{69623,69631,0},{69632,69702,1},{69703,69733,0},{69734,69749,1},{69750,69758,0},{69759,69818,1},{69819,69825,0},{69826,69826,1},{69827,69839,0},{69840,69864,1},{69865,69871,0},{69872,69881,1},{69882,69887,0},{69888,69940,1},{69941,69941,0},{69942,69951,1},{69952,69955,0},{69956,69959,1},{69960,69967,0},{69968,70003,1},{70004,70005,0},{70006,70006,1},{70007,70015,0},{70016,70084,1},{70085,70088,0},{70089,70092,1},{70093,70093,0},{70094,70106,1},{70107,70107,0},{70108,70108,1},{70109,70143,0},{70144,70161,1},{70162,70162,0},{70163,70199,1},{70200,70205,0},{70206,70209,1},{70210,70271,0},{70272,70278,1},{70279,70279,0},{70280,70280,1},{70281,70281,0},{70282,70285,1},{70286,70286,0},{70287,70301,1},{70302,70302,0},{70303,70312,1},{70313,70319,0},{70320,70378,1},{70379,70383,0},{70384,70393,1},{70394,70399,0},{70400,70403,1},{70404,70404,0},{70405,70412,1},{70413,70414,0},{70415,70416,1},{70417,70418,0},{70419,70440,1},{70441,70441,0},{70442,70448,1},{70449,70449,0},{70450,70451,1},{70452,70452,0},{70453,70457,1},{70458,70458,0},{70459,70468,1},{70469,70470,0},{70471,70472,1},{70473,70474,0},{70475,70477,1},{70478,70479,0},{70480,70480,1},{70481,70486,0},{70487,70487,1},{70488,70492,0},{70493,70499,1},{70500,70501,0},{70502,70508,1},{70509,70511,0},{70512,70516,1},{70517,70655,0},{70656,70730,1},{70731,70735,0},{70736,70745,1},{70746,70749,0},{70750,70753,1},{70754,70783,0},{70784,70853,1},{70854,70854,0},{70855,70855,1},{70856,70863,0},{70864,70873,1},{70874,71039,0},{71040,71093,1},{71094,71095,0},{71096,71104,1},{71105,71127,0},{71128,71133,1},{71134,71167,0},{71168,71232,1},{71233,71235,0},{71236,71236,1},{71237,71247,0},{71248,71257,1},{71258,71295,0},{71296,71352,1},{71353,71359,0},{71360,71369,1},{71370,71423,0},{71424,71450,1},{71451,71452,0},{71453,71467,1},{71468,71471,0},{71472,71481,1},{71482,71487,0},{71488,71494,1},{71495,71679,0},{71680,71738,1},{71739,71839,0},{71840,71913,1},{71914,71934,0},{71935,71942,1},{71943,71944,0},{71945,71945,1},{71946,71947,0},{71948,71955,1},{71956,71956,0},{71957,71958,1},{71959,71959,0},{71960,71989,1},{71990,71990,0},{71991,71992,1},{71993,71994,0},{71995,72003,1},{72004,72015,0},{72016,72025,1},{72026,72095,0},{72096,72103,1},{72104,72105,0},{72106,72151,1},{72152,72153,0},{72154,72161,1},{72162,72162,0},{72163,72164,1},{72165,72191,0},{72192,72254,1},{72255,72262,0},{72263,72263,1},{72264,72271,0},{72272,72345,1},{72346,72348,0},{72349,72349,1},{72350,72367,0},{72368,72440,1},{72441,72703,0},{72704,72712,1},{72713,72713,0},{72714,72758,1},{72759,72759,0},{72760,72768,1},{72769,72783,0},{72784,72793,1},{72794,72817,0},{72818,72847,1},{72848,72849,0},{72850,72871,1},{72872,72872,0},{72873,72886,1},{72887,72959,0},{72960,72966,1},{72967,72967,0},{72968,72969,1},{72970,72970,0},{72971,73014,1},{73015,73017,0},{73018,73018,1},{73019,73019,0},{73020,73021,1},{73022,73022,0},{73023,73031,1},{73032,73039,0},{73040,73049,1},{73050,73055,0},{73056,73061,1},{73062,73062,0},{73063,73064,1},{73065,73065,0},{73066,73102,1},{73103,73103,0},{73104,73105,1},{73106,73106,0},{73107,73112,1},{73113,73119,0},{73120,73129,1},{73130,73439,0},{73440,73462,1},{73463,73471,0},{73472,73488,1},{73489,73489,0},{73490,73530,1},{73531,73533,0},{73534,73538,1},{73539,73551,0},{73552,73561,1},{73562,73647,0},{73648,73648,1},{73649,73727,0},{73728,74649,1},{74650,74751,0},{74752,74862,1},{74863,74879,0},{74880,75075,1},{75076,77711,0},{77712,77808,1},{77809,77823,0},{77824,78895,1},{78896,78911,0},{78912,78933,1},{78934,82943,0},{82944,83526,1},{83527,92159,0},{92160,92728,1},{92729,92735,0},{92736,92766,1},{92767,92767,0},{92768,92777,1},{92778,92783,0},{92784,92862,1},{92863,92863,0},{92864,92873,1},{92874,92879,0},{92880,92909,1},{92910,92911,0},{92912,92916,1},{92917,92927,0},{92928,92982,1},{92983,92991,0},{92992,92995,1},{92996,93007,0},{93008,93017,1},{93018,93026,0},{93027,93047,1},{93048,93052,0},{93053,93071,1},{93072,93759,0},{93760,93823,1},{93824,93951,0},{93952,94026,1},{94027,94030,0},{94031,94087,1},{94088,94094,0},{94095,94111,1},{94112,94175,0},{94176,94177,1},{94178,94178,0},{94179,94180,1},{94181,94191,0},{94192,94193,1},{94194,94207,0},{94208,100343,1},{100344,100351,0},{100352,101589,1},{101590,101631,0},{101632,101640,1},{101641,110575,0},{110576,110579,1},{110580,110580,0},{110581,110587,1},{110588,110588,0},{110589,110590,1},{110591,110591,0},{110592,110882,1},{110883,110897,0},{110898,110898,1},{110899,110927,0},{110928,110930,1},{110931,110932,0},{110933,110933,1},{110934,110947,0},{110948,110951,1},{110952,110959,0},{110960,111355,1},{111356,113663,0},{113664,113770,1},{113771,113775,0},{113776,113788,1},{113789,113791,0},{113792,113800,1},{113801,113807,0},{113808,113817,1},{113818,113820,0},{113821,113822,1},{113823,118527,0},{118528,118573,1},{118574,118575,0},{118576,118598,1},{118599,119140,0},{119141,119145,1},{119146,119148,0},{119149,119154,1},{119155,119162,0},{119163,119170,1},{119171,119172,0},{119173,119179,1},{119180,119209,0},{119210,119213,1},{119214,119361,0},{119362,119364,1},{119365,119807,0},{119808,119892,1},{119893,119893,0},{119894,119964,1},{119965,119965,0},{119966,119967,1},{119968,119969,0},{119970,119970,1},{119971,119972,0},{119973,119974,1},{119975,119976,0},{119977,119980,1},{119981,119981,0},{119982,119993,1},{119994,119994,0},{119995,119995,1},{119996,119996,0},{119997,120003,1},{120004,120004,0},{120005,120069,1},{120070,120070,0},{120071,120074,1},{120075,120076,0},{120077,120084,1},{120085,120085,0},{120086,120092,1},{120093,120093,0},{120094,120121,1},{120122,120122,0},{120123,120126,1},{120127,120127,0},{120128,120132,1},{120133,120133,0},{120134,120134,1},{120135,120137,0},{120138,120144,1},{120145,120145,0},{120146,120485,1},{120486,120487,0},{120488,120512,1},{120513,120513,0},{120514,120538,1},{120539,120539,0},{120540,120570,1},{120571,120571,0},{120572,120596,1},{120597,120597,0},{120598,120628,1},{120629,120629,0},{120630,120654,1},{120655,120655,0},{120656,120686,1},{120687,120687,0},{120688,120712,1},{120713,120713,0},{120714,120744,1},{120745,120745,0},{120746,120770,1},{120771,120771,0},{120772,120779,1},{120780,120781,0},{120782,120831,1},{120832,121343,0},{121344,121398,1},{121399,121402,0},{121403,121452,1},{121453,121460,0},{121461,121461,1},{121462,121475,0},{121476,121476,1},{121477,121498,0},{121499,121503,1},{121504,121504,0},{121505,121519,1},{121520,122623,0},{122624,122654,1},{122655,122660,0},{122661,122666,1},{122667,122879,0},{122880,122886,1},{122887,122887,0},{122888,122904,1},{122905,122906,0},{122907,122913,1},{122914,122914,0},{122915,122916,1},{122917,122917,0},{122918,122922,1},{122923,122927,0},{122928,122989,1},{122990,123022,0},{123023,123023,1},{123024,123135,0},{123136,123180,1},{123181,123183,0},{123184,123197,1},{123198,123199,0},{123200,123209,1},{123210,123213,0},{123214,123214,1},{123215,123535,0},{123536,123566,1},{123567,123583,0},{123584,123641,1},{123642,124111,0},{124112,124153,1},{124154,124895,0},{124896,124902,1},{124903,124903,0},{124904,124907,1},{124908,124908,0},{124909,124910,1},{124911,124911,0},{124912,124926,1},{124927,124927,0},{124928,125124,1},{125125,125135,0},{125136,125142,1},{125143,125183,0},{125184,125259,1},{125260,125263,0},{125264,125273,1},{125274,126463,0},{126464,126467,1},{126468,126468,0},{126469,126495,1},{126496,126496,0},{126497,126498,1},{126499,126499,0},{126500,126500,1},{126501,126502,0},{126503,126503,1},{126504,126504,0},{126505,126514,1},{126515,126515,0},{126516,126519,1},{126520,126520,0},{126521,126521,1},{126522,126522,0},{126523,126523,1},{126524,126529,0},{126530,126530,1},{126531,126534,0},{126535,126535,1},{126536,126536,0},{126537,126537,1},{126538,126538,0},{126539,126539,1},{126540,126540,0},{126541,126543,1},{126544,126544,0},{126545,126546,1},{126547,126547,0},{126548,126548,1},{126549,126550,0},{126551,126551,1},{126552,126552,0},{126553,126553,1},{126554,126554,0},{126555,126555,1},{126556,126556,0},{126557,126557,1},{126558,126558,0},{126559,126559,1},{126560,126560,0},{126561,126562,1},{126563,126563,0},{126564,126564,1},{126565,126566,0},{126567,126570,1},{126571,126571,0},{126572,126578,1},{126579,126579,0},{126580,126583,1},{126584,126584,0},{126585,126588,1},{126589,126589,0},{126590,126590,1},{126591,126591,0},{126592,126601,1},{126602,126602,0},{126603,126619,1},{126620,126624,0},{126625,126627,1},{126628,126628,0},{126629,126633,1},{126634,126634,0},{126635,126651,1},{126652,127279,0},{127280,127305,1},{127306,127311,0},{127312,127337,1},{127338,127343,0},{127344,127369,1},{127370,130031,0},{130032,130041,1},{130042,131071,0},{131072,173791,1},{173792,173823,0},{173824,177977,1},{177978,177983,0},{177984,178205,1},{178206,178207,0},{178208,183969,1},{183970,183983,0},{183984,191456,1},{191457,194559,0},{194560,195101,1},{195102,196607,0},{196608,201546,1},{201547,201551,0},{201552,205743,1},{205744,917759,0},{917760,917999,1},{918000,1114111,0}};
inline constexpr Run is_graph[] = {{0,32,0},{33,126,1},{127,160,0},{161,887,1},{888,889,0},{890,895,1},{896,899,0},{900,906,1},{907,907,0},{908,908,1},{909,909,0},{910,929,1},{930,930,0},{931,1327,1},{1328,1328,0},{1329,1366,1},{1367,1368,0},{1369,1418,1},{1419,1420,0},{1421,1423,1},{1424,1424,0},{1425,1479,1},{1480,1487,0},{1488,1514,1},{1515,1518,0},{1519,1524,1},{1525,1535,0},{1536,1805,1},{1806,1806,0},{1807,1866,1},{1867,1868,0},{1869,1969,1},{1970,1983,0},{1984,2042,1},{2043,2044,0},{2045,2093,1},{2094,2095,0},{2096,2110,1},{2111,2111,0},{2112,2139,1},{2140,2141,0},{2142,2142,1},{2143,2143,0},{2144,2154,1},{2155,2159,0},{2160,2190,1},{2191,2191,0},{2192,2193,1},{2194,2199,0},{2200,2435,1},{2436,2436,0},{2437,2444,1},{2445,2446,0},{2447,2448,1},{2449,2450,0},{2451,2472,1},{2473,2473,0},{2474,2480,1},{2481,2481,0},{2482,2482,1},{2483,2485,0},{2486,2489,1},{2490,2491,0},{2492,2500,1},{2501,2502,0},{2503,2504,1},{2505,2506,0},{2507,2510,1},{2511,2518,0},{2519,2519,1},{2520,2523,0},{2524,2525,1},{2526,2526,0},{2527,2531,1},{2532,2533,0},{2534,2558,1},{2559,2560,0},{2561,2563,1},{2564,2564,0},{2565,2570,1},{2571,2574,0},{2575,2576,1},{2577,2578,0},{2579,2600,1},{2601,2601,0},{2602,2608,1},{2609,2609,0},{2610,2611,1},{2612,2612,0},{2613,2614,1},{2615,2615,0},{2616,2617,1},{2618,2619,0},{2620,2620,1},{2621,2621,0},{2622,2626,1},{2627,2630,0},{2631,2632,1},{2633,2634,0},{2635,2637,1},{2638,2640,0},{2641,2641,1},{2642,2648,0},{2649,2652,1},{2653,2653,0},{2654,2654,1},{2655,2661,0},{2662,2678,1},{2679,2688,0},{2689,2691,1},{2692,2692,0},{2693,2701,1},{2702,2702,0},{2703,2705,1},{2706,2706,0},{2707,2728,1},{2729,2729,0},{2730,2736,1},{2737,2737,0},{2738,2739,1},{2740,2740,0},{2741,2745,1},{2746,2747,0},{2748,2757,1},{2758,2758,0},{2759,2761,1},{2762,2762,0},{2763,2765,1},{2766,2767,0},{2768,2768,1},{2769,2783,0},{2784,2787,1},{2788,2789,0},{2790,2801,1},{2802,2808,0},{2809,2815,1},{2816,2816,0},{2817,2819,1},{2820,2820,0},{2821,2828,1},{2829,2830,0},{2831,2832,1},{2833,2834,0},{2835,2856,1},{2857,2857,0},{2858,2864,1},{2865,2865,0},{2866,2867,1},{2868,2868,0},{2869,2873,1},{2874,2875,0},{2876,2884,1},{2885,2886,0},{2887,2888,1},{2889,2890,0},{2891,2893,1},{2894,2900,0},{2901,2903,1},{2904,2907,0},{2908,2909,1},{2910,2910,0},{2911,2915,1},{2916,2917,0},{2918,2935,1},{2936,2945,0},{2946,2947,1},{2948,2948,0},{2949,2954,1},{2955,2957,0},{2958,2960,1},{2961,2961,0},{2962,2965,1},{2966,2968,0},{2969,2970,1},{2971,2971,0},{2972,2972,1},{2973,2973,0},{2974,2975,1},{2976,2978,0},{2979,2980,1},{2981,2983,0},{2984,2986,1},{2987,2989,0},{2990,3001,1},{3002,3005,0},{3006,3010,1},{3011,3013,0},{3014,3016,1},{3017,3017,0},{3018,3021,1},{3022,3023,0},{3024,3024,1},{3025,3030,0},{3031,3031,1},{3032,3045,0},{3046,3066,1},{3067,3071,0},{3072,3084,1},{3085,3085,0},{3086,3088,1},{3089,3089,0},{3090,3112,1},{3113,3113,0},{3114,3129,1},{3130,3131,0},{3132,3140,1},{3141,3141,0},{3142,3144,1},{3145,3145,0},{3146,3149,1},{3150,3156,0},{3157,3158,1},{3159,3159,0},{3160,3162,1},{3163,3164,0},{3165,3165,1},{3166,3167,0},{3168,3171,1},{3172,3173,0},{3174,3183,1},{3184,3190,0},{3191,3212,1},{3213,3213,0},{3214,3216,1},{3217,3217,0},{3218,3240,1},{3241,3241,0},{3242,3251,1},{3252,3252,0},{3253,3257,1},{3258,3259,0},{3260,3268,1},{3269,3269,0},{3270,3272,1},{3273,3273,0},{3274,3277,1},{3278,3284,0},{3285,3286,1},{3287,3292,0},{3293,3294,1},{3295,3295,0},{3296,3299,1},{3300,3301,0},{3302,3311,1},{3312,3312,0},{3313,3315,1},{3316,3327,0},{3328,3340,1},{3341,3341,0},{3342,3344,1},{3345,3345,0},{3346,3396,1},{3397,3397,0},{3398,3400,1},{3401,3401,0},{3402,3407,1},{3408,3411,0},{3412,3427,1},{3428,3429,0},{3430,3455,1},{3456,3456,0},{3457,3459,1},{3460,3460,0},{3461,3478,1},{3479,3481,0},{3482,3505,1},{3506,3506,0},{3507,3515,1},{3516,3516,0},{3517,3517,1},{3518,3519,0},{3520,3526,1},{3527,3529,0},{3530,3530,1},{3531,3534,0},{3535,3540,1},{3541,3541,0},{3542,3542,1},{3543,3543,0},{3544,3551,1},{3552,3557,0},{3558,3567,1},{3568,3569,0},{3570,3572,1},{3573,3584,0},{3585,3642,1},{3643,3646,0},{3647,3675,1},{3676,3712,0},{3713,3714,1},{3715,3715,0},{3716,3716,1},{3717,3717,0},{3718,3722,1},{3723,3723,0},{3724,3747,1},{3748,3748,0},{3749,3749,1},{3750,3750,0},{3751,3773,1},{3774,3775,0},{3776,3780,1},{3781,3781,0},{3782,3782,1},{3783,3783,0},{3784,3790,1},{3791,3791,0},{3792,3801,1},{3802,3803,0},{3804,3807,1},{3808,3839,0},{3840,3911,1},{3912,3912,0},{3913,3948,1},{3949,3952,0},{3953,3991,1},{3992,3992,0},{3993,4028,1},{4029,4029,0},{4030,4044,1},{4045,4045,0},{4046,4058,1},{4059,4095,0},{4096,4293,1},{4294,4294,0},{4295,4295,1},{4296,4300,0},{4301,4301,1},{4302,4303,0},{4304,4680,1},{4681,4681,0},{4682,4685,1},{4686,4687,0},{4688,4694,1},{4695,4695,0},{4696,4696,1},{4697,4697,0},{4698,4701,1},{4702,4703,0},{4704,4744,1},{4745,4745,0},{4746,4749,1},{4750,4751,0},{4752,4784,1},{4785,4785,0},{4786,4789,1},{4790,4791,0},{4792,4798,1},{4799,4799,0},{4800,4800,1},{4801,4801,0},{4802,4805,1},{4806,4807,0},{4808,4822,1},{4823,4823,0},{4824,4880,1},{4881,4881,0},{4882,4885,1},{4886,4887,0},{4888,4954,1},{4955,4956,0},{4957,4988,1},{4989,4991,0},{4992,5017,1},{5018,5023,0},{5024,5109,1},{5110,5111,0},{5112,5117,1},{5118,5119,0},{5120,5759,1},{5760,5760,0},{5761,5788,1},{5789,5791,0},{5792,5880,1},{5881,5887,0},{5888,5909,1},{5910,5918,0},{5919,5942,1},{5943,5951,0},{5952,5971,1},{5972,5983,0},{5984,5996,1},{5997,5997,0},{5998,6000,1},{6001,6001,0},{6002,6003,1},{6004,6015,0},{6016,6109,1},{6110,6111,0},{6112,6121,1},{6122,6127,0},{6128,6137,1},{6138,6143,0},{6144,6169,1},{6170,6175,0},{6176,6264,1},{6265,6271,0},{6272,6314,1},{6315,6319,0},{6320,6389,1},{6390,6399,0},{6400,6430,1},{6431,6431,0},{6432,6443,1},{6444,6447,0},{6448,6459,1},{6460,6463,0},{6464,6464,1},{6465,6467,0},{6468,6509,1},{6510,6511,0},{6512,6516,1},{6517,6527,0},{6528,6571,1},{6572,6575,0},{6576,6601,1},{6602,6607,0},{6608,6618,1},{6619,6621,0},{6622,6683,1},{6684,6685,0},{6686,6750,1},{6751,6751,0},{6752,6780,1},{6781,6782,0},{6783,6793,1},{6794,6799,0},{6800,6809,1},{6810,6815,0},{6816,6829,1},{6830,6831,0},{6832,6862,1},{6863,6911,0},{6912,6988,1},{6989,6991,0},{6992,7038,1},{7039,7039,0},{7040,7155,1},{7156,7163,0},{7164,7223,1},{7224,7226,0},{7227,7241,1},{7242,7244,0},{7245,7304,1},{7305,7311,0},{7312,7354,1},{7355,7356,0},{7357,7367,1},{7368,7375,0},{7376,7418,1},{7419,7423,0},{7424,7957,1},{7958,7959,0},{7960,7965,1},{7966,7967,0},{7968,8005,1},{8006,8007,0},{8008,8013,1},{8014,8015,0},{8016,8023,1},{8024,8024,0},{8025,8025,1},{8026,8026,0},{8027,8027,1},{8028,8028,0},{8029,8029,1},{8030,8030,0},{8031,8061,1},{8062,8063,0},{8064,8116,1},{8117,8117,0},{8118,8132,1},{8133,8133,0},{8134,8147,1},{8148,8149,0},{8150,8155,1},{8156,8156,0},{8157,8175,1},{8176,8177,0},{8178,8180,1},{8181,8181,0},{8182,8190,1},{8191,8202,0},{8203,8231,1},{8232,8233,0},{8234,8238,1},{8239,8239,0},{8240,8286,1},{8287,8287,0},{8288,8292,1},{8293,8293,0},{8294,8305,1},{8306,8307,0},{8308,8334,1},{8335,8335,0},{8336,8348,1},{8349,8351,0},{8352,8384,1},{8385,8399,0},{8400,8432,1},{8433,8447,0},{8448,8587,1},{8588,8591,0},{8592,9254,1},{9255,9279,0},{9280,9290,1},{9291,9311,0},{9312,11123,1},{11124,11125,0},{11126,11157,1},{11158,11158,0},{11159,11507,1},{11508,11512,0},{11513,11557,1},{11558,11558,0},{11559,11559,1},{11560,11564,0},{11565,11565,1},{11566,11567,0},{11568,11623,1},{11624,11630,0},{11631,11632,1},{11633,11646,0},{11647,11670,1},{11671,11679,0},{11680,11686,1},{11687,11687,0},{11688,11694,1},{11695,11695,0},{11696,11702,1},{11703,11703,0},{11704,11710,1},{11711,11711,0},{11712,11718,1},{11719,11719,0},{11720,11726,1},{11727,11727,0},{11728,11734,1},{11735,11735,0},{11736,11742,1},{11743,11743,0},{11744,11869,1},{11870,11903,0},{11904,11929,1},{11930,11930,0},{11931,12019,1},{12020,12031,0},{12032,12245,1},{12246,12271,0},{12272,12283,1},{12284,12288,0},{12289,12351,1},{12352,12352,0},{12353,12438,1},{12439,12440,0},{12441,12543,1},{12544,12548,0},{12549,12591,1},{12592,12592,0},{12593,12686,1},{12687,12687,0},{12688,12771,1},{12772,12783,0},{12784,12830,1},{12831,12831,0},{12832,42124,1},{42125,42127,0},{42128,42182,1},{42183,42191,0},{42192,42539,1},{42540,42559,0},{42560,42743,1},{42744,42751,0},{42752,42954,1},{42955,42959,0},{42960,42961,1},{42962,42962,0},{42963,42963,1},{42964,42964,0},{42965,42969,1},{42970,42993,0},{42994,43052,1},{43053,43055,0},{43056,43065,1},{43066,43071,0},{43072,43127,1},{43128,43135,0},{43136,43205,1},{43206,43213,0},{43214,43225,1},{43226,43231,0},{43232,43347,1},{43348,43358,0},{43359,43388,1},{43389,43391,0},{43392,43469,1},{43470,43470,0},{43471,43481,1},{43482,43485,0},{43486,43518,1},{43519,43519,0},{43520,43574,1},{43575,43583,0},{43584,43597,1},{43598,43599,0},{43600,43609,1},{43610,43611,0},{43612,43714,1},{43715,43738,0},{43739,43766,1},{43767,43776,0},{43777,43782,1},{43783,43784,0},{43785,43790,1},{43791,43792,0},{43793,43798,1},{43799,43807,0},{43808,43814,1},{43815,43815,0},{43816,43822,1},{43823,43823,0},{43824,43883,1},{43884,43887,0},{43888,44013,1},{44014,44015,0},{44016,44025,1},{44026,44031,0},{44032,55203,1},{55204,55215,0},{55216,55238,1},{55239,55242,0},{55243,55291,1},{55292,57343,0},{57344,64109,1},{64110,64111,0},{64112,64217,1},{64218,64255,0},{64256,64262,1},{64263,64274,0},{64275,64279,1},{64280,64284,0},{64285,64310,1},{64311,64311,0},{64312,64316,1},{64317,64317,0},{64318,64318,1},{64319,64319,0},{64320,64321,1},{64322,64322,0},{64323,64324,1},{64325,64325,0},{64326,64450,1},{64451,64466,0},{64467,64911,1},{64912,64913,0},{64914,64967,1},{64968,64974,0},{64975,64975,1},{64976,65007,0},{65008,65049,1},{65050,65055,0},{65056,65106,1},{65107,65107,0},{65108,65126,1},{65127,65127,0},{65128,65131,1},{65132,65135,0},{65136,65140,1},{65141,65141,0},{65142,65276,1},{65277,65278,0},{65279,65279,1},{65280,65280,0},{65281,65470,1},{65471,65473,0},{65474,65479,1},{65480,65481,0},{65482,65487,1},{65488,65489,0},{65490,65495,1},{65496,65497,0},{65498,65500,1},{65501,65503,0},{65504,65510,1},{65511,65511,0},{65512,65518,1},{65519,65528,0},{65529,65533,1},{65534,65535,0},{65536,65547,1},{65548,65548,0},{65549,65574,1},{65575,65575,0},{65576,65594,1},{65595,65595,0},{65596,65597,1},{65598,65598,0},{65599,65613,1},{65614,65615,0},{65616,65629,1},{65630,65663,0},{65664,65786,1},{65787,65791,0},{65792,65794,1},{65795,65798,0},{65799,65843,1},{65844,65846,0},{65847,65934,1},{65935,65935,0},{65936,65948,1},{65949,65951,0},{65952,65952,1},{65953,65999,0},{66000,66045,1},{66046,66175,0},{66176,66204,1},{66205,66207,0},{66208,66256,1},{66257,66271,0},{66272,66299,1},{66300,66303,0},{66304,66339,1},{66340,66348,0},{66349,66378,1},{66379,66383,0},{66384,66426,1},{66427,66431,0},{66432,66461,1},{66462,66462,0},{66463,66499,1},{66500,66503,0},{66504,66517,1},{66518,66559,0},{66560,66717,1},{66718,66719,0},{66720,66729,1},{66730,66735,0},{66736,66771,1},{66772,66775,0},{66776,66811,1},{66812,66815,0},{66816,66855,1},{66856,66863,0},{66864,66915,1},{66916,66926,0},{66927,66938,1},{66939,66939,0},{66940,66954,1},{66955,66955,0},{66956,66962,1},{66963,66963,0},{66964,66965,1},{66966,66966,0},{66967,66977,1},{66978,66978,0},{66979,66993,1},{66994,66994,0},{66995,67001,1},{67002,67002,0},{67003,67004,1},{67005,67071,0},{67072,67382,1},{67383,67391,0},{67392,67413,1},{67414,67423,0},{67424,67431,1},{67432,67455,0},{67456,67461,1},{67462,67462,0},{67463,67504,1},{67505,67505,0},{67506,67514,1},{67515,67583,0},{67584,67589,1},{67590,67591,0},{67592,67592,1},{67593,67593,0},{67594,67637,1},{67638,67638,0},{67639,67640,1},{67641,67643,0},{67644,67644,1},{67645,67646,0},{67647,67669,1},{67670,67670,0},{67671,67742,1},{67743,67750,0},{67751,67759,1},{67760,67807,0},{67808,67826,1},{67827,67827,0},{67828,67829,1},{67830,67834,0},{67835,67867,1},{67868,67870,0},{67871,67897,1},{67898,67902,0},{67903,67903,1},{67904,67967,0},{67968,68023,1},{68024,68027,0},{68028,68047,1},{68048,68049,0},{68050,68099,1},{68100,68100,0},{68101,68102,1},{68103,68107,0},{68108,68115,1},{68116,68116,0},{68117,68119,1},{68120,68120,0},{68121,68149,1},{68150,68151,0},{68152,68154,1},{68155,68158,0},{68159,68168,1},{68169,68175,0},{68176,68184,1},{68185,68191,0},{68192,68255,1},{68256,68287,0},{68288,68326,1},{68327,68330,0},{68331,68342,1},{68343,68351,0},{68352,68405,1},{68406,68408,0},{68409,68437,1},{68438,68439,0},{68440,68466,1},{68467,68471,0},{68472,68497,1},{68498,68504,0},{68505,68508,1},{68509,68520,0},{68521,68527,1},{68528,68607,0},{68608,68680,1},{68681,68735,0},{68736,68786,1},{68787,68799,0},{68800,68850,1},{68851,68857,0},{68858,68903,1},{68904,68911,0},{68912,68921,1},{68922,69215,0},{69216,69246,1},{69247,69247,0},{69248,69289,1},{69290,69290,0},{69291,69293,1},{69294,69295,0},{69296,69297,1},{69298,69372,0},{69373,69415,1},{69416,69423,0},{69424,69465,1},{69466,69487,0},{69488,69513,1},{69514,69551,0},{69552,69579,1},{69580,69599,0},{69600,69622,1},{69623,69631,0},{69632,69709,1},{69710,69713,0},{69714,69749,1},{69750,69758,0},{69759,69826,1},{69827,69836,0},{69837,69837,1},{69838,69839,0},{69840,69864,1},{69865,69871,0},{69872,69881,1},{69882,69887,0},{69888,69940,1},{69941,69941,0},{69942,69959,1},{69960,69967,0},{69968,70006,1},{70007,70015,0},{70016,70111,1},{70112,70112,0},{70113,70132,1},{70133,70143,0},{70144,70161,1},{70162,70162,0},{70163,70209,1},{70210,70271,0},{70272,70278,1},{70279,70279,0},{70280,70280,1},{70281,70281,0},{70282,70285,1},{70286,70286,0},{70287,70301,1},{70302,70302,0},{70303,70313,1},{70314,70319,0},{70320,70378,1},{70379,70383,0},{70384,70393,1},{70394,70399,0},{70400,70403,1},{70404,70404,0},{70405,70412,1},{70413,70414,0},{70415,70416,1},{70417,70418,0},{70419,70440,1},{70441,70441,0},{70442,70448,1},{70449,70449,0},{70450,70451,1},{70452,70452,0},{70453,70457,1},{70458,70458,0},{70459,70468,1},{70469,70470,0},{70471,70472,1},{70473,70474,0},{70475,70477,1},{70478,70479,0},{70480,70480,1},{70481,70486,0},{70487,70487,1},{70488,70492,0},{70493,70499,1},{70500,70501,0},{70502,70508,1},{70509,70511,0},{70512,70516,1},{70517,70655,0},{70656,70747,1},{70748,70748,0},{70749,70753,1},{70754,70783,0},{70784,70855,1},{70856,70863,0},{70864,70873,1},{70874,71039,0},{71040,71093,1},{71094,71095,0},{71096,71133,1},{71134,71167,0},{71168,71236,1},{71237,71247,0},{71248,71257,1},{71258,71263,0},{71264,71276,1},{71277,71295,0},{71296,71353,1},{71354,71359,0},{71360,71369,1},{71370,71423,0},{71424,71450,1},{71451,71452,0},{71453,71467,1},{71468,71471,0},{71472,71494,1},{71495,71679,0},{71680,71739,1},{71740,71839,0},{71840,71922,1},{71923,71934,0},{71935,71942,1},{71943,71944,0},{71945,71945,1},{71946,71947,0},{71948,71955,1},{71956,71956,0},{71957,71958,1},{71959,71959,0},{71960,71989,1},{71990,71990,0},{71991,71992,1},{71993,71994,0},{71995,72006,1},{72007,72015,0},{72016,72025,1},{72026,72095,0},{72096,72103,1},{72104,72105,0},{72106,72151,1},{72152,72153,0},{72154,72164,1},{72165,72191,0},{72192,72263,1},{72264,72271,0},{72272,72354,1},{72355,72367,0},{72368,72440,1},{72441,72447,0},{72448,72457,1},{72458,72703,0},{72704,72712,1},{72713,72713,0},{72714,72758,1},{72759,72759,0},{72760,72773,1},{72774,72783,0},{72784,72812,1},{72813,72815,0},{72816,72847,1},{72848,72849,0},{72850,72871,1},{72872,72872,0},{72873,72886,1},{72887,72959,0},{72960,72966,1},{72967,72967,0},{72968,72969,1},{72970,72970,0},{72971,73014,1},{73015,73017,0},{73018,73018,1},{73019,73019,0},{73020,73021,1},{73022,73022,0},{73023,73031,1},{73032,73039,0},{73040,73049,1},{73050,73055,0},{73056,73061,1},{73062,73062,0},{73063,73064,1},{73065,73065,0},{73066,73102,1},{73103,73103,0},{73104,73105,1},{73106,73106,0},{73107,73112,1},{73113,73119,0},{73120,73129,1},{73130,73439,0},{73440,73464,1},{73465,73471,0},{73472,73488,1},{73489,73489,0},{73490,73530,1},{73531,73533,0},{73534,73561,1},{73562,73647,0},{73648,73648,1},{73649,73663,0},{73664,73713,1},{73714,73726,0},{73727,74649,1},{74650,74751,0},{74752,74862,1},{74863,74863,0},{74864,74868,1},{74869,74879,0},{74880,75075,1},{75076,77711,0},{77712,77810,1},{77811,77823,0},{77824,78933,1},{78934,82943,0},{82944,83526,1},{83527,92159,0},{92160,92728,1},{92729,92735,0},{92736,92766,1},{92767,92767,0},{92768,92777,1},{92778,92781,0},{92782,92862,1},{92863,92863,0},{92864,92873,1},{92874,92879,0},{92880,92909,1},{92910,92911,0},{92912,92917,1},{92918,92927,0},{92928,92997,1},{92998,93007,0},{93008,93017,1},{93018,93018,0},{93019,93025,1},{93026,93026,0},{93027,93047,1},{93048,93052,0},{93053,93071,1},{93072,93759,0},{93760,93850,1},{93851,93951,0},{93952,94026,1},{94027,94030,0},{94031,94087,1},{94088,94094,0},{94095,94111,1},{94112,94175,0},{94176,94180,1},{94181,94191,0},{94192,94193,1},{94194,94207,0},{94208,100343,1},{100344,100351,0},{100352,101589,1},{101590,101631,0},{101632,101640,1},{101641,110575,0},{110576,110579,1},{110580,110580,0},{110581,110587,1},{110588,110588,0},{110589,110590,1},{110591,110591,0},{110592,110882,1},{110883,110897,0},{110898,110898,1},{110899,110927,0},{110928,110930,1},{110931,110932,0},{110933,110933,1},{110934,110947,0},{110948,110951,1},{110952,110959,0},{110960,111355,1},{111356,113663,0},{113664,113770,1},{113771,113775,0},{113776,113788,1},{113789,113791,0},{113792,113800,1},{113801,113807,0},{113808,113817,1},{113818,113819,0},{113820,113827,1},{113828,118527,0},{118528,118573,1},{118574,118575,0},{118576,118598,1},{118599,118607,0},{118608,118723,1},{118724,118783,0},{118784,119029,1},{119030,119039,0},{119040,119078,1},{119079,119080,0},{119081,119274,1},{119275,119295,0},{119296,119365,1},{119366,119487,0},{119488,119507,1},{119508,119519,0},{119520,119539,1},{119540,119551,0},{119552,119638,1},{119639,119647,0},{119648,119672,1},{119673,119807,0},{119808,119892,1},{119893,119893,0},{119894,119964,1},{119965,119965,0},{119966,119967,1},{119968,119969,0},{119970,119970,1},{119971,119972,0},{119973,119974,1},{119975,119976,0},{119977,119980,1},{119981,119981,0},{119982,119993,1},{119994,119994,0},{119995,119995,1},{119996,119996,0},{119997,120003,1},{120004,120004,0},{120005,120069,1},{120070,120070,0},{120071,120074,1},{120075,120076,0},{120077,120084,1},{120085,120085,0},{120086,120092,1},{120093,120093,0},{120094,120121,1},{120122,120122,0},{120123,120126,1},{120127,120127,0},{120128,120132,1},{120133,120133,0},{120134,120134,1},{120135,120137,0},{120138,120144,1},{120145,120145,0},{120146,120485,1},{120486,120487,0},{120488,120779,1},{120780,120781,0},{120782,121483,1},{121484,121498,0},{121499,121503,1},{121504,121504,0},{121505,121519,1},{121520,122623,0},{122624,122654,1},{122655,122660,0},{122661,122666,1},{122667,122879,0},{122880,122886,1},{122887,122887,0},{122888,122904,1},{122905,122906,0},{122907,122913,1},{122914,122914,0},{122915,122916,1},{122917,122917,0},{122918,122922,1},{122923,122927,0},{122928,122989,1},{122990,123022,0},{123023,123023,1},{123024,123135,0},{123136,123180,1},{123181,123183,0},{123184,123197,1},{123198,123199,0},{123200,123209,1},{123210,123213,0},{123214,123215,1},{123216,123535,0},{123536,123566,1},{123567,123583,0},{123584,123641,1},{123642,123646,0},{123647,123647,1},{123648,124111,0},{124112,124153,1},{124154,124895,0},{124896,124902,1},{124903,124903,0},{124904,124907,1},{124908,124908,0},{124909,124910,1},{124911,124911,0},{124912,124926,1},{124927,124927,0},{124928,125124,1},{125125,125126,0},{125127,125142,1},{125143,125183,0},{125184,125259,1},{125260,125263,0},{125264,125273,1},{125274,125277,0},{125278,125279,1},{125280,126064,0},{126065,126132,1},{126133,126208,0},{126209,126269,1},{126270,126463,0},{126464,126467,1},{126468,126468,0},{126469,126495,1},{126496,126496,0},{126497,126498,1},{126499,126499,0},{126500,126500,1},{126501,126502,0},{126503,126503,1},{126504,126504,0},{126505,126514,1},{126515,126515,0},{126516,126519,1},{126520,126520,0},{126521,126521,1},{126522,126522,0},{126523,126523,1},{126524,126529,0},{126530,126530,1},{126531,126534,0},{126535,126535,1},{126536,126536,0},{126537,126537,1},{126538,126538,0},{126539,126539,1},{126540,126540,0},{126541,126543,1},{126544,126544,0},{126545,126546,1},{126547,126547,0},{126548,126548,1},{126549,126550,0},{126551,126551,1},{126552,126552,0},{126553,126553,1},{126554,126554,0},{126555,126555,1},{126556,126556,0},{126557,126557,1},{126558,126558,0},{126559,126559,1},{126560,126560,0},{126561,126562,1},{126563,126563,0},{126564,126564,1},{126565,126566,0},{126567,126570,1},{126571,126571,0},{126572,126578,1},{126579,126579,0},{126580,126583,1},{126584,126584,0},{126585,126588,1},{126589,126589,0},{126590,126590,1},{126591,126591,0},{126592,126601,1},{126602,126602,0},{126603,126619,1},{126620,126624,0},{126625,126627,1},{126628,126628,0},{126629,126633,1},{126634,126634,0},{126635,126651,1},{126652,126703,0},{126704,126705,1},{126706,126975,0},{126976,127019,1},{127020,127023,0},{127024,127123,1},{127124,127135,0},{127136,127150,1},{127151,127152,0},{127153,127167,1},{127168,127168,0},{127169,127183,1},{127184,127184,0},{127185,127221,1},{127222,127231,0},{127232,127405,1},{127406,127461,0},{127462,127490,1},{127491,127503,0},{127504,127547,1},{127548,127551,0},{127552,127560,1},{127561,127567,0},{127568,127569,1},{127570,127583,0},{127584,127589,1},{127590,127743,0},{127744,128727,1},{128728,128731,0},{128732,128748,1},{128749,128751,0},{128752,128764,1},{128765,128767,0},{128768,128886,1},{128887,128890,0},{128891,128985,1},{128986,128991,0},{128992,129003,1},{129004,129007,0},{129008,129008,1},{129009,129023,0},{129024,129035,1},{129036,129039,0},{129040,129095,1},{129096,129103,0},{129104,129113,1},{129114,129119,0},{129120,129159,1},{129160,129167,0},{129168,129197,1},{129198,129199,0},{129200,129201,1},{129202,129279,0},{129280,129619,1},{129620,129631,0},{129632,129645,1},{129646,129647,0},{129648,129660,1},{129661,129663,0},{129664,129672,1},{129673,129679,0},{129680,129725,1},{129726,129726,0},{129727,129733,1},{129734,129741,0},{129742,129755,1},{129756,129759,0},{129760,129768,1},{129769,129775,0},{129776,129784,1},{129785,129791,0},{129792,129938,1},{129939,129939,0},{129940,129994,1},{129995,130031,0},{130032,130041,1},{130042,131071,0},{131072,173791,1},{173792,173823,0},{173824,177977,1},{177978,177983,0},{177984,178205,1},{178206,178207,0},{178208,183969,1},{183970,183983,0},{183984,191456,1},{191457,194559,0},{194560,195101,1},{195102,196607,0},{196608,201546,1},{201547,201551,0},{201552,205743,1},{205744,917504,0},{917505,917505,1},{917506,917535,0},{917536,917631,1},{917632,917759,0},{917760,917999,1},{918000,983039,0},{983040,1048573,1},{1048574,1048575,0},{1048576,1114109,1},{1114110,1114111,0}};
inline constexpr Run is_print[] = {{0,31,0},{32,126,1},{127,159,0},{160,887,1},{888,889,0},{890,895,1},{896,899,0},{900,906,1},{907,907,0},{908,908,1},{909,909,0},{910,929,1},{930,930,0},{931,1327,1},{1328,1328,0},{1329,1366,1},{1367,1368,0},{1369,1418,1},{1419,1420,0},{1421,1423,1},{1424,1424,0},{1425,1479,1},{1480,1487,0},{1488,1514,1},{1515,1518,0},{1519,1524,1},{1525,1535,0},{1536,1805,1},{1806,1806,0},{1807,1866,1},{1867,1868,0},{1869,1969,1},{1970,1983,0},{1984,2042,1},{2043,2044,0},{2045,2093,1},{2094,2095,0},{2096,2110,1},{2111,2111,0},{2112,2139,1},{2140,2141,0},{2142,2142,1},{2143,2143,0},{2144,2154,1},{2155,2159,0},{2160,2190,1},{2191,2191,0},{2192,2193,1},{2194,2199,0},{2200,2435,1},{2436,2436,0},{2437,2444,1},{2445,2446,0},{2447,2448,1},{2449,2450,0},{2451,2472,1},{2473,2473,0},{2474,2480,1},{2481,2481,0},{2482,2482,1},{2483,2485,0},{2486,2489,1},{2490,2491,0},{2492,2500,1},{2501,2502,0},{2503,2504,1},{2505,2506,0},{2507,2510,1},{2511,2518,0},{2519,2519,1},{2520,2523,0},{2524,2525,1},{2526,2526,0},{2527,2531,1},{2532,2533,0},{2534,2558,1},{2559,2560,0},{2561,2563,1},{2564,2564,0},{2565,2570,1},{2571,2574,0},{2575,2576,1},{2577,2578,0},{2579,2600,1},{2601,2601,0},{2602,2608,1},{2609,2609,0},{2610,2611,1},{2612,2612,0},{2613,2614,1},{2615,2615,0},{2616,2617,1},{2618,2619,0},{2620,2620,1},{2621,2621,0},{2622,2626,1},{2627,2630,0},{2631,2632,1},{2633,2634,0},{2635,2637,1},{2638,2640,0},{2641,2641,1},{2642,2648,0},{2649,2652,1},{2653,2653,0},{2654,2654,1},{2655,2661,0},{2662,2678,1},{2679,2688,0},{2689,2691,1},{2692,2692,0},{2693,2701,1},{2702,2702,0},{2703,2705,1},{2706,2706,0},{2707,2728,1},{2729,2729,0},{2730,2736,1},{2737,2737,0},{2738,2739,1},{2740,2740,0},{2741,2745,1},{2746,2747,0},{2748,2757,1},{2758,2758,0},{2759,2761,1},{2762,2762,0},{2763,2765,1},{2766,2767,0},{2768,2768,1},{2769,2783,0},{2784,2787,1},{2788,2789,0},{2790,2801,1},{2802,2808,0},{2809,2815,1},{2816,2816,0},{2817,2819,1},{2820,2820,0},{2821,2828,1},{2829,2830,0},{2831,2832,1},{2833,2834,0},{2835,2856,1},{2857,2857,0},{2858,2864,1},{2865,2865,0},{2866,2867,1},{2868,2868,0},{2869,2873,1},{2874,2875,0},{2876,2884,1},{2885,2886,0},{2887,2888,1},{2889,2890,0},{2891,2893,1},{2894,2900,0},{2901,2903,1},{2904,2907,0},{2908,2909,1},{2910,2910,0},{2911,2915,1},{2916,2917,0},{2918,2935,1},{2936,2945,0},{2946,2947,1},{2948,2948,0},{2949,2954,1},{2955,2957,0},{2958,2960,1},{2961,2961,0},{2962,2965,1},{2966,2968,0},{2969,2970,1},{2971,2971,0},{2972,2972,1},{2973,2973,0},{2974,2975,1},{2976,2978,0},{2979,2980,1},{2981,2983,0},{2984,2986,1},{2987,2989,0},{2990,3001,1},{3002,3005,0},{3006,3010,1},{3011,3013,0},{3014,3016,1},{3017,3017,0},{3018,3021,1},{3022,3023,0},{3024,3024,1},{3025,3030,0},{3031,3031,1},{3032,3045,0},{3046,3066,1},{3067,3071,0},{3072,3084,1},{3085,3085,0},{3086,3088,1},{3089,3089,0},{3090,3112,1},{3113,3113,0},{3114,3129,1},{3130,3131,0},{3132,3140,1},{3141,3141,0},{3142,3144,1},{3145,3145,0},{3146,3149,1},{3150,3156,0},{3157,3158,1},{3159,3159,0},{3160,3162,1},{3163,3164,0},{3165,3165,1},{3166,3167,0},{3168,3171,1},{3172,3173,0},{3174,3183,1},{3184,3190,0},{3191,3212,1},{3213,3213,0},{3214,3216,1},{3217,3217,0},{3218,3240,1},{3241,3241,0},{3242,3251,1},{3252,3252,0},{3253,3257,1},{3258,3259,0},{3260,3268,1},{3269,3269,0},{3270,3272,1},{3273,3273,0},{3274,3277,1},{3278,3284,0},{3285,3286,1},{3287,3292,0},{3293,3294,1},{3295,3295,0},{3296,3299,1},{3300,3301,0},{3302,3311,1},{3312,3312,0},{3313,3315,1},{3316,3327,0},{3328,3340,1},{3341,3341,0},{3342,3344,1},{3345,3345,0},{3346,3396,1},{3397,3397,0},{3398,3400,1},{3401,3401,0},{3402,3407,1},{3408,3411,0},{3412,3427,1},{3428,3429,0},{3430,3455,1},{3456,3456,0},{3457,3459,1},{3460,3460,0},{3461,3478,1},{3479,3481,0},{3482,3505,1},{3506,3506,0},{3507,3515,1},{3516,3516,0},{3517,3517,1},{3518,3519,0},{3520,3526,1},{3527,3529,0},{3530,3530,1},{3531,3534,0},{3535,3540,1},{3541,3541,0},{3542,3542,1},{3543,3543,0},{3544,3551,1},{3552,3557,0},{3558,3567,1},{3568,3569,0},{3570,3572,1},{3573,3584,0},{3585,3642,1},{3643,3646,0},{3647,3675,1},{3676,3712,0},{3713,3714,1},{3715,3715,0},{3716,3716,1},{3717,3717,0},{3718,3722,1},{3723,3723,0},{3724,3747,1},{3748,3748,0},{3749,3749,1},{3750,3750,0},{3751,3773,1},{3774,3775,0},{3776,3780,1},{3781,3781,0},{3782,3782,1},{3783,3783,0},{3784,3790,1},{3791,3791,0},{3792,3801,1},{3802,3803,0},{3804,3807,1},{3808,3839,0},{3840,3911,1},{3912,3912,0},{3913,3948,1},{3949,3952,0},{3953,3991,1},{3992,3992,0},{3993,4028,1},{4029,4029,0},{4030,4044,1},{4045,4045,0},{4046,4058,1},{4059,4095,0},{4096,4293,1},{4294,4294,0},{4295,4295,1},{4296,4300,0},{4301,4301,1},{4302,4303,0},{4304,4680,1},{4681,4681,0},{4682,4685,1},{4686,4687,0},{4688,4694,1},{4695,4695,0},{4696,4696,1},{4697,4697,0},{4698,4701,1},{4702,4703,0},{4704,4744,1},{4745,4745,0},{4746,4749,1},{4750,4751,0},{4752,4784,1},{4785,4785,0},{4786,4789,1},{4790,4791,0},{4792,4798,1},{4799,4799,0},{4800,4800,1},{4801,4801,0},{4802,4805,1},{4806,4807,0},{4808,4822,1},{4823,4823,0},{4824,4880,1},{4881,4881,0},{4882,4885,1},{4886,4887,0},{4888,4954,1},{4955,4956,0},{4957,4988,1},{4989,4991,0},{4992,5017,1},{5018,5023,0},{5024,5109,1},{5110,5111,0},{5112,5117,1},{5118,5119,0},{5120,5788,1},{5789,5791,0},{5792,5880,1},{5881,5887,0},{5888,5909,1},{5910,5918,0},{5919,5942,1},{5943,5951,0},{5952,5971,1},{5972,5983,0},{5984,5996,1},{5997,5997,0},{5998,6000,1},{6001,6001,0},{6002,6003,1},{6004,6015,0},{6016,6109,1},{6110,6111,0},{6112,6121,1},{6122,6127,0},{6128,6137,1},{6138,6143,0},{6144,6169,1},{6170,6175,0},{6176,6264,1},{6265,6271,0},{6272,6314,1},{6315,6319,0},{6320,6389,1},{6390,6399,0},{6400,6430,1},{6431,6431,0},{6432,6443,1},{6444,6447,0},{6448,6459,1},{6460,6463,0},{6464,6464,1},{6465,6467,0},{6468,6509,1},{6510,6511,0},{6512,6516,1},{6517,6527,0},{6528,6571,1},{6572,6575,0},{6576,6601,1},{6602,6607,0},{6608,6618,1},{6619,6621,0},{6622,6683,1},{6684,6685,0},{6686,6750,1},{6751,6751,0},{6752,6780,1},{6781,6782,0},{6783,6793,1},{6794,6799,0},{6800,6809,1},{6810,6815,0},{6816,6829,1},{6830,6831,0},{6832,6862,1},{6863,6911,0},{6912,6988,1},{6989,6991,0},{6992,7038,1},{7039,7039,0},{7040,7155,1},{7156,7163,0},{7164,7223,1},{7224,7226,0},{7227,7241,1},{7242,7244,0},{7245,7304,1},{7305,7311,0},{7312,7354,1},{7355,7356,0},{7357,7367,1},{7368,7375,0},{7376,7418,1},{7419,7423,0},{7424,7957,1},{7958,7959,0},{7960,7965,1},{7966,7967,0},{7968,8005,1},{8006,8007,0},{8008,8013,1},{8014,8015,0},{8016,8023,1},{8024,8024,0},{8025,8025,1},{8026,8026,0},{8027,8027,1},{8028,8028,0},{8029,8029,1},{8030,8030,0},{8031,8061,1},{8062,8063,0},{8064,8116,1},{8117,8117,0},{8118,8132,1},{8133,8133,0},{8134,8147,1},{8148,8149,0},{8150,8155,1},{8156,8156,0},{8157,8175,1},{8176,8177,0},{8178,8180,1},{8181,8181,0},{8182,8190,1},{8191,8191,0},{8192,8231,1},{8232,8233,0},{8234,8292,1},{8293,8293,0},{8294,8305,1},{8306,8307,0},{8308,8334,1},{8335,8335,0},{8336,8348,1},{8349,8351,0},{8352,8384,1},{8385,8399,0},{8400,8432,1},{8433,8447,0},{8448,8587,1},{8588,8591,0},{8592,9254,1},{9255,9279,0},{9280,9290,1},{9291,9311,0},{9312,11123,1},{11124,11125,0},{11126,11157,1},{11158,11158,0},{11159,11507,1},{11508,11512,0},{11513,11557,1},{11558,11558,0},{11559,11559,1},{11560,11564,0},{11565,11565,1},{11566,11567,0},{11568,11623,1},{11624,11630,0},{11631,11632,1},{11633,11646,0},{11647,11670,1},{11671,11679,0},{11680,11686,1},{11687,11687,0},{11688,11694,1},{11695,11695,0},{11696,11702,1},{11703,11703,0},{11704,11710,1},{11711,11711,0},{11712,11718,1},{11719,11719,0},{11720,11726,1},{11727,11727,0},{11728,11734,1},{11735,11735,0},{11736,11742,1},{11743,11743,0},{11744,11869,1},{11870,11903,0},{11904,11929,1},{11930,11930,0},{11931,12019,1},{12020,12031,0},{12032,12245,1},{12246,12271,0},{12272,12283,1},{12284,12287,0},{12288,12351,1},{12352,12352,0},{12353,12438,1},{12439,12440,0},{12441,12543,1},{12544,12548,0},{12549,12591,1},{12592,12592,0},{12593,12686,1},{12687,12687,0},{12688,12771,1},{12772,12783,0},{12784,12830,1},{12831,12831,0},{12832,42124,1},{42125,42127,0},{42128,42182,1},{42183,42191,0},{42192,42539,1},{42540,42559,0},{42560,42743,1},{42744,42751,0},{42752,42954,1},{42955,42959,0},{42960,42961,1},{42962,42962,0},{42963,42963,1},{42964,42964,0},{42965,42969,1},{42970,42993,0},{42994,43052,1},{43053,43055,0},{43056,43065,1},{43066,43071,0},{43072,43127,1},{43128,43135,0},{43136,43205,1},{43206,43213,0},{43214,43225,1},{43226,43231,0},{43232,43347,1},{43348,43358,0},{43359,43388,1},{43389,43391,0},{43392,43469,1},{43470,43470,0},{43471,43481,1},{43482,43485,0},{43486,43518,1},{43519,43519,0},{43520,43574,1},{43575,43583,0},{43584,43597,1},{43598,43599,0},{43600,43609,1},{43610,43611,0},{43612,43714,1},{43715,43738,0},{43739,43766,1},{43767,43776,0},{43777,43782,1},{43783,43784,0},{43785,43790,1},{43791,43792,0},{43793,43798,1},{43799,43807,0},{43808,43814,1},{43815,43815,0},{43816,43822,1},{43823,43823,0},{43824,43883,1},{43884,43887,0},{43888,44013,1},{44014,44015,0},{44016,44025,1},{44026,44031,0},{44032,55203,1},{55204,55215,0},{55216,55238,1},{55239,55242,0},{55243,55291,1},{55292,57343,0},{57344,64109,1},{64110,64111,0},{64112,64217,1},{64218,64255,0},{64256,64262,1},{64263,64274,0},{64275,64279,1},{64280,64284,0},{64285,64310,1},{64311,64311,0},{64312,64316,1},{64317,64317,0},{64318,64318,1},{64319,64319,0},{64320,64321,1},{64322,64322,0},{64323,64324,1},{64325,64325,0},{64326,64450,1},{64451,64466,0},{64467,64911,1},{64912,64913,0},{64914,64967,1},{64968,64974,0},{64975,64975,1},{64976,65007,0},{65008,65049,1},{65050,65055,0},{65056,65106,1},{65107,65107,0},{65108,65126,1},{65127,65127,0},{65128,65131,1},{65132,65135,0},{65136,65140,1},{65141,65141,0},{65142,65276,1},{65277,65278,0},{65279,65279,1},{65280,65280,0},{65281,65470,1},{65471,65473,0},{65474,65479,1},{65480,65481,0},{65482,65487,1},{65488,65489,0},{65490,65495,1},{65496,65497,0},{65498,65500,1},{65501,65503,0},{65504,65510,1},{65511,65511,0},{65512,65518,1},{65519,65528,0},{65529,65533,1},{65534,65535,0},{65536,65547,1},{65548,65548,0},{65549,65574,1},{65575,65575,0},{65576,65594,1},{65595,65595,0},{65596,65597,1},{65598,65598,0},{65599,65613,1},{65614,65615,0},{65616,65629,1},{65630,65663,0},{65664,65786,1},{65787,65791,0},{65792,65794,1},{65795,65798,0},{65799,65843,1},{65844,65846,0},{65847,65934,1},{65935,65935,0},{65936,65948,1},{65949,65951,0},{65952,65952,1},{65953,65999,0},{66000,66045,1},{66046,66175,0},{66176,66204,1},{66205,66207,0},{66208,66256,1},{66257,66271,0},{66272,66299,1},{66300,66303,0},{66304,66339,1},{66340,66348,0},{66349,66378,1},{66379,66383,0},{66384,66426,1},{66427,66431,0},{66432,66461,1},{66462,66462,0},{66463,66499,1},{66500,66503,0},{66504,66517,1},{66518,66559,0},{66560,66717,1},{66718,66719,0},{66720,66729,1},{66730,66735,0},{66736,66771,1},{66772,66775,0},{66776,66811,1},{66812,66815,0},{66816,66855,1},{66856,66863,0},{66864,66915,1},{66916,66926,0},{66927,66938,1},{66939,66939,0},{66940,66954,1},{66955,66955,0},{66956,66962,1},{66963,66963,0},{66964,66965,1},{66966,66966,0},{66967,66977,1},{66978,66978,0},{66979,66993,1},{66994,66994,0},{66995,67001,1},{67002,67002,0},{67003,67004,1},{67005,67071,0},{67072,67382,1},{67383,67391,0},{67392,67413,1},{67414,67423,0},{67424,67431,1},{67432,67455,0},{67456,67461,1},{67462,67462,0},{67463,67504,1},{67505,67505,0},{67506,67514,1},{67515,67583,0},{67584,67589,1},{67590,67591,0},{67592,67592,1},{67593,67593,0},{67594,67637,1},{67638,67638,0},{67639,67640,1},{67641,67643,0},{67644,67644,1},{67645,67646,0},{67647,67669,1},{67670,67670,0},{67671,67742,1},{67743,67750,0},{67751,67759,1},{67760,67807,0},{67808,67826,1},{67827,67827,0},{67828,67829,1},{67830,67834,0},{67835,67867,1},{67868,67870,0},{67871,67897,1},{67898,67902,0},{67903,67903,1},{67904,67967,0},{67968,68023,1},{68024,68027,0},{68028,68047,1},{68048,68049,0},{68050,68099,1},{68100,68100,0},{68101,68102,1},{68103,68107,0},{68108,68115,1},{68116,68116,0},{68117,68119,1},{68120,68120,0},{68121,68149,1},{68150,68151,0},{68152,68154,1},{68155,68158,0},{68159,68168,1},{68169,68175,0},{68176,68184,1},{68185,68191,0},{68192,68255,1},{68256,68287,0},{68288,68326,1},{68327,68330,0},{68331,68342,1},{68343,68351,0},{68352,68405,1},{68406,68408,0},{68409,68437,1},{68438,68439,0},{68440,68466,1},{68467,68471,0},{68472,68497,1},{68498,68504,0},{68505,68508,1},{68509,68520,0},{68521,68527,1},{68528,68607,0},{68608,68680,1},{68681,68735,0},{68736,68786,1},{68787,68799,0},{68800,68850,1},{68851,68857,0},{68858,68903,1},{68904,68911,0},{68912,68921,1},{68922,69215,0},{69216,69246,1},{69247,69247,0},{69248,69289,1},{69290,69290,0},{69291,69293,1},{69294,69295,0},{69296,69297,1},{69298,69372,0},{69373,69415,1},{69416,69423,0},{69424,69465,1},{69466,69487,0},{69488,69513,1},{69514,69551,0},{69552,69579,1},{69580,69599,0},{69600,69622,1},{69623,69631,0},{69632,69709,1},{69710,69713,0},{69714,69749,1},{69750,69758,0},{69759,69826,1},{69827,69836,0},{69837,69837,1},{69838,69839,0},{69840,69864,1},{69865,69871,0},{69872,69881,1},{69882,69887,0},{69888,69940,1},{69941,69941,0},{69942,69959,1},{69960,69967,0},{69968,70006,1},{70007,70015,0},{70016,70111,1},{70112,70112,0},{70113,70132,1},{70133,70143,0},{70144,70161,1},{70162,70162,0},{70163,70209,1},{70210,70271,0},{70272,70278,1},{70279,70279,0},{70280,70280,1},{70281,70281,0},{70282,70285,1},{70286,70286,0},{70287,70301,1},{70302,70302,0},{70303,70313,1},{70314,70319,0},{70320,70378,1},{70379,70383,0},{70384,70393,1},{70394,70399,0},{70400,70403,1},{70404,70404,0},{70405,70412,1},{70413,70414,0},{70415,70416,1},{70417,70418,0},{70419,70440,1},{70441,70441,0},{70442,70448,1},{70449,70449,0},{70450,70451,1},{70452,70452,0},{70453,70457,1},{70458,70458,0},{70459,70468,1},{70469,70470,0},{70471,70472,1},{70473,70474,0},{70475,70477,1},{70478,70479,0},{70480,70480,1},{70481,70486,0},{70487,70487,1},{70488,70492,0},{70493,70499,1},{70500,70501,0},{70502,70508,1},{70509,70511,0},{70512,70516,1},{70517,70655,0},{70656,70747,1},{70748,70748,0},{70749,70753,1},{70754,70783,0},{70784,70855,1},{70856,70863,0},{70864,70873,1},{70874,71039,0},{71040,71093,1},{71094,71095,0},{71096,71133,1},{71134,71167,0},{71168,71236,1},{71237,71247,0},{71248,71257,1},{71258,71263,0},{71264,71276,1},{71277,71295,0},{71296,71353,1},{71354,71359,0},{71360,71369,1},{71370,71423,0},{71424,71450,1},{71451,71452,0},{71453,71467,1},{71468,71471,0},{71472,71494,1},{71495,71679,0},{71680,71739,1},{71740,71839,0},{71840,71922,1},{71923,71934,0},{71935,71942,1},{71943,71944,0},{71945,71945,1},{71946,71947,0},{71948,71955,1},{71956,71956,0},{71957,71958,1},{71959,71959,0},{71960,71989,1},{71990,71990,0},{71991,71992,1},{71993,71994,0},{71995,72006,1},{72007,72015,0},{72016,72025,1},{72026,72095,0},{72096,72103,1},{72104,72105,0},{72106,72151,1},{72152,72153,0},{72154,72164,1},{72165,72191,0},{72192,72263,1},{72264,72271,0},{72272,72354,1},{72355,72367,0},{72368,72440,1},{72441,72447,0},{72448,72457,1},{72458,72703,0},{72704,72712,1},{72713,72713,0},{72714,72758,1},{72759,72759,0},{72760,72773,1},{72774,72783,0},{72784,72812,1},{72813,72815,0},{72816,72847,1},{72848,72849,0},{72850,72871,1},{72872,72872,0},{72873,72886,1},{72887,72959,0},{72960,72966,1},{72967,72967,0},{72968,72969,1},{72970,72970,0},{72971,73014,1},{73015,73017,0},{73018,73018,1},{73019,73019,0},{73020,73021,1},{73022,73022,0},{73023,73031,1},{73032,73039,0},{73040,73049,1},{73050,73055,0},{73056,73061,1},{73062,73062,0},{73063,73064,1},{73065,73065,0},{73066,73102,1},{73103,73103,0},{73104,73105,1},{73106,73106,0},{73107,73112,1},{73113,73119,0},{73120,73129,1},{73130,73439,0},{73440,73464,1},{73465,73471,0},{73472,73488,1},{73489,73489,0},{73490,73530,1},{73531,73533,0},{73534,73561,1},{73562,73647,0},{73648,73648,1},{73649,73663,0},{73664,73713,1},{73714,73726,0},{73727,74649,1},{74650,74751,0},{74752,74862,1},{74863,74863,0},{74864,74868,1},{74869,74879,0},{74880,75075,1},{75076,77711,0},{77712,77810,1},{77811,77823,0},{77824,78933,1},{78934,82943,0},{82944,83526,1},{83527,92159,0},{92160,92728,1},{92729,92735,0},{92736,92766,1},{92767,92767,0},{92768,92777,1},{92778,92781,0},{92782,92862,1},{92863,92863,0},{92864,92873,1},{92874,92879,0},{92880,92909,1},{92910,92911,0},{92912,92917,1},{92918,92927,0},{92928,92997,1},{92998,93007,0},{93008,93017,1},{93018,93018,0},{93019,93025,1},{93026,93026,0},{93027,93047,1},{93048,93052,0},{93053,93071,1},{93072,93759,0},{93760,93850,1},{93851,93951,0},{93952,94026,1},{94027,94030,0},{94031,94087,1},{94088,94094,0},{94095,94111,1},{94112,94175,0},{94176,94180,1},{94181,94191,0},{94192,94193,1},{94194,94207,0},{94208,100343,1},{100344,100351,0},{100352,101589,1},{101590,101631,0},{101632,101640,1},{101641,110575,0},{110576,110579,1},{110580,110580,0},{110581,110587,1},{110588,110588,0},{110589,110590,1},{110591,110591,0},{110592,110882,1},{110883,110897,0},{110898,110898,1},{110899,110927,0},{110928,110930,1},{110931,110932,0},{110933,110933,1},{110934,110947,0},{110948,110951,1},{110952,110959,0},{110960,111355,1},{111356,113663,0},{113664,113770,1},{113771,113775,0},{113776,113788,1},{113789,113791,0},{113792,113800,1},{113801,113807,0},{113808,113817,1},{113818,113819,0},{113820,113827,1},{113828,118527,0},{118528,118573,1},{118574,118575,0},{118576,118598,1},{118599,118607,0},{118608,118723,1},{118724,118783,0},{118784,119029,1},{119030,119039,0},{119040,119078,1},{119079,119080,0},{119081,119274,1},{119275,119295,0},{119296,119365,1},{119366,119487,0},{119488,119507,1},{119508,119519,0},{119520,119539,1},{119540,119551,0},{119552,119638,1},{119639,119647,0},{119648,119672,1},{119673,119807,0},{119808,119892,1},{119893,119893,0},{119894,119964,1},{119965,119965,0},{119966,119967,1},{119968,119969,0},{119970,119970,1},{119971,119972,0},{119973,119974,1},{119975,119976,0},{119977,119980,1},{119981,119981,0},{119982,119993,1},{119994,119994,0},{119995,119995,1},{119996,119996,0},{119997,120003,1},{120004,120004,0},{120005,120069,1},{120070,120070,0},{120071,120074,1},{120075,120076,0},{120077,120084,1},{120085,120085,0},{120086,120092,1},{120093,120093,0},{120094,120121,1},{120122,120122,0},{120123,120126,1},{120127,120127,0},{120128,120132,1},{120133,120133,0},{120134,120134,1},{120135,120137,0},{120138,120144,1},{120145,120145,0},{120146,120485,1},{120486,120487,0},{120488,120779,1},{120780,120781,0},{120782,121483,1},{121484,121498,0},{121499,121503,1},{121504,121504,0},{121505,121519,1},{121520,122623,0},{122624,122654,1},{122655,122660,0},{122661,122666,1},{122667,122879,0},{122880,122886,1},{122887,122887,0},{122888,122904,1},{122905,122906,0},{122907,122913,1},{122914,122914,0},{122915,122916,1},{122917,122917,0},{122918,122922,1},{122923,122927,0},{122928,122989,1},{122990,123022,0},{123023,123023,1},{123024,123135,0},{123136,123180,1},{123181,123183,0},{123184,123197,1},{123198,123199,0},{123200,123209,1},{123210,123213,0},{123214,123215,1},{123216,123535,0},{123536,123566,1},{123567,123583,0},{123584,123641,1},{123642,123646,0},{123647,123647,1},{123648,124111,0},{124112,124153,1},{124154,124895,0},{124896,124902,1},{124903,124903,0},{124904,124907,1},{124908,124908,0},{124909,124910,1},{124911,124911,0},{124912,124926,1},{124927,124927,0},{124928,125124,1},{125125,125126,0},{125127,125142,1},{125143,125183,0},{125184,125259,1},{125260,125263,0},{125264,125273,1},{125274,125277,0},{125278,125279,1},{125280,126064,0},{126065,126132,1},{126133,126208,0},{126209,126269,1},{126270,126463,0},{126464,126467,1},{126468,126468,0},{126469,126495,1},{126496,126496,0},{126497,126498,1},{126499,126499,0},{126500,126500,1},{126501,126502,0},{126503,126503,1},{126504,126504,0},{126505,126514,1},{126515,126515,0},{126516,126519,1},{126520,126520,0},{126521,126521,1},{126522,126522,0},{126523,126523,1},{126524,126529,0},{126530,126530,1},{126531,126534,0},{126535,126535,1},{126536,126536,0},{126537,126537,1},{126538,126538,0},{126539,126539,1},{126540,126540,0},{126541,126543,1},{126544,126544,0},{126545,126546,1},{126547,126547,0},{126548,126548,1},{126549,126550,0},{126551,126551,1},{126552,126552,0},{126553,126553,1},{126554,126554,0},{126555,126555,1},{126556,126556,0},{126557,126557,1},{126558,126558,0},{126559,126559,1},{126560,126560,0},{126561,126562,1},{126563,126563,0},{126564,126564,1},{126565,126566,0},{126567,126570,1},{126571,126571,0},{126572,126578,1},{126579,126579,0},{126580,126583,1},{126584,126584,0},{126585,126588,1},{126589,126589,0},{126590,126590,1},{126591,126591,0},{126592,126601,1},{126602,126602,0},{126603,126619,1},{126620,126624,0},{126625,126627,1},{126628,126628,0},{126629,126633,1},{126634,126634,0},{126635,126651,1},{126652,126703,0},{126704,126705,1},{126706,126975,0},{126976,127019,1},{127020,127023,0},{127024,127123,1},{127124,127135,0},{127136,127150,1},{127151,127152,0},{127153,127167,1},{127168,127168,0},{127169,127183,1},{127184,127184,0},{127185,127221,1},{127222,127231,0},{127232,127405,1},{127406,127461,0},{127462,127490,1},{127491,127503,0},{127504,127547,1},{127548,127551,0},{127552,127560,1},{127561,127567,0},{127568,127569,1},{127570,127583,0},{127584,127589,1},{127590,127743,0},{127744,128727,1},{128728,128731,0},{128732,128748,1},{128749,128751,0},{128752,128764,1},{128765,128767,0},{128768,128886,1},{128887,128890,0},{128891,128985,1},{128986,128991,0},{128992,129003,1},{129004,129007,0},{129008,129008,1},{129009,129023,0},{129024,129035,1},{129036,129039,0},{129040,129095,1},{129096,129103,0},{129104,129113,1},{129114,129119,0},{129120,129159,1},{129160,129167,0},{129168,129197,1},{129198,129199,0},{129200,129201,1},{129202,129279,0},{129280,129619,1},{129620,129631,0},{129632,129645,1},{129646,129647,0},{129648,129660,1},{129661,129663,0},{129664,129672,1},{129673,129679,0},{129680,129725,1},{129726,129726,0},{129727,129733,1},{129734,129741,0},{129742,129755,1},{129756,129759,0},{129760,129768,1},{129769,129775,0},{129776,129784,1},{129785,129791,0},{129792,129938,1},{129939,129939,0},{129940,129994,1},{129995,130031,0},{130032,130041,1},{130042,131071,0},{131072,173791,1},{173792,173823,0},{173824,177977,1},{177978,177983,0},{177984,178205,1},{178206,178207,0},{178208,183969,1},{183970,183983,0},{183984,191456,1},{191457,194559,0},{194560,195101,1},{195102,196607,0},{196608,201546,1},{201547,201551,0},{201552,205743,1},{205744,917504,0},{917505,917505,1},{917506,917535,0},{917536,917631,1},{917632,917759,0},{917760,917999,1},{918000,983039,0},{983040,1048573,1},{1048574,1048575,0},{1048576,1114109,1},{1114110,1114111,0}};
inline constexpr Run is_character[] = {{0,887,1},{888,889,0},{890,895,1},{896,899,0},{900,906,1},{907,907,0},{908,908,1},{909,909,0},{910,929,1},{930,930,0},{931,1327,1},{1328,1328,0},{1329,1366,1},{1367,1368,0},{1369,1418,1},{1419,1420,0},{1421,1423,1},{1424,1424,0},{1425,1479,1},{1480,1487,0},{1488,1514,1},{1515,1518,0},{1519,1524,1},{1525,1535,0},{1536,1805,1},{1806,1806,0},{1807,1866,1},{1867,1868,0},{1869,1969,1},{1970,1983,0},{1984,2042,1},{2043,2044,0},{2045,2093,1},{2094,2095,0},{2096,2110,1},{2111,2111,0},{2112,2139,1},{2140,2141,0},{2142,2142,1},{2143,2143,0},{2144,2154,1},{2155,2159,0},{2160,2190,1},{2191,2191,0},{2192,2193,1},{2194,2199,0},{2200,2435,1},{2436,2436,0},{2437,2444,1},{2445,2446,0},{2447,2448,1},{2449,2450,0},{2451,2472,1},{2473,2473,0},{2474,2480,1},{2481,2481,0},{2482,2482,1},{2483,2485,0},{2486,2489,1},{2490,2491,0},{2492,2500,1},{2501,2502,0},{2503,2504,1},{2505,2506,0},{2507,2510,1},{2511,2518,0},{2519,2519,1},{2520,2523,0},{2524,2525,1},{2526,2526,0},{2527,2531,1},{2532,2533,0},{2534,2558,1},{2559,2560,0},{2561,2563,1},{2564,2564,0},{2565,2570,1},{2571,2574,0},{2575,2576,1},{2577,2578,0},{2579,2600,1},{2601,2601,0},{2602,2608,1},{2609,2609,0},{2610,2611,1},{2612,2612,0},{2613,2614,1},{2615,2615,0},{2616,2617,1},{2618,2619,0},{2620,2620,1},{2621,2621,0},{2622,2626,1},{2627,2630,0},{2631,2632,1},{2633,2634,0},{2635,2637,1},{2638,2640,0},{2641,2641,1},{2642,2648,0},{2649,2652,1},{2653,2653,0},{2654,2654,1},{2655,2661,0},{2662,2678,1},{2679,2688,0},{2689,2691,1},{2692,2692,0},{2693,2701,1},{2702,2702,0},{2703,2705,1},{2706,2706,0},{2707,2728,1},{2729,2729,0},{2730,2736,1},{2737,2737,0},{2738,2739,1},{2740,2740,0},{2741,2745,1},{2746,2747,0},{2748,2757,1},{2758,2758,0},{2759,2761,1},{2762,2762,0},{2763,2765,1},{2766,2767,0},{2768,2768,1},{2769,2783,0},{2784,2787,1},{2788,2789,0},{2790,2801,1},{2802,2808,0},{2809,2815,1},{2816,2816,0},{2817,2819,1},{2820,2820,0},{2821,2828,1},{2829,2830,0},{2831,2832,1},{2833,2834,0},{2835,2856,1},{2857,2857,0},{2858,2864,1},{2865,2865,0},{2866,2867,1},{2868,2868,0},{2869,2873,1},{2874,2875,0},{2876,2884,1},{2885,2886,0},{2887,2888,1},{2889,2890,0},{2891,2893,1},{2894,2900,0},{2901,2903,1},{2904,2907,0},{2908,2909,1},{2910,2910,0},{2911,2915,1},{2916,2917,0},{2918,2935,1},{2936,2945,0},{2946,2947,1},{2948,2948,0},{2949,2954,1},{2955,2957,0},{2958,2960,1},{2961,2961,0},{2962,2965,1},{2966,2968,0},{2969,2970,1},{2971,2971,0},{2972,2972,1},{2973,2973,0},{2974,2975,1},{2976,2978,0},{2979,2980,1},{2981,2983,0},{2984,2986,1},{2987,2989,0},{2990,3001,1},{3002,3005,0},{3006,3010,1},{3011,3013,0},{3014,3016,1},{3017,3017,0},{3018,3021,1},{3022,3023,0},{3024,3024,1},{3025,3030,0},{3031,3031,1},{3032,3045,0},{3046,3066,1},{3067,3071,0},{3072,3084,1},{3085,3085,0},{3086,3088,1},{3089,3089,0},{3090,3112,1},{3113,3113,0},{3114,3129,1},{3130,3131,0},{3132,3140,1},{3141,3141,0},{3142,3144,1},{3145,3145,0},{3146,3149,1},{3150,3156,0},{3157,3158,1},{3159,3159,0},{3160,3162,1},{3163,3164,0},{3165,3165,1},{3166,3167,0},{3168,3171,1},{3172,3173,0},{3174,3183,1},{3184,3190,0},{3191,3212,1},{3213,3213,0},{3214,3216,1},{3217,3217,0},{3218,3240,1},{3241,3241,0},{3242,3251,1},{3252,3252,0},{3253,3257,1},{3258,3259,0},{3260,3268,1},{3269,3269,0},{3270,3272,1},{3273,3273,0},{3274,3277,1},{3278,3284,0},{3285,3286,1},{3287,3292,0},{3293,3294,1},{3295,3295,0},{3296,3299,1},{3300,3301,0},{3302,3311,1},{3312,3312,0},{3313,3315,1},{3316,3327,0},{3328,3340,1},{3341,3341,0},{3342,3344,1},{3345,3345,0},{3346,3396,1},{3397,3397,0},{3398,3400,1},{3401,3401,0},{3402,3407,1},{3408,3411,0},{3412,3427,1},{3428,3429,0},{3430,3455,1},{3456,3456,0},{3457,3459,1},{3460,3460,0},{3461,3478,1},{3479,3481,0},{3482,3505,1},{3506,3506,0},{3507,3515,1},{3516,3516,0},{3517,3517,1},{3518,3519,0},{3520,3526,1},{3527,3529,0},{3530,3530,1},{3531,3534,0},{3535,3540,1},{3541,3541,0},{3542,3542,1},{3543,3543,0},{3544,3551,1},{3552,3557,0},{3558,3567,1},{3568,3569,0},{3570,3572,1},{3573,3584,0},{3585,3642,1},{3643,3646,0},{3647,3675,1},{3676,3712,0},{3713,3714,1},{3715,3715,0},{3716,3716,1},{3717,3717,0},{3718,3722,1},{3723,3723,0},{3724,3747,1},{3748,3748,0},{3749,3749,1},{3750,3750,0},{3751,3773,1},{3774,3775,0},{3776,3780,1},{3781,3781,0},{3782,3782,1},{3783,3783,0},{3784,3790,1},{3791,3791,0},{3792,3801,1},{3802,3803,0},{3804,3807,1},{3808,3839,0},{3840,3911,1},{3912,3912,0},{3913,3948,1},{3949,3952,0},{3953,3991,1},{3992,3992,0},{3993,4028,1},{4029,4029,0},{4030,4044,1},{4045,4045,0},{4046,4058,1},{4059,4095,0},{4096,4293,1},{4294,4294,0},{4295,4295,1},{4296,4300,0},{4301,4301,1},{4302,4303,0},{4304,4680,1},{4681,4681,0},{4682,4685,1},{4686,4687,0},{4688,4694,1},{4695,4695,0},{4696,4696,1},{4697,4697,0},{4698,4701,1},{4702,4703,0},{4704,4744,1},{4745,4745,0},{4746,4749,1},{4750,4751,0},{4752,4784,1},{4785,4785,0},{4786,4789,1},{4790,4791,0},{4792,4798,1},{4799,4799,0},{4800,4800,1},{4801,4801,0},{4802,4805,1},{4806,4807,0},{4808,4822,1},{4823,4823,0},{4824,4880,1},{4881,4881,0},{4882,4885,1},{4886,4887,0},{4888,4954,1},{4955,4956,0},{4957,4988,1},{4989,4991,0},{4992,5017,1},{5018,5023,0},{5024,5109,1},{5110,5111,0},{5112,5117,1},{5118,5119,0},{5120,5788,1},{5789,5791,0},{5792,5880,1},{5881,5887,0},{5888,5909,1},{5910,5918,0},{5919,5942,1},{5943,5951,0},{5952,5971,1},{5972,5983,0},{5984,5996,1},{5997,5997,0},{5998,6000,1},{6001,6001,0},{6002,6003,1},{6004,6015,0},{6016,6109,1},{6110,6111,0},{6112,6121,1},{6122,6127,0},{6128,6137,1},{6138,6143,0},{6144,6169,1},{6170,6175,0},{6176,6264,1},{6265,6271,0},{6272,6314,1},{6315,6319,0},{6320,6389,1},{6390,6399,0},{6400,6430,1},{6431,6431,0},{6432,6443,1},{6444,6447,0},{6448,6459,1},{6460,6463,0},{6464,6464,1},{6465,6467,0},{6468,6509,1},{6510,6511,0},{6512,6516,1},{6517,6527,0},{6528,6571,1},{6572,6575,0},{6576,6601,1},{6602,6607,0},{6608,6618,1},{6619,6621,0},{6622,6683,1},{6684,6685,0},{6686,6750,1},{6751,6751,0},{6752,6780,1},{6781,6782,0},{6783,6793,1},{6794,6799,0},{6800,6809,1},{6810,6815,0},{6816,6829,1},{6830,6831,0},{6832,6862,1},{6863,6911,0},{6912,6988,1},{6989,6991,0},{6992,7038,1},{7039,7039,0},{7040,7155,1},{7156,7163,0},{7164,7223,1},{7224,7226,0},{7227,7241,1},{7242,7244,0},{7245,7304,1},{7305,7311,0},{7312,7354,1},{7355,7356,0},{7357,7367,1},{7368,7375,0},{7376,7418,1},{7419,7423,0},{7424,7957,1},{7958,7959,0},{7960,7965,1},{7966,7967,0},{7968,8005,1},{8006,8007,0},{8008,8013,1},{8014,8015,0},{8016,8023,1},{8024,8024,0},{8025,8025,1},{8026,8026,0},{8027,8027,1},{8028,8028,0},{8029,8029,1},{8030,8030,0},{8031,8061,1},{8062,8063,0},{8064,8116,1},{8117,8117,0},{8118,8132,1},{8133,8133,0},{8134,8147,1},{8148,8149,0},{8150,8155,1},{8156,8156,0},{8157,8175,1},{8176,8177,0},{8178,8180,1},{8181,8181,0},{8182,8190,1},{8191,8191,0},{8192,8292,1},{8293,8293,0},{8294,8305,1},{8306,8307,0},{8308,8334,1},{8335,8335,0},{8336,8348,1},{8349,8351,0},{8352,8384,1},{8385,8399,0},{8400,8432,1},{8433,8447,0},{8448,8587,1},{8588,8591,0},{8592,9254,1},{9255,9279,0},{9280,9290,1},{9291,9311,0},{9312,11123,1},{11124,11125,0},{11126,11157,1},{11158,11158,0},{11159,11507,1},{11508,11512,0},{11513,11557,1},{11558,11558,0},{11559,11559,1},{11560,11564,0},{11565,11565,1},{11566,11567,0},{11568,11623,1},{11624,11630,0},{11631,11632,1},{11633,11646,0},{11647,11670,1},{11671,11679,0},{11680,11686,1},{11687,11687,0},{11688,11694,1},{11695,11695,0},{11696,11702,1},{11703,11703,0},{11704,11710,1},{11711,11711,0},{11712,11718,1},{11719,11719,0},{11720,11726,1},{11727,11727,0},{11728,11734,1},{11735,11735,0},{11736,11742,1},{11743,11743,0},{11744,11869,1},{11870,11903,0},{11904,11929,1},{11930,11930,0},{11931,12019,1},{12020,12031,0},{12032,12245,1},{12246,12271,0},{12272,12283,1},{12284,12287,0},{12288,12351,1},{12352,12352,0},{12353,12438,1},{12439,12440,0},{12441,12543,1},{12544,12548,0},{12549,12591,1},{12592,12592,0},{12593,12686,1},{12687,12687,0},{12688,12771,1},{12772,12783,0},{12784,12830,1},{12831,12831,0},{12832,42124,1},{42125,42127,0},{42128,42182,1},{42183,42191,0},{42192,42539,1},{42540,42559,0},{42560,42743,1},{42744,42751,0},{42752,42954,1},{42955,42959,0},{42960,42961,1},{42962,42962,0},{42963,42963,1},{42964,42964,0},{42965,42969,1},{42970,42993,0},{42994,43052,1},{43053,43055,0},{43056,43065,1},{43066,43071,0},{43072,43127,1},{43128,43135,0},{43136,43205,1},{43206,43213,0},{43214,43225,1},{43226,43231,0},{43232,43347,1},{43348,43358,0},{43359,43388,1},{43389,43391,0},{43392,43469,1},{43470,43470,0},{43471,43481,1},{43482,43485,0},{43486,43518,1},{43519,43519,0},{43520,43574,1},{43575,43583,0},{43584,43597,1},{43598,43599,0},{43600,43609,1},{43610,43611,0},{43612,43714,1},{43715,43738,0},{43739,43766,1},{43767,43776,0},{43777,43782,1},{43783,43784,0},{43785,43790,1},{43791,43792,0},{43793,43798,1},{43799,43807,0},{43808,43814,1},{43815,43815,0},{43816,43822,1},{43823,43823,0},{43824,43883,1},{43884,43887,0},{43888,44013,1},{44014,44015,0},{44016,44025,1},{44026,44031,0},{44032,55203,1},{55204,55215,0},{55216,55238,1},{55239,55242,0},{55243,55291,1},{55292,55295,0},{55296,64109,1},{64110,64111,0},{64112,64217,1},{64218,64255,0},{64256,64262,1},{64263,64274,0},{64275,64279,1},{64280,64284,0},{64285,64310,1},{64311,64311,0},{64312,64316,1},{64317,64317,0},{64318,64318,1},{64319,64319,0},{64320,64321,1},{64322,64322,0},{64323,64324,1},{64325,64325,0},{64326,64450,1},{64451,64466,0},{64467,64911,1},{64912,64913,0},{64914,64967,1},{64968,64974,0},{64975,64975,1},{64976,65007,0},{65008,65049,1},{65050,65055,0},{65056,65106,1},{65107,65107,0},{65108,65126,1},{65127,65127,0},{65128,65131,1},{65132,65135,0},{65136,65140,1},{65141,65141,0},{65142,65276,1},{65277,65278,0},{65279,65279,1},{65280,65280,0},{65281,65470,1},{65471,65473,0},{65474,65479,1},{65480,65481,0},{65482,65487,1},{65488,65489,0},{65490,65495,1},{65496,65497,0},{65498,65500,1},{65501,65503,0},{65504,65510,1},{65511,65511,0},{65512,65518,1},{65519,65528,0},{65529,65533,1},{65534,65535,0},{65536,65547,1},{65548,65548,0},{65549,65574,1},{65575,65575,0},{65576,65594,1},{65595,65595,0},{65596,65597,1},{65598,65598,0},{65599,65613,1},{65614,65615,0},{65616,65629,1},{65630,65663,0},{65664,65786,1},{65787,65791,0},{65792,65794,1},{65795,65798,0},{65799,65843,1},{65844,65846,0},{65847,65934,1},{65935,65935,0},{65936,65948,1},{65949,65951,0},{65952,65952,1},{65953,65999,0},{66000,66045,1},{66046,66175,0},{66176,66204,1},{66205,66207,0},{66208,66256,1},{66257,66271,0},{66272,66299,1},{66300,66303,0},{66304,66339,1},{66340,66348,0},{66349,66378,1},{66379,66383,0},{66384,66426,1},{66427,66431,0},{66432,66461,1},{66462,66462,0},{66463,66499,1},{66500,66503,0},{66504,66517,1},{66518,66559,0},{66560,66717,1},{66718,66719,0},{66720,66729,1},{66730,66735,0},{66736,66771,1},{66772,66775,0},{66776,66811,1},{66812,66815,0},{66816,66855,1},{66856,66863,0},{66864,66915,1},{66916,66926,0},{66927,66938,1},{66939,66939,0},{66940,66954,1},{66955,66955,0},{66956,66962,1},{66963,66963,0},{66964,66965,1},{66966,66966,0},{66967,66977,1},{66978,66978,0},{66979,66993,1},{66994,66994,0},{66995,67001,1},{67002,67002,0},{67003,67004,1},{67005,67071,0},{67072,67382,1},{67383,67391,0},{67392,67413,1},{67414,67423,0},{67424,67431,1},{67432,67455,0},{67456,67461,1},{67462,67462,0},{67463,67504,1},{67505,67505,0},{67506,67514,1},{67515,67583,0},{67584,67589,1},{67590,67591,0},{67592,67592,1},{67593,67593,0},{67594,67637,1},{67638,67638,0},{67639,67640,1},{67641,67643,0},{67644,67644,1},{67645,67646,0},{67647,67669,1},{67670,67670,0},{67671,67742,1},{67743,67750,0},{67751,67759,1},{67760,67807,0},{67808,67826,1},{67827,67827,0},{67828,67829,1},{67830,67834,0},{67835,67867,1},{67868,67870,0},{67871,67897,1},{67898,67902,0},{67903,67903,1},{67904,67967,0},{67968,68023,1},{68024,68027,0},{68028,68047,1},{68048,68049,0},{68050,68099,1},{68100,68100,0},{68101,68102,1},{68103,68107,0},{68108,68115,1},{68116,68116,0},{68117,68119,1},{68120,68120,0},{68121,68149,1},{68150,68151,0},{68152,68154,1},{68155,68158,0},{68159,68168,1},{68169,68175,0},{68176,68184,1},{68185,68191,0},{68192,68255,1},{68256,68287,0},{68288,68326,1},{68327,68330,0},{68331,68342,1},{68343,68351,0},{68352,68405,1},{68406,68408,0},{68409,68437,1},{68438,68439,0},{68440,68466,1},{68467,68471,0},{68472,68497,1},{68498,68504,0},{68505,68508,1},{68509,68520,0},{68521,68527,1},{68528,68607,0},{68608,68680,1},{68681,68735,0},{68736,68786,1},{68787,68799,0},{68800,68850,1},{68851,68857,0},{68858,68903,1},{68904,68911,0},{68912,68921,1},{68922,69215,0},{69216,69246,1},{69247,69247,0},{69248,69289,1},{69290,69290,0},{69291,69293,1},{69294,69295,0},{69296,69297,1},{69298,69372,0},{69373,69415,1},{69416,69423,0},{69424,69465,1},{69466,69487,0},{69488,69513,1},{69514,69551,0},{69552,69579,1},{69580,69599,0},{69600,69622,1},{69623,69631,0},{69632,69709,1},{69710,69713,0},{69714,69749,1},{69750,69758,0},{69759,69826,1},{69827,69836,0},{69837,69837,1},{69838,69839,0},{69840,69864,1},{69865,69871,0},{69872,69881,1},{69882,69887,0},{69888,69940,1},{69941,69941,0},{69942,69959,1},{69960,69967,0},{69968,70006,1},{70007,70015,0},{70016,70111,1},{70112,70112,0},{70113,70132,1},{70133,70143,0},{70144,70161,1},{70162,70162,0},{70163,70209,1},{70210,70271,0},{70272,70278,1},{70279,70279,0},{70280,70280,1},{70281,70281,0},{70282,70285,1},{70286,70286,0},{70287,70301,1},{70302,70302,0},{70303,70313,1},{70314,70319,0},{70320,70378,1},{70379,70383,0},{70384,70393,1},{70394,70399,0},{70400,70403,1},{70404,70404,0},{70405,70412,1},{70413,70414,0},{70415,70416,1},{70417,70418,0},{70419,70440,1},{70441,70441,0},{70442,70448,1},{70449,70449,0},{70450,70451,1},{70452,70452,0},{70453,70457,1},{70458,70458,0},{70459,70468,1},{70469,70470,0},{70471,70472,1},{70473,70474,0},{70475,70477,1},{70478,70479,0},{70480,70480,1},{70481,70486,0},{70487,70487,1},{70488,70492,0},{70493,70499,1},{70500,70501,0},{70502,70508,1},{70509,70511,0},{70512,70516,1},{70517,70655,0},{70656,70747,1},{70748,70748,0},{70749,70753,1},{70754,70783,0},{70784,70855,1},{70856,70863,0},{70864,70873,1},{70874,71039,0},{71040,71093,1},{71094,71095,0},{71096,71133,1},{71134,71167,0},{71168,71236,1},{71237,71247,0},{71248,71257,1},{71258,71263,0},{71264,71276,1},{71277,71295,0},{71296,71353,1},{71354,71359,0},{71360,71369,1},{71370,71423,0},{71424,71450,1},{71451,71452,0},{71453,71467,1},{71468,71471,0},{71472,71494,1},{71495,71679,0},{71680,71739,1},{71740,71839,0},{71840,71922,1},{71923,71934,0},{71935,71942,1},{71943,71944,0},{71945,71945,1},{71946,71947,0},{71948,71955,1},{71956,71956,0},{71957,71958,1},{71959,71959,0},{71960,71989,1},{71990,71990,0},{71991,71992,1},{71993,71994,0},{71995,72006,1},{72007,72015,0},{72016,72025,1},{72026,72095,0},{72096,72103,1},{72104,72105,0},{72106,72151,1},{72152,72153,0},{72154,72164,1},{72165,72191,0},{72192,72263,1},{72264,72271,0},{72272,72354,1},{72355,72367,0},{72368,72440,1},{72441,72447,0},{72448,72457,1},{72458,72703,0},{72704,72712,1},{72713,72713,0},{72714,72758,1},{72759,72759,0},{72760,72773,1},{72774,72783,0},{72784,72812,1},{72813,72815,0},{72816,72847,1},{72848,72849,0},{72850,72871,1},{72872,72872,0},{72873,72886,1},{72887,72959,0},{72960,72966,1},{72967,72967,0},{72968,72969,1},{72970,72970,0},{72971,73014,1},{73015,73017,0},{73018,73018,1},{73019,73019,0},{73020,73021,1},{73022,73022,0},{73023,73031,1},{73032,73039,0},{73040,73049,1},{73050,73055,0},{73056,73061,1},{73062,73062,0},{73063,73064,1},{73065,73065,0},{73066,73102,1},{73103,73103,0},{73104,73105,1},{73106,73106,0},{73107,73112,1},{73113,73119,0},{73120,73129,1},{73130,73439,0},{73440,73464,1},{73465,73471,0},{73472,73488,1},{73489,73489,0},{73490,73530,1},{73531,73533,0},{73534,73561,1},{73562,73647,0},{73648,73648,1},{73649,73663,0},{73664,73713,1},{73714,73726,0},{73727,74649,1},{74650,74751,0},{74752,74862,1},{74863,74863,0},{74864,74868,1},{74869,74879,0},{74880,75075,1},{75076,77711,0},{77712,77810,1},{77811,77823,0},{77824,78933,1},{78934,82943,0},{82944,83526,1},{83527,92159,0},{92160,92728,1},{92729,92735,0},{92736,92766,1},{92767,92767,0},{92768,92777,1},{92778,92781,0},{92782,92862,1},{92863,92863,0},{92864,92873,1},{92874,92879,0},{92880,92909,1},{92910,92911,0},{92912,92917,1},{92918,92927,0},{92928,92997,1},{92998,93007,0},{93008,93017,1},{93018,93018,0},{93019,93025,1},{93026,93026,0},{93027,93047,1},{93048,93052,0},{93053,93071,1},{93072,93759,0},{93760,93850,1},{93851,93951,0},{93952,94026,1},{94027,94030,0},{94031,94087,1},{94088,94094,0},{94095,94111,1},{94112,94175,0},{94176,94180,1},{94181,94191,0},{94192,94193,1},{94194,94207,0},{94208,100343,1},{100344,100351,0},{100352,101589,1},{101590,101631,0},{101632,101640,1},{101641,110575,0},{110576,110579,1},{110580,110580,0},{110581,110587,1},{110588,110588,0},{110589,110590,1},{110591,110591,0},{110592,110882,1},{110883,110897,0},{110898,110898,1},{110899,110927,0},{110928,110930,1},{110931,110932,0},{110933,110933,1},{110934,110947,0},{110948,110951,1},{110952,110959,0},{110960,111355,1},{111356,113663,0},{113664,113770,1},{113771,113775,0},{113776,113788,1},{113789,113791,0},{113792,113800,1},{113801,113807,0},{113808,113817,1},{113818,113819,0},{113820,113827,1},{113828,118527,0},{118528,118573,1},{118574,118575,0},{118576,118598,1},{118599,118607,0},{118608,118723,1},{118724,118783,0},{118784,119029,1},{119030,119039,0},{119040,119078,1},{119079,119080,0},{119081,119274,1},{119275,119295,0},{119296,119365,1},{119366,119487,0},{119488,119507,1},{119508,119519,0},{119520,119539,1},{119540,119551,0},{119552,119638,1},{119639,119647,0},{119648,119672,1},{119673,119807,0},{119808,119892,1},{119893,119893,0},{119894,119964,1},{119965,119965,0},{119966,119967,1},{119968,119969,0},{119970,119970,1},{119971,119972,0},{119973,119974,1},{119975,119976,0},{119977,119980,1},{119981,119981,0},{119982,119993,1},{119994,119994,0},{119995,119995,1},{119996,119996,0},{119997,120003,1},{120004,120004,0},{120005,120069,1},{120070,120070,0},{120071,120074,1},{120075,120076,0},{120077,120084,1},{120085,120085,0},{120086,120092,1},{120093,120093,0},{120094,120121,1},{120122,120122,0},{120123,120126,1},{120127,120127,0},{120128,120132,1},{120133,120133,0},{120134,120134,1},{120135,120137,0},{120138,120144,1},{120145,120145,0},{120146,120485,1},{120486,120487,0},{120488,120779,1},{120780,120781,0},{120782,121483,1},{121484,121498,0},{121499,121503,1},{121504,121504,0},{121505,121519,1},{121520,122623,0},{122624,122654,1},{122655,122660,0},{122661,122666,1},{122667,122879,0},{122880,122886,1},{122887,122887,0},{122888,122904,1},{122905,122906,0},{122907,122913,1},{122914,122914,0},{122915,122916,1},{122917,122917,0},{122918,122922,1},{122923,122927,0},{122928,122989,1},{122990,123022,0},{123023,123023,1},{123024,123135,0},{123136,123180,1},{123181,123183,0},{123184,123197,1},{123198,123199,0},{123200,123209,1},{123210,123213,0},{123214,123215,1},{123216,123535,0},{123536,123566,1},{123567,123583,0},{123584,123641,1},{123642,123646,0},{123647,123647,1},{123648,124111,0},{124112,124153,1},{124154,124895,0},{124896,124902,1},{124903,124903,0},{124904,124907,1},{124908,124908,0},{124909,124910,1},{124911,124911,0},{124912,124926,1},{124927,124927,0},{124928,125124,1},{125125,125126,0},{125127,125142,1},{125143,125183,0},{125184,125259,1},{125260,125263,0},{125264,125273,1},{125274,125277,0},{125278,125279,1},{125280,126064,0},{126065,126132,1},{126133,126208,0},{126209,126269,1},{126270,126463,0},{126464,126467,1},{126468,126468,0},{126469,126495,1},{126496,126496,0},{126497,126498,1},{126499,126499,0},{126500,126500,1},{126501,126502,0},{126503,126503,1},{126504,126504,0},{126505,126514,1},{126515,126515,0},{126516,126519,1},{126520,126520,0},{126521,126521,1},{126522,126522,0},{126523,126523,1},{126524,126529,0},{126530,126530,1},{126531,126534,0},{126535,126535,1},{126536,126536,0},{126537,126537,1},{126538,126538,0},{126539,126539,1},{126540,126540,0},{126541,126543,1},{126544,126544,0},{126545,126546,1},{126547,126547,0},{126548,126548,1},{126549,126550,0},{126551,126551,1},{126552,126552,0},{126553,126553,1},{126554,126554,0},{126555,126555,1},{126556,126556,0},{126557,126557,1},{126558,126558,0},{126559,126559,1},{126560,126560,0},{126561,126562,1},{126563,126563,0},{126564,126564,1},{126565,126566,0},{126567,126570,1},{126571,126571,0},{126572,126578,1},{126579,126579,0},{126580,126583,1},{126584,126584,0},{126585,126588,1},{126589,126589,0},{126590,126590,1},{126591,126591,0},{126592,126601,1},{126602,126602,0},{126603,126619,1},{126620,126624,0},{126625,126627,1},{126628,126628,0},{126629,126633,1},{126634,126634,0},{126635,126651,1},{126652,126703,0},{126704,126705,1},{126706,126975,0},{126976,127019,1},{127020,127023,0},{127024,127123,1},{127124,127135,0},{127136,127150,1},{127151,127152,0},{127153,127167,1},{127168,127168,0},{127169,127183,1},{127184,127184,0},{127185,127221,1},{127222,127231,0},{127232,127405,1},{127406,127461,0},{127462,127490,1},{127491,127503,0},{127504,127547,1},{127548,127551,0},{127552,127560,1},{127561,127567,0},{127568,127569,1},{127570,127583,0},{127584,127589,1},{127590,127743,0},{127744,128727,1},{128728,128731,0},{128732,128748,1},{128749,128751,0},{128752,128764,1},{128765,128767,0},{128768,128886,1},{128887,128890,0},{128891,128985,1},{128986,128991,0},{128992,129003,1},{129004,129007,0},{129008,129008,1},{129009,129023,0},{129024,129035,1},{129036,129039,0},{129040,129095,1},{129096,129103,0},{129104,129113,1},{129114,129119,0},{129120,129159,1},{129160,129167,0},{129168,129197,1},{129198,129199,0},{129200,129201,1},{129202,129279,0},{129280,129619,1},{129620,129631,0},{129632,129645,1},{129646,129647,0},{129648,129660,1},{129661,129663,0},{129664,129672,1},{129673,129679,0},{129680,129725,1},{129726,129726,0},{129727,129733,1},{129734,129741,0},{129742,129755,1},{129756,129759,0},{129760,129768,1},{129769,129775,0},{129776,129784,1},{129785,129791,0},{129792,129938,1},{129939,129939,0},{129940,129994,1},{129995,130031,0},{130032,130041,1},{130042,131071,0},{131072,173791,1},{173792,173823,0},{173824,177977,1},{177978,177983,0},{177984,178205,1},{178206,178207,0},{178208,183969,1},{183970,183983,0},{183984,191456,1},{191457,194559,0},{194560,195101,1},{195102,196607,0},{196608,201546,1},{201547,201551,0},{201552,205743,1},{205744,917504,0},{917505,917505,1},{917506,917535,0},{917536,917631,1},{917632,917759,0},{917760,917999,1},{918000,983039,0},{983040,1048573,1},{1048574,1048575,0},{1048576,1114109,1},{1114110,1114111,0}};
inline constexpr Run is_xid_start[] = {{0,64,0},{65,90,1},{91,96,0},{97,122,1},{123,169,0},{170,170,1},{171,180,0},{181,181,1},{182,185,0},{186,186,1},{187,191,0},{192,214,1},{215,215,0},{216,246,1},{247,247,0},{248,705,1},{706,709,0},{710,721,1},{722,735,0},{736,740,1},{741,747,0},{748,748,1},{749,749,0},{750,750,1},{751,879,0},{880,884,1},{885,885,0},{886,887,1},{888,890,0},{891,893,1},{894,894,0},{895,895,1},{896,901,0},{902,902,1},{903,903,0},{904,906,1},{907,907,0},{908,908,1},{909,909,0},{910,929,1},{930,930,0},{931,1013,1},{1014,1014,0},{1015,1153,1},{1154,1161,0},{1162,1327,1},{1328,1328,0},{1329,1366,1},{1367,1368,0},{1369,1369,1},{1370,1375,0},{1376,1416,1},{1417,1487,0},{1488,1514,1},{1515,1518,0},{1519,1522,1},{1523,1567,0},{1568,1610,1},{1611,1645,0},{1646,1647,1},{1648,1648,0},{1649,1747,1},{1748,1748,0},{1749,1749,1},{1750,1764,0},{1765,1766,1},{1767,1773,0},{1774,1775,1},{1776,1785,0},{1786,1788,1},{1789,1790,0},{1791,1791,1},{1792,1807,0},{1808,1808,1},{1809,1809,0},{1810,1839,1},{1840,1868,0},{1869,1957,1},{1958,1968,0},{1969,1969,1},{1970,1993,0},{1994,2026,1},{2027,2035,0},{2036,2037,1},{2038,2041,0},{2042,2042,1},{2043,2047,0},{2048,2069,1},{2070,2073,0},{2074,2074,1},{2075,2083,0},{2084,2084,1},{2085,2087,0},{2088,2088,1},{2089,2111,0},{2112,2136,1},{2137,2143,0},{2144,2154,1},{2155,2159,0},{2160,2183,1},{2184,2184,0},{2185,2190,1},{2191,2207,0},{2208,2249,1},{2250,2307,0},{2308,2361,1},{2362,2364,0},{2365,2365,1},{2366,2383,0},{2384,2384,1},{2385,2391,0},{2392,2401,1},{2402,2416,0},{2417,2432,1},{2433,2436,0},{2437,2444,1},{2445,2446,0},{2447,2448,1},{2449,2450,0},{2451,2472,1},{2473,2473,0},{2474,2480,1},{2481,2481,0},{2482,2482,1},{2483,2485,0},{2486,2489,1},{2490,2492,0},{2493,2493,1},{2494,2509,0},{2510,2510,1},{2511,2523,0},{2524,2525,1},{2526,2526,0},{2527,2529,1},{2530,2543,0},{2544,2545,1},{2546,2555,0},{2556,2556,1},{2557,2564,0},{2565,2570,1},{2571,2574,0},{2575,2576,1},{2577,2578,0},{2579,2600,1},{2601,2601,0},{2602,2608,1},{2609,2609,0},{2610,2611,1},{2612,2612,0},{2613,2614,1},{2615,2615,0},{2616,2617,1},{2618,2648,0},{2649,2652,1},{2653,2653,0},{2654,2654,1},{2655,2673,0},{2674,2676,1},{2677,2692,0},{2693,2701,1},{2702,2702,0},{2703,2705,1},{2706,2706,0},{2707,2728,1},{2729,2729,0},{2730,2736,1},{2737,2737,0},{2738,2739,1},{2740,2740,0},{2741,2745,1},{2746,2748,0},{2749,2749,1},{2750,2767,0},{2768,2768,1},{2769,2783,0},{2784,2785,1},{2786,2808,0},{2809,2809,1},{2810,2820,0},{2821,2828,1},{2829,2830,0},{2831,2832,1},{2833,2834,0},{2835,2856,1},{2857,2857,0},{2858,2864,1},{2865,2865,0},{2866,2867,1},{2868,2868,0},{2869,2873,1},{2874,2876,0},{2877,2877,1},{2878,2907,0},{2908,2909,1},{2910,2910,0},{2911,2913,1},{2914,2928,0},{2929,2929,1},{2930,2946,0},{2947,2947,1},{2948,2948,0},{2949,2954,1},{2955,2957,0},{2958,2960,1},{2961,2961,0},{2962,2965,1},{2966,2968,0},{2969,2970,1},{2971,2971,0},{2972,2972,1},{2973,2973,0},{2974,2975,1},{2976,2978,0},{2979,2980,1},{2981,2983,0},{2984,2986,1},{2987,2989,0},{2990,3001,1},{3002,3023,0},{3024,3024,1},{3025,3076,0},{3077,3084,1},{3085,3085,0},{3086,3088,1},{3089,3089,0},{3090,3112,1},{3113,3113,0},{3114,3129,1},{3130,3132,0},{3133,3133,1},{3134,3159,0},{3160,3162,1},{3163,3164,0},{3165,3165,1},{3166,3167,0},{3168,3169,1},{3170,3199,0},{3200,3200,1},{3201,3204,0},{3205,3212,1},{3213,3213,0},{3214,3216,1},{3217,3217,0},{3218,3240,1},{3241,3241,0},{3242,3251,1},{3252,3252,0},{3253,3257,1},{3258,3260,0},{3261,3261,1},{3262,3292,0},{3293,3294,1},{3295,3295,0},{3296,3297,1},{3298,3312,0},{3313,3314,1},{3315,3331,0},{3332,3340,1},{3341,3341,0},{3342,3344,1},{3345,3345,0},{3346,3386,1},{3387,3388,0},{3389,3389,1},{3390,3405,0},{3406,3406,1},{3407,3411,0},{3412,3414,1},{3415,3422,0},{3423,3425,1},{3426,3449,0},{3450,3455,1},{3456,3460,0},{3461,3478,1},{3479,3481,0},{3482,3505,1},{3506,3506,0},{3507,3515,1},{3516,3516,0},{3517,3517,1},{3518,3519,0},{3520,3526,1},{3527,3584,0},{3585,3632,1},{3633,3633,0},{3634,3634,1},{3635,3647,0},{3648,3654,1},{3655,3712,0},{3713,3714,1},{3715,3715,0},{3716,3716,1},{3717,3717,0},{3718,3722,1},{3723,3723,0},{3724,3747,1},{3748,3748,0},{3749,3749,1},{3750,3750,0},{3751,3760,1},{3761,3761,0},{3762,3762,1},{3763,3772,0},{3773,3773,1},{3774,3775,0},{3776,3780,1},{3781,3781,0},{3782,3782,1},{3783,3803,0},{3804,3807,1},{3808,3839,0},{3840,3840,1},{3841,3903,0},{3904,3911,1},{3912,3912,0},{3913,3948,1},{3949,3975,0},{3976,3980,1},{3981,4095,0},{4096,4138,1},{4139,4158,0},{4159,4159,1},{4160,4175,0},{4176,4181,1},{4182,4185,0},{4186,4189,1},{4190,4192,0},{4193,4193,1},{4194,4196,0},{4197,4198,1},{4199,4205,0},{4206,4208,1},{4209,4212,0},{4213,4225,1},{4226,4237,0},{4238,4238,1},{4239,4255,0},{4256,4293,1},{4294,4294,0},{4295,4295,1},{4296,4300,0},{4301,4301,1},{4302,4303,0},{4304,4346,1},{4347,4347,0},{4348,4680,1},{4681,4681,0},{4682,4685,1},{4686,4687,0},{4688,4694,1},{4695,4695,0},{4696,4696,1},{4697,4697,0},{4698,4701,1},{4702,4703,0},{4704,4744,1},{4745,4745,0},{4746,4749,1},{4750,4751,0},{4752,4784,1},{4785,4785,0},{4786,4789,1},{4790,4791,0},{4792,4798,1},{4799,4799,0},{4800,4800,1},{4801,4801,0},{4802,4805,1},{4806,4807,0},{4808,4822,1},{4823,4823,0},{4824,4880,1},{4881,4881,0},{4882,4885,1},{4886,4887,0},{4888,4954,1},{4955,4991,0},{4992,5007,1},{5008,5023,0},{5024,5109,1},{5110,5111,0},{5112,5117,1},{5118,5120,0},{5121,5740,1},{5741,5742,0},{5743,5759,1},{5760,5760,0},{5761,5786,1},{5787,5791,0},{5792,5866,1},{5867,5869,0},{5870,5880,1},{5881,5887,0},{5888,5905,1},{5906,5918,0},{5919,5937,1},{5938,5951,0},{5952,5969,1},{5970,5983,0},{5984,5996,1},{5997,5997,0},{5998,6000,1},{6001,6015,0},{6016,6067,1},{6068,6102,0},{6103,6103,1},{6104,6107,0},{6108,6108,1},{6109,6175,0},{6176,6264,1},{6265,6271,0},{6272,6312,1},{6313,6313,0},{6314,6314,1},{6315,6319,0},{6320,6389,1},{6390,6399,0},{6400,6430,1},{6431,6479,0},{6480,6509,1},{6510,6511,0},{6512,6516,1},{6517,6527,0},{6528,6571,1},{6572,6575,0},{6576,6601,1},{6602,6655,0},{6656,6678,1},{6679,6687,0},{6688,6740,1},{6741,6822,0},{6823,6823,1},{6824,6916,0},{6917,6963,1},{6964,6980,0},{6981,6988,1},{6989,7042,0},{7043,7072,1},{7073,7085,0},{7086,7087,1},{7088,7097,0},{7098,7141,1},{7142,7167,0},{7168,7203,1},{7204,7244,0},{7245,7247,1},{7248,7257,0},{7258,7293,1},{7294,7295,0},{7296,7304,1},{7305,7311,0},{7312,7354,1},{7355,7356,0},{7357,7359,1},{7360,7400,0},{7401,7404,1},{7405,7405,0},{7406,7411,1},{7412,7412,0},{7413,7414,1},{7415,7417,0},{7418,7418,1},{7419,7423,0},{7424,7615,1},{7616,7679,0},{7680,7957,1},{7958,7959,0},{7960,7965,1},{7966,7967,0},{7968,8005,1},{8006,8007,0},{8008,8013,1},{8014,8015,0},{8016,8023,1},{8024,8024,0},{8025,8025,1},{8026,8026,0},{8027,8027,1},{8028,8028,0},{8029,8029,1},{8030,8030,0},{8031,8061,1},{8062,8063,0},{8064,8116,1},{8117,8117,0},{8118,8124,1},{8125,8125,0},{8126,8126,1},{8127,8129,0},{8130,8132,1},{8133,8133,0},{8134,8140,1},{8141,8143,0},{8144,8147,1},{8148,8149,0},{8150,8155,1},{8156,8159,0},{8160,8172,1},{8173,8177,0},{8178,8180,1},{8181,8181,0},{8182,8188,1},{8189,8304,0},{8305,8305,1},{8306,8318,0},{8319,8319,1},{8320,8335,0},{8336,8348,1},{8349,8449,0},{8450,8450,1},{8451,8454,0},{8455,8455,1},{8456,8457,0},{8458,8467,1},{8468,8468,0},{8469,8469,1},{8470,8471,0},{8472,8477,1},{8478,8483,0},{8484,8484,1},{8485,8485,0},{8486,8486,1},{8487,8487,0},{8488,8488,1},{8489,8489,0},{8490,8505,1},{8506,8507,0},{8508,8511,1},{8512,8516,0},{8517,8521,1},{8522,8525,0},{8526,8526,1},{8527,8543,0},{8544,8584,1},{8585,11263,0},{11264,11492,1},{11493,11498,0},{11499,11502,1},{11503,11505,0},{11506,11507,1},{11508,11519,0},{11520,11557,1},{11558,11558,0},{11559,11559,1},{11560,11564,0},{11565,11565,1},{11566,11567,0},{11568,11623,1},{11624,11630,0},{11631,11631,1},{11632,11647,0},{11648,11670,1},{11671,11679,0},{11680,11686,1},{11687,11687,0},{11688,11694,1},{11695,11695,0},{11696,11702,1},{11703,11703,0},{11704,11710,1},{11711,11711,0},{11712,11718,1},{11719,11719,0},{11720,11726,1},{11727,11727,0},{11728,11734,1},{11735,11735,0},{11736,11742,1},{11743,12292,0},{12293,12295,1},{12296,12320,0},{12321,12329,1},{12330,12336,0},{12337,12341,1},{12342,12343,0},{12344,12348,1},{12349,12352,0},{12353,12438,1},{12439,12444,0},{12445,12447,1},{12448,12448,0},{12449,12538,1},{12539,12539,0},{12540,12543,1},{12544,12548,0},{12549,12591,1},{12592,12592,0},{12593,12686,1},{12687,12703,0},{12704,12735,1},{12736,12783,0},{12784,12799,1},{12800,13311,0},{13312,19903,1},{19904,19967,0},{19968,42124,1},{42125,42191,0},{42192,42237,1},{42238,42239,0},{42240,42508,1},{42509,42511,0},{42512,42527,1},{42528,42537,0},{42538,42539,1},{42540,42559,0},{42560,42606,1},{42607,42622,0},{42623,42653,1},{42654,42655,0},{42656,42735,1},{42736,42774,0},{42775,42783,1},{42784,42785,0},{42786,42888,1},{42889,42890,0},{42891,42954,1},{42955,42959,0},{42960,42961,1},{42962,42962,0},{42963,42963,1},{42964,42964,0},{42965,42969,1},{42970,42993,0},{42994,43009,1},{43010,43010,0},{43011,43013,1},{43014,43014,0},{43015,43018,1},{43019,43019,0},{43020,43042,1},{43043,43071,0},{43072,43123,1},{43124,43137,0},{43138,43187,1},{43188,43249,0},{43250,43255,1},{43256,43258,0},{43259,43259,1},{43260,43260,0},{43261,43262,1},{43263,43273,0},{43274,43301,1},{43302,43311,0},{43312,43334,1},{43335,43359,0},{43360,43388,1},{43389,43395,0},{43396,43442,1},{43443,43470,0},{43471,43471,1},{43472,43487,0},{43488,43492,1},{43493,43493,0},{43494,43503,1},{43504,43513,0},{43514,43518,1},{43519,43519,0},{43520,43560,1},{43561,43583,0},{43584,43586,1},{43587,43587,0},{43588,43595,1},{43596,43615,0},{43616,43638,1},{43639,43641,0},{43642,43642,1},{43643,43645,0},{43646,43695,1},{43696,43696,0},{43697,43697,1},{43698,43700,0},{43701,43702,1},{43703,43704,0},{43705,43709,1},{43710,43711,0},{43712,43712,1},{43713,43713,0},{43714,43714,1},{43715,43738,0},{43739,43741,1},{43742,43743,0},{43744,43754,1},{43755,43761,0},{43762,43764,1},{43765,43776,0},{43777,43782,1},{43783,43784,0},{43785,43790,1},{43791,43792,0},{43793,43798,1},{43799,43807,0},{43808,43814,1},{43815,43815,0},{43816,43822,1},{43823,43823,0},{43824,43866,1},{43867,43867,0},{43868,43881,1},{43882,43887,0},{43888,44002,1},{44003,44031,0},{44032,55203,1},{55204,55215,0},{55216,55238,1},{55239,55242,0},{55243,55291,1},{55292,63743,0},{63744,64109,1},{64110,64111,0},{64112,64217,1},{64218,64255,0},{64256,64262,1},{64263,64274,0},{64275,64279,1},{64280,64284,0},{64285,64285,1},{64286,64286,0},{64287,64296,1},{64297,64297,0},{64298,64310,1},{64311,64311,0},{64312,64316,1},{64317,64317,0},{64318,64318,1},{64319,64319,0},{64320,64321,1},{64322,64322,0},{64323,64324,1},{64325,64325,0},{64326,64433,1},{64434,64466,0},{64467,64605,1},{64606,64611,0},{64612,64829,1},{64830,64847,0},{64848,64911,1},{64912,64913,0},{64914,64967,1},{64968,65007,0},{65008,65017,1},{65018,65136,0},{65137,65137,1},{65138,65138,0},{65139,65139,1},{65140,65142,0},{65143,65143,1},{65144,65144,0},{65145,65145,1},{65146,65146,0},{65147,65147,1},{65148,65148,0},{65149,65149,1},{65150,65150,0},{65151,65276,1},{65277,65312,0},{65313,65338,1},{65339,65344,0},{65345,65370,1},{65371,65381,0},{65382,65437,1},{65438,65439,0},{65440,65470,1},{65471,65473,0},{65474,65479,1},{65480,65481,0},{65482,65487,1},{65488,65489,0},{65490,65495,1},{65496,65497,0},{65498,65500,1},{65501,65535,0},{65536,65547,1},{65548,65548,0},{65549,65574,1},{65575,65575,0},{65576,65594,1},{65595,65595,0},{65596,65597,1},{65598,65598,0},{65599,65613,1},{65614,65615,0},{65616,65629,1},{65630,65663,0},{65664,65786,1},{65787,65855,0},{65856,65908,1},{65909,66175,0},{66176,66204,1},{66205,66207,0},{66208,66256,1},{66257,66303,0},{66304,66335,1},{66336,66348,0},{66349,66378,1},{66379,66383,0},{66384,66421,1},{66422,66431,0},{66432,66461,1},{66462,66463,0},{66464,66499,1},{66500,66503,0},{66504,66511,1},{66512,66512,0},{66513,66517,1},{66518,66559,0},{66560,66717,1},{66718,66735,0},{66736,66771,1},{66772,66775,0},{66776,66811,1},{66812,66815,0},{66816,66855,1},{66856,66863,0},{66864,66915,1},{66916,66927,0},{66928,66938,1},{66939,66939,0},{66940,66954,1},{66955,66955,0},{66956,66962,1},{66963,66963,0},{66964,66965,1},{66966,66966,0},{66967,66977,1},{66978,66978,0},{66979,66993,1},{66994,66994,0},{66995,67001,1},{67002,67002,0},{67003,67004,1},{67005,67071,0},{67072,67382,1},{67383,67391,0},{67392,67413,1},{67414,67423,0},{67424,67431,1},{67432,67455,0},{67456,67461,1},{67462,67462,0},{67463,67504,1},{67505,67505,0},{67506,67514,1},{67515,67583,0},{67584,67589,1},{67590,67591,0},{67592,67592,1},{67593,67593,0},{67594,67637,1},{67638,67638,0},{67639,67640,1},{67641,67643,0},{67644,67644,1},{67645,67646,0},{67647,67669,1},{67670,67679,0},{67680,67702,1},{67703,67711,0},{67712,67742,1},{67743,67807,0},{67808,67826,1},{67827,67827,0},{67828,67829,1},{67830,67839,0},{67840,67861,1},{67862,67871,0},{67872,67897,1},{67898,67967,0},{67968,68023,1},{68024,68029,0},{68030,68031,1},{68032,68095,0},{68096,68096,1},{68097,68111,0},{68112,68115,1},{68116,68116,0},{68117,68119,1},{68120,68120,0},{68121,68149,1},{68150,68191,0},{68192,68220,1},{68221,68223,0},{68224,68252,1},{68253,68287,0},{68288,68295,1},{68296,68296,0},{68297,68324,1},{68325,68351,0},{68352,68405,1},{68406,68415,0},{68416,68437,1},{68438,68447,0},{68448,68466,1},{68467,68479,0},{68480,68497,1},{68498,68607,0},{68608,68680,1},{68681,68735,0},{68736,68786,1},{68787,68799,0},{68800,68850,1},{68851,68863,0},{68864,68899,1},{68900,69247,0},{69248,69289,1},{69290,69295,0},{69296,69297,1},{69298,69375,0},{69376,69404,1},{69405,69414,0},{69415,69415,1},{69416,69423,0},{69424,69445,1},{69446,69487,0},{69488,69505,1},{69506,69551,0},{69552,69572,1},{69573,69599,0},{69600,69622,1},{69623,69634,0},{69635,69687,1},{69688,69744,0},{69745,69746,1},{69747,69748,0},{69749,69749,1},{69750,69762,0},{69763,69807,1},{69808,69839,0},{69840,69864,1},{69865,69890,0},{69891,69926,1},{69927,69955,0},{69956,69956,1},{69957,69958,0},{69959,69959,1},{69960,69967,0},{69968,70002,1},{70003,70005,0},{70006,70006,1},{70007,70018,0},{70019,70066,1},{70067,70080,0},{70081,70084,1},{70085,70105,0},{70106,70106,1},{70107,70107,0},{70108,70108,1},{70109,70143,0},{70144,70161,1},{70162,70162,0},{70163,70187,1},{70188,70206,0},{70207,70208,1},{70209,70271,0},{70272,70278,1},{70279,70279,0},{70280,70280,1},{70281,70281,0},{70282,70285,1},{70286,70286,0},{70287,70301,1},{70302,70302,0},{70303,70312,1},{70313,70319,0},{70320,70366,1},{70367,70404,0},{70405,70412,1},{70413,70414,0},{70415,70416,1},{70417,70418,0},{70419,70440,1},{70441,70441,0},{70442,70448,1},{70449,70449,0},{70450,70451,1},{70452,70452,0},{70453,70457,1},{70458,70460,0},{70461,70461,1},{70462,70479,0},{70480,70480,1},{70481,70492,0},{70493,70497,1},{70498,70655,0},{70656,70708,1},{70709,70726,0},{70727,70730,1},{70731,70750,0},{70751,70753,1},{70754,70783,0},{70784,70831,1},{70832,70851,0},{70852,70853,1},{70854,70854,0},{70855,70855,1},{70856,71039,0},{71040,71086,1},{71087,71127,0},{71128,71131,1},{71132,71167,0},{71168,71215,1},{71216,71235,0},{71236,71236,1},{71237,71295,0},{71296,71338,1},{71339,71351,0},{71352,71352,1},{71353,71423,0},{71424,71450,1},{71451,71487,0},{71488,71494,1},{71495,71679,0},{71680,71723,1},{71724,71839,0},{71840,71903,1},{71904,71934,0},{71935,71942,1},{71943,71944,0},{71945,71945,1},{71946,71947,0},{71948,71955,1},{71956,71956,0},{71957,71958,1},{71959,71959,0},{71960,71983,1},{71984,71998,0},{71999,71999,1},{72000,72000,0},{72001,72001,1},{72002,72095,0},{72096,72103,1},{72104,72105,0},{72106,72144,1},{72145,72160,0},{72161,72161,1},{72162,72162,0},{72163,72163,1},{72164,72191,0},{72192,72192,1},{72193,72202,0},{72203,72242,1},{72243,72249,0},{72250,72250,1},{72251,72271,0},{72272,72272,1},{72273,72283,0},{72284,72329,1},{72330,72348,0},{72349,72349,1},{72350,72367,0},{72368,72440,1},{72441,72703,0},{72704,72712,1},{72713,72713,0},{72714,72750,1},{72751,72767,0},{72768,72768,1},{72769,72817,0},{72818,72847,1},{72848,72959,0},{72960,72966,1},{72967,72967,0},{72968,72969,1},{72970,72970,0},{72971,73008,1},{73009,73029,0},{73030,73030,1},{73031,73055,0},{73056,73061,1},{73062,73062,0},{73063,73064,1},{73065,73065,0},{73066,73097,1},{73098,73111,0},{73112,73112,1},{73113,73439,0},{73440,73458,1},{73459,73473,0},{73474,73474,1},{73475,73475,0},{73476,73488,1},{73489,73489,0},{73490,73523,1},{73524,73647,0},{73648,73648,1},{73649,73727,0},{73728,74649,1},{74650,74751,0},{74752,74862,1},{74863,74879,0},{74880,75075,1},{75076,77711,0},{77712,77808,1},{77809,77823,0},{77824,78895,1},{78896,78912,0},{78913,78918,1},{78919,82943,0},{82944,83526,1},{83527,92159,0},{92160,92728,1},{92729,92735,0},{92736,92766,1},{92767,92783,0},{92784,92862,1},{92863,92879,0},{92880,92909,1},{92910,92927,0},{92928,92975,1},{92976,92991,0},{92992,92995,1},{92996,93026,0},{93027,93047,1},{93048,93052,0},{93053,93071,1},{93072,93759,0},{93760,93823,1},{93824,93951,0},{93952,94026,1},{94027,94031,0},{94032,94032,1},{94033,94098,0},{94099,94111,1},{94112,94175,0},{94176,94177,1},{94178,94178,0},{94179,94179,1},{94180,94207,0},{94208,100343,1},{100344,100351,0},{100352,101589,1},{101590,101631,0},{101632,101640,1},{101641,110575,0},{110576,110579,1},{110580,110580,0},{110581,110587,1},{110588,110588,0},{110589,110590,1},{110591,110591,0},{110592,110882,1},{110883,110897,0},{110898,110898,1},{110899,110927,0},{110928,110930,1},{110931,110932,0},{110933,110933,1},{110934,110947,0},{110948,110951,1},{110952,110959,0},{110960,111355,1},{111356,113663,0},{113664,113770,1},{113771,113775,0},{113776,113788,1},{113789,113791,0},{113792,113800,1},{113801,113807,0},{113808,113817,1},{113818,119807,0},{119808,119892,1},{119893,119893,0},{119894,119964,1},{119965,119965,0},{119966,119967,1},{119968,119969,0},{119970,119970,1},{119971,119972,0},{119973,119974,1},{119975,119976,0},{119977,119980,1},{119981,119981,0},{119982,119993,1},{119994,119994,0},{119995,119995,1},{119996,119996,0},{119997,120003,1},{120004,120004,0},{120005,120069,1},{120070,120070,0},{120071,120074,1},{120075,120076,0},{120077,120084,1},{120085,120085,0},{120086,120092,1},{120093,120093,0},{120094,120121,1},{120122,120122,0},{120123,120126,1},{120127,120127,0},{120128,120132,1},{120133,120133,0},{120134,120134,1},{120135,120137,0},{120138,120144,1},{120145,120145,0},{120146,120485,1},{120486,120487,0},{120488,120512,1},{120513,120513,0},{120514,120538,1},{120539,120539,0},{120540,120570,1},{120571,120571,0},{120572,120596,1},{120597,120597,0},{120598,120628,1},{120629,120629,0},{120630,120654,1},{120655,120655,0},{120656,120686,1},{120687,120687,0},{120688,120712,1},{120713,120713,0},{120714,120744,1},{120745,120745,0},{120746,120770,1},{120771,120771,0},{120772,120779,1},{120780,122623,0},{122624,122654,1},{122655,122660,0},{122661,122666,1},{122667,122927,0},{122928,122989,1},{122990,123135,0},{123136,123180,1},{123181,123190,0},{123191,123197,1},{123198,123213,0},{123214,123214,1},{123215,123535,0},{123536,123565,1},{123566,123583,0},{123584,123627,1},{123628,124111,0},{124112,124139,1},{124140,124895,0},{124896,124902,1},{124903,124903,0},{124904,124907,1},{124908,124908,0},{124909,124910,1},{124911,124911,0},{124912,124926,1},{124927,124927,0},{124928,125124,1},{125125,125183,0},{125184,125251,1},{125252,125258,0},{125259,125259,1},{125260,126463,0},{126464,126467,1},{126468,126468,0},{126469,126495,1},{126496,126496,0},{126497,126498,1},{126499,126499,0},{126500,126500,1},{126501,126502,0},{126503,126503,1},{126504,126504,0},{126505,126514,1},{126515,126515,0},{126516,126519,1},{126520,126520,0},{126521,126521,1},{126522,126522,0},{126523,126523,1},{126524,126529,0},{126530,126530,1},{126531,126534,0},{126535,126535,1},{126536,126536,0},{126537,126537,1},{126538,126538,0},{126539,126539,1},{126540,126540,0},{126541,126543,1},{126544,126544,0},{126545,126546,1},{126547,126547,0},{126548,126548,1},{126549,126550,0},{126551,126551,1},{126552,126552,0},{126553,126553,1},{126554,126554,0},{126555,126555,1},{126556,126556,0},{126557,126557,1},{126558,126558,0},{126559,126559,1},{126560,126560,0},{126561,126562,1},{126563,126563,0},{126564,126564,1},{126565,126566,0},{126567,126570,1},{126571,126571,0},{126572,126578,1},{126579,126579,0},{126580,126583,1},{126584,126584,0},{126585,126588,1},{126589,126589,0},{126590,126590,1},{126591,126591,0},{126592,126601,1},{126602,126602,0},{126603,126619,1},{126620,126624,0},{126625,126627,1},{126628,126628,0},{126629,126633,1},{126634,126634,0},{126635,126651,1},{126652,131071,0},{131072,173791,1},{173792,173823,0},{173824,177977,1},{177978,177983,0},{177984,178205,1},{178206,178207,0},{178208,183969,1},{183970,183983,0},{183984,191456,1},{191457,194559,0},{194560,195101,1},{195102,196607,0},{196608,201546,1},{201547,201551,0},{201552,205743,1},{205744,1114111,0}};
inline constexpr Run is_xid_start_underscore[] = {{0,64,0},{65,90,1},{91,94,0},{95,95,1},{96,96,0},{97,122,1},{123,169,0},{170,170,1},{171,180,0},{181,181,1},{182,185,0},{186,186,1},{187,191,0},{192,214,1},{215,215,0},{216,246,1},{247,247,0},{248,705,1},{706,709,0},{710,721,1},{722,735,0},{736,740,1},{741,747,0},{748,748,1},{749,749,0},{750,750,1},{751,879,0},{880,884,1},{885,885,0},{886,887,1},{888,890,0},{891,893,1},{894,894,0},{895,895,1},{896,901,0},{902,902,1},{903,903,0},{904,906,1},{907,907,0},{908,908,1},{909,909,0},{910,929,1},{930,930,0},{931,1013,1},{1014,1014,0},{1015,1153,1},{1154,1161,0},{1162,1327,1},{1328,1328,0},{1329,1366,1},{1367,1368,0},{1369,1369,1},{1370,1375,0},{1376,1416,1},{1417,1487,0},{1488,1514,1},{1515,1518,0},{1519,1522,1},{1523,1567,0},{1568,1610,1},{1611,1645,0},{1646,1647,1},{1648,1648,0},{1649,1747,1},{1748,1748,0},{1749,1749,1},{1750,1764,0},{1765,1766,1},{1767,1773,0},{1774,1775,1},{1776,1785,0},{1786,1788,1},{1789,1790,0},{1791,1791,1},{1792,1807,0},{1808,1808,1},{1809,1809,0},{1810,1839,1},{1840,1868,0},{1869,1957,1},{1958,1968,0},{1969,1969,1},{1970,1993,0},{1994,2026,1},{2027,2035,0},{2036,2037,1},{2038,2041,0},{2042,2042,1},{2043,2047,0},{2048,2069,1},{2070,2073,0},{2074,2074,1},{2075,2083,0},{2084,2084,1},{2085,2087,0},{2088,2088,1},{2089,2111,0},{2112,2136,1},{2137,2143,0},{2144,2154,1},{2155,2159,0},{2160,2183,1},{2184,2184,0},{2185,2190,1},{2191,2207,0},{2208,2249,1},{2250,2307,0},{2308,2361,1},{2362,2364,0},{2365,2365,1},{2366,2383,0},{2384,2384,1},{2385,2391,0},{2392,2401,1},{2402,2416,0},{2417,2432,1},{2433,2436,0},{2437,2444,1},{2445,2446,0},{2447,2448,1},{2449,2450,0},{2451,2472,1},{2473,2473,0},{2474,2480,1},{2481,2481,0},{2482,2482,1},{2483,2485,0},{2486,2489,1},{2490,2492,0},{2493,2493,1},{2494,2509,0},{2510,2510,1},{2511,2523,0},{2524,2525,1},{2526,2526,0},{2527,2529,1},{2530,2543,0},{2544,2545,1},{2546,2555,0},{2556,2556,1},{2557,2564,0},{2565,2570,1},{2571,2574,0},{2575,2576,1},{2577,2578,0},{2579,2600,1},{2601,2601,0},{2602,2608,1},{2609,2609,0},{2610,2611,1},{2612,2612,0},{2613,2614,1},{2615,2615,0},{2616,2617,1},{2618,2648,0},{2649,2652,1},{2653,2653,0},{2654,2654,1},{2655,2673,0},{2674,2676,1},{2677,2692,0},{2693,2701,1},{2702,2702,0},{2703,2705,1},{2706,2706,0},{2707,2728,1},{2729,2729,0},{2730,2736,1},{2737,2737,0},{2738,2739,1},{2740,2740,0},{2741,2745,1},{2746,2748,0},{2749,2749,1},{2750,2767,0},{2768,2768,1},{2769,2783,0},{2784,2785,1},{2786,2808,0},{2809,2809,1},{2810,2820,0},{2821,2828,1},{2829,2830,0},{2831,2832,1},{2833,2834,0},{2835,2856,1},{2857,2857,0},{2858,2864,1},{2865,2865,0},{2866,2867,1},{2868,2868,0},{2869,2873,1},{2874,2876,0},{2877,2877,1},{2878,2907,0},{2908,2909,1},{2910,2910,0},{2911,2913,1},{2914,2928,0},{2929,2929,1},{2930,2946,0},{2947,2947,1},{2948,2948,0},{2949,2954,1},{2955,2957,0},{2958,2960,1},{2961,2961,0},{2962,2965,1},{2966,2968,0},{2969,2970,1},{2971,2971,0},{2972,2972,1},{2973,2973,0},{2974,2975,1},{2976,2978,0},{2979,2980,1},{2981,2983,0},{2984,2986,1},{2987,2989,0},{2990,3001,1},{3002,3023,0},{3024,3024,1},{3025,3076,0},{3077,3084,1},{3085,3085,0},{3086,3088,1},{3089,3089,0},{3090,3112,1},{3113,3113,0},{3114,3129,1},{3130,3132,0},{3133,3133,1},{3134,3159,0},{3160,3162,1},{3163,3164,0},{3165,3165,1},{3166,3167,0},{3168,3169,1},{3170,3199,0},{3200,3200,1},{3201,3204,0},{3205,3212,1},{3213,3213,0},{3214,3216,1},{3217,3217,0},{3218,3240,1},{3241,3241,0},{3242,3251,1},{3252,3252,0},{3253,3257,1},{3258,3260,0},{3261,3261,1},{3262,3292,0},{3293,3294,1},{3295,3295,0},{3296,3297,1},{3298,3312,0},{3313,3314,1},{3315,3331,0},{3332,3340,1},{3341,3341,0},{3342,3344,1},{3345,3345,0},{3346,3386,1},{3387,3388,0},{3389,3389,1},{3390,3405,0},{3406,3406,1},{3407,3411,0},{3412,3414,1},{3415,3422,0},{3423,3425,1},{3426,3449,0},{3450,3455,1},{3456,3460,0},{3461,3478,1},{3479,3481,0},{3482,3505,1},{3506,3506,0},{3507,3515,1},{3516,3516,0},{3517,3517,1},{3518,3519,0},{3520,3526,1},{3527,3584,0},{3585,3632,1},{3633,3633,0},{3634,3634,1},{3635,3647,0},{3648,3654,1},{3655,3712,0},{3713,3714,1},{3715,3715,0},{3716,3716,1},{3717,3717,0},{3718,3722,1},{3723,3723,0},{3724,3747,1},{3748,3748,0},{3749,3749,1},{3750,3750,0},{3751,3760,1},{3761,3761,0},{3762,3762,1},{3763,3772,0},{3773,3773,1},{3774,3775,0},{3776,3780,1},{3781,3781,0},{3782,3782,1},{3783,3803,0},{3804,3807,1},{3808,3839,0},{3840,3840,1},{3841,3903,0},{3904,3911,1},{3912,3912,0},{3913,3948,1},{3949,3975,0},{3976,3980,1},{3981,4095,0},{4096,4138,1},{4139,4158,0},{4159,4159,1},{4160,4175,0},{4176,4181,1},{4182,4185,0},{4186,4189,1},{4190,4192,0},{4193,4193,1},{4194,4196,0},{4197,4198,1},{4199,4205,0},{4206,4208,1},{4209,4212,0},{4213,4225,1},{4226,4237,0},{4238,4238,1},{4239,4255,0},{4256,4293,1},{4294,4294,0},{4295,4295,1},{4296,4300,0},{4301,4301,1},{4302,4303,0},{4304,4346,1},{4347,4347,0},{4348,4680,1},{4681,4681,0},{4682,4685,1},{4686,4687,0},{4688,4694,1},{4695,4695,0},{4696,4696,1},{4697,4697,0},{4698,4701,1},{4702,4703,0},{4704,4744,1},{4745,4745,0},{4746,4749,1},{4750,4751,0},{4752,4784,1},{4785,4785,0},{4786,4789,1},{4790,4791,0},{4792,4798,1},{4799,4799,0},{4800,4800,1},{4801,4801,0},{4802,4805,1},{4806,4807,0},{4808,4822,1},{4823,4823,0},{4824,4880,1},{4881,4881,0},{4882,4885,1},{4886,4887,0},{4888,4954,1},{4955,4991,0},{4992,5007,1},{5008,5023,0},{5024,5109,1},{5110,5111,0},{5112,5117,1},{5118,5120,0},{5121,5740,1},{5741,5742,0},{5743,5759,1},{5760,5760,0},{5761,5786,1},{5787,5791,0},{5792,5866,1},{5867,5869,0},{5870,5880,1},{5881,5887,0},{5888,5905,1},{5906,5918,0},{5919,5937,1},{5938,5951,0},{5952,5969,1},{5970,5983,0},{5984,5996,1},{5997,5997,0},{5998,6000,1},{6001,6015,0},{6016,6067,1},{6068,6102,0},{6103,6103,1},{6104,6107,0},{6108,6108,1},{6109,6175,0},{6176,6264,1},{6265,6271,0},{6272,6312,1},{6313,6313,0},{6314,6314,1},{6315,6319,0},{6320,6389,1},{6390,6399,0},{6400,6430,1},{6431,6479,0},{6480,6509,1},{6510,6511,0},{6512,6516,1},{6517,6527,0},{6528,6571,1},{6572,6575,0},{6576,6601,1},{6602,6655,0},{6656,6678,1},{6679,6687,0},{6688,6740,1},{6741,6822,0},{6823,6823,1},{6824,6916,0},{6917,6963,1},{6964,6980,0},{6981,6988,1},{6989,7042,0},{7043,7072,1},{7073,7085,0},{7086,7087,1},{7088,7097,0},{7098,7141,1},{7142,7167,0},{7168,7203,1},{7204,7244,0},{7245,7247,1},{7248,7257,0},{7258,7293,1},{7294,7295,0},{7296,7304,1},{7305,7311,0},{7312,7354,1},{7355,7356,0},{7357,7359,1},{7360,7400,0},{7401,7404,1},{7405,7405,0},{7406,7411,1},{7412,7412,0},{7413,7414,1},{7415,7417,0},{7418,7418,1},{7419,7423,0},{7424,7615,1},{7616,7679,0},{7680,7957,1},{7958,7959,0},{7960,7965,1},{7966,7967,0},{7968,8005,1},{8006,8007,0},{8008,8013,1},{8014,8015,0},{8016,8023,1},{8024,8024,0},{8025,8025,1},{8026,8026,0},{8027,8027,1},{8028,8028,0},{8029,8029,1},{8030,8030,0},{8031,8061,1},{8062,8063,0},{8064,8116,1},{8117,8117,0},{8118,8124,1},{8125,8125,0},{8126,8126,1},{8127,8129,0},{8130,8132,1},{8133,8133,0},{8134,8140,1},{8141,8143,0},{8144,8147,1},{8148,8149,0},{8150,8155,1},{8156,8159,0},{8160,8172,1},{8173,8177,0},{8178,8180,1},{8181,8181,0},{8182,8188,1},{8189,8304,0},{8305,8305,1},{8306,8318,0},{8319,8319,1},{8320,8335,0},{8336,8348,1},{8349,8449,0},{8450,8450,1},{8451,8454,0},{8455,8455,1},{8456,8457,0},{8458,8467,1},{8468,8468,0},{8469,8469,1},{8470,8471,0},{8472,8477,1},{8478,8483,0},{8484,8484,1},{8485,8485,0},{8486,8486,1},{8487,8487,0},{8488,8488,1},{8489,8489,0},{8490,8505,1},{8506,8507,0},{8508,8511,1},{8512,8516,0},{8517,8521,1},{8522,8525,0},{8526,8526,1},{8527,8543,0},{8544,8584,1},{8585,11263,0},{11264,11492,1},{11493,11498,0},{11499,11502,1},{11503,11505,0},{11506,11507,1},{11508,11519,0},{11520,11557,1},{11558,11558,0},{11559,11559,1},{11560,11564,0},{11565,11565,1},{11566,11567,0},{11568,11623,1},{11624,11630,0},{11631,11631,1},{11632,11647,0},{11648,11670,1},{11671,11679,0},{11680,11686,1},{11687,11687,0},{11688,11694,1},{11695,11695,0},{11696,11702,1},{11703,11703,0},{11704,11710,1},{11711,11711,0},{11712,11718,1},{11719,11719,0},{11720,11726,1},{11727,11727,0},{11728,11734,1},{11735,11735,0},{11736,11742,1},{11743,12292,0},{12293,12295,1},{12296,12320,0},{12321,12329,1},{12330,12336,0},{12337,12341,1},{12342,12343,0},{12344,12348,1},{12349,12352,0},{12353,12438,1},{12439,12444,0},{12445,12447,1},{12448,12448,0},{12449,12538,1},{12539,12539,0},{12540,12543,1},{12544,12548,0},{12549,12591,1},{12592,12592,0},{12593,12686,1},{12687,12703,0},{12704,12735,1},{12736,12783,0},{12784,12799,1},{12800,13311,0},{13312,19903,1},{19904,19967,0},{19968,42124,1},{42125,42191,0},{42192,42237,1},{42238,42239,0},{42240,42508,1},{42509,42511,0},{42512,42527,1},{42528,42537,0},{42538,42539,1},{42540,42559,0},{42560,42606,1},{42607,42622,0},{42623,42653,1},{42654,42655,0},{42656,42735,1},{42736,42774,0},{42775,42783,1},{42784,42785,0},{42786,42888,1},{42889,42890,0},{42891,42954,1},{42955,42959,0},{42960,42961,1},{42962,42962,0},{42963,42963,1},{42964,42964,0},{42965,42969,1},{42970,42993,0},{42994,43009,1},{43010,43010,0},{43011,43013,1},{43014,43014,0},{43015,43018,1},{43019,43019,0},{43020,43042,1},{43043,43071,0},{43072,43123,1},{43124,43137,0},{43138,43187,1},{43188,43249,0},{43250,43255,1},{43256,43258,0},{43259,43259,1},{43260,43260,0},{43261,43262,1},{43263,43273,0},{43274,43301,1},{43302,43311,0},{43312,43334,1},{43335,43359,0},{43360,43388,1},{43389,43395,0},{43396,43442,1},{43443,43470,0},{43471,43471,1},{43472,43487,0},{43488,43492,1},{43493,43493,0},{43494,43503,1},{43504,43513,0},{43514,43518,1},{43519,43519,0},{43520,43560,1},{43561,43583,0},{43584,43586,1},{43587,43587,0},{43588,43595,1},{43596,43615,0},{43616,43638,1},{43639,43641,0},{43642,43642,1},{43643,43645,0},{43646,43695,1},{43696,43696,0},{43697,43697,1},{43698,43700,0},{43701,43702,1},{43703,43704,0},{43705,43709,1},{43710,43711,0},{43712,43712,1},{43713,43713,0},{43714,43714,1},{43715,43738,0},{43739,43741,1},{43742,43743,0},{43744,43754,1},{43755,43761,0},{43762,43764,1},{43765,43776,0},{43777,43782,1},{43783,43784,0},{43785,43790,1},{43791,43792,0},{43793,43798,1},{43799,43807,0},{43808,43814,1},{43815,43815,0},{43816,43822,1},{43823,43823,0},{43824,43866,1},{43867,43867,0},{43868,43881,1},{43882,43887,0},{43888,44002,1},{44003,44031,0},{44032,55203,1},{55204,55215,0},{55216,55238,1},{55239,55242,0},{55243,55291,1},{55292,63743,0},{63744,64109,1},{64110,64111,0},{64112,64217,1},{64218,64255,0},{64256,64262,1},{64263,64274,0},{64275,64279,1},{64280,64284,0},{64285,64285,1},{64286,64286,0},{64287,64296,1},{64297,64297,0},{64298,64310,1},{64311,64311,0},{64312,64316,1},{64317,64317,0},{64318,64318,1},{64319,64319,0},{64320,64321,1},{64322,64322,0},{64323,64324,1},{64325,64325,0},{64326,64433,1},{64434,64466,0},{64467,64605,1},{64606,64611,0},{64612,64829,1},{64830,64847,0},{64848,64911,1},{64912,64913,0},{64914,64967,1},{64968,65007,0},{65008,65017,1},{65018,65136,0},{65137,65137,1},{65138,65138,0},{65139,65139,1},{65140,65142,0},{65143,65143,1},{65144,65144,0},{65145,65145,1},{65146,65146,0},{65147,65147,1},{65148,65148,0},{65149,65149,1},{65150,65150,0},{65151,65276,1},{65277,65312,0},{65313,65338,1},{65339,65344,0},{65345,65370,1},{65371,65381,0},{65382,65437,1},{65438,65439,0},{65440,65470,1},{65471,65473,0},{65474,65479,1},{65480,65481,0},{65482,65487,1},{65488,65489,0},{65490,65495,1},{65496,65497,0},{65498,65500,1},{65501,65535,0},{65536,65547,1},{65548,65548,0},{65549,65574,1},{65575,65575,0},{65576,65594,1},{65595,65595,0},{65596,65597,1},{65598,65598,0},{65599,65613,1},{65614,65615,0},{65616,65629,1},{65630,65663,0},{65664,65786,1},{65787,65855,0},{65856,65908,1},{65909,66175,0},{66176,66204,1},{66205,66207,0},{66208,66256,1},{66257,66303,0},{66304,66335,1},{66336,66348,0},{66349,66378,1},{66379,66383,0},{66384,66421,1},{66422,66431,0},{66432,66461,1},{66462,66463,0},{66464,66499,1},{66500,66503,0},{66504,66511,1},{66512,66512,0},{66513,66517,1},{66518,66559,0},{66560,66717,1},{66718,66735,0},{66736,66771,1},{66772,66775,0},{66776,66811,1},{66812,66815,0},{66816,66855,1},{66856,66863,0},{66864,66915,1},{66916,66927,0},{66928,66938,1},{66939,66939,0},{66940,66954,1},{66955,66955,0},{66956,66962,1},{66963,66963,0},{66964,66965,1},{66966,66966,0},{66967,66977,1},{66978,66978,0},{66979,66993,1},{66994,66994,0},{66995,67001,1},{67002,67002,0},{67003,67004,1},{67005,67071,0},{67072,67382,1},{67383,67391,0},{67392,67413,1},{67414,67423,0},{67424,67431,1},{67432,67455,0},{67456,67461,1},{67462,67462,0},{67463,67504,1},{67505,67505,0},{67506,67514,1},{67515,67583,0},{67584,67589,1},{67590,67591,0},{67592,67592,1},{67593,67593,0},{67594,67637,1},{67638,67638,0},{67639,67640,1},{67641,67643,0},{67644,67644,1},{67645,67646,0},{67647,67669,1},{67670,67679,0},{67680,67702,1},{67703,67711,0},{67712,67742,1},{67743,67807,0},{67808,67826,1},{67827,67827,0},{67828,67829,1},{67830,67839,0},{67840,67861,1},{67862,67871,0},{67872,67897,1},{67898,67967,0},{67968,68023,1},{68024,68029,0},{68030,68031,1},{68032,68095,0},{68096,68096,1},{68097,68111,0},{68112,68115,1},{68116,68116,0},{68117,68119,1},{68120,68120,0},{68121,68149,1},{68150,68191,0},{68192,68220,1},{68221,68223,0},{68224,68252,1},{68253,68287,0},{68288,68295,1},{68296,68296,0},{68297,68324,1},{68325,68351,0},{68352,68405,1},{68406,68415,0},{68416,68437,1},{68438,68447,0},{68448,68466,1},{68467,68479,0},{68480,68497,1},{68498,68607,0},{68608,68680,1},{68681,68735,0},{68736,68786,1},{68787,68799,0},{68800,68850,1},{68851,68863,0},{68864,68899,1},{68900,69247,0},{69248,69289,1},{69290,69295,0},{69296,69297,1},{69298,69375,0},{69376,69404,1},{69405,69414,0},{69415,69415,1},{69416,69423,0},{69424,69445,1},{69446,69487,0},{69488,69505,1},{69506,69551,0},{69552,69572,1},{69573,69599,0},{69600,69622,1},{69623,69634,0},{69635,69687,1},{69688,69744,0},{69745,69746,1},{69747,69748,0},{69749,69749,1},{69750,69762,0},{69763,69807,1},{69808,69839,0},{69840,69864,1},{69865,69890,0},{69891,69926,1},{69927,69955,0},{69956,69956,1},{69957,69958,0},{69959,69959,1},{69960,69967,0},{69968,70002,1},{70003,70005,0},{70006,70006,1},{70007,70018,0},{70019,70066,1},{70067,70080,0},{70081,70084,1},{70085,70105,0},{70106,70106,1},{70107,70107,0},{70108,70108,1},{70109,70143,0},{70144,70161,1},{70162,70162,0},{70163,70187,1},{70188,70206,0},{70207,70208,1},{70209,70271,0},{70272,70278,1},{70279,70279,0},{70280,70280,1},{70281,70281,0},{70282,70285,1},{70286,70286,0},{70287,70301,1},{70302,70302,0},{70303,70312,1},{70313,70319,0},{70320,70366,1},{70367,70404,0},{70405,70412,1},{70413,70414,0},{70415,70416,1},{70417,70418,0},{70419,70440,1},{70441,70441,0},{70442,70448,1},{70449,70449,0},{70450,70451,1},{70452,70452,0},{70453,70457,1},{70458,70460,0},{70461,70461,1},{70462,70479,0},{70480,70480,1},{70481,70492,0},{70493,70497,1},{70498,70655,0},{70656,70708,1},{70709,70726,0},{70727,70730,1},{70731,70750,0},{70751,70753,1},{70754,70783,0},{70784,70831,1},{70832,70851,0},{70852,70853,1},{70854,70854,0},{70855,70855,1},{70856,71039,0},{71040,71086,1},{71087,71127,0},{71128,71131,1},{71132,71167,0},{71168,71215,1},{71216,71235,0},{71236,71236,1},{71237,71295,0},{71296,71338,1},{71339,71351,0},{71352,71352,1},{71353,71423,0},{71424,71450,1},{71451,71487,0},{71488,71494,1},{71495,71679,0},{71680,71723,1},{71724,71839,0},{71840,71903,1},{71904,71934,0},{71935,71942,1},{71943,71944,0},{71945,71945,1},{71946,71947,0},{71948,71955,1},{71956,71956,0},{71957,71958,1},{71959,71959,0},{71960,71983,1},{71984,71998,0},{71999,71999,1},{72000,72000,0},{72001,72001,1},{72002,72095,0},{72096,72103,1},{72104,72105,0},{72106,72144,1},{72145,72160,0},{72161,72161,1},{72162,72162,0},{72163,72163,1},{72164,72191,0},{72192,72192,1},{72193,72202,0},{72203,72242,1},{72243,72249,0},{72250,72250,1},{72251,72271,0},{72272,72272,1},{72273,72283,0},{72284,72329,1},{72330,72348,0},{72349,72349,1},{72350,72367,0},{72368,72440,1},{72441,72703,0},{72704,72712,1},{72713,72713,0},{72714,72750,1},{72751,72767,0},{72768,72768,1},{72769,72817,0},{72818,72847,1},{72848,72959,0},{72960,72966,1},{72967,72967,0},{72968,72969,1},{72970,72970,0},{72971,73008,1},{73009,73029,0},{73030,73030,1},{73031,73055,0},{73056,73061,1},{73062,73062,0},{73063,73064,1},{73065,73065,0},{73066,73097,1},{73098,73111,0},{73112,73112,1},{73113,73439,0},{73440,73458,1},{73459,73473,0},{73474,73474,1},{73475,73475,0},{73476,73488,1},{73489,73489,0},{73490,73523,1},{73524,73647,0},{73648,73648,1},{73649,73727,0},{73728,74649,1},{74650,74751,0},{74752,74862,1},{74863,74879,0},{74880,75075,1},{75076,77711,0},{77712,77808,1},{77809,77823,0},{77824,78895,1},{78896,78912,0},{78913,78918,1},{78919,82943,0},{82944,83526,1},{83527,92159,0},{92160,92728,1},{92729,92735,0},{92736,92766,1},{92767,92783,0},{92784,92862,1},{92863,92879,0},{92880,92909,1},{92910,92927,0},{92928,92975,1},{92976,92991,0},{92992,92995,1},{92996,93026,0},{93027,93047,1},{93048,93052,0},{93053,93071,1},{93072,93759,0},{93760,93823,1},{93824,93951,0},{93952,94026,1},{94027,94031,0},{94032,94032,1},{94033,94098,0},{94099,94111,1},{94112,94175,0},{94176,94177,1},{94178,94178,0},{94179,94179,1},{94180,94207,0},{94208,100343,1},{100344,100351,0},{100352,101589,1},{101590,101631,0},{101632,101640,1},{101641,110575,0},{110576,110579,1},{110580,110580,0},{110581,110587,1},{110588,110588,0},{110589,110590,1},{110591,110591,0},{110592,110882,1},{110883,110897,0},{110898,110898,1},{110899,110927,0},{110928,110930,1},{110931,110932,0},{110933,110933,1},{110934,110947,0},{110948,110951,1},{110952,110959,0},{110960,111355,1},{111356,113663,0},{113664,113770,1},{113771,113775,0},{113776,113788,1},{113789,113791,0},{113792,113800,1},{113801,113807,0},{113808,113817,1},{113818,119807,0},{119808,119892,1},{119893,119893,0},{119894,119964,1},{119965,119965,0},{119966,119967,1},{119968,119969,0},{119970,119970,1},{119971,119972,0},{119973,119974,1},{119975,119976,0},{119977,119980,1},{119981,119981,0},{119982,119993,1},{119994,119994,0},{119995,119995,1},{119996,119996,0},{119997,120003,1},{120004,120004,0},{120005,120069,1},{120070,120070,0},{120071,120074,1},{120075,120076,0},{120077,120084,1},{120085,120085,0},{120086,120092,1},{120093,120093,0},{120094,120121,1},{120122,120122,0},{120123,120126,1},{120127,120127,0},{120128,120132,1},{120133,120133,0},{120134,120134,1},{120135,120137,0},{120138,120144,1},{120145,120145,0},{120146,120485,1},{120486,120487,0},{120488,120512,1},{120513,120513,0},{120514,120538,1},{120539,120539,0},{120540,120570,1},{120571,120571,0},{120572,120596,1},{120597,120597,0},{120598,120628,1},{120629,120629,0},{120630,120654,1},{120655,120655,0},{120656,120686,1},{120687,120687,0},{120688,120712,1},{120713,120713,0},{120714,120744,1},{120745,120745,0},{120746,120770,1},{120771,120771,0},{120772,120779,1},{120780,122623,0},{122624,122654,1},{122655,122660,0},{122661,122666,1},{122667,122927,0},{122928,122989,1},{122990,123135,0},{123136,123180,1},{123181,123190,0},{123191,123197,1},{123198,123213,0},{123214,123214,1},{123215,123535,0},{123536,123565,1},{123566,123583,0},{123584,123627,1},{123628,124111,0},{124112,124139,1},{124140,124895,0},{124896,124902,1},{124903,124903,0},{124904,124907,1},{124908,124908,0},{124909,124910,1},{124911,124911,0},{124912,124926,1},{124927,124927,0},{124928,125124,1},{125125,125183,0},{125184,125251,1},{125252,125258,0},{125259,125259,1},{125260,126463,0},{126464,126467,1},{126468,126468,0},{126469,126495,1},{126496,126496,0},{126497,126498,1},{126499,126499,0},{126500,126500,1},{126501,126502,0},{126503,126503,1},{126504,126504,0},{126505,126514,1},{126515,126515,0},{126516,126519,1},{126520,126520,0},{126521,126521,1},{126522,126522,0},{126523,126523,1},{126524,126529,0},{126530,126530,1},{126531,126534,0},{126535,126535,1},{126536,126536,0},{126537,126537,1},{126538,126538,0},{126539,126539,1},{126540,126540,0},{126541,126543,1},{126544,126544,0},{126545,126546,1},{126547,126547,0},{126548,126548,1},{126549,126550,0},{126551,126551,1},{126552,126552,0},{126553,126553,1},{126554,126554,0},{126555,126555,1},{126556,126556,0},{126557,126557,1},{126558,126558,0},{126559,126559,1},{126560,126560,0},{126561,126562,1},{126563,126563,0},{126564,126564,1},{126565,126566,0},{126567,126570,1},{126571,126571,0},{126572,126578,1},{126579,126579,0},{126580,126583,1},{126584,126584,0},{126585,126588,1},{126589,126589,0},{126590,126590,1},{126591,126591,0},{126592,126601,1},{126602,126602,0},{126603,126619,1},{126620,126624,0},{126625,126627,1},{126628,126628,0},{126629,126633,1},{126634,126634,0},{126635,126651,1},{126652,131071,0},{131072,173791,1},{173792,173823,0},{173824,177977,1},{177978,177983,0},{177984,178205,1},{178206,178207,0},{178208,183969,1},{183970,183983,0},{183984,191456,1},{191457,194559,0},{194560,195101,1},{195102,196607,0},{196608,201546,1},{201547,201551,0},{201552,205743,1},{205744,1114111,0}};
inline constexpr Run is_xid_continue[] = {{0,47,0},{48,57,1},{58,64,0},{65,90,1},{91,94,0},{95,95,1},{96,96,0},{97,122,1},{123,169,0},{170,170,1},{171,180,0},{181,181,1},{182,182,0},{183,183,1},{184,185,0},{186,186,1},{187,191,0},{192,214,1},{215,215,0},{216,246,1},{247,247,0},{248,705,1},{706,709,0},{710,721,1},{722,735,0},{736,740,1},{741,747,0},{748,748,1},{749,749,0},{750,750,1},{751,767,0},{768,884,1},{885,885,0},{886,887,1},{888,890,0},{891,893,1},{894,894,0},{895,895,1},{896,901,0},{902,906,1},{907,907,0},{908,908,1},{909,909,0},{910,929,1},{930,930,0},{931,1013,1},{1014,1014,0},{1015,1153,1},{1154,1154,0},{1155,1159,1},{1160,1161,0},{1162,1327,1},{1328,1328,0},{1329,1366,1},{1367,1368,0},{1369,1369,1},{1370,1375,0},{1376,1416,1},{1417,1424,0},{1425,1469,1},{1470,1470,0},{1471,1471,1},{1472,1472,0},{1473,1474,1},{1475,1475,0},{1476,1477,1},{1478,1478,0},{1479,1479,1},{1480,1487,0},{1488,1514,1},{1515,1518,0},{1519,1522,1},{1523,1551,0},{1552,1562,1},{1563,1567,0},{1568,1641,1},{1642,1645,0},{1646,1747,1},{1748,1748,0},{1749,1756,1},{1757,1758,0},{1759,1768,1},{1769,1769,0},{1770,1788,1},{1789,1790,0},{1791,1791,1},{1792,1807,0},{1808,1866,1},{1867,1868,0},{1869,1969,1},{1970,1983,0},{1984,2037,1},{2038,2041,0},{2042,2042,1},{2043,2044,0},{2045,2045,1},{2046,2047,0},{2048,2093,1},{2094,2111,0},{2112,2139,1},{2140,2143,0},{2144,2154,1},{2155,2159,0},{2160,2183,1},{2184,2184,0},{2185,2190,1},{2191,2199,0},{2200,2273,1},{2274,2274,0},{2275,2403,1},{2404,2405,0},{2406,2415,1},{2416,2416,0},{2417,2435,1},{2436,2436,0},{2437,2444,1},{2445,2446,0},{2447,2448,1},{2449,2450,0},{2451,2472,1},{2473,2473,0},{2474,2480,1},{2481,2481,0},{2482,2482,1},{2483,2485,0},{2486,2489,1},{2490,2491,0},{2492,2500,1},{2501,2502,0},{2503,2504,1},{2505,2506,0},{2507,2510,1},{2511,2518,0},{2519,2519,1},{2520,2523,0},{2524,2525,1},{2526,2526,0},{2527,2531,1},{2532,2533,0},{2534,2545,1},{2546,2555,0},{2556,2556,1},{2557,2557,0},{2558,2558,1},{2559,2560,0},{2561,2563,1},{2564,2564,0},{2565,2570,1},{2571,2574,0},{2575,2576,1},{2577,2578,0},{2579,2600,1},{2601,2601,0},{2602,2608,1},{2609,2609,0},{2610,2611,1},{2612,2612,0},{2613,2614,1},{2615,2615,0},{2616,2617,1},{2618,2619,0},{2620,2620,1},{2621,2621,0},{2622,2626,1},{2627,2630,0},{2631,2632,1},{2633,2634,0},{2635,2637,1},{2638,2640,0},{2641,2641,1},{2642,2648,0},{2649,2652,1},{2653,2653,0},{2654,2654,1},{2655,2661,0},{2662,2677,1},{2678,2688,0},{2689,2691,1},{2692,2692,0},{2693,2701,1},{2702,2702,0},{2703,2705,1},{2706,2706,0},{2707,2728,1},{2729,2729,0},{2730,2736,1},{2737,2737,0},{2738,2739,1},{2740,2740,0},{2741,2745,1},{2746,2747,0},{2748,2757,1},{2758,2758,0},{2759,2761,1},{2762,2762,0},{2763,2765,1},{2766,2767,0},{2768,2768,1},{2769,2783,0},{2784,2787,1},{2788,2789,0},{2790,2799,1},{2800,2808,0},{2809,2815,1},{2816,2816,0},{2817,2819,1},{2820,2820,0},{2821,2828,1},{2829,2830,0},{2831,2832,1},{2833,2834,0},{2835,2856,1},{2857,2857,0},{2858,2864,1},{2865,2865,0},{2866,2867,1},{2868,2868,0},{2869,2873,1},{2874,2875,0},{2876,2884,1},{2885,2886,0},{2887,2888,1},{2889,2890,0},{2891,2893,1},{2894,2900,0},{2901,2903,1},{2904,2907,0},{2908,2909,1},{2910,2910,0},{2911,2915,1},{2916,2917,0},{2918,2927,1},{2928,2928,0},{2929,2929,1},{2930,2945,0},{2946,2947,1},{2948,2948,0},{2949,2954,1},{2955,2957,0},{2958,2960,1},{2961,2961,0},{2962,2965,1},{2966,2968,0},{2969,2970,1},{2971,2971,0},{2972,2972,1},{2973,2973,0},{2974,2975,1},{2976,2978,0},{2979,2980,1},{2981,2983,0},{2984,2986,1},{2987,2989,0},{2990,3001,1},{3002,3005,0},{3006,3010,1},{3011,3013,0},{3014,3016,1},{3017,3017,0},{3018,3021,1},{3022,3023,0},{3024,3024,1},{3025,3030,0},{3031,3031,1},{3032,3045,0},{3046,3055,1},{3056,3071,0},{3072,3084,1},{3085,3085,0},{3086,3088,1},{3089,3089,0},{3090,3112,1},{3113,3113,0},{3114,3129,1},{3130,3131,0},{3132,3140,1},{3141,3141,0},{3142,3144,1},{3145,3145,0},{3146,3149,1},{3150,3156,0},{3157,3158,1},{3159,3159,0},{3160,3162,1},{3163,3164,0},{3165,3165,1},{3166,3167,0},{3168,3171,1},{3172,3173,0},{3174,3183,1},{3184,3199,0},{3200,3203,1},{3204,3204,0},{3205,3212,1},{3213,3213,0},{3214,3216,1},{3217,3217,0},{3218,3240,1},{3241,3241,0},{3242,3251,1},{3252,3252,0},{3253,3257,1},{3258,3259,0},{3260,3268,1},{3269,3269,0},{3270,3272,1},{3273,3273,0},{3274,3277,1},{3278,3284,0},{3285,3286,1},{3287,3292,0},{3293,3294,1},{3295,3295,0},{3296,3299,1},{3300,3301,0},{3302,3311,1},{3312,3312,0},{3313,3315,1},{3316,3327,0},{3328,3340,1},{3341,3341,0},{3342,3344,1},{3345,3345,0},{3346,3396,1},{3397,3397,0},{3398,3400,1},{3401,3401,0},{3402,3406,1},{3407,3411,0},{3412,3415,1},{3416,3422,0},{3423,3427,1},{3428,3429,0},{3430,3439,1},{3440,3449,0},{3450,3455,1},{3456,3456,0},{3457,3459,1},{3460,3460,0},{3461,3478,1},{3479,3481,0},{3482,3505,1},{3506,3506,0},{3507,3515,1},{3516,3516,0},{3517,3517,1},{3518,3519,0},{3520,3526,1},{3527,3529,0},{3530,3530,1},{3531,3534,0},{3535,3540,1},{3541,3541,0},{3542,3542,1},{3543,3543,0},{3544,3551,1},{3552,3557,0},{3558,3567,1},{3568,3569,0},{3570,3571,1},{3572,3584,0},{3585,3642,1},{3643,3647,0},{3648,3662,1},{3663,3663,0},{3664,3673,1},{3674,3712,0},{3713,3714,1},{3715,3715,0},{3716,3716,1},{3717,3717,0},{3718,3722,1},{3723,3723,0},{3724,3747,1},{3748,3748,0},{3749,3749,1},{3750,3750,0},{3751,3773,1},{3774,3775,0},{3776,3780,1},{3781,3781,0},{3782,3782,1},{3783,3783,0},{3784,3790,1},{3791,3791,0},{3792,3801,1},{3802,3803,0},{3804,3807,1},{3808,3839,0},{3840,3840,1},{3841,3863,0},{3864,3865,1},{3866,3871,0},{3872,3881,1},{3882,3892,0},{3893,3893,1},{3894,3894,0},{3895,3895,1},{3896,3896,0},{3897,3897,1},{3898,3901,0},{3902,3911,1},{3912,3912,0},{3913,3948,1},{3949,3952,0},{3953,3972,1},{3973,3973,0},{3974,3991,1},{3992,3992,0},{3993,4028,1},{4029,4037,0},{4038,4038,1},{4039,4095,0},{4096,4169,1},{4170,4175,0},{4176,4253,1},{4254,4255,0},{4256,4293,1},{4294,4294,0},{4295,4295,1},{4296,4300,0},{4301,4301,1},{4302,4303,0},{4304,4346,1},{4347,4347,0},{4348,4680,1},{4681,4681,0},{4682,4685,1},{4686,4687,0},{4688,4694,1},{4695,4695,0},{4696,4696,1},{4697,4697,0},{4698,4701,1},{4702,4703,0},{4704,4744,1},{4745,4745,0},{4746,4749,1},{4750,4751,0},{4752,4784,1},{4785,4785,0},{4786,4789,1},{4790,4791,0},{4792,4798,1},{4799,4799,0},{4800,4800,1},{4801,4801,0},{4802,4805,1},{4806,4807,0},{4808,4822,1},{4823,4823,0},{4824,4880,1},{4881,4881,0},{4882,4885,1},{4886,4887,0},{4888,4954,1},{4955,4956,0},{4957,4959,1},{4960,4968,0},{4969,4977,1},{4978,4991,0},{4992,5007,1},{5008,5023,0},{5024,5109,1},{5110,5111,0},{5112,5117,1},{5118,5120,0},{5121,5740,1},{5741,5742,0},{5743,5759,1},{5760,5760,0},{5761,5786,1},{5787,5791,0},{5792,5866,1},{5867,5869,0},{5870,5880,1},{5881,5887,0},{5888,5909,1},{5910,5918,0},{5919,5940,1},{5941,5951,0},{5952,5971,1},{5972,5983,0},{5984,5996,1},{5997,5997,0},{5998,6000,1},{6001,6001,0},{6002,6003,1},{6004,6015,0},{6016,6099,1},{6100,6102,0},{6103,6103,1},{6104,6107,0},{6108,6109,1},{6110,6111,0},{6112,6121,1},{6122,6154,0},{6155,6157,1},{6158,6158,0},{6159,6169,1},{6170,6175,0},{6176,6264,1},{6265,6271,0},{6272,6314,1},{6315,6319,0},{6320,6389,1},{6390,6399,0},{6400,6430,1},{6431,6431,0},{6432,6443,1},{6444,6447,0},{6448,6459,1},{6460,6469,0},{6470,6509,1},{6510,6511,0},{6512,6516,1},{6517,6527,0},{6528,6571,1},{6572,6575,0},{6576,6601,1},{6602,6607,0},{6608,6618,1},{6619,6655,0},{6656,6683,1},{6684,6687,0},{6688,6750,1},{6751,6751,0},{6752,6780,1},{6781,6782,0},{6783,6793,1},{6794,6799,0},{6800,6809,1},{6810,6822,0},{6823,6823,1},{6824,6831,0},{6832,6845,1},{6846,6846,0},{6847,6862,1},{6863,6911,0},{6912,6988,1},{6989,6991,0},{6992,7001,1},{7002,7018,0},{7019,7027,1},{7028,7039,0},{7040,7155,1},{7156,7167,0},{7168,7223,1},{7224,7231,0},{7232,7241,1},{7242,7244,0},{7245,7293,1},{7294,7295,0},{7296,7304,1},{7305,7311,0},{7312,7354,1},{7355,7356,0},{7357,7359,1},{7360,7375,0},{7376,7378,1},{7379,7379,0},{7380,7418,1},{7419,7423,0},{7424,7957,1},{7958,7959,0},{7960,7965,1},{7966,7967,0},{7968,8005,1},{8006,8007,0},{8008,8013,1},{8014,8015,0},{8016,8023,1},{8024,8024,0},{8025,8025,1},{8026,8026,0},{8027,8027,1},{8028,8028,0},{8029,8029,1},{8030,8030,0},{8031,8061,1},{8062,8063,0},{8064,8116,1},{8117,8117,0},{8118,8124,1},{8125,8125,0},{8126,8126,1},{8127,8129,0},{8130,8132,1},{8133,8133,0},{8134,8140,1},{8141,8143,0},{8144,8147,1},{8148,8149,0},{8150,8155,1},{8156,8159,0},{8160,8172,1},{8173,8177,0},{8178,8180,1},{8181,8181,0},{8182,8188,1},{8189,8254,0},{8255,8256,1},{8257,8275,0},{8276,8276,1},{8277,8304,0},{8305,8305,1},{8306,8318,0},{8319,8319,1},{8320,8335,0},{8336,8348,1},{8349,8399,0},{8400,8412,1},{8413,8416,0},{8417,8417,1},{8418,8420,0},{8421,8432,1},{8433,8449,0},{8450,8450,1},{8451,8454,0},{8455,8455,1},{8456,8457,0},{8458,8467,1},{8468,8468,0},{8469,8469,1},{8470,8471,0},{8472,8477,1},{8478,8483,0},{8484,8484,1},{8485,8485,0},{8486,8486,1},{8487,8487,0},{8488,8488,1},{8489,8489,0},{8490,8505,1},{8506,8507,0},{8508,8511,1},{8512,8516,0},{8517,8521,1},{8522,8525,0},{8526,8526,1},{8527,8543,0},{8544,8584,1},{8585,11263,0},{11264,11492,1},{11493,11498,0},{11499,11507,1},{11508,11519,0},{11520,11557,1},{11558,11558,0},{11559,11559,1},{11560,11564,0},{11565,11565,1},{11566,11567,0},{11568,11623,1},{11624,11630,0},{11631,11631,1},{11632,11646,0},{11647,11670,1},{11671,11679,0},{11680,11686,1},{11687,11687,0},{11688,11694,1},{11695,11695,0},{11696,11702,1},{11703,11703,0},{11704,11710,1},{11711,11711,0},{11712,11718,1},{11719,11719,0},{11720,11726,1},{11727,11727,0},{11728,11734,1},{11735,11735,0},{11736,11742,1},{11743,11743,0},{11744,11775,1},{11776,12292,0},{12293,12295,1},{12296,12320,0},{12321,12335,1},{12336,12336,0},{12337,12341,1},{12342,12343,0},{12344,12348,1},{12349,12352,0},{12353,12438,1},{12439,12440,0},{12441,12442,1},{12443,12444,0},{12445,12447,1},{12448,12448,0},{12449,12538,1},{12539,12539,0},{12540,12543,1},{12544,12548,0},{12549,12591,1},{12592,12592,0},{12593,12686,1},{12687,12703,0},{12704,12735,1},{12736,12783,0},{12784,12799,1},{12800,13311,0},{13312,19903,1},{19904,19967,0},{19968,42124,1},{42125,42191,0},{42192,42237,1},{42238,42239,0},{42240,42508,1},{42509,42511,0},{42512,42539,1},{42540,42559,0},{42560,42607,1},{42608,42611,0},{42612,42621,1},{42622,42622,0},{42623,42737,1},{42738,42774,0},{42775,42783,1},{42784,42785,0},{42786,42888,1},{42889,42890,0},{42891,42954,1},{42955,42959,0},{42960,42961,1},{42962,42962,0},{42963,42963,1},{42964,42964,0},{42965,42969,1},{42970,42993,0},{42994,43047,1},{43048,43051,0},{43052,43052,1},{43053,43071,0},{43072,43123,1},{43124,43135,0},{43136,43205,1},{43206,43215,0},{43216,43225,1},{43226,43231,0},{43232,43255,1},{43256,43258,0},{43259,43259,1},{43260,43260,0},{43261,43309,1},{43310,43311,0},{43312,43347,1},{43348,43359,0},{43360,43388,1},{43389,43391,0},{43392,43456,1},{43457,43470,0},{43471,43481,1},{43482,43487,0},{43488,43518,1},{43519,43519,0},{43520,43574,1},{43575,43583,0},{43584,43597,1},{43598,43599,0},{43600,43609,1},{43610,43615,0},{43616,43638,1},{43639,43641,0},{43642,43714,1},{43715,43738,0},{43739,43741,1},{43742,43743,0},{43744,43759,1},{43760,43761,0},{43762,43766,1},{43767,43776,0},{43777,43782,1},{43783,43784,0},{43785,43790,1},{43791,43792,0},{43793,43798,1},{43799,43807,0},{43808,43814,1},{43815,43815,0},{43816,43822,1},{43823,43823,0},{43824,43866,1},{43867,43867,0},{43868,43881,1},{43882,43887,0},{43888,44010,1},{44011,44011,0},{44012,44013,1},{44014,44015,0},{44016,44025,1},{44026,44031,0},{44032,55203,1},{55204,55215,0},{55216,55238,1},{55239,55242,0},{55243,55291,1},{55292,63743,0},{63744,64109,1},{64110,64111,0},{64112,64217,1},{64218,64255,0},{64256,64262,1},{64263,64274,0},{64275,64279,1},{64280,64284,0},{64285,64296,1},{64297,64297,0},{64298,64310,1},{64311,64311,0},{64312,64316,1},{64317,64317,0},{64318,64318,1},{64319,64319,0},{64320,64321,1},{64322,64322,0},{64323,64324,1},{64325,64325,0},{64326,64433,1},{64434,64466,0},{64467,64605,1},{64606,64611,0},{64612,64829,1},{64830,64847,0},{64848,64911,1},{64912,64913,0},{64914,64967,1},{64968,65007,0},{65008,65017,1},{65018,65023,0},{65024,65039,1},{65040,65055,0},{65056,65071,1},{65072,65074,0},{65075,65076,1},{65077,65100,0},{65101,65103,1},{65104,65136,0},{65137,65137,1},{65138,65138,0},{65139,65139,1},{65140,65142,0},{65143,65143,1},{65144,65144,0},{65145,65145,1},{65146,65146,0},{65147,65147,1},{65148,65148,0},{65149,65149,1},{65150,65150,0},{65151,65276,1},{65277,65295,0},{65296,65305,1},{65306,65312,0},{65313,65338,1},{65339,65342,0},{65343,65343,1},{65344,65344,0},{65345,65370,1},{65371,65381,0},{65382,65470,1},{65471,65473,0},{65474,65479,1},{65480,65481,0},{65482,65487,1},{65488,65489,0},{65490,65495,1},{65496,65497,0},{65498,65500,1},{65501,65535,0},{65536,65547,1},{65548,65548,0},{65549,65574,1},{65575,65575,0},{65576,65594,1},{65595,65595,0},{65596,65597,1},{65598,65598,0},{65599,65613,1},{65614,65615,0},{65616,65629,1},{65630,65663,0},{65664,65786,1},{65787,65855,0},{65856,65908,1},{65909,66044,0},{66045,66045,1},{66046,66175,0},{66176,66204,1},{66205,66207,0},{66208,66256,1},{66257,66271,0},{66272,66272,1},{66273,66303,0},{66304,66335,1},{66336,66348,0},{66349,66378,1},{66379,66383,0},{66384,66426,1},{66427,66431,0},{66432,66461,1},{66462,66463,0},{66464,66499,1},{66500,66503,0},{66504,66511,1},{66512,66512,0},{66513,66517,1},{66518,66559,0},{66560,66717,1},{66718,66719,0},{66720,66729,1},{66730,66735,0},{66736,66771,1},{66772,66775,0},{66776,66811,1},{66812,66815,0},{66816,66855,1},{66856,66863,0},{66864,66915,1},{66916,66927,0},{66928,66938,1},{66939,66939,0},{66940,66954,1},{66955,66955,0},{66956,66962,1},{66963,66963,0},{66964,66965,1},{66966,66966,0},{66967,66977,1},{66978,66978,0},{66979,66993,1},{66994,66994,0},{66995,67001,1},{67002,67002,0},{67003,67004,1},{67005,67071,0},{67072,67382,1},{67383,67391,0},{67392,67413,1},{67414,67423,0},{67424,67431,1},{67432,67455,0},{67456,67461,1},{67462,67462,0},{67463,67504,1},{67505,67505,0},{67506,67514,1},{67515,67583,0},{67584,67589,1},{67590,67591,0},{67592,67592,1},{67593,67593,0},{67594,67637,1},{67638,67638,0},{67639,67640,1},{67641,67643,0},{67644,67644,1},{67645,67646,0},{67647,67669,1},{67670,67679,0},{67680,67702,1},{67703,67711,0},{67712,67742,1},{67743,67807,0},{67808,67826,1},{67827,67827,0},{67828,67829,1},{67830,67839,0},{67840,67861,1},{67862,67871,0},{67872,67897,1},{67898,67967,0},{67968,68023,1},{68024,68029,0},{68030,68031,1},{68032,68095,0},{68096,68099,1},{68100,68100,0},{68101,68102,1},{68103,68107,0},{68108,68115,1},{68116,68116,0},{68117,68119,1},{68120,68120,0},{68121,68149,1},{68150,68151,0},{68152,68154,1},{68155,68158,0},{68159,68159,1},{68160,68191,0},{68192,68220,1},{68221,68223,0},{68224,68252,1},{68253,68287,0},{68288,68295,1},{68296,68296,0},{68297,68326,1},{68327,68351,0},{68352,68405,1},{68406,68415,0},{68416,68437,1},{68438,68447,0},{68448,68466,1},{68467,68479,0},{68480,68497,1},{68498,68607,0},{68608,68680,1},{68681,68735,0},{68736,68786,1},{68787,68799,0},{68800,68850,1},{68851,68863,0},{68864,68903,1},{68904,68911,0},{68912,68921,1},{68922,69247,0},{69248,69289,1},{69290,69290,0},{69291,69292,1},{69293,69295,0},{69296,69297,1},{69298,69372,0},{69373,69404,1},{69405,69414,0},{69415,69415,1},{69416,69423,0},{69424,69456,1},{69457,69487,0},{69488,69509,1},{69510,69551,0},{69552,69572,1},{69573,69599,0},{69600,69622,1},{69623,69631,0},{69632,69702,1},{69703,69733,0},{69734,69749,1},{69750,69758,0},{69759,69818,1},{69819,69825,0},{69826,69826,1},{69827,69839,0},{69840,69864,1},{69865,69871,0},{69872,69881,1},{69882,69887,0},{69888,69940,1},{69941,69941,0},{69942,69951,1},{69952,69955,0},{69956,69959,1},{69960,69967,0},{69968,70003,1},{70004,70005,0},{70006,70006,1},{70007,70015,0},{70016,70084,1},{70085,70088,0},{70089,70092,1},{70093,70093,0},{70094,70106,1},{70107,70107,0},{70108,70108,1},{70109,70143,0},{70144,70161,1},{70162,70162,0},{70163,70199,1},{70200,70205,0},{70206,70209,1},{70210,70271,0},{70272,70278,1},{70279,70279,0},{70280,70280,1},{70281,70281,0},{70282,70285,1},{70286,70286,0},{70287,70301,1},{70302,70302,0},{70303,70312,1},{70313,70319,0},{70320,70378,1},{70379,70383,0},{70384,70393,1},{70394,70399,0},{70400,70403,1},{70404,70404,0},{70405,70412,1},{70413,70414,0},{70415,70416,1},{70417,70418,0},{70419,70440,1},{70441,70441,0},{70442,70448,1},{70449,70449,0},{70450,70451,1},{70452,70452,0},{70453,70457,1},{70458,70458,0},{70459,70468,1},{70469,70470,0},{70471,70472,1},{70473,70474,0},{70475,70477,1},{70478,70479,0},{70480,70480,1},{70481,70486,0},{70487,70487,1},{70488,70492,0},{70493,70499,1},{70500,70501,0},{70502,70508,1},{70509,70511,0},{70512,70516,1},{70517,70655,0},{70656,70730,1},{70731,70735,0},{70736,70745,1},{70746,70749,0},{70750,70753,1},{70754,70783,0},{70784,70853,1},{70854,70854,0},{70855,70855,1},{70856,70863,0},{70864,70873,1},{70874,71039,0},{71040,71093,1},{71094,71095,0},{71096,71104,1},{71105,71127,0},{71128,71133,1},{71134,71167,0},{71168,71232,1},{71233,71235,0},{71236,71236,1},{71237,71247,0},{71248,71257,1},{71258,71295,0},{71296,71352,1},{71353,71359,0},{71360,71369,1},{71370,71423,0},{71424,71450,1},{71451,71452,0},{71453,71467,1},{71468,71471,0},{71472,71481,1},{71482,71487,0},{71488,71494,1},{71495,71679,0},{71680,71738,1},{71739,71839,0},{71840,71913,1},{71914,71934,0},{71935,71942,1},{71943,71944,0},{71945,71945,1},{71946,71947,0},{71948,71955,1},{71956,71956,0},{71957,71958,1},{71959,71959,0},{71960,71989,1},{71990,71990,0},{71991,71992,1},{71993,71994,0},{71995,72003,1},{72004,72015,0},{72016,72025,1},{72026,72095,0},{72096,72103,1},{72104,72105,0},{72106,72151,1},{72152,72153,0},{72154,72161,1},{72162,72162,0},{72163,72164,1},{72165,72191,0},{72192,72254,1},{72255,72262,0},{72263,72263,1},{72264,72271,0},{72272,72345,1},{72346,72348,0},{72349,72349,1},{72350,72367,0},{72368,72440,1},{72441,72703,0},{72704,72712,1},{72713,72713,0},{72714,72758,1},{72759,72759,0},{72760,72768,1},{72769,72783,0},{72784,72793,1},{72794,72817,0},{72818,72847,1},{72848,72849,0},{72850,72871,1},{72872,72872,0},{72873,72886,1},{72887,72959,0},{72960,72966,1},{72967,72967,0},{72968,72969,1},{72970,72970,0},{72971,73014,1},{73015,73017,0},{73018,73018,1},{73019,73019,0},{73020,73021,1},{73022,73022,0},{73023,73031,1},{73032,73039,0},{73040,73049,1},{73050,73055,0},{73056,73061,1},{73062,73062,0},{73063,73064,1},{73065,73065,0},{73066,73102,1},{73103,73103,0},{73104,73105,1},{73106,73106,0},{73107,73112,1},{73113,73119,0},{73120,73129,1},{73130,73439,0},{73440,73462,1},{73463,73471,0},{73472,73488,1},{73489,73489,0},{73490,73530,1},{73531,73533,0},{73534,73538,1},{73539,73551,0},{73552,73561,1},{73562,73647,0},{73648,73648,1},{73649,73727,0},{73728,74649,1},{74650,74751,0},{74752,74862,1},{74863,74879,0},{74880,75075,1},{75076,77711,0},{77712,77808,1},{77809,77823,0},{77824,78895,1},{78896,78911,0},{78912,78933,1},{78934,82943,0},{82944,83526,1},{83527,92159,0},{92160,92728,1},{92729,92735,0},{92736,92766,1},{92767,92767,0},{92768,92777,1},{92778,92783,0},{92784,92862,1},{92863,92863,0},{92864,92873,1},{92874,92879,0},{92880,92909,1},{92910,92911,0},{92912,92916,1},{92917,92927,0},{92928,92982,1},{92983,92991,0},{92992,92995,1},{92996,93007,0},{93008,93017,1},{93018,93026,0},{93027,93047,1},{93048,93052,0},{93053,93071,1},{93072,93759,0},{93760,93823,1},{93824,93951,0},{93952,94026,1},{94027,94030,0},{94031,94087,1},{94088,94094,0},{94095,94111,1},{94112,94175,0},{94176,94177,1},{94178,94178,0},{94179,94180,1},{94181,94191,0},{94192,94193,1},{94194,94207,0},{94208,100343,1},{100344,100351,0},{100352,101589,1},{101590,101631,0},{101632,101640,1},{101641,110575,0},{110576,110579,1},{110580,110580,0},{110581,110587,1},{110588,110588,0},{110589,110590,1},{110591,110591,0},{110592,110882,1},{110883,110897,0},{110898,110898,1},{110899,110927,0},{110928,110930,1},{110931,110932,0},{110933,110933,1},{110934,110947,0},{110948,110951,1},{110952,110959,0},{110960,111355,1},{111356,113663,0},{113664,113770,1},{113771,113775,0},{113776,113788,1},{113789,113791,0},{113792,113800,1},{113801,113807,0},{113808,113817,1},{113818,113820,0},{113821,113822,1},{113823,118527,0},{118528,118573,1},{118574,118575,0},{118576,118598,1},{118599,119140,0},{119141,119145,1},{119146,119148,0},{119149,119154,1},{119155,119162,0},{119163,119170,1},{119171,119172,0},{119173,119179,1},{119180,119209,0},{119210,119213,1},{119214,119361,0},{119362,119364,1},{119365,119807,0},{119808,119892,1},{119893,119893,0},{119894,119964,1},{119965,119965,0},{119966,119967,1},{119968,119969,0},{119970,119970,1},{119971,119972,0},{119973,119974,1},{119975,119976,0},{119977,119980,1},{119981,119981,0},{119982,119993,1},{119994,119994,0},{119995,119995,1},{119996,119996,0},{119997,120003,1},{120004,120004,0},{120005,120069,1},{120070,120070,0},{120071,120074,1},{120075,120076,0},{120077,120084,1},{120085,120085,0},{120086,120092,1},{120093,120093,0},{120094,120121,1},{120122,120122,0},{120123,120126,1},{120127,120127,0},{120128,120132,1},{120133,120133,0},{120134,120134,1},{120135,120137,0},{120138,120144,1},{120145,120145,0},{120146,120485,1},{120486,120487,0},{120488,120512,1},{120513,120513,0},{120514,120538,1},{120539,120539,0},{120540,120570,1},{120571,120571,0},{120572,120596,1},{120597,120597,0},{120598,120628,1},{120629,120629,0},{120630,120654,1},{120655,120655,0},{120656,120686,1},{120687,120687,0},{120688,120712,1},{120713,120713,0},{120714,120744,1},{120745,120745,0},{120746,120770,1},{120771,120771,0},{120772,120779,1},{120780,120781,0},{120782,120831,1},{120832,121343,0},{121344,121398,1},{121399,121402,0},{121403,121452,1},{121453,121460,0},{121461,121461,1},{121462,121475,0},{121476,121476,1},{121477,121498,0},{121499,121503,1},{121504,121504,0},{121505,121519,1},{121520,122623,0},{122624,122654,1},{122655,122660,0},{122661,122666,1},{122667,122879,0},{122880,122886,1},{122887,122887,0},{122888,122904,1},{122905,122906,0},{122907,122913,1},{122914,122914,0},{122915,122916,1},{122917,122917,0},{122918,122922,1},{122923,122927,0},{122928,122989,1},{122990,123022,0},{123023,123023,1},{123024,123135,0},{123136,123180,1},{123181,123183,0},{123184,123197,1},{123198,123199,0},{123200,123209,1},{123210,123213,0},{123214,123214,1},{123215,123535,0},{123536,123566,1},{123567,123583,0},{123584,123641,1},{123642,124111,0},{124112,124153,1},{124154,124895,0},{124896,124902,1},{124903,124903,0},{124904,124907,1},{124908,124908,0},{124909,124910,1},{124911,124911,0},{124912,124926,1},{124927,124927,0},{124928,125124,1},{125125,125135,0},{125136,125142,1},{125143,125183,0},{125184,125259,1},{125260,125263,0},{125264,125273,1},{125274,126463,0},{126464,126467,1},{126468,126468,0},{126469,126495,1},{126496,126496,0},{126497,126498,1},{126499,126499,0},{126500,126500,1},{126501,126502,0},{126503,126503,1},{126504,126504,0},{126505,126514,1},{126515,126515,0},{126516,126519,1},{126520,126520,0},{126521,126521,1},{126522,126522,0},{126523,126523,1},{126524,126529,0},{126530,126530,1},{126531,126534,0},{126535,126535,1},{126536,126536,0},{126537,126537,1},{126538,126538,0},{126539,126539,1},{126540,126540,0},{126541,126543,1},{126544,126544,0},{126545,126546,1},{126547,126547,0},{126548,126548,1},{126549,126550,0},{126551,126551,1},{126552,126552,0},{126553,126553,1},{126554,126554,0},{126555,126555,1},{126556,126556,0},{126557,126557,1},{126558,126558,0},{126559,126559,1},{126560,126560,0},{126561,126562,1},{126563,126563,0},{126564,126564,1},{126565,126566,0},{126567,126570,1},{126571,126571,0},{126572,126578,1},{126579,126579,0},{126580,126583,1},{126584,126584,0},{126585,126588,1},{126589,126589,0},{126590,126590,1},{126591,126591,0},{126592,126601,1},{126602,126602,0},{126603,126619,1},{126620,126624,0},{126625,126627,1},{126628,126628,0},{126629,126633,1},{126634,126634,0},{126635,126651,1},{126652,130031,0},{130032,130041,1},{130042,131071,0},{131072,173791,1},{173792,173823,0},{173824,177977,1},{177978,177983,0},{177984,178205,1},{178206,178207,0},{178208,183969,1},{183970,183983,0},{183984,191456,1},{191457,194559,0},{194560,195101,1},{195102,196607,0},{196608,201546,1},{201547,201551,0},{201552,205743,1},{205744,917759,0},{917760,917999,1},{918000,1114111,0}};
inline constexpr Run is_noncharacter[] = {{0,64975,0},{64976,65007,1},{65008,65533,0},{65534,65535,1},{65536,131069,0},{131070,131071,1},{131072,196605,0},{196606,196607,1},{196608,262141,0},{262142,262143,1},{262144,327677,0},{327678,327679,1},{327680,393213,0},{393214,393215,1},{393216,458749,0},{458750,458751,1},{458752,524285,0},{524286,524287,1},{524288,589821,0},{589822,589823,1},{589824,655357,0},{655358,655359,1},{655360,720893,0},{720894,720895,1},{720896,786429,0},{786430,786431,1},{786432,851965,0},{851966,851967,1},{851968,917501,0},{917502,917503,1},{917504,983037,0},{983038,983039,1},{983040,1048573,0},{1048574,1048575,1},{1048576,1114109,0},{1114110,1114111,1}};
inline constexpr Run is_private_use[] = {{0,57343,0},{57344,63743,1},{63744,983039,0},{983040,1048573,1},{1048574,1048575,0},{1048576,1114109,1},{1114110,1114111,0}};
inline constexpr Run is_surrogate[] = {{0,55295,0},{55296,57343,1},{57344,1114111,0}};
}
