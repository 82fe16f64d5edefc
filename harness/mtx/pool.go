// Code generated by tools/pool; DO NOT EDIT.

package mtx

// PrefixPairs lists pairs of seeds whose paths agree on exactly L steps.
var PrefixPairs = []PrefixPair{
	{45, 5838909, 524971},
	{44, 1010266, 3980607},
	{43, 4713874, 3559953},
	{42, 2424650, 1868255},
	{42, 818209, 1812366},
	{42, 5681640, 1952204},
	{41, 3776789, 5957919},
	{41, 5412421, 5887105},
	{41, 3793290, 201231},
	{41, 3182234, 177319},
	{41, 4835541, 3471450},
	{41, 507357, 4223313},
	{41, 4214993, 3147430},
	{40, 1266416, 3512653},
	{40, 3667577, 3955171},
	{40, 5556715, 1418974},
	{40, 2280486, 5500051},
	{40, 2006294, 670712},
	{40, 3602369, 1552025},
	{40, 1489602, 579335},
	{39, 3030264, 1778831},
	{39, 231155, 2338136},
	{39, 5559425, 3714140},
	{39, 5179438, 5508927},
	{39, 322656, 5952336},
	{39, 1638360, 979963},
	{39, 742416, 4909728},
	{39, 3264723, 1177590},
	{38, 1590956, 5443935},
	{38, 1379983, 3378906},
	{38, 1428558, 5552577},
	{38, 272783, 1862465},
	{38, 3378096, 1523732},
	{38, 1855996, 4533857},
	{38, 1577164, 3208903},
	{38, 5612374, 1656902},
	{37, 1702814, 475680},
	{37, 4343998, 1914460},
	{37, 2258503, 959789},
	{37, 5462545, 416340},
	{37, 2702476, 1346244},
	{37, 798282, 4106932},
	{37, 4246310, 209669},
	{37, 5898071, 2813254},
	{36, 3909682, 1771369},
	{36, 4225227, 4917765},
	{36, 5559029, 4759368},
	{36, 1694603, 1842295},
	{36, 1698121, 3317746},
	{36, 82528, 2949323},
	{36, 1013634, 3530478},
	{36, 847586, 5870369},
	{35, 3222606, 2739017},
	{35, 4782556, 2317754},
	{35, 5365020, 5274786},
	{35, 867009, 5862475},
	{35, 2016722, 4413952},
	{35, 2248012, 697479},
	{35, 3344568, 26706},
	{35, 1615372, 5105444},
	{34, 3454889, 4000172},
	{34, 1195159, 2636052},
	{34, 2064190, 330260},
	{34, 5622738, 5643761},
	{34, 4734926, 3622314},
	{34, 5760447, 4254579},
	{34, 992595, 497849},
	{34, 5947138, 3225676},
	{33, 963568, 4815233},
	{33, 102442, 4667898},
	{33, 3877673, 2180304},
	{33, 4671814, 2534195},
	{33, 4209232, 5479991},
	{33, 5559414, 4023905},
	{33, 5643579, 5210735},
	{33, 5071488, 4361782},
	{32, 5642688, 4801901},
	{32, 5705832, 1730316},
	{32, 4189450, 2469001},
	{32, 5033613, 1884549},
	{32, 175740, 2482394},
	{32, 332759, 4014051},
	{32, 5702756, 4461123},
	{32, 4716726, 348052},
	{31, 5396228, 2851353},
	{31, 2693966, 4101892},
	{31, 5870523, 5959250},
	{31, 5267292, 5674600},
	{31, 4061648, 2453203},
	{31, 2651595, 2499927},
	{31, 1104524, 4130752},
	{31, 1403000, 1075189},
	{30, 5991619, 2065680},
	{30, 5195610, 3398750},
	{30, 2392190, 1612228},
	{30, 5593800, 5396444},
	{30, 1026077, 2733784},
	{30, 1980889, 5050539},
	{30, 1758001, 3518298},
	{30, 2908239, 1346074},
	{29, 4547350, 477510},
	{29, 3679061, 1464060},
	{29, 4821154, 5744648},
	{29, 1744491, 5452728},
	{29, 1203862, 5802028},
	{29, 3067865, 5423288},
	{29, 5493771, 4171213},
	{29, 4518864, 133793},
	{28, 3678387, 3141552},
	{28, 984936, 3012849},
	{28, 4249406, 2596629},
	{28, 1779316, 3609453},
	{28, 2843939, 1976875},
	{28, 268944, 4821154},
	{28, 1255382, 2208785},
	{28, 4954935, 496436},
	{27, 5035941, 4171142},
	{27, 1501078, 1534939},
	{27, 2889474, 2143401},
	{27, 3033654, 4755271},
	{27, 4387736, 3224285},
	{27, 1578112, 3815692},
	{27, 3674959, 3911543},
	{27, 2109305, 5348488},
	{26, 4261161, 1054401},
	{26, 1121439, 5434655},
	{26, 2660836, 2426793},
	{26, 837161, 4685937},
	{26, 4198025, 2392190},
	{26, 476062, 2483961},
	{26, 4265187, 5071022},
	{26, 4471070, 4651677},
	{25, 822997, 549858},
	{25, 3506285, 5567731},
	{25, 4230811, 2822200},
	{25, 3174720, 3108700},
	{25, 2362231, 4500374},
	{25, 2325891, 4356994},
	{25, 2201764, 712174},
	{25, 1078236, 4708914},
	{24, 1378326, 5899416},
	{24, 1706449, 2844145},
	{24, 2822200, 121349},
	{24, 2212163, 5771530},
	{24, 3983644, 135154},
	{24, 4336247, 3202968},
	{24, 5434655, 3450146},
	{24, 2499585, 3720959},
	{23, 4390877, 1700946},
	{23, 5866598, 962564},
	{23, 1814238, 3506285},
	{23, 54787, 2930976},
	{23, 1225501, 1439006},
	{23, 3075200, 4649076},
	{23, 5941052, 702026},
	{23, 2692351, 4564566},
	{22, 1187290, 2496257},
	{22, 549858, 1928158},
	{22, 962564, 2136386},
	{22, 4742797, 1814238},
	{22, 1960316, 5221173},
	{22, 2930976, 1080453},
	{22, 624614, 903871},
	{22, 4330424, 2990382},
	{21, 2496257, 2037239},
	{21, 5899416, 5991619},
	{21, 1928158, 3559278},
	{21, 1484233, 4742797},
	{21, 3717968, 5238162},
	{21, 1585038, 480076},
	{21, 2050920, 624614},
	{21, 4165899, 4330424},
	{20, 1700946, 1187290},
	{20, 2065680, 822997},
	{20, 2136386, 1484233},
	{20, 5238162, 1585038},
	{20, 588409, 1960316},
	{20, 1080453, 2050920},
	{20, 2990382, 1706449},
	{20, 1439006, 723790},
	{19, 2037239, 1378326},
	{19, 5567731, 3717968},
	{19, 5221173, 54787},
	{19, 5376915, 886635},
	{19, 702026, 2692351},
	{19, 5442578, 3667093},
	{19, 5613562, 1279374},
	{19, 4641303, 3095583},
	{18, 3559278, 5866598},
	{18, 903871, 4165899},
	{18, 896388, 4230811},
	{18, 4157140, 197829},
	{18, 4497552, 310829},
	{18, 349749, 1619360},
	{18, 2081558, 2154846},
	{18, 4078739, 1115533},
	{17, 480076, 588409},
	{17, 511093, 2362231},
	{17, 4564634, 1997167},
	{17, 254253, 2177152},
	{17, 595615, 5035941},
	{17, 1612228, 3187823},
	{17, 2458913, 1014336},
	{17, 3406288, 3360710},
	{16, 2532214, 3075200},
	{16, 1707322, 3165343},
	{16, 2623027, 5782816},
	{16, 3981034, 2404977},
	{16, 1954547, 1212568},
	{16, 5396444, 2251792},
	{16, 220575, 3887647},
	{16, 1832204, 2511595},
	{15, 4037123, 4601490},
	{15, 1276943, 2982334},
	{15, 4810163, 309487},
	{15, 3546268, 3267603},
	{15, 3673427, 5410852},
	{15, 5818919, 3400508},
	{15, 3429689, 3138434},
	{15, 2927841, 484411},
	{14, 5790242, 1792140},
	{14, 5398497, 3786385},
	{14, 1851780, 5744097},
	{14, 1575408, 3967763},
	{14, 4874217, 958404},
	{14, 3074983, 496109},
	{14, 3853071, 2808187},
	{14, 1388608, 4793487},
	{13, 2510010, 5481162},
	{13, 5698209, 5143625},
	{13, 934689, 3546114},
	{13, 8953, 1376382},
	{13, 79028, 5489325},
	{13, 39671, 3024302},
	{13, 2473118, 3983378},
	{13, 5983695, 5793002},
	{12, 3796421, 348086},
	{12, 5129766, 1907243},
	{12, 2820700, 11277},
	{12, 5344875, 2548356},
	{12, 3716544, 995080},
	{12, 2672390, 2643550},
	{12, 4119404, 819326},
	{12, 4517870, 4686889},
	{11, 4810499, 2800709},
	{11, 3448982, 3648428},
	{11, 104913, 4702508},
	{11, 2523139, 2114110},
	{11, 1951327, 5144540},
	{11, 452390, 692009},
	{11, 2710791, 2746557},
	{11, 1712816, 3346688},
	{10, 1202533, 4721178},
	{10, 3349636, 5510659},
	{10, 4907965, 3921935},
	{10, 2928889, 2811840},
	{10, 14205, 3183416},
	{10, 5180865, 2641344},
	{10, 2605851, 1159858},
	{10, 3430351, 89185},
	{9, 2218558, 4178461},
	{9, 14290, 3252462},
	{9, 1046118, 4044084},
	{9, 537344, 5129591},
	{9, 4545200, 2026930},
	{9, 1706573, 2700654},
	{9, 2240839, 1519897},
	{9, 4099109, 3133922},
	{8, 3797269, 4260152},
	{8, 923863, 4899474},
	{8, 5084875, 3323318},
	{8, 2257406, 4447427},
	{8, 3996049, 780567},
	{8, 3708806, 1209049},
	{8, 1269581, 1685987},
	{8, 1459854, 414237},
	{7, 1655648, 1449020},
	{7, 1044854, 3571960},
	{7, 1730936, 2059959},
	{7, 3315141, 2491400},
	{7, 4461053, 5642102},
	{7, 3800561, 2784255},
	{7, 1503574, 2621206},
	{7, 5985980, 1833222},
	{6, 1022341, 4976638},
	{6, 3462531, 3399126},
	{6, 2151923, 4601072},
	{6, 1378646, 913768},
	{6, 2452301, 3986730},
	{6, 4707240, 4037383},
	{6, 977051, 5957264},
	{6, 1669713, 5225166},
}

// Bundle lists seeds whose paths share their first 12 steps.
var Bundle = []uint32{
	791513,
	2471834,
	5156585,
	1840517,
	4219141,
	3809152,
	1068576,
	3841321,
	5072222,
	4643474,
	4726493,
	5413781,
	148607,
	1274420,
	3956125,
	3533830,
	3416930,
	3021202,
	4893771,
	2908634,
	5361174,
	4341597,
	5467785,
	3846486,
	1815849,
	944483,
	2495012,
	371972,
	103930,
	4901053,
	1953158,
	1157073,
	5186764,
	310293,
	5296617,
	2073998,
	3823994,
	594960,
	39624,
	3660091,
	2819816,
	1854292,
	2865515,
	2158143,
	5835818,
	1629887,
	125758,
	5892354,
	4936754,
	2594190,
	784316,
	2364780,
	4226045,
	101530,
	1214089,
	5075514,
	2339195,
	3511185,
	2988227,
	3916261,
	4841868,
	4606219,
	2784201,
	3641561,
}
