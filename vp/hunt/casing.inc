// generated by mkcasing.py from the Unicode Character Database 15.0.0
static const unsigned ref_upper[][4] = {
{97,65,0,0},{98,66,0,0},{99,67,0,0},{100,68,0,0},{101,69,0,0},{102,70,0,0},{103,71,0,0},{104,72,0,0},
{105,73,0,0},{106,74,0,0},{107,75,0,0},{108,76,0,0},{109,77,0,0},{110,78,0,0},{111,79,0,0},{112,80,0,0},
{113,81,0,0},{114,82,0,0},{115,83,0,0},{116,84,0,0},{117,85,0,0},{118,86,0,0},{119,87,0,0},{120,88,0,0},
{121,89,0,0},{122,90,0,0},{181,924,0,0},{223,83,83,0},{224,192,0,0},{225,193,0,0},{226,194,0,0},{227,195,0,0},
{228,196,0,0},{229,197,0,0},{230,198,0,0},{231,199,0,0},{232,200,0,0},{233,201,0,0},{234,202,0,0},{235,203,0,0},
{236,204,0,0},{237,205,0,0},{238,206,0,0},{239,207,0,0},{240,208,0,0},{241,209,0,0},{242,210,0,0},{243,211,0,0},
{244,212,0,0},{245,213,0,0},{246,214,0,0},{248,216,0,0},{249,217,0,0},{250,218,0,0},{251,219,0,0},{252,220,0,0},
{253,221,0,0},{254,222,0,0},{255,376,0,0},{257,256,0,0},{259,258,0,0},{261,260,0,0},{263,262,0,0},{265,264,0,0},
{267,266,0,0},{269,268,0,0},{271,270,0,0},{273,272,0,0},{275,274,0,0},{277,276,0,0},{279,278,0,0},{281,280,0,0},
{283,282,0,0},{285,284,0,0},{287,286,0,0},{289,288,0,0},{291,290,0,0},{293,292,0,0},{295,294,0,0},{297,296,0,0},
{299,298,0,0},{301,300,0,0},{303,302,0,0},{305,73,0,0},{307,306,0,0},{309,308,0,0},{311,310,0,0},{314,313,0,0},
{316,315,0,0},{318,317,0,0},{320,319,0,0},{322,321,0,0},{324,323,0,0},{326,325,0,0},{328,327,0,0},{329,700,78,0},
{331,330,0,0},{333,332,0,0},{335,334,0,0},{337,336,0,0},{339,338,0,0},{341,340,0,0},{343,342,0,0},{345,344,0,0},
{347,346,0,0},{349,348,0,0},{351,350,0,0},{353,352,0,0},{355,354,0,0},{357,356,0,0},{359,358,0,0},{361,360,0,0},
{363,362,0,0},{365,364,0,0},{367,366,0,0},{369,368,0,0},{371,370,0,0},{373,372,0,0},{375,374,0,0},{378,377,0,0},
{380,379,0,0},{382,381,0,0},{383,83,0,0},{384,579,0,0},{387,386,0,0},{389,388,0,0},{392,391,0,0},{396,395,0,0},
{402,401,0,0},{405,502,0,0},{409,408,0,0},{410,573,0,0},{414,544,0,0},{417,416,0,0},{419,418,0,0},{421,420,0,0},
{424,423,0,0},{429,428,0,0},{432,431,0,0},{436,435,0,0},{438,437,0,0},{441,440,0,0},{445,444,0,0},{447,503,0,0},
{453,452,0,0},{454,452,0,0},{456,455,0,0},{457,455,0,0},{459,458,0,0},{460,458,0,0},{462,461,0,0},{464,463,0,0},
{466,465,0,0},{468,467,0,0},{470,469,0,0},{472,471,0,0},{474,473,0,0},{476,475,0,0},{477,398,0,0},{479,478,0,0},
{481,480,0,0},{483,482,0,0},{485,484,0,0},{487,486,0,0},{489,488,0,0},{491,490,0,0},{493,492,0,0},{495,494,0,0},
{496,74,780,0},{498,497,0,0},{499,497,0,0},{501,500,0,0},{505,504,0,0},{507,506,0,0},{509,508,0,0},{511,510,0,0},
{513,512,0,0},{515,514,0,0},{517,516,0,0},{519,518,0,0},{521,520,0,0},{523,522,0,0},{525,524,0,0},{527,526,0,0},
{529,528,0,0},{531,530,0,0},{533,532,0,0},{535,534,0,0},{537,536,0,0},{539,538,0,0},{541,540,0,0},{543,542,0,0},
{547,546,0,0},{549,548,0,0},{551,550,0,0},{553,552,0,0},{555,554,0,0},{557,556,0,0},{559,558,0,0},{561,560,0,0},
{563,562,0,0},{572,571,0,0},{575,11390,0,0},{576,11391,0,0},{578,577,0,0},{583,582,0,0},{585,584,0,0},{587,586,0,0},
{589,588,0,0},{591,590,0,0},{592,11375,0,0},{593,11373,0,0},{594,11376,0,0},{595,385,0,0},{596,390,0,0},{598,393,0,0},
{599,394,0,0},{601,399,0,0},{603,400,0,0},{604,42923,0,0},{608,403,0,0},{609,42924,0,0},{611,404,0,0},{613,42893,0,0},
{614,42922,0,0},{616,407,0,0},{617,406,0,0},{618,42926,0,0},{619,11362,0,0},{620,42925,0,0},{623,412,0,0},{625,11374,0,0},
{626,413,0,0},{629,415,0,0},{637,11364,0,0},{640,422,0,0},{642,42949,0,0},{643,425,0,0},{647,42929,0,0},{648,430,0,0},
{649,580,0,0},{650,433,0,0},{651,434,0,0},{652,581,0,0},{658,439,0,0},{669,42930,0,0},{670,42928,0,0},{837,921,0,0},
{881,880,0,0},{883,882,0,0},{887,886,0,0},{891,1021,0,0},{892,1022,0,0},{893,1023,0,0},{912,921,776,769},{940,902,0,0},
{941,904,0,0},{942,905,0,0},{943,906,0,0},{944,933,776,769},{945,913,0,0},{946,914,0,0},{947,915,0,0},{948,916,0,0},
{949,917,0,0},{950,918,0,0},{951,919,0,0},{952,920,0,0},{953,921,0,0},{954,922,0,0},{955,923,0,0},{956,924,0,0},
{957,925,0,0},{958,926,0,0},{959,927,0,0},{960,928,0,0},{961,929,0,0},{962,931,0,0},{963,931,0,0},{964,932,0,0},
{965,933,0,0},{966,934,0,0},{967,935,0,0},{968,936,0,0},{969,937,0,0},{970,938,0,0},{971,939,0,0},{972,908,0,0},
{973,910,0,0},{974,911,0,0},{976,914,0,0},{977,920,0,0},{981,934,0,0},{982,928,0,0},{983,975,0,0},{985,984,0,0},
{987,986,0,0},{989,988,0,0},{991,990,0,0},{993,992,0,0},{995,994,0,0},{997,996,0,0},{999,998,0,0},{1001,1000,0,0},
{1003,1002,0,0},{1005,1004,0,0},{1007,1006,0,0},{1008,922,0,0},{1009,929,0,0},{1010,1017,0,0},{1011,895,0,0},{1013,917,0,0},
{1016,1015,0,0},{1019,1018,0,0},{1072,1040,0,0},{1073,1041,0,0},{1074,1042,0,0},{1075,1043,0,0},{1076,1044,0,0},{1077,1045,0,0},
{1078,1046,0,0},{1079,1047,0,0},{1080,1048,0,0},{1081,1049,0,0},{1082,1050,0,0},{1083,1051,0,0},{1084,1052,0,0},{1085,1053,0,0},
{1086,1054,0,0},{1087,1055,0,0},{1088,1056,0,0},{1089,1057,0,0},{1090,1058,0,0},{1091,1059,0,0},{1092,1060,0,0},{1093,1061,0,0},
{1094,1062,0,0},{1095,1063,0,0},{1096,1064,0,0},{1097,1065,0,0},{1098,1066,0,0},{1099,1067,0,0},{1100,1068,0,0},{1101,1069,0,0},
{1102,1070,0,0},{1103,1071,0,0},{1104,1024,0,0},{1105,1025,0,0},{1106,1026,0,0},{1107,1027,0,0},{1108,1028,0,0},{1109,1029,0,0},
{1110,1030,0,0},{1111,1031,0,0},{1112,1032,0,0},{1113,1033,0,0},{1114,1034,0,0},{1115,1035,0,0},{1116,1036,0,0},{1117,1037,0,0},
{1118,1038,0,0},{1119,1039,0,0},{1121,1120,0,0},{1123,1122,0,0},{1125,1124,0,0},{1127,1126,0,0},{1129,1128,0,0},{1131,1130,0,0},
{1133,1132,0,0},{1135,1134,0,0},{1137,1136,0,0},{1139,1138,0,0},{1141,1140,0,0},{1143,1142,0,0},{1145,1144,0,0},{1147,1146,0,0},
{1149,1148,0,0},{1151,1150,0,0},{1153,1152,0,0},{1163,1162,0,0},{1165,1164,0,0},{1167,1166,0,0},{1169,1168,0,0},{1171,1170,0,0},
{1173,1172,0,0},{1175,1174,0,0},{1177,1176,0,0},{1179,1178,0,0},{1181,1180,0,0},{1183,1182,0,0},{1185,1184,0,0},{1187,1186,0,0},
{1189,1188,0,0},{1191,1190,0,0},{1193,1192,0,0},{1195,1194,0,0},{1197,1196,0,0},{1199,1198,0,0},{1201,1200,0,0},{1203,1202,0,0},
{1205,1204,0,0},{1207,1206,0,0},{1209,1208,0,0},{1211,1210,0,0},{1213,1212,0,0},{1215,1214,0,0},{1218,1217,0,0},{1220,1219,0,0},
{1222,1221,0,0},{1224,1223,0,0},{1226,1225,0,0},{1228,1227,0,0},{1230,1229,0,0},{1231,1216,0,0},{1233,1232,0,0},{1235,1234,0,0},
{1237,1236,0,0},{1239,1238,0,0},{1241,1240,0,0},{1243,1242,0,0},{1245,1244,0,0},{1247,1246,0,0},{1249,1248,0,0},{1251,1250,0,0},
{1253,1252,0,0},{1255,1254,0,0},{1257,1256,0,0},{1259,1258,0,0},{1261,1260,0,0},{1263,1262,0,0},{1265,1264,0,0},{1267,1266,0,0},
{1269,1268,0,0},{1271,1270,0,0},{1273,1272,0,0},{1275,1274,0,0},{1277,1276,0,0},{1279,1278,0,0},{1281,1280,0,0},{1283,1282,0,0},
{1285,1284,0,0},{1287,1286,0,0},{1289,1288,0,0},{1291,1290,0,0},{1293,1292,0,0},{1295,1294,0,0},{1297,1296,0,0},{1299,1298,0,0},
{1301,1300,0,0},{1303,1302,0,0},{1305,1304,0,0},{1307,1306,0,0},{1309,1308,0,0},{1311,1310,0,0},{1313,1312,0,0},{1315,1314,0,0},
{1317,1316,0,0},{1319,1318,0,0},{1321,1320,0,0},{1323,1322,0,0},{1325,1324,0,0},{1327,1326,0,0},{1377,1329,0,0},{1378,1330,0,0},
{1379,1331,0,0},{1380,1332,0,0},{1381,1333,0,0},{1382,1334,0,0},{1383,1335,0,0},{1384,1336,0,0},{1385,1337,0,0},{1386,1338,0,0},
{1387,1339,0,0},{1388,1340,0,0},{1389,1341,0,0},{1390,1342,0,0},{1391,1343,0,0},{1392,1344,0,0},{1393,1345,0,0},{1394,1346,0,0},
{1395,1347,0,0},{1396,1348,0,0},{1397,1349,0,0},{1398,1350,0,0},{1399,1351,0,0},{1400,1352,0,0},{1401,1353,0,0},{1402,1354,0,0},
{1403,1355,0,0},{1404,1356,0,0},{1405,1357,0,0},{1406,1358,0,0},{1407,1359,0,0},{1408,1360,0,0},{1409,1361,0,0},{1410,1362,0,0},
{1411,1363,0,0},{1412,1364,0,0},{1413,1365,0,0},{1414,1366,0,0},{1415,1333,1362,0},{4304,7312,0,0},{4305,7313,0,0},{4306,7314,0,0},
{4307,7315,0,0},{4308,7316,0,0},{4309,7317,0,0},{4310,7318,0,0},{4311,7319,0,0},{4312,7320,0,0},{4313,7321,0,0},{4314,7322,0,0},
{4315,7323,0,0},{4316,7324,0,0},{4317,7325,0,0},{4318,7326,0,0},{4319,7327,0,0},{4320,7328,0,0},{4321,7329,0,0},{4322,7330,0,0},
{4323,7331,0,0},{4324,7332,0,0},{4325,7333,0,0},{4326,7334,0,0},{4327,7335,0,0},{4328,7336,0,0},{4329,7337,0,0},{4330,7338,0,0},
{4331,7339,0,0},{4332,7340,0,0},{4333,7341,0,0},{4334,7342,0,0},{4335,7343,0,0},{4336,7344,0,0},{4337,7345,0,0},{4338,7346,0,0},
{4339,7347,0,0},{4340,7348,0,0},{4341,7349,0,0},{4342,7350,0,0},{4343,7351,0,0},{4344,7352,0,0},{4345,7353,0,0},{4346,7354,0,0},
{4349,7357,0,0},{4350,7358,0,0},{4351,7359,0,0},{5112,5104,0,0},{5113,5105,0,0},{5114,5106,0,0},{5115,5107,0,0},{5116,5108,0,0},
{5117,5109,0,0},{7296,1042,0,0},{7297,1044,0,0},{7298,1054,0,0},{7299,1057,0,0},{7300,1058,0,0},{7301,1058,0,0},{7302,1066,0,0},
{7303,1122,0,0},{7304,42570,0,0},{7545,42877,0,0},{7549,11363,0,0},{7566,42950,0,0},{7681,7680,0,0},{7683,7682,0,0},{7685,7684,0,0},
{7687,7686,0,0},{7689,7688,0,0},{7691,7690,0,0},{7693,7692,0,0},{7695,7694,0,0},{7697,7696,0,0},{7699,7698,0,0},{7701,7700,0,0},
{7703,7702,0,0},{7705,7704,0,0},{7707,7706,0,0},{7709,7708,0,0},{7711,7710,0,0},{7713,7712,0,0},{7715,7714,0,0},{7717,7716,0,0},
{7719,7718,0,0},{7721,7720,0,0},{7723,7722,0,0},{7725,7724,0,0},{7727,7726,0,0},{7729,7728,0,0},{7731,7730,0,0},{7733,7732,0,0},
{7735,7734,0,0},{7737,7736,0,0},{7739,7738,0,0},{7741,7740,0,0},{7743,7742,0,0},{7745,7744,0,0},{7747,7746,0,0},{7749,7748,0,0},
{7751,7750,0,0},{7753,7752,0,0},{7755,7754,0,0},{7757,7756,0,0},{7759,7758,0,0},{7761,7760,0,0},{7763,7762,0,0},{7765,7764,0,0},
{7767,7766,0,0},{7769,7768,0,0},{7771,7770,0,0},{7773,7772,0,0},{7775,7774,0,0},{7777,7776,0,0},{7779,7778,0,0},{7781,7780,0,0},
{7783,7782,0,0},{7785,7784,0,0},{7787,7786,0,0},{7789,7788,0,0},{7791,7790,0,0},{7793,7792,0,0},{7795,7794,0,0},{7797,7796,0,0},
{7799,7798,0,0},{7801,7800,0,0},{7803,7802,0,0},{7805,7804,0,0},{7807,7806,0,0},{7809,7808,0,0},{7811,7810,0,0},{7813,7812,0,0},
{7815,7814,0,0},{7817,7816,0,0},{7819,7818,0,0},{7821,7820,0,0},{7823,7822,0,0},{7825,7824,0,0},{7827,7826,0,0},{7829,7828,0,0},
{7830,72,817,0},{7831,84,776,0},{7832,87,778,0},{7833,89,778,0},{7834,65,702,0},{7835,7776,0,0},{7841,7840,0,0},{7843,7842,0,0},
{7845,7844,0,0},{7847,7846,0,0},{7849,7848,0,0},{7851,7850,0,0},{7853,7852,0,0},{7855,7854,0,0},{7857,7856,0,0},{7859,7858,0,0},
{7861,7860,0,0},{7863,7862,0,0},{7865,7864,0,0},{7867,7866,0,0},{7869,7868,0,0},{7871,7870,0,0},{7873,7872,0,0},{7875,7874,0,0},
{7877,7876,0,0},{7879,7878,0,0},{7881,7880,0,0},{7883,7882,0,0},{7885,7884,0,0},{7887,7886,0,0},{7889,7888,0,0},{7891,7890,0,0},
{7893,7892,0,0},{7895,7894,0,0},{7897,7896,0,0},{7899,7898,0,0},{7901,7900,0,0},{7903,7902,0,0},{7905,7904,0,0},{7907,7906,0,0},
{7909,7908,0,0},{7911,7910,0,0},{7913,7912,0,0},{7915,7914,0,0},{7917,7916,0,0},{7919,7918,0,0},{7921,7920,0,0},{7923,7922,0,0},
{7925,7924,0,0},{7927,7926,0,0},{7929,7928,0,0},{7931,7930,0,0},{7933,7932,0,0},{7935,7934,0,0},{7936,7944,0,0},{7937,7945,0,0},
{7938,7946,0,0},{7939,7947,0,0},{7940,7948,0,0},{7941,7949,0,0},{7942,7950,0,0},{7943,7951,0,0},{7952,7960,0,0},{7953,7961,0,0},
{7954,7962,0,0},{7955,7963,0,0},{7956,7964,0,0},{7957,7965,0,0},{7968,7976,0,0},{7969,7977,0,0},{7970,7978,0,0},{7971,7979,0,0},
{7972,7980,0,0},{7973,7981,0,0},{7974,7982,0,0},{7975,7983,0,0},{7984,7992,0,0},{7985,7993,0,0},{7986,7994,0,0},{7987,7995,0,0},
{7988,7996,0,0},{7989,7997,0,0},{7990,7998,0,0},{7991,7999,0,0},{8000,8008,0,0},{8001,8009,0,0},{8002,8010,0,0},{8003,8011,0,0},
{8004,8012,0,0},{8005,8013,0,0},{8016,933,787,0},{8017,8025,0,0},{8018,933,787,768},{8019,8027,0,0},{8020,933,787,769},{8021,8029,0,0},
{8022,933,787,834},{8023,8031,0,0},{8032,8040,0,0},{8033,8041,0,0},{8034,8042,0,0},{8035,8043,0,0},{8036,8044,0,0},{8037,8045,0,0},
{8038,8046,0,0},{8039,8047,0,0},{8048,8122,0,0},{8049,8123,0,0},{8050,8136,0,0},{8051,8137,0,0},{8052,8138,0,0},{8053,8139,0,0},
{8054,8154,0,0},{8055,8155,0,0},{8056,8184,0,0},{8057,8185,0,0},{8058,8170,0,0},{8059,8171,0,0},{8060,8186,0,0},{8061,8187,0,0},
{8064,7944,921,0},{8065,7945,921,0},{8066,7946,921,0},{8067,7947,921,0},{8068,7948,921,0},{8069,7949,921,0},{8070,7950,921,0},{8071,7951,921,0},
{8072,7944,921,0},{8073,7945,921,0},{8074,7946,921,0},{8075,7947,921,0},{8076,7948,921,0},{8077,7949,921,0},{8078,7950,921,0},{8079,7951,921,0},
{8080,7976,921,0},{8081,7977,921,0},{8082,7978,921,0},{8083,7979,921,0},{8084,7980,921,0},{8085,7981,921,0},{8086,7982,921,0},{8087,7983,921,0},
{8088,7976,921,0},{8089,7977,921,0},{8090,7978,921,0},{8091,7979,921,0},{8092,7980,921,0},{8093,7981,921,0},{8094,7982,921,0},{8095,7983,921,0},
{8096,8040,921,0},{8097,8041,921,0},{8098,8042,921,0},{8099,8043,921,0},{8100,8044,921,0},{8101,8045,921,0},{8102,8046,921,0},{8103,8047,921,0},
{8104,8040,921,0},{8105,8041,921,0},{8106,8042,921,0},{8107,8043,921,0},{8108,8044,921,0},{8109,8045,921,0},{8110,8046,921,0},{8111,8047,921,0},
{8112,8120,0,0},{8113,8121,0,0},{8114,8122,921,0},{8115,913,921,0},{8116,902,921,0},{8118,913,834,0},{8119,913,834,921},{8124,913,921,0},
{8126,921,0,0},{8130,8138,921,0},{8131,919,921,0},{8132,905,921,0},{8134,919,834,0},{8135,919,834,921},{8140,919,921,0},{8144,8152,0,0},
{8145,8153,0,0},{8146,921,776,768},{8147,921,776,769},{8150,921,834,0},{8151,921,776,834},{8160,8168,0,0},{8161,8169,0,0},{8162,933,776,768},
{8163,933,776,769},{8164,929,787,0},{8165,8172,0,0},{8166,933,834,0},{8167,933,776,834},{8178,8186,921,0},{8179,937,921,0},{8180,911,921,0},
{8182,937,834,0},{8183,937,834,921},{8188,937,921,0},{8526,8498,0,0},{8560,8544,0,0},{8561,8545,0,0},{8562,8546,0,0},{8563,8547,0,0},
{8564,8548,0,0},{8565,8549,0,0},{8566,8550,0,0},{8567,8551,0,0},{8568,8552,0,0},{8569,8553,0,0},{8570,8554,0,0},{8571,8555,0,0},
{8572,8556,0,0},{8573,8557,0,0},{8574,8558,0,0},{8575,8559,0,0},{8580,8579,0,0},{9424,9398,0,0},{9425,9399,0,0},{9426,9400,0,0},
{9427,9401,0,0},{9428,9402,0,0},{9429,9403,0,0},{9430,9404,0,0},{9431,9405,0,0},{9432,9406,0,0},{9433,9407,0,0},{9434,9408,0,0},
{9435,9409,0,0},{9436,9410,0,0},{9437,9411,0,0},{9438,9412,0,0},{9439,9413,0,0},{9440,9414,0,0},{9441,9415,0,0},{9442,9416,0,0},
{9443,9417,0,0},{9444,9418,0,0},{9445,9419,0,0},{9446,9420,0,0},{9447,9421,0,0},{9448,9422,0,0},{9449,9423,0,0},{11312,11264,0,0},
{11313,11265,0,0},{11314,11266,0,0},{11315,11267,0,0},{11316,11268,0,0},{11317,11269,0,0},{11318,11270,0,0},{11319,11271,0,0},{11320,11272,0,0},
{11321,11273,0,0},{11322,11274,0,0},{11323,11275,0,0},{11324,11276,0,0},{11325,11277,0,0},{11326,11278,0,0},{11327,11279,0,0},{11328,11280,0,0},
{11329,11281,0,0},{11330,11282,0,0},{11331,11283,0,0},{11332,11284,0,0},{11333,11285,0,0},{11334,11286,0,0},{11335,11287,0,0},{11336,11288,0,0},
{11337,11289,0,0},{11338,11290,0,0},{11339,11291,0,0},{11340,11292,0,0},{11341,11293,0,0},{11342,11294,0,0},{11343,11295,0,0},{11344,11296,0,0},
{11345,11297,0,0},{11346,11298,0,0},{11347,11299,0,0},{11348,11300,0,0},{11349,11301,0,0},{11350,11302,0,0},{11351,11303,0,0},{11352,11304,0,0},
{11353,11305,0,0},{11354,11306,0,0},{11355,11307,0,0},{11356,11308,0,0},{11357,11309,0,0},{11358,11310,0,0},{11359,11311,0,0},{11361,11360,0,0},
{11365,570,0,0},{11366,574,0,0},{11368,11367,0,0},{11370,11369,0,0},{11372,11371,0,0},{11379,11378,0,0},{11382,11381,0,0},{11393,11392,0,0},
{11395,11394,0,0},{11397,11396,0,0},{11399,11398,0,0},{11401,11400,0,0},{11403,11402,0,0},{11405,11404,0,0},{11407,11406,0,0},{11409,11408,0,0},
{11411,11410,0,0},{11413,11412,0,0},{11415,11414,0,0},{11417,11416,0,0},{11419,11418,0,0},{11421,11420,0,0},{11423,11422,0,0},{11425,11424,0,0},
{11427,11426,0,0},{11429,11428,0,0},{11431,11430,0,0},{11433,11432,0,0},{11435,11434,0,0},{11437,11436,0,0},{11439,11438,0,0},{11441,11440,0,0},
{11443,11442,0,0},{11445,11444,0,0},{11447,11446,0,0},{11449,11448,0,0},{11451,11450,0,0},{11453,11452,0,0},{11455,11454,0,0},{11457,11456,0,0},
{11459,11458,0,0},{11461,11460,0,0},{11463,11462,0,0},{11465,11464,0,0},{11467,11466,0,0},{11469,11468,0,0},{11471,11470,0,0},{11473,11472,0,0},
{11475,11474,0,0},{11477,11476,0,0},{11479,11478,0,0},{11481,11480,0,0},{11483,11482,0,0},{11485,11484,0,0},{11487,11486,0,0},{11489,11488,0,0},
{11491,11490,0,0},{11500,11499,0,0},{11502,11501,0,0},{11507,11506,0,0},{11520,4256,0,0},{11521,4257,0,0},{11522,4258,0,0},{11523,4259,0,0},
{11524,4260,0,0},{11525,4261,0,0},{11526,4262,0,0},{11527,4263,0,0},{11528,4264,0,0},{11529,4265,0,0},{11530,4266,0,0},{11531,4267,0,0},
{11532,4268,0,0},{11533,4269,0,0},{11534,4270,0,0},{11535,4271,0,0},{11536,4272,0,0},{11537,4273,0,0},{11538,4274,0,0},{11539,4275,0,0},
{11540,4276,0,0},{11541,4277,0,0},{11542,4278,0,0},{11543,4279,0,0},{11544,4280,0,0},{11545,4281,0,0},{11546,4282,0,0},{11547,4283,0,0},
{11548,4284,0,0},{11549,4285,0,0},{11550,4286,0,0},{11551,4287,0,0},{11552,4288,0,0},{11553,4289,0,0},{11554,4290,0,0},{11555,4291,0,0},
{11556,4292,0,0},{11557,4293,0,0},{11559,4295,0,0},{11565,4301,0,0},{42561,42560,0,0},{42563,42562,0,0},{42565,42564,0,0},{42567,42566,0,0},
{42569,42568,0,0},{42571,42570,0,0},{42573,42572,0,0},{42575,42574,0,0},{42577,42576,0,0},{42579,42578,0,0},{42581,42580,0,0},{42583,42582,0,0},
{42585,42584,0,0},{42587,42586,0,0},{42589,42588,0,0},{42591,42590,0,0},{42593,42592,0,0},{42595,42594,0,0},{42597,42596,0,0},{42599,42598,0,0},
{42601,42600,0,0},{42603,42602,0,0},{42605,42604,0,0},{42625,42624,0,0},{42627,42626,0,0},{42629,42628,0,0},{42631,42630,0,0},{42633,42632,0,0},
{42635,42634,0,0},{42637,42636,0,0},{42639,42638,0,0},{42641,42640,0,0},{42643,42642,0,0},{42645,42644,0,0},{42647,42646,0,0},{42649,42648,0,0},
{42651,42650,0,0},{42787,42786,0,0},{42789,42788,0,0},{42791,42790,0,0},{42793,42792,0,0},{42795,42794,0,0},{42797,42796,0,0},{42799,42798,0,0},
{42803,42802,0,0},{42805,42804,0,0},{42807,42806,0,0},{42809,42808,0,0},{42811,42810,0,0},{42813,42812,0,0},{42815,42814,0,0},{42817,42816,0,0},
{42819,42818,0,0},{42821,42820,0,0},{42823,42822,0,0},{42825,42824,0,0},{42827,42826,0,0},{42829,42828,0,0},{42831,42830,0,0},{42833,42832,0,0},
{42835,42834,0,0},{42837,42836,0,0},{42839,42838,0,0},{42841,42840,0,0},{42843,42842,0,0},{42845,42844,0,0},{42847,42846,0,0},{42849,42848,0,0},
{42851,42850,0,0},{42853,42852,0,0},{42855,42854,0,0},{42857,42856,0,0},{42859,42858,0,0},{42861,42860,0,0},{42863,42862,0,0},{42874,42873,0,0},
{42876,42875,0,0},{42879,42878,0,0},{42881,42880,0,0},{42883,42882,0,0},{42885,42884,0,0},{42887,42886,0,0},{42892,42891,0,0},{42897,42896,0,0},
{42899,42898,0,0},{42900,42948,0,0},{42903,42902,0,0},{42905,42904,0,0},{42907,42906,0,0},{42909,42908,0,0},{42911,42910,0,0},{42913,42912,0,0},
{42915,42914,0,0},{42917,42916,0,0},{42919,42918,0,0},{42921,42920,0,0},{42933,42932,0,0},{42935,42934,0,0},{42937,42936,0,0},{42939,42938,0,0},
{42941,42940,0,0},{42943,42942,0,0},{42945,42944,0,0},{42947,42946,0,0},{42952,42951,0,0},{42954,42953,0,0},{42961,42960,0,0},{42967,42966,0,0},
{42969,42968,0,0},{42998,42997,0,0},{43859,42931,0,0},{43888,5024,0,0},{43889,5025,0,0},{43890,5026,0,0},{43891,5027,0,0},{43892,5028,0,0},
{43893,5029,0,0},{43894,5030,0,0},{43895,5031,0,0},{43896,5032,0,0},{43897,5033,0,0},{43898,5034,0,0},{43899,5035,0,0},{43900,5036,0,0},
{43901,5037,0,0},{43902,5038,0,0},{43903,5039,0,0},{43904,5040,0,0},{43905,5041,0,0},{43906,5042,0,0},{43907,5043,0,0},{43908,5044,0,0},
{43909,5045,0,0},{43910,5046,0,0},{43911,5047,0,0},{43912,5048,0,0},{43913,5049,0,0},{43914,5050,0,0},{43915,5051,0,0},{43916,5052,0,0},
{43917,5053,0,0},{43918,5054,0,0},{43919,5055,0,0},{43920,5056,0,0},{43921,5057,0,0},{43922,5058,0,0},{43923,5059,0,0},{43924,5060,0,0},
{43925,5061,0,0},{43926,5062,0,0},{43927,5063,0,0},{43928,5064,0,0},{43929,5065,0,0},{43930,5066,0,0},{43931,5067,0,0},{43932,5068,0,0},
{43933,5069,0,0},{43934,5070,0,0},{43935,5071,0,0},{43936,5072,0,0},{43937,5073,0,0},{43938,5074,0,0},{43939,5075,0,0},{43940,5076,0,0},
{43941,5077,0,0},{43942,5078,0,0},{43943,5079,0,0},{43944,5080,0,0},{43945,5081,0,0},{43946,5082,0,0},{43947,5083,0,0},{43948,5084,0,0},
{43949,5085,0,0},{43950,5086,0,0},{43951,5087,0,0},{43952,5088,0,0},{43953,5089,0,0},{43954,5090,0,0},{43955,5091,0,0},{43956,5092,0,0},
{43957,5093,0,0},{43958,5094,0,0},{43959,5095,0,0},{43960,5096,0,0},{43961,5097,0,0},{43962,5098,0,0},{43963,5099,0,0},{43964,5100,0,0},
{43965,5101,0,0},{43966,5102,0,0},{43967,5103,0,0},{64256,70,70,0},{64257,70,73,0},{64258,70,76,0},{64259,70,70,73},{64260,70,70,76},
{64261,83,84,0},{64262,83,84,0},{64275,1348,1350,0},{64276,1348,1333,0},{64277,1348,1339,0},{64278,1358,1350,0},{64279,1348,1341,0},{65345,65313,0,0},
{65346,65314,0,0},{65347,65315,0,0},{65348,65316,0,0},{65349,65317,0,0},{65350,65318,0,0},{65351,65319,0,0},{65352,65320,0,0},{65353,65321,0,0},
{65354,65322,0,0},{65355,65323,0,0},{65356,65324,0,0},{65357,65325,0,0},{65358,65326,0,0},{65359,65327,0,0},{65360,65328,0,0},{65361,65329,0,0},
{65362,65330,0,0},{65363,65331,0,0},{65364,65332,0,0},{65365,65333,0,0},{65366,65334,0,0},{65367,65335,0,0},{65368,65336,0,0},{65369,65337,0,0},
{65370,65338,0,0},{66600,66560,0,0},{66601,66561,0,0},{66602,66562,0,0},{66603,66563,0,0},{66604,66564,0,0},{66605,66565,0,0},{66606,66566,0,0},
{66607,66567,0,0},{66608,66568,0,0},{66609,66569,0,0},{66610,66570,0,0},{66611,66571,0,0},{66612,66572,0,0},{66613,66573,0,0},{66614,66574,0,0},
{66615,66575,0,0},{66616,66576,0,0},{66617,66577,0,0},{66618,66578,0,0},{66619,66579,0,0},{66620,66580,0,0},{66621,66581,0,0},{66622,66582,0,0},
{66623,66583,0,0},{66624,66584,0,0},{66625,66585,0,0},{66626,66586,0,0},{66627,66587,0,0},{66628,66588,0,0},{66629,66589,0,0},{66630,66590,0,0},
{66631,66591,0,0},{66632,66592,0,0},{66633,66593,0,0},{66634,66594,0,0},{66635,66595,0,0},{66636,66596,0,0},{66637,66597,0,0},{66638,66598,0,0},
{66639,66599,0,0},{66776,66736,0,0},{66777,66737,0,0},{66778,66738,0,0},{66779,66739,0,0},{66780,66740,0,0},{66781,66741,0,0},{66782,66742,0,0},
{66783,66743,0,0},{66784,66744,0,0},{66785,66745,0,0},{66786,66746,0,0},{66787,66747,0,0},{66788,66748,0,0},{66789,66749,0,0},{66790,66750,0,0},
{66791,66751,0,0},{66792,66752,0,0},{66793,66753,0,0},{66794,66754,0,0},{66795,66755,0,0},{66796,66756,0,0},{66797,66757,0,0},{66798,66758,0,0},
{66799,66759,0,0},{66800,66760,0,0},{66801,66761,0,0},{66802,66762,0,0},{66803,66763,0,0},{66804,66764,0,0},{66805,66765,0,0},{66806,66766,0,0},
{66807,66767,0,0},{66808,66768,0,0},{66809,66769,0,0},{66810,66770,0,0},{66811,66771,0,0},{66967,66928,0,0},{66968,66929,0,0},{66969,66930,0,0},
{66970,66931,0,0},{66971,66932,0,0},{66972,66933,0,0},{66973,66934,0,0},{66974,66935,0,0},{66975,66936,0,0},{66976,66937,0,0},{66977,66938,0,0},
{66979,66940,0,0},{66980,66941,0,0},{66981,66942,0,0},{66982,66943,0,0},{66983,66944,0,0},{66984,66945,0,0},{66985,66946,0,0},{66986,66947,0,0},
{66987,66948,0,0},{66988,66949,0,0},{66989,66950,0,0},{66990,66951,0,0},{66991,66952,0,0},{66992,66953,0,0},{66993,66954,0,0},{66995,66956,0,0},
{66996,66957,0,0},{66997,66958,0,0},{66998,66959,0,0},{66999,66960,0,0},{67000,66961,0,0},{67001,66962,0,0},{67003,66964,0,0},{67004,66965,0,0},
{68800,68736,0,0},{68801,68737,0,0},{68802,68738,0,0},{68803,68739,0,0},{68804,68740,0,0},{68805,68741,0,0},{68806,68742,0,0},{68807,68743,0,0},
{68808,68744,0,0},{68809,68745,0,0},{68810,68746,0,0},{68811,68747,0,0},{68812,68748,0,0},{68813,68749,0,0},{68814,68750,0,0},{68815,68751,0,0},
{68816,68752,0,0},{68817,68753,0,0},{68818,68754,0,0},{68819,68755,0,0},{68820,68756,0,0},{68821,68757,0,0},{68822,68758,0,0},{68823,68759,0,0},
{68824,68760,0,0},{68825,68761,0,0},{68826,68762,0,0},{68827,68763,0,0},{68828,68764,0,0},{68829,68765,0,0},{68830,68766,0,0},{68831,68767,0,0},
{68832,68768,0,0},{68833,68769,0,0},{68834,68770,0,0},{68835,68771,0,0},{68836,68772,0,0},{68837,68773,0,0},{68838,68774,0,0},{68839,68775,0,0},
{68840,68776,0,0},{68841,68777,0,0},{68842,68778,0,0},{68843,68779,0,0},{68844,68780,0,0},{68845,68781,0,0},{68846,68782,0,0},{68847,68783,0,0},
{68848,68784,0,0},{68849,68785,0,0},{68850,68786,0,0},{71872,71840,0,0},{71873,71841,0,0},{71874,71842,0,0},{71875,71843,0,0},{71876,71844,0,0},
{71877,71845,0,0},{71878,71846,0,0},{71879,71847,0,0},{71880,71848,0,0},{71881,71849,0,0},{71882,71850,0,0},{71883,71851,0,0},{71884,71852,0,0},
{71885,71853,0,0},{71886,71854,0,0},{71887,71855,0,0},{71888,71856,0,0},{71889,71857,0,0},{71890,71858,0,0},{71891,71859,0,0},{71892,71860,0,0},
{71893,71861,0,0},{71894,71862,0,0},{71895,71863,0,0},{71896,71864,0,0},{71897,71865,0,0},{71898,71866,0,0},{71899,71867,0,0},{71900,71868,0,0},
{71901,71869,0,0},{71902,71870,0,0},{71903,71871,0,0},{93792,93760,0,0},{93793,93761,0,0},{93794,93762,0,0},{93795,93763,0,0},{93796,93764,0,0},
{93797,93765,0,0},{93798,93766,0,0},{93799,93767,0,0},{93800,93768,0,0},{93801,93769,0,0},{93802,93770,0,0},{93803,93771,0,0},{93804,93772,0,0},
{93805,93773,0,0},{93806,93774,0,0},{93807,93775,0,0},{93808,93776,0,0},{93809,93777,0,0},{93810,93778,0,0},{93811,93779,0,0},{93812,93780,0,0},
{93813,93781,0,0},{93814,93782,0,0},{93815,93783,0,0},{93816,93784,0,0},{93817,93785,0,0},{93818,93786,0,0},{93819,93787,0,0},{93820,93788,0,0},
{93821,93789,0,0},{93822,93790,0,0},{93823,93791,0,0},{125218,125184,0,0},{125219,125185,0,0},{125220,125186,0,0},{125221,125187,0,0},{125222,125188,0,0},
{125223,125189,0,0},{125224,125190,0,0},{125225,125191,0,0},{125226,125192,0,0},{125227,125193,0,0},{125228,125194,0,0},{125229,125195,0,0},{125230,125196,0,0},
{125231,125197,0,0},{125232,125198,0,0},{125233,125199,0,0},{125234,125200,0,0},{125235,125201,0,0},{125236,125202,0,0},{125237,125203,0,0},{125238,125204,0,0},
{125239,125205,0,0},{125240,125206,0,0},{125241,125207,0,0},{125242,125208,0,0},{125243,125209,0,0},{125244,125210,0,0},{125245,125211,0,0},{125246,125212,0,0},
{125247,125213,0,0},{125248,125214,0,0},{125249,125215,0,0},{125250,125216,0,0},{125251,125217,0,0},
};
static const unsigned ref_lower[][4] = {
{65,97,0,0},{66,98,0,0},{67,99,0,0},{68,100,0,0},{69,101,0,0},{70,102,0,0},{71,103,0,0},{72,104,0,0},
{73,105,0,0},{74,106,0,0},{75,107,0,0},{76,108,0,0},{77,109,0,0},{78,110,0,0},{79,111,0,0},{80,112,0,0},
{81,113,0,0},{82,114,0,0},{83,115,0,0},{84,116,0,0},{85,117,0,0},{86,118,0,0},{87,119,0,0},{88,120,0,0},
{89,121,0,0},{90,122,0,0},{192,224,0,0},{193,225,0,0},{194,226,0,0},{195,227,0,0},{196,228,0,0},{197,229,0,0},
{198,230,0,0},{199,231,0,0},{200,232,0,0},{201,233,0,0},{202,234,0,0},{203,235,0,0},{204,236,0,0},{205,237,0,0},
{206,238,0,0},{207,239,0,0},{208,240,0,0},{209,241,0,0},{210,242,0,0},{211,243,0,0},{212,244,0,0},{213,245,0,0},
{214,246,0,0},{216,248,0,0},{217,249,0,0},{218,250,0,0},{219,251,0,0},{220,252,0,0},{221,253,0,0},{222,254,0,0},
{256,257,0,0},{258,259,0,0},{260,261,0,0},{262,263,0,0},{264,265,0,0},{266,267,0,0},{268,269,0,0},{270,271,0,0},
{272,273,0,0},{274,275,0,0},{276,277,0,0},{278,279,0,0},{280,281,0,0},{282,283,0,0},{284,285,0,0},{286,287,0,0},
{288,289,0,0},{290,291,0,0},{292,293,0,0},{294,295,0,0},{296,297,0,0},{298,299,0,0},{300,301,0,0},{302,303,0,0},
{304,105,775,0},{306,307,0,0},{308,309,0,0},{310,311,0,0},{313,314,0,0},{315,316,0,0},{317,318,0,0},{319,320,0,0},
{321,322,0,0},{323,324,0,0},{325,326,0,0},{327,328,0,0},{330,331,0,0},{332,333,0,0},{334,335,0,0},{336,337,0,0},
{338,339,0,0},{340,341,0,0},{342,343,0,0},{344,345,0,0},{346,347,0,0},{348,349,0,0},{350,351,0,0},{352,353,0,0},
{354,355,0,0},{356,357,0,0},{358,359,0,0},{360,361,0,0},{362,363,0,0},{364,365,0,0},{366,367,0,0},{368,369,0,0},
{370,371,0,0},{372,373,0,0},{374,375,0,0},{376,255,0,0},{377,378,0,0},{379,380,0,0},{381,382,0,0},{385,595,0,0},
{386,387,0,0},{388,389,0,0},{390,596,0,0},{391,392,0,0},{393,598,0,0},{394,599,0,0},{395,396,0,0},{398,477,0,0},
{399,601,0,0},{400,603,0,0},{401,402,0,0},{403,608,0,0},{404,611,0,0},{406,617,0,0},{407,616,0,0},{408,409,0,0},
{412,623,0,0},{413,626,0,0},{415,629,0,0},{416,417,0,0},{418,419,0,0},{420,421,0,0},{422,640,0,0},{423,424,0,0},
{425,643,0,0},{428,429,0,0},{430,648,0,0},{431,432,0,0},{433,650,0,0},{434,651,0,0},{435,436,0,0},{437,438,0,0},
{439,658,0,0},{440,441,0,0},{444,445,0,0},{452,454,0,0},{453,454,0,0},{455,457,0,0},{456,457,0,0},{458,460,0,0},
{459,460,0,0},{461,462,0,0},{463,464,0,0},{465,466,0,0},{467,468,0,0},{469,470,0,0},{471,472,0,0},{473,474,0,0},
{475,476,0,0},{478,479,0,0},{480,481,0,0},{482,483,0,0},{484,485,0,0},{486,487,0,0},{488,489,0,0},{490,491,0,0},
{492,493,0,0},{494,495,0,0},{497,499,0,0},{498,499,0,0},{500,501,0,0},{502,405,0,0},{503,447,0,0},{504,505,0,0},
{506,507,0,0},{508,509,0,0},{510,511,0,0},{512,513,0,0},{514,515,0,0},{516,517,0,0},{518,519,0,0},{520,521,0,0},
{522,523,0,0},{524,525,0,0},{526,527,0,0},{528,529,0,0},{530,531,0,0},{532,533,0,0},{534,535,0,0},{536,537,0,0},
{538,539,0,0},{540,541,0,0},{542,543,0,0},{544,414,0,0},{546,547,0,0},{548,549,0,0},{550,551,0,0},{552,553,0,0},
{554,555,0,0},{556,557,0,0},{558,559,0,0},{560,561,0,0},{562,563,0,0},{570,11365,0,0},{571,572,0,0},{573,410,0,0},
{574,11366,0,0},{577,578,0,0},{579,384,0,0},{580,649,0,0},{581,652,0,0},{582,583,0,0},{584,585,0,0},{586,587,0,0},
{588,589,0,0},{590,591,0,0},{880,881,0,0},{882,883,0,0},{886,887,0,0},{895,1011,0,0},{902,940,0,0},{904,941,0,0},
{905,942,0,0},{906,943,0,0},{908,972,0,0},{910,973,0,0},{911,974,0,0},{913,945,0,0},{914,946,0,0},{915,947,0,0},
{916,948,0,0},{917,949,0,0},{918,950,0,0},{919,951,0,0},{920,952,0,0},{921,953,0,0},{922,954,0,0},{923,955,0,0},
{924,956,0,0},{925,957,0,0},{926,958,0,0},{927,959,0,0},{928,960,0,0},{929,961,0,0},{931,963,0,0},{932,964,0,0},
{933,965,0,0},{934,966,0,0},{935,967,0,0},{936,968,0,0},{937,969,0,0},{938,970,0,0},{939,971,0,0},{975,983,0,0},
{984,985,0,0},{986,987,0,0},{988,989,0,0},{990,991,0,0},{992,993,0,0},{994,995,0,0},{996,997,0,0},{998,999,0,0},
{1000,1001,0,0},{1002,1003,0,0},{1004,1005,0,0},{1006,1007,0,0},{1012,952,0,0},{1015,1016,0,0},{1017,1010,0,0},{1018,1019,0,0},
{1021,891,0,0},{1022,892,0,0},{1023,893,0,0},{1024,1104,0,0},{1025,1105,0,0},{1026,1106,0,0},{1027,1107,0,0},{1028,1108,0,0},
{1029,1109,0,0},{1030,1110,0,0},{1031,1111,0,0},{1032,1112,0,0},{1033,1113,0,0},{1034,1114,0,0},{1035,1115,0,0},{1036,1116,0,0},
{1037,1117,0,0},{1038,1118,0,0},{1039,1119,0,0},{1040,1072,0,0},{1041,1073,0,0},{1042,1074,0,0},{1043,1075,0,0},{1044,1076,0,0},
{1045,1077,0,0},{1046,1078,0,0},{1047,1079,0,0},{1048,1080,0,0},{1049,1081,0,0},{1050,1082,0,0},{1051,1083,0,0},{1052,1084,0,0},
{1053,1085,0,0},{1054,1086,0,0},{1055,1087,0,0},{1056,1088,0,0},{1057,1089,0,0},{1058,1090,0,0},{1059,1091,0,0},{1060,1092,0,0},
{1061,1093,0,0},{1062,1094,0,0},{1063,1095,0,0},{1064,1096,0,0},{1065,1097,0,0},{1066,1098,0,0},{1067,1099,0,0},{1068,1100,0,0},
{1069,1101,0,0},{1070,1102,0,0},{1071,1103,0,0},{1120,1121,0,0},{1122,1123,0,0},{1124,1125,0,0},{1126,1127,0,0},{1128,1129,0,0},
{1130,1131,0,0},{1132,1133,0,0},{1134,1135,0,0},{1136,1137,0,0},{1138,1139,0,0},{1140,1141,0,0},{1142,1143,0,0},{1144,1145,0,0},
{1146,1147,0,0},{1148,1149,0,0},{1150,1151,0,0},{1152,1153,0,0},{1162,1163,0,0},{1164,1165,0,0},{1166,1167,0,0},{1168,1169,0,0},
{1170,1171,0,0},{1172,1173,0,0},{1174,1175,0,0},{1176,1177,0,0},{1178,1179,0,0},{1180,1181,0,0},{1182,1183,0,0},{1184,1185,0,0},
{1186,1187,0,0},{1188,1189,0,0},{1190,1191,0,0},{1192,1193,0,0},{1194,1195,0,0},{1196,1197,0,0},{1198,1199,0,0},{1200,1201,0,0},
{1202,1203,0,0},{1204,1205,0,0},{1206,1207,0,0},{1208,1209,0,0},{1210,1211,0,0},{1212,1213,0,0},{1214,1215,0,0},{1216,1231,0,0},
{1217,1218,0,0},{1219,1220,0,0},{1221,1222,0,0},{1223,1224,0,0},{1225,1226,0,0},{1227,1228,0,0},{1229,1230,0,0},{1232,1233,0,0},
{1234,1235,0,0},{1236,1237,0,0},{1238,1239,0,0},{1240,1241,0,0},{1242,1243,0,0},{1244,1245,0,0},{1246,1247,0,0},{1248,1249,0,0},
{1250,1251,0,0},{1252,1253,0,0},{1254,1255,0,0},{1256,1257,0,0},{1258,1259,0,0},{1260,1261,0,0},{1262,1263,0,0},{1264,1265,0,0},
{1266,1267,0,0},{1268,1269,0,0},{1270,1271,0,0},{1272,1273,0,0},{1274,1275,0,0},{1276,1277,0,0},{1278,1279,0,0},{1280,1281,0,0},
{1282,1283,0,0},{1284,1285,0,0},{1286,1287,0,0},{1288,1289,0,0},{1290,1291,0,0},{1292,1293,0,0},{1294,1295,0,0},{1296,1297,0,0},
{1298,1299,0,0},{1300,1301,0,0},{1302,1303,0,0},{1304,1305,0,0},{1306,1307,0,0},{1308,1309,0,0},{1310,1311,0,0},{1312,1313,0,0},
{1314,1315,0,0},{1316,1317,0,0},{1318,1319,0,0},{1320,1321,0,0},{1322,1323,0,0},{1324,1325,0,0},{1326,1327,0,0},{1329,1377,0,0},
{1330,1378,0,0},{1331,1379,0,0},{1332,1380,0,0},{1333,1381,0,0},{1334,1382,0,0},{1335,1383,0,0},{1336,1384,0,0},{1337,1385,0,0},
{1338,1386,0,0},{1339,1387,0,0},{1340,1388,0,0},{1341,1389,0,0},{1342,1390,0,0},{1343,1391,0,0},{1344,1392,0,0},{1345,1393,0,0},
{1346,1394,0,0},{1347,1395,0,0},{1348,1396,0,0},{1349,1397,0,0},{1350,1398,0,0},{1351,1399,0,0},{1352,1400,0,0},{1353,1401,0,0},
{1354,1402,0,0},{1355,1403,0,0},{1356,1404,0,0},{1357,1405,0,0},{1358,1406,0,0},{1359,1407,0,0},{1360,1408,0,0},{1361,1409,0,0},
{1362,1410,0,0},{1363,1411,0,0},{1364,1412,0,0},{1365,1413,0,0},{1366,1414,0,0},{4256,11520,0,0},{4257,11521,0,0},{4258,11522,0,0},
{4259,11523,0,0},{4260,11524,0,0},{4261,11525,0,0},{4262,11526,0,0},{4263,11527,0,0},{4264,11528,0,0},{4265,11529,0,0},{4266,11530,0,0},
{4267,11531,0,0},{4268,11532,0,0},{4269,11533,0,0},{4270,11534,0,0},{4271,11535,0,0},{4272,11536,0,0},{4273,11537,0,0},{4274,11538,0,0},
{4275,11539,0,0},{4276,11540,0,0},{4277,11541,0,0},{4278,11542,0,0},{4279,11543,0,0},{4280,11544,0,0},{4281,11545,0,0},{4282,11546,0,0},
{4283,11547,0,0},{4284,11548,0,0},{4285,11549,0,0},{4286,11550,0,0},{4287,11551,0,0},{4288,11552,0,0},{4289,11553,0,0},{4290,11554,0,0},
{4291,11555,0,0},{4292,11556,0,0},{4293,11557,0,0},{4295,11559,0,0},{4301,11565,0,0},{5024,43888,0,0},{5025,43889,0,0},{5026,43890,0,0},
{5027,43891,0,0},{5028,43892,0,0},{5029,43893,0,0},{5030,43894,0,0},{5031,43895,0,0},{5032,43896,0,0},{5033,43897,0,0},{5034,43898,0,0},
{5035,43899,0,0},{5036,43900,0,0},{5037,43901,0,0},{5038,43902,0,0},{5039,43903,0,0},{5040,43904,0,0},{5041,43905,0,0},{5042,43906,0,0},
{5043,43907,0,0},{5044,43908,0,0},{5045,43909,0,0},{5046,43910,0,0},{5047,43911,0,0},{5048,43912,0,0},{5049,43913,0,0},{5050,43914,0,0},
{5051,43915,0,0},{5052,43916,0,0},{5053,43917,0,0},{5054,43918,0,0},{5055,43919,0,0},{5056,43920,0,0},{5057,43921,0,0},{5058,43922,0,0},
{5059,43923,0,0},{5060,43924,0,0},{5061,43925,0,0},{5062,43926,0,0},{5063,43927,0,0},{5064,43928,0,0},{5065,43929,0,0},{5066,43930,0,0},
{5067,43931,0,0},{5068,43932,0,0},{5069,43933,0,0},{5070,43934,0,0},{5071,43935,0,0},{5072,43936,0,0},{5073,43937,0,0},{5074,43938,0,0},
{5075,43939,0,0},{5076,43940,0,0},{5077,43941,0,0},{5078,43942,0,0},{5079,43943,0,0},{5080,43944,0,0},{5081,43945,0,0},{5082,43946,0,0},
{5083,43947,0,0},{5084,43948,0,0},{5085,43949,0,0},{5086,43950,0,0},{5087,43951,0,0},{5088,43952,0,0},{5089,43953,0,0},{5090,43954,0,0},
{5091,43955,0,0},{5092,43956,0,0},{5093,43957,0,0},{5094,43958,0,0},{5095,43959,0,0},{5096,43960,0,0},{5097,43961,0,0},{5098,43962,0,0},
{5099,43963,0,0},{5100,43964,0,0},{5101,43965,0,0},{5102,43966,0,0},{5103,43967,0,0},{5104,5112,0,0},{5105,5113,0,0},{5106,5114,0,0},
{5107,5115,0,0},{5108,5116,0,0},{5109,5117,0,0},{7312,4304,0,0},{7313,4305,0,0},{7314,4306,0,0},{7315,4307,0,0},{7316,4308,0,0},
{7317,4309,0,0},{7318,4310,0,0},{7319,4311,0,0},{7320,4312,0,0},{7321,4313,0,0},{7322,4314,0,0},{7323,4315,0,0},{7324,4316,0,0},
{7325,4317,0,0},{7326,4318,0,0},{7327,4319,0,0},{7328,4320,0,0},{7329,4321,0,0},{7330,4322,0,0},{7331,4323,0,0},{7332,4324,0,0},
{7333,4325,0,0},{7334,4326,0,0},{7335,4327,0,0},{7336,4328,0,0},{7337,4329,0,0},{7338,4330,0,0},{7339,4331,0,0},{7340,4332,0,0},
{7341,4333,0,0},{7342,4334,0,0},{7343,4335,0,0},{7344,4336,0,0},{7345,4337,0,0},{7346,4338,0,0},{7347,4339,0,0},{7348,4340,0,0},
{7349,4341,0,0},{7350,4342,0,0},{7351,4343,0,0},{7352,4344,0,0},{7353,4345,0,0},{7354,4346,0,0},{7357,4349,0,0},{7358,4350,0,0},
{7359,4351,0,0},{7680,7681,0,0},{7682,7683,0,0},{7684,7685,0,0},{7686,7687,0,0},{7688,7689,0,0},{7690,7691,0,0},{7692,7693,0,0},
{7694,7695,0,0},{7696,7697,0,0},{7698,7699,0,0},{7700,7701,0,0},{7702,7703,0,0},{7704,7705,0,0},{7706,7707,0,0},{7708,7709,0,0},
{7710,7711,0,0},{7712,7713,0,0},{7714,7715,0,0},{7716,7717,0,0},{7718,7719,0,0},{7720,7721,0,0},{7722,7723,0,0},{7724,7725,0,0},
{7726,7727,0,0},{7728,7729,0,0},{7730,7731,0,0},{7732,7733,0,0},{7734,7735,0,0},{7736,7737,0,0},{7738,7739,0,0},{7740,7741,0,0},
{7742,7743,0,0},{7744,7745,0,0},{7746,7747,0,0},{7748,7749,0,0},{7750,7751,0,0},{7752,7753,0,0},{7754,7755,0,0},{7756,7757,0,0},
{7758,7759,0,0},{7760,7761,0,0},{7762,7763,0,0},{7764,7765,0,0},{7766,7767,0,0},{7768,7769,0,0},{7770,7771,0,0},{7772,7773,0,0},
{7774,7775,0,0},{7776,7777,0,0},{7778,7779,0,0},{7780,7781,0,0},{7782,7783,0,0},{7784,7785,0,0},{7786,7787,0,0},{7788,7789,0,0},
{7790,7791,0,0},{7792,7793,0,0},{7794,7795,0,0},{7796,7797,0,0},{7798,7799,0,0},{7800,7801,0,0},{7802,7803,0,0},{7804,7805,0,0},
{7806,7807,0,0},{7808,7809,0,0},{7810,7811,0,0},{7812,7813,0,0},{7814,7815,0,0},{7816,7817,0,0},{7818,7819,0,0},{7820,7821,0,0},
{7822,7823,0,0},{7824,7825,0,0},{7826,7827,0,0},{7828,7829,0,0},{7838,223,0,0},{7840,7841,0,0},{7842,7843,0,0},{7844,7845,0,0},
{7846,7847,0,0},{7848,7849,0,0},{7850,7851,0,0},{7852,7853,0,0},{7854,7855,0,0},{7856,7857,0,0},{7858,7859,0,0},{7860,7861,0,0},
{7862,7863,0,0},{7864,7865,0,0},{7866,7867,0,0},{7868,7869,0,0},{7870,7871,0,0},{7872,7873,0,0},{7874,7875,0,0},{7876,7877,0,0},
{7878,7879,0,0},{7880,7881,0,0},{7882,7883,0,0},{7884,7885,0,0},{7886,7887,0,0},{7888,7889,0,0},{7890,7891,0,0},{7892,7893,0,0},
{7894,7895,0,0},{7896,7897,0,0},{7898,7899,0,0},{7900,7901,0,0},{7902,7903,0,0},{7904,7905,0,0},{7906,7907,0,0},{7908,7909,0,0},
{7910,7911,0,0},{7912,7913,0,0},{7914,7915,0,0},{7916,7917,0,0},{7918,7919,0,0},{7920,7921,0,0},{7922,7923,0,0},{7924,7925,0,0},
{7926,7927,0,0},{7928,7929,0,0},{7930,7931,0,0},{7932,7933,0,0},{7934,7935,0,0},{7944,7936,0,0},{7945,7937,0,0},{7946,7938,0,0},
{7947,7939,0,0},{7948,7940,0,0},{7949,7941,0,0},{7950,7942,0,0},{7951,7943,0,0},{7960,7952,0,0},{7961,7953,0,0},{7962,7954,0,0},
{7963,7955,0,0},{7964,7956,0,0},{7965,7957,0,0},{7976,7968,0,0},{7977,7969,0,0},{7978,7970,0,0},{7979,7971,0,0},{7980,7972,0,0},
{7981,7973,0,0},{7982,7974,0,0},{7983,7975,0,0},{7992,7984,0,0},{7993,7985,0,0},{7994,7986,0,0},{7995,7987,0,0},{7996,7988,0,0},
{7997,7989,0,0},{7998,7990,0,0},{7999,7991,0,0},{8008,8000,0,0},{8009,8001,0,0},{8010,8002,0,0},{8011,8003,0,0},{8012,8004,0,0},
{8013,8005,0,0},{8025,8017,0,0},{8027,8019,0,0},{8029,8021,0,0},{8031,8023,0,0},{8040,8032,0,0},{8041,8033,0,0},{8042,8034,0,0},
{8043,8035,0,0},{8044,8036,0,0},{8045,8037,0,0},{8046,8038,0,0},{8047,8039,0,0},{8072,8064,0,0},{8073,8065,0,0},{8074,8066,0,0},
{8075,8067,0,0},{8076,8068,0,0},{8077,8069,0,0},{8078,8070,0,0},{8079,8071,0,0},{8088,8080,0,0},{8089,8081,0,0},{8090,8082,0,0},
{8091,8083,0,0},{8092,8084,0,0},{8093,8085,0,0},{8094,8086,0,0},{8095,8087,0,0},{8104,8096,0,0},{8105,8097,0,0},{8106,8098,0,0},
{8107,8099,0,0},{8108,8100,0,0},{8109,8101,0,0},{8110,8102,0,0},{8111,8103,0,0},{8120,8112,0,0},{8121,8113,0,0},{8122,8048,0,0},
{8123,8049,0,0},{8124,8115,0,0},{8136,8050,0,0},{8137,8051,0,0},{8138,8052,0,0},{8139,8053,0,0},{8140,8131,0,0},{8152,8144,0,0},
{8153,8145,0,0},{8154,8054,0,0},{8155,8055,0,0},{8168,8160,0,0},{8169,8161,0,0},{8170,8058,0,0},{8171,8059,0,0},{8172,8165,0,0},
{8184,8056,0,0},{8185,8057,0,0},{8186,8060,0,0},{8187,8061,0,0},{8188,8179,0,0},{8486,969,0,0},{8490,107,0,0},{8491,229,0,0},
{8498,8526,0,0},{8544,8560,0,0},{8545,8561,0,0},{8546,8562,0,0},{8547,8563,0,0},{8548,8564,0,0},{8549,8565,0,0},{8550,8566,0,0},
{8551,8567,0,0},{8552,8568,0,0},{8553,8569,0,0},{8554,8570,0,0},{8555,8571,0,0},{8556,8572,0,0},{8557,8573,0,0},{8558,8574,0,0},
{8559,8575,0,0},{8579,8580,0,0},{9398,9424,0,0},{9399,9425,0,0},{9400,9426,0,0},{9401,9427,0,0},{9402,9428,0,0},{9403,9429,0,0},
{9404,9430,0,0},{9405,9431,0,0},{9406,9432,0,0},{9407,9433,0,0},{9408,9434,0,0},{9409,9435,0,0},{9410,9436,0,0},{9411,9437,0,0},
{9412,9438,0,0},{9413,9439,0,0},{9414,9440,0,0},{9415,9441,0,0},{9416,9442,0,0},{9417,9443,0,0},{9418,9444,0,0},{9419,9445,0,0},
{9420,9446,0,0},{9421,9447,0,0},{9422,9448,0,0},{9423,9449,0,0},{11264,11312,0,0},{11265,11313,0,0},{11266,11314,0,0},{11267,11315,0,0},
{11268,11316,0,0},{11269,11317,0,0},{11270,11318,0,0},{11271,11319,0,0},{11272,11320,0,0},{11273,11321,0,0},{11274,11322,0,0},{11275,11323,0,0},
{11276,11324,0,0},{11277,11325,0,0},{11278,11326,0,0},{11279,11327,0,0},{11280,11328,0,0},{11281,11329,0,0},{11282,11330,0,0},{11283,11331,0,0},
{11284,11332,0,0},{11285,11333,0,0},{11286,11334,0,0},{11287,11335,0,0},{11288,11336,0,0},{11289,11337,0,0},{11290,11338,0,0},{11291,11339,0,0},
{11292,11340,0,0},{11293,11341,0,0},{11294,11342,0,0},{11295,11343,0,0},{11296,11344,0,0},{11297,11345,0,0},{11298,11346,0,0},{11299,11347,0,0},
{11300,11348,0,0},{11301,11349,0,0},{11302,11350,0,0},{11303,11351,0,0},{11304,11352,0,0},{11305,11353,0,0},{11306,11354,0,0},{11307,11355,0,0},
{11308,11356,0,0},{11309,11357,0,0},{11310,11358,0,0},{11311,11359,0,0},{11360,11361,0,0},{11362,619,0,0},{11363,7549,0,0},{11364,637,0,0},
{11367,11368,0,0},{11369,11370,0,0},{11371,11372,0,0},{11373,593,0,0},{11374,625,0,0},{11375,592,0,0},{11376,594,0,0},{11378,11379,0,0},
{11381,11382,0,0},{11390,575,0,0},{11391,576,0,0},{11392,11393,0,0},{11394,11395,0,0},{11396,11397,0,0},{11398,11399,0,0},{11400,11401,0,0},
{11402,11403,0,0},{11404,11405,0,0},{11406,11407,0,0},{11408,11409,0,0},{11410,11411,0,0},{11412,11413,0,0},{11414,11415,0,0},{11416,11417,0,0},
{11418,11419,0,0},{11420,11421,0,0},{11422,11423,0,0},{11424,11425,0,0},{11426,11427,0,0},{11428,11429,0,0},{11430,11431,0,0},{11432,11433,0,0},
{11434,11435,0,0},{11436,11437,0,0},{11438,11439,0,0},{11440,11441,0,0},{11442,11443,0,0},{11444,11445,0,0},{11446,11447,0,0},{11448,11449,0,0},
{11450,11451,0,0},{11452,11453,0,0},{11454,11455,0,0},{11456,11457,0,0},{11458,11459,0,0},{11460,11461,0,0},{11462,11463,0,0},{11464,11465,0,0},
{11466,11467,0,0},{11468,11469,0,0},{11470,11471,0,0},{11472,11473,0,0},{11474,11475,0,0},{11476,11477,0,0},{11478,11479,0,0},{11480,11481,0,0},
{11482,11483,0,0},{11484,11485,0,0},{11486,11487,0,0},{11488,11489,0,0},{11490,11491,0,0},{11499,11500,0,0},{11501,11502,0,0},{11506,11507,0,0},
{42560,42561,0,0},{42562,42563,0,0},{42564,42565,0,0},{42566,42567,0,0},{42568,42569,0,0},{42570,42571,0,0},{42572,42573,0,0},{42574,42575,0,0},
{42576,42577,0,0},{42578,42579,0,0},{42580,42581,0,0},{42582,42583,0,0},{42584,42585,0,0},{42586,42587,0,0},{42588,42589,0,0},{42590,42591,0,0},
{42592,42593,0,0},{42594,42595,0,0},{42596,42597,0,0},{42598,42599,0,0},{42600,42601,0,0},{42602,42603,0,0},{42604,42605,0,0},{42624,42625,0,0},
{42626,42627,0,0},{42628,42629,0,0},{42630,42631,0,0},{42632,42633,0,0},{42634,42635,0,0},{42636,42637,0,0},{42638,42639,0,0},{42640,42641,0,0},
{42642,42643,0,0},{42644,42645,0,0},{42646,42647,0,0},{42648,42649,0,0},{42650,42651,0,0},{42786,42787,0,0},{42788,42789,0,0},{42790,42791,0,0},
{42792,42793,0,0},{42794,42795,0,0},{42796,42797,0,0},{42798,42799,0,0},{42802,42803,0,0},{42804,42805,0,0},{42806,42807,0,0},{42808,42809,0,0},
{42810,42811,0,0},{42812,42813,0,0},{42814,42815,0,0},{42816,42817,0,0},{42818,42819,0,0},{42820,42821,0,0},{42822,42823,0,0},{42824,42825,0,0},
{42826,42827,0,0},{42828,42829,0,0},{42830,42831,0,0},{42832,42833,0,0},{42834,42835,0,0},{42836,42837,0,0},{42838,42839,0,0},{42840,42841,0,0},
{42842,42843,0,0},{42844,42845,0,0},{42846,42847,0,0},{42848,42849,0,0},{42850,42851,0,0},{42852,42853,0,0},{42854,42855,0,0},{42856,42857,0,0},
{42858,42859,0,0},{42860,42861,0,0},{42862,42863,0,0},{42873,42874,0,0},{42875,42876,0,0},{42877,7545,0,0},{42878,42879,0,0},{42880,42881,0,0},
{42882,42883,0,0},{42884,42885,0,0},{42886,42887,0,0},{42891,42892,0,0},{42893,613,0,0},{42896,42897,0,0},{42898,42899,0,0},{42902,42903,0,0},
{42904,42905,0,0},{42906,42907,0,0},{42908,42909,0,0},{42910,42911,0,0},{42912,42913,0,0},{42914,42915,0,0},{42916,42917,0,0},{42918,42919,0,0},
{42920,42921,0,0},{42922,614,0,0},{42923,604,0,0},{42924,609,0,0},{42925,620,0,0},{42926,618,0,0},{42928,670,0,0},{42929,647,0,0},
{42930,669,0,0},{42931,43859,0,0},{42932,42933,0,0},{42934,42935,0,0},{42936,42937,0,0},{42938,42939,0,0},{42940,42941,0,0},{42942,42943,0,0},
{42944,42945,0,0},{42946,42947,0,0},{42948,42900,0,0},{42949,642,0,0},{42950,7566,0,0},{42951,42952,0,0},{42953,42954,0,0},{42960,42961,0,0},
{42966,42967,0,0},{42968,42969,0,0},{42997,42998,0,0},{65313,65345,0,0},{65314,65346,0,0},{65315,65347,0,0},{65316,65348,0,0},{65317,65349,0,0},
{65318,65350,0,0},{65319,65351,0,0},{65320,65352,0,0},{65321,65353,0,0},{65322,65354,0,0},{65323,65355,0,0},{65324,65356,0,0},{65325,65357,0,0},
{65326,65358,0,0},{65327,65359,0,0},{65328,65360,0,0},{65329,65361,0,0},{65330,65362,0,0},{65331,65363,0,0},{65332,65364,0,0},{65333,65365,0,0},
{65334,65366,0,0},{65335,65367,0,0},{65336,65368,0,0},{65337,65369,0,0},{65338,65370,0,0},{66560,66600,0,0},{66561,66601,0,0},{66562,66602,0,0},
{66563,66603,0,0},{66564,66604,0,0},{66565,66605,0,0},{66566,66606,0,0},{66567,66607,0,0},{66568,66608,0,0},{66569,66609,0,0},{66570,66610,0,0},
{66571,66611,0,0},{66572,66612,0,0},{66573,66613,0,0},{66574,66614,0,0},{66575,66615,0,0},{66576,66616,0,0},{66577,66617,0,0},{66578,66618,0,0},
{66579,66619,0,0},{66580,66620,0,0},{66581,66621,0,0},{66582,66622,0,0},{66583,66623,0,0},{66584,66624,0,0},{66585,66625,0,0},{66586,66626,0,0},
{66587,66627,0,0},{66588,66628,0,0},{66589,66629,0,0},{66590,66630,0,0},{66591,66631,0,0},{66592,66632,0,0},{66593,66633,0,0},{66594,66634,0,0},
{66595,66635,0,0},{66596,66636,0,0},{66597,66637,0,0},{66598,66638,0,0},{66599,66639,0,0},{66736,66776,0,0},{66737,66777,0,0},{66738,66778,0,0},
{66739,66779,0,0},{66740,66780,0,0},{66741,66781,0,0},{66742,66782,0,0},{66743,66783,0,0},{66744,66784,0,0},{66745,66785,0,0},{66746,66786,0,0},
{66747,66787,0,0},{66748,66788,0,0},{66749,66789,0,0},{66750,66790,0,0},{66751,66791,0,0},{66752,66792,0,0},{66753,66793,0,0},{66754,66794,0,0},
{66755,66795,0,0},{66756,66796,0,0},{66757,66797,0,0},{66758,66798,0,0},{66759,66799,0,0},{66760,66800,0,0},{66761,66801,0,0},{66762,66802,0,0},
{66763,66803,0,0},{66764,66804,0,0},{66765,66805,0,0},{66766,66806,0,0},{66767,66807,0,0},{66768,66808,0,0},{66769,66809,0,0},{66770,66810,0,0},
{66771,66811,0,0},{66928,66967,0,0},{66929,66968,0,0},{66930,66969,0,0},{66931,66970,0,0},{66932,66971,0,0},{66933,66972,0,0},{66934,66973,0,0},
{66935,66974,0,0},{66936,66975,0,0},{66937,66976,0,0},{66938,66977,0,0},{66940,66979,0,0},{66941,66980,0,0},{66942,66981,0,0},{66943,66982,0,0},
{66944,66983,0,0},{66945,66984,0,0},{66946,66985,0,0},{66947,66986,0,0},{66948,66987,0,0},{66949,66988,0,0},{66950,66989,0,0},{66951,66990,0,0},
{66952,66991,0,0},{66953,66992,0,0},{66954,66993,0,0},{66956,66995,0,0},{66957,66996,0,0},{66958,66997,0,0},{66959,66998,0,0},{66960,66999,0,0},
{66961,67000,0,0},{66962,67001,0,0},{66964,67003,0,0},{66965,67004,0,0},{68736,68800,0,0},{68737,68801,0,0},{68738,68802,0,0},{68739,68803,0,0},
{68740,68804,0,0},{68741,68805,0,0},{68742,68806,0,0},{68743,68807,0,0},{68744,68808,0,0},{68745,68809,0,0},{68746,68810,0,0},{68747,68811,0,0},
{68748,68812,0,0},{68749,68813,0,0},{68750,68814,0,0},{68751,68815,0,0},{68752,68816,0,0},{68753,68817,0,0},{68754,68818,0,0},{68755,68819,0,0},
{68756,68820,0,0},{68757,68821,0,0},{68758,68822,0,0},{68759,68823,0,0},{68760,68824,0,0},{68761,68825,0,0},{68762,68826,0,0},{68763,68827,0,0},
{68764,68828,0,0},{68765,68829,0,0},{68766,68830,0,0},{68767,68831,0,0},{68768,68832,0,0},{68769,68833,0,0},{68770,68834,0,0},{68771,68835,0,0},
{68772,68836,0,0},{68773,68837,0,0},{68774,68838,0,0},{68775,68839,0,0},{68776,68840,0,0},{68777,68841,0,0},{68778,68842,0,0},{68779,68843,0,0},
{68780,68844,0,0},{68781,68845,0,0},{68782,68846,0,0},{68783,68847,0,0},{68784,68848,0,0},{68785,68849,0,0},{68786,68850,0,0},{71840,71872,0,0},
{71841,71873,0,0},{71842,71874,0,0},{71843,71875,0,0},{71844,71876,0,0},{71845,71877,0,0},{71846,71878,0,0},{71847,71879,0,0},{71848,71880,0,0},
{71849,71881,0,0},{71850,71882,0,0},{71851,71883,0,0},{71852,71884,0,0},{71853,71885,0,0},{71854,71886,0,0},{71855,71887,0,0},{71856,71888,0,0},
{71857,71889,0,0},{71858,71890,0,0},{71859,71891,0,0},{71860,71892,0,0},{71861,71893,0,0},{71862,71894,0,0},{71863,71895,0,0},{71864,71896,0,0},
{71865,71897,0,0},{71866,71898,0,0},{71867,71899,0,0},{71868,71900,0,0},{71869,71901,0,0},{71870,71902,0,0},{71871,71903,0,0},{93760,93792,0,0},
{93761,93793,0,0},{93762,93794,0,0},{93763,93795,0,0},{93764,93796,0,0},{93765,93797,0,0},{93766,93798,0,0},{93767,93799,0,0},{93768,93800,0,0},
{93769,93801,0,0},{93770,93802,0,0},{93771,93803,0,0},{93772,93804,0,0},{93773,93805,0,0},{93774,93806,0,0},{93775,93807,0,0},{93776,93808,0,0},
{93777,93809,0,0},{93778,93810,0,0},{93779,93811,0,0},{93780,93812,0,0},{93781,93813,0,0},{93782,93814,0,0},{93783,93815,0,0},{93784,93816,0,0},
{93785,93817,0,0},{93786,93818,0,0},{93787,93819,0,0},{93788,93820,0,0},{93789,93821,0,0},{93790,93822,0,0},{93791,93823,0,0},{125184,125218,0,0},
{125185,125219,0,0},{125186,125220,0,0},{125187,125221,0,0},{125188,125222,0,0},{125189,125223,0,0},{125190,125224,0,0},{125191,125225,0,0},{125192,125226,0,0},
{125193,125227,0,0},{125194,125228,0,0},{125195,125229,0,0},{125196,125230,0,0},{125197,125231,0,0},{125198,125232,0,0},{125199,125233,0,0},{125200,125234,0,0},
{125201,125235,0,0},{125202,125236,0,0},{125203,125237,0,0},{125204,125238,0,0},{125205,125239,0,0},{125206,125240,0,0},{125207,125241,0,0},{125208,125242,0,0},
{125209,125243,0,0},{125210,125244,0,0},{125211,125245,0,0},{125212,125246,0,0},{125213,125247,0,0},{125214,125248,0,0},{125215,125249,0,0},{125216,125250,0,0},
{125217,125251,0,0},
};
