// Frozen reference data: element properties, Ziegler coefficients, density effect, Lindhard-Sorensen tables.
#pragma once
namespace refdata{
static const double weight[111]={0,1.00794,4.0026,6.941,9.01218,10.811,12.0107,14.0067,15.9994,18.9984,20.1797,22.9898,24.305,26.9815,28.0855,30.9738,32.065,35.453,39.948,39.0983,40.078,44.9559,47.867,50.9415,51.9961,54.938,55.845,58.9332,58.6934,63.546,65.409,69.723,72.64,74.9216,78.96,79.904,83.798,85.4678,87.62,88.9059,91.224,92.9064,95.94,97.9072,101.07,102.906,106.42,107.868,112.411,114.818,118.71,121.76,127.6,126.904,131.293,132.905,137.327,138.905,140.116,140.908,144.24,144.913,150.36,151.964,157.25,158.925,162.5,164.93,167.259,168.934,173.04,174.967,178.49,180.948,183.84,186.207,190.23,192.217,195.078,196.967,200.59,204.383,207.2,208.98,208.982,209.987,222.018,223.02,226.025,227.028,232.038,231.036,238.029,237.048,244.064,243.061,247.07,247.07,251.08,252.083,257.095,258.098,259.101,262.11,261.109,262.114,266.122,264.125,269.134,268.139,0};
static const double density[111]={0,8.3748e-05,0.000166322,0.534,1.848,2.37,2,0.0011652,0.00133151,0.00158029,0.000838505,0.971,1.74,2.699,2.33,2.2,2,0.00299473,0.00166201,0.862,1.55,2.989,4.54,6.11,7.18,7.44,7.874,8.9,8.902,8.96,7.133,5.904,5.323,5.73,4.5,3.1028,0.00347832,1.532,2.54,4.469,6.506,8.57,10.22,11.5,12.41,12.41,12.02,10.5,8.65,7.31,7.31,6.691,6.24,4.93,0.00548536,1.873,3.5,6.154,6.657,6.71,6.9,7.22,7.46,5.243,7.9004,8.229,8.55,8.795,9.066,9.321,6.73,9.84,13.31,16.654,19.3,21.02,22.57,22.42,21.45,19.32,13.546,11.72,11.35,9.747,9.32,9.32,0.00900662,1,5,10.07,11.72,15.37,18.95,20.25,19.84,13.67,13.51,14,10,0,0,0,0,0,0,0,0,0,0,0,0};
static const double ipot[121]={0,19.2,41.8,40,63.7,76,81,82,95,115,137,149,156,166,173,173,180,174,188,190,191,216,233,245,257,272,286,297,311,322,330,334,350,347,348,343,352,363,366,379,393,417,424,428,441,449,470,470,469,488,488,487,485,491,482,488,491,501,523,535,546,560,574,580,591,614,628,650,658,674,684,694,705,718,727,736,746,757,790,790,800,810,823,823,830,825,794,827,826,841,847,878,890,900,910,920,930,940,950,960,970,980,990,1000,1010,1020,1030,1040,1050,1060,1070,1080,1090,1100,1110,1120,1130,1140,1150,1160,1170};
static const double pse95[92][8]={{0.0128116,0.00533047,0.651042,0.531902,1959.01,1.1887,598.263,0.00954514}
,{0.311787,0.00499529,0.118546,0.920917,984.843,1.08223,554.388,0.0505072}
,{0.644503,0.00500368,0.866544,0.567488,962.9,1.01566,1620.34,0.0237767}
,{0.953561,0.00507406,1.3045,0.5903,1945.12,1.05703,326.951,0.0130441}
,{1.53151,0.0048852,2.5676,0.423246,1738.88,1.03208,1829.42,0.0200331}
,{2.40289,0.00491497,2.49101,0.414939,1858.36,1.01581,2504.17,0.0181984}
,{3.31007,0.00495744,0.540621,0.77994,1104.15,0.967848,2235.35,0.0531612}
,{0.972706,0.0050039,1.35102,0.5498,1254.28,0.968356,5093.2,0.0536453}
,{0.690408,0.00462723,0.326749,1.1052,1301.9,0.943525,47.0373,0.0280245}
,{0.281235,0.00459698,0.52563,0.878183,1158.3,0.938564,10.1606,0.0414147}
,{2.15352,0.00440847,2.30923,0.606001,1332.24,0.943478,735.116,0.0577231}
,{3.42983,0.00436897,2.39377,0.554737,1140.29,0.929844,2107.48,0.0789342}
,{0.0389096,0.00454168,4.27975,0.478838,1316.42,0.934106,565.574,0.052722}
,{1.33101,0.00443533,1.52262,0.775843,1227.02,0.914146,1091.17,0.0444972}
,{5.78119,0.00398281,0.324072,1.22769,673.459,0.865731,123.619,0.182036}
,{0.611741,0.00446376,3.38101,0.542907,1160.67,0.912049,14031.2,0.087705}
,{1.15307,0.00447333,4.20464,0.538231,1301.13,0.902702,4923.01,0.0525717}
,{1.70408,0.00447609,2.75072,0.583835,2713.93,0.953183,2035.79,0.0146897}
,{2.60265,0.00432185,1.56811,0.864656,556.393,0.84475,120.01,0.962648}
,{0.536555,0.00440846,3.22706,0.602927,500.851,0.83345,1766.39,2.02699}
,{1.7187,0.00436934,4.60285,0.516212,1601.6,0.914664,6341.68,0.0629243}
,{0.146403,0.00484558,5.54014,0.455903,1763.46,0.919014,3951.93,0.0550341}
,{4.21238,0.0040013,3.79858,0.482892,2416.97,0.936204,7735.96,0.0289635}
,{0.697881,0.00430794,2.2863,0.784069,967.872,0.857874,17.8526,0.111149}
,{0.592743,0.00431334,1.40625,0.968261,1426.42,0.881488,14.4002,0.0424183}
,{0.0283155,0.00354506,0.564961,1.24111,1527.81,0.881848,25.9497,0.0354067}
,{0.269545,0.00432088,2.24249,0.764706,1243.91,0.867051,23.4911,0.0604457}
,{3.68234,0.00437139,1.52146,0.736656,1470.86,0.874909,251.685,0.0428115}
,{2.15403,0.00432278,2.6939,0.523003,1717.27,0.893617,2099.38,0.0525222}
,{0.531847,0.00382833,0.675606,1.06647,1008.48,0.826099,35.8939,0.0419818}
,{6.91973,0.00401198,0.522284,0.974708,899.033,0.821636,371.581,0.0738361}
,{1.80976,0.00448896,5.6612,0.418493,1558.21,0.870542,1756.05,0.0605859}
,{1.64641,0.00430255,5.12108,0.516356,1020.24,0.832723,2202.77,0.0846531}
,{4.0715,0.00429051,3.33803,0.543517,2606.26,0.903072,1089.74,0.0181133}
,{1.99798,0.00429503,3.23907,0.593111,4645.72,0.947444,640.841,0.0096946}
,{5.08884,0.0042563,1.43,0.722156,7087.78,0.979865,762.818,0.00604351}
,{0.62637,0.00413189,0.0666229,2.65318,1074.6,0.814706,8.69523,0.0504427}
,{5.04987,0.00393427,4.95613,0.527062,1886.17,0.868672,4817.65,0.0349423}
,{1.17376,0.00421587,5.93823,0.49052,1556.91,0.849851,7821.93,0.0434207}
,{7.26083,0.00419413,5.93121,0.447579,4687.69,0.939722,2446.36,0.0101526}
,{0.351621,0.00412551,1.33637,1.28649,1495.35,0.850544,12.7864,0.0471084}
,{0.0179112,0.00417066,1.16601,1.18837,1260.27,0.825733,12.9721,0.0482827}
,{3.72287,0.00417681,4.6286,0.567689,1678.02,0.86202,3093.95,0.0624402}
,{0.0179112,0.00417066,1.16601,1.18837,1260.27,0.825733,12.9721,0.0482827}
,{0.307959,0.00414183,0.545099,1.36766,1499.06,0.836456,26.5156,0.0382323}
,{0.813324,0.00421976,5.48878,0.621228,1491.47,0.843298,17.0197,0.0633415}
,{2.89508,0.00420494,5.30021,0.458632,1380.77,0.835929,13156.5,0.07682}
,{3.47169,0.0041344,3.23372,0.637885,1116.36,0.819589,4766.03,0.117895}
,{2.28576,0.00422582,3.48478,0.625713,804.033,0.79599,8953.57,0.302479}
,{4.70915,0.00409414,3.88322,0.582491,1031.4,0.815544,13300.4,0.167355}
,{7.35883,0.00438746,3.2273,0.693616,1364.65,0.832171,1512.36,0.0787703}
,{1.20379,0.00421476,4.65732,0.615557,857.568,0.794208,5814.37,0.255765}
,{4.21323,0.00420978,4.67533,0.579451,3503.93,0.892614,1468.87,0.014359}
,{10.0615,0.00391035,0.364002,1.20347,1539.97,0.821892,1424.28,0.0402424}
,{0.373157,0.00364035,2.26519,1.151,1675.29,0.837764,13.0656,0.0516993}
,{4.82483,0.00414578,6.09343,0.570256,2300.11,0.863588,2980.72,0.0386788}
,{0.574872,0.00410857,2.76314,0.878406,654.727,0.777081,460.584,0.963426}
,{3.27544,0.00421774,5.76803,0.54054,6631.29,0.942817,744.066,0.00830259}
,{2.99783,0.00409014,4.52986,0.620247,2161.15,0.856688,1268.59,0.0430305}
,{3.02248,0.00410313,3.16182,0.750444,687.321,0.765038,363.38,0.389438}
,{3.5655,0.00411367,6.01196,0.521709,1830.02,0.838996,3661.99,0.0575667}
,{3.64072,0.0041782,4.87424,0.578614,1267.7,0.822111,3508.17,0.241737}
,{0.542525,0.00412806,4.33656,0.639323,1107.85,0.788122,352.321,0.0946601}
,{7.54702,0.00408134,4.92913,0.507107,2565.83,0.861877,3299.96,0.031273}
,{4.43006,0.00419028,5.3921,0.508608,3605.27,0.885038,1687.86,0.0164866}
,{4.31706,0.00406269,3.55237,0.572971,2138.74,0.839174,3204.35,0.029471}
,{2.73097,0.00402842,3.1059,0.645438,1802.36,0.820889,691.941,0.0306839}
,{1.27982,0.00405535,4.63018,0.573846,1595.12,0.816419,1067.28,0.0552321}
,{5.75613,0.00404905,4.357,0.524956,2207.32,0.837956,1579.51,0.027165}
,{9.2061,0.00403636,3.37689,0.572174,3660.35,0.868034,1191.14,0.00953995}
,{8.23962,0.00404348,3.83028,0.534511,4357.71,0.882431,1524.26,0.00786437}
,{3.06189,0.00405111,3.5803,0.59082,2346.1,0.837132,1221.99,0.0200717}
,{7.99485,0.00329576,1.26335,0.777934,1804.13,0.8124,1266.3,0.0263526}
,{6.48326,0.00414609,0.776185,1.08393,250.557,0.643106,177.277,0.898821}
,{0.620494,0.00403017,2.53792,0.677642,727.918,0.74834,117.069,0.201369}
,{0.551045,0.00402571,2.70928,0.68387,1089.46,0.777755,1088.3,0.0810305}
,{1.26011,0.00404797,3.57127,0.525416,2613.09,0.853001,2155.71,0.0282139}
,{3.20857,0.00405101,3.66577,0.536178,3091.16,0.856024,1508.12,0.0154014}
,{1.04066,0.00405071,5.61035,0.439133,3646.13,0.869259,2878.4,0.0139437}
,{1.04586,0.00405038,5.38433,0.445067,3717.15,0.87031,2907.28,0.0132933}
,{3.15124,0.00405235,4.09956,0.542499,3246.31,0.857723,1691.77,0.0150581}
,{3.06995,0.00405334,6.62045,0.452822,3380.58,0.860267,2638.56,0.0153938}
,{3.84541,0.00406028,8.7792,0.442301,2721.99,0.843866,2513.15,0.0228962}
,{4.36117,0.00405648,8.18512,0.43626,3113.58,0.852235,3001.79,0.0172051}
,{4.36117,0.00405648,8.18512,0.43626,3113.58,0.852235,3001.79,0.0172051}
,{3.222,0.00400409,5.90236,0.526779,4040.15,0.868037,1658.35,0.0117469}
,{9.34124,0.00396606,7.92099,0.429769,5180.9,0.887726,2173.16,0.0092007}
,{6.28686,0.00396735,5.81778,0.535859,4866.43,0.884427,2257.34,0.0105815}
,{5.92839,0.00396948,6.40824,0.521225,4619.51,0.880827,2323.52,0.0116274}
,{5.24536,0.0039744,6.79689,0.485424,4586.31,0.877944,2481.5,0.0112824}
,{2.77047,0.00398192,3.55107,0.638231,2516.88,0.829309,2155.59,0.0231207}
,{2.78483,0.00398116,3.32988,0.647983,2662.77,0.83678,2337.43,0.024074}
};
static const double pse85[92][8]={{0.0091827,0.0053496,0.69741,0.48493,316.07,1.0143,9329.3,0.053989}
,{0.11393,0.0051984,1.0822,0.39252,1081,1.0645,4068.5,0.017699}
,{0.85837,0.0050147,1.6044,0.38844,1337.3,1.047,2659.2,0.01898}
,{0.8781,0.0051049,5.4232,0.2032,1200.6,1.0211,1401.8,0.038529}
,{1.4608,0.0048836,2.338,0.44249,1801.3,1.0352,1784.1,0.02024}
,{3.2579,0.0049148,2.7156,0.36473,2092.2,1.0291,2643.6,0.018237}
,{0.59674,0.0050837,4.2073,0.30612,2394.2,1.0255,4892.1,0.016006}
,{0.75253,0.0050314,4.0824,0.30067,2455.8,1.0181,5069.7,0.017426}
,{1.226,0.0051385,3.2246,0.32703,2525,1.0142,7563.6,0.019469}
,{1.0332,0.0051645,3.004,0.33889,2338.6,0.99997,6991.2,0.021799}
,{6.0972,0.0044292,3.1929,0.45763,1363.3,0.95182,2380.6,0.081835}
,{14.013,0.0043646,2.2641,0.36326,2187.4,0.99098,6264.8,0.0462}
,{0.039001,0.0045415,5.5463,0.39562,1589.2,0.95316,816.16,0.047484}
,{2.072,0.0044516,3.5585,0.53933,1515.2,0.93161,1790.3,0.035198}
,{17.575,0.0038346,0.078694,1.2388,2806,0.97284,1037.6,0.012879}
,{16.126,0.0038315,0.054164,1.3104,2813.3,0.96587,1251.4,0.011847}
,{3.217,0.0044579,3.6696,0.5091,2734.6,0.96253,2187.5,0.016907}
,{2.0379,0.0044775,3.0743,0.54773,3505,0.97575,1714,0.011701}
,{0.74171,0.0043051,1.1515,0.95083,917.21,0.8782,389.93,0.18926}
,{9.1316,0.0043809,5.4611,0.31327,3891.8,0.97933,6267.9,0.015196}
,{7.2247,0.0043718,6.1017,0.37511,2829.2,0.95218,6376.1,0.020398}
,{0.147,0.0048456,6.3485,0.41057,2164.1,0.94028,5292.6,0.050263}
,{5.0611,0.0039867,2.6174,0.57957,2218.9,0.92361,6323,0.025669}
,{0.53267,0.0042968,0.39005,1.2725,1872.7,0.90776,64.166,0.030107}
,{0.47697,0.0043038,0.31452,1.3289,1920.5,0.90649,45.576,0.027469}
,{0.027426,0.0035443,0.031563,2.1755,1919.5,0.90099,23.902,0.025363}
,{0.16383,0.0043042,0.073454,1.8592,1918.4,0.89678,27.61,0.023184}
,{4.2562,0.0043737,1.5606,0.72067,1546.8,0.87958,302.02,0.040944}
,{2.3508,0.0043237,2.882,0.50113,1837.7,0.89992,2377,0.04965}
,{3.1095,0.0038455,0.11477,1.5037,2184.7,0.89309,67.306,0.016588}
,{15.322,0.0040306,0.65391,0.67668,3001.7,0.92484,3344.2,0.016366}
,{3.6932,0.0044813,8.608,0.27638,2982.7,0.9276,3166.6,0.030874}
,{7.1373,0.0043134,9.4247,0.27937,2725.8,0.91597,3166.1,0.025008}
,{4.8979,0.0042937,3.7793,0.50004,2824.5,0.91028,1282.4,0.017061}
,{1.3683,0.0043024,2.5679,0.60822,6907.8,0.9817,628.01,0.0068055}
,{1.8301,0.0042983,2.9057,0.6038,4744.6,0.94722,936.64,0.0092242}
,{0.42056,0.0041169,0.01695,2.3616,2252.7,0.89192,39.752,0.027757}
,{30.78,0.0037736,0.55813,0.76816,7113.2,0.97697,1604.4,0.0065268}
,{11.576,0.0042119,7.0244,0.37764,4713.5,0.94264,2493.2,0.01127}
,{6.2406,0.0041916,5.2701,0.49453,4234.6,0.93232,2063.9,0.011844}
,{0.33073,0.0041243,1.7246,1.1062,1930.2,0.86907,27.416,0.038208}
,{0.017747,0.0041715,0.14586,1.7305,1803.6,0.86315,29.669,0.032123}
,{3.7229,0.0041768,4.6286,0.56769,1678,0.86202,3094,0.06244}
,{0.13998,0.0041329,0.25573,1.4241,1919.3,0.86326,72.797,0.032235}
,{0.2859,0.0041386,0.31301,1.3424,1954.8,0.86175,115.18,0.029342}
,{0.76,0.0042179,3.386,0.76285,1867.4,0.85805,69.994,0.036448}
,{6.3957,0.0041935,5.4689,0.41378,1712.6,0.85397,18493,0.056471}
,{3.4717,0.0041344,3.2337,0.63788,1116.4,0.81959,4766,0.1179}
,{2.5265,0.0042282,4.532,0.53562,1030.8,0.81652,16252,0.19722}
,{7.3683,0.0041007,4.6791,0.51428,1160,0.82454,17965,0.13316}
,{7.7197,0.004388,3.242,0.68434,1428.1,0.83398,1786.7,0.066512}
,{16.78,0.0041918,9.3198,0.29568,3370.9,0.90289,7431.7,0.02616}
,{4.2132,0.0042098,4.6753,0.57945,3503.9,0.89261,1468.9,0.014359}
,{4.0818,0.004214,4.4425,0.58393,3945.3,0.90281,1340.5,0.013414}
,{0.18517,0.0036215,0.00058788,3.5315,2931.3,0.88936,26.18,0.026393}
,{4.8248,0.0041458,6.0934,0.57026,2300.1,0.86359,2980.7,0.038679}
,{0.49857,0.0041054,1.9775,0.95877,786.55,0.78509,806.6,0.40882}
,{3.2754,0.0042177,5.768,0.54054,6631.3,0.94282,744.07,0.0083026}
,{2.9978,0.0040901,4.5299,0.62025,2161.2,0.85669,1268.6,0.043031}
,{2.8701,0.004096,4.2568,0.6138,2130.4,0.85235,1704.1,0.039385}
,{10.853,0.0041149,5.8907,0.46834,2857.2,0.8755,3654.2,0.029955}
,{3.6407,0.0041782,4.8742,0.57861,1267.7,0.82211,3508.2,0.24174}
,{17.645,0.0040992,6.5855,0.32734,3931.3,0.90754,5156.7,0.036278}
,{7.5309,0.0040814,4.9389,0.50679,2519.7,0.85819,3314.6,0.030514}
,{5.4742,0.0040829,4.897,0.51113,2340.1,0.85296,2342.7,0.035662}
,{4.2661,0.0040667,4.5032,0.55257,2076.4,0.84151,1666.6,0.040801}
,{6.8313,0.0040486,4.3987,0.51675,2003,0.83437,1410.4,0.03478}
,{1.2707,0.0040553,4.6295,0.57428,1626.3,0.81858,995.68,0.055319}
,{5.7561,0.0040491,4.357,0.52496,2207.3,0.83796,1579.5,0.027165}
,{14.127,0.0040596,5.8304,0.37755,3645.9,0.87823,3411.8,0.016392}
,{6.6948,0.0040603,4.9361,0.47961,2719,0.85249,1885.8,0.019713}
,{3.0619,0.0040511,3.5803,0.59082,2346.1,0.83713,1222,0.020072}
,{10.811,0.0033008,1.3767,0.76512,2003.7,0.82269,1110.6,0.024958}
,{2.7101,0.0040961,1.2289,0.98598,1232.4,0.79066,155.42,0.047294}
,{0.52345,0.0040244,1.4038,0.8551,1461.4,0.79677,503.34,0.036789}
,{0.4616,0.0040203,1.3014,0.87043,1473.5,0.79687,443.09,0.036301}
,{0.97814,0.0040374,2.0127,0.7225,1890.8,0.81747,930.7,0.02769}
,{3.2086,0.004051,3.6658,0.53618,3091.2,0.85602,1508.1,0.015401}
,{2.0035,0.0040431,7.4882,0.3561,4464.3,0.88836,3966.5,0.012839}
,{15.43,0.0039432,1.1237,0.70703,4595.7,0.88437,1576.5,0.0088534}
,{3.1512,0.0040524,4.0996,0.5425,3246.3,0.85772,1691.8,0.015058}
,{7.1896,0.0040588,8.6927,0.35842,4760.6,0.88833,2888.3,0.011029}
,{9.3209,0.004054,11.543,0.32027,4866.2,0.89124,3213.4,0.011935}
,{29.242,0.0036195,0.16864,1.1226,5688,0.89812,1033.3,0.0071303}
,{1.8522,0.0039973,3.1556,0.65096,3755,0.86383,1602,0.012042}
,{3.222,0.0040041,5.9024,0.52678,4040.2,0.86804,1658.4,0.011747}
,{9.3412,0.0039661,7.921,0.42977,5180.9,0.88773,2173.2,0.0092007}
,{36.183,0.0036003,0.58341,0.86747,6990.2,0.91082,1417.1,0.0062187}
,{5.9284,0.0039695,6.4082,0.52122,4619.5,0.88083,2323.5,0.011627}
,{5.2454,0.0039744,6.7969,0.48542,4586.3,0.87794,2481.5,0.011282}
,{33.702,0.0036901,0.47257,0.89235,5295.7,0.8893,2053.3,0.0091908}
,{2.7589,0.0039806,3.2092,0.66122,2505.4,0.82863,2065.1,0.022816}
};
static const double lambda[92]={1,1,1.1,1.06,1.01,1.03,1.04,0.99,0.95,0.9,0.82,0.81,0.83,0.88,1,0.95,0.97,0.99,0.98,0.97,0.98,0.97,0.96,0.93,0.91,0.9,0.88,0.9,0.9,0.9,0.9,0.85,0.9,0.9,0.91,0.92,0.9,0.9,0.9,0.9,0.9,0.88,0.9,0.88,0.88,0.9,0.9,0.88,0.9,0.9,0.9,0.9,0.96,1.2,0.9,0.88,0.88,0.85,0.9,0.9,0.92,0.95,0.99,1.03,1.05,1.07,1.08,1.1,1.08,1.08,1.08,1.08,1.09,1.09,1.1,1.11,1.12,1.13,1.14,1.15,1.17,1.2,1.18,1.17,1.17,1.16,1.16,1.16,1.16,1.16,1.16,1.16};
static const double vfermi[92]={1.0309,0.15976,0.59782,1.0781,1.0486,1,1.058,0.93942,0.74562,0.3424,0.45259,0.71074,0.90519,0.97411,0.97184,0.89852,0.70827,0.39816,0.36552,0.62712,0.81707,0.9943,1.1423,1.2381,1.1222,0.92705,1.0047,1.2,1.0661,0.97411,0.84912,0.95,1.0903,1.0429,0.49715,0.37755,0.35211,0.57801,0.77773,1.0207,1.029,1.2542,1.122,1.1241,1.0882,1.2709,1.2542,0.90094,0.74093,0.86054,0.93155,1.0047,0.55379,0.43289,0.32636,0.5131,0.695,0.72591,0.71202,0.67413,0.71418,0.71453,0.5911,0.70263,0.68049,0.68203,0.68121,0.68532,0.68715,0.61884,0.71801,0.83048,1.1222,1.2381,1.045,1.0733,1.0953,1.2381,1.2879,0.78654,0.66401,0.84912,0.88433,0.80746,0.43357,0.41923,0.43638,0.51464,0.73087,0.81065,1.9578,1.0257};
static const double x0[97]={1.8639,2.2017,0.1304,0.0592,0.0305,-0.0178,1.7378,1.7541,1.8433,2.0735,0.288,0.1499,0.1708,0.2014,0.1696,0.158,1.5555,1.7635,0.3851,0.3228,0.164,0.0957,0.0691,0.034,0.0447,-0.0012,-0.0187,-0.0566,-0.0254,0.0049,0.2267,0.3376,0.1767,0.2258,1.5262,1.7158,0.5737,0.4585,0.3608,0.2957,0.1785,0.2267,0.0949,0.0599,0.0576,0.0563,0.0657,0.1281,0.2406,0.2879,0.3189,0.3296,0.0549,1.563,0.5473,0.419,0.3161,0.2713,0.2333,0.1984,0.1627,0.152,0.1888,0.1058,0.0947,0.0822,0.0761,0.0648,0.0812,0.1199,0.156,0.1965,0.2117,0.2167,0.0559,0.0891,0.0819,0.1484,0.2021,0.2756,0.3491,0.3776,0.4152,0.4267,0.43,1.5368,0.6,0.5991,0.4559,0.4202,0.3144,0.226,0.1869,0.1557,0.2274,0.2484,0.2378};
static const double x1[97]={3.2718,3.6122,1.6397,1.6922,1.9688,2.3415,4.1323,4.3213,4.4096,4.6421,3.1962,3.0668,3.0127,2.8715,2.7815,2.7159,4.2994,4.4855,3.1724,3.1191,3.0593,3.0386,3.0322,3.0451,3.1074,3.1531,3.179,3.1851,3.2792,3.3668,3.5434,3.6096,3.5702,3.6264,4.9899,5.0748,3.7995,3.6778,3.5542,3.489,3.2201,3.2784,3.1253,3.0834,3.1069,3.0555,3.1074,3.1667,3.2032,3.2959,3.3489,3.4418,3.2596,4.7371,3.5914,3.4547,3.3293,3.3432,3.2773,3.3063,3.3199,3.346,3.4633,3.3932,3.4224,3.4474,3.4782,3.4922,3.5085,3.6246,3.5218,3.4337,3.4805,3.496,3.4845,3.5414,3.548,3.6212,3.6979,3.7275,3.8044,3.8073,3.8248,3.8293,4,4.9889,4,3.9428,3.7966,3.7681,3.5079,3.3721,3.369,3.3981,3.5021,3.516,3.5186};
static const double da[97]={0.14092,0.13443,0.95136,0.80392,0.56224,0.26142,0.15349,0.11778,0.11083,0.08064,0.07772,0.08163,0.08024,0.14921,0.2361,0.33992,0.19849,0.19714,0.19827,0.15643,0.15754,0.15662,0.15436,0.15419,0.14973,0.1468,0.14474,0.16496,0.14339,0.14714,0.0944,0.07188,0.06633,0.06568,0.06335,0.07446,0.07261,0.07165,0.07138,0.07177,0.13883,0.10525,0.16572,0.19342,0.19205,0.24178,0.24585,0.24609,0.23879,0.18689,0.16652,0.13815,0.23766,0.23314,0.18233,0.18268,0.18591,0.18885,0.23265,0.2353,0.2428,0.24698,0.24448,0.25109,0.24453,0.24665,0.24638,0.24823,0.24889,0.25295,0.24033,0.22918,0.17798,0.15509,0.15184,0.12751,0.1269,0.11128,0.09756,0.11014,0.09455,0.09359,0.0941,0.09282,0.09,0.20798,0.08,0.08804,0.08567,0.08655,0.1477,0.19677,0.19741,0.20419,0.20308,0.20257,0.20192};
static const double dc[97]={9.5835,11.1393,3.1221,2.7847,2.8477,2.868,10.54,10.7004,10.9653,11.9041,5.0526,4.5297,4.2395,4.4351,4.5214,4.6659,11.1421,11.948,5.6423,5.0396,4.6949,4.445,4.2659,4.1781,4.2702,4.2911,4.2601,4.3115,4.419,4.6906,4.9353,5.1411,5.051,5.321,11.7307,12.5115,6.4776,5.9867,5.4801,5.1774,5.0141,4.8793,4.7769,4.7694,4.8008,4.9358,5.063,5.2727,5.5211,5.534,5.6241,5.7131,5.9488,12.7281,6.9135,6.3153,5.785,5.7837,5.8096,5.829,5.8224,5.8597,6.2278,5.8738,5.9045,5.9183,5.9587,5.9521,5.9677,6.3325,5.9785,5.7139,5.5262,5.4059,5.3445,5.3083,5.3418,5.4732,5.5747,5.9605,6.1365,6.2018,6.3505,6.4003,6.4,13.2839,7,7.0452,6.3742,6.2473,6.0327,5.8694,5.8149,5.8748,6.2813,6.3097,6.2912};
static const double dm[97]={5.7273,5.8347,2.4993,2.4339,2.4512,2.8697,3.2125,3.2913,3.2962,3.5771,3.6452,3.6166,3.6345,3.2546,2.9158,2.6456,2.9702,2.9618,2.9233,3.0745,3.0517,3.0302,3.0163,2.9896,2.9796,2.9632,2.9502,2.843,2.9044,2.8652,3.1314,3.3306,3.4176,3.4317,3.467,3.4051,3.4177,3.4435,3.4585,3.4533,3.093,3.2549,2.9738,2.8707,2.8633,2.7239,2.6899,2.6772,2.7144,2.8576,2.9319,3.0354,2.7276,2.7414,2.8866,2.8906,2.8828,2.8592,2.7331,2.705,2.6674,2.6403,2.6245,2.5977,2.6056,2.5849,2.5726,2.5573,2.5469,2.5141,2.5643,2.6155,2.7623,2.8447,2.8627,2.9608,2.9658,3.0417,3.1101,3.0519,3.145,3.1608,3.1671,3.183,1.1111,2.7409,1.1111,3.2454,3.2683,3.261,2.9845,2.8171,2.8082,2.7679,2.7615,2.7579,2.756};
static const double del0[97]={0,0,0.14,0.14,0.14,0.12,0,0,0,0,0.08,0.08,0.12,0.14,0.14,0.14,0,0,0.1,0.14,0.1,0.12,0.14,0.14,0.14,0.12,0.12,0.1,0.08,0.08,0.14,0.14,0.08,0.1,0,0,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0,0,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.08,0.1,0.1,0.12,0.14,0.14,0.14,0.14,0.14,0.14,0,0,0,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14,0.14};
static const double ls_a[108][200]={{-0.0286005,-0.0263509,-0.0242674,-0.0223377,-0.0205507,-0.0188958,-0.0173631,-0.0159436,-0.0146287,-0.0134106,-0.0122818,-0.0112356,-0.0102656,-0.00936584,-0.00853095,-0.00775583,-0.00703578,-0.00636642,-0.00574372,-0.00516391,-0.00462353,-0.00411935,-0.00364839,-0.00320786,-0.0027952,-0.00240803,-0.00204415,-0.00170149,-0.00137817,-0.0010724,-0.000782569,-0.00050714,-0.000244704,6.05339e-06,0.000246351,0.000477324,0.000700027,0.000915441,0.00112448,0.00132799,0.00152676,0.00172153,0.00191297,0.00210173,0.00228837,0.00247346,0.00265747,0.00284088,0.0030241,0.00320751,0.00339145,0.00357622,0.0037621,0.00394932,0.00413806,0.00432849,0.00452071,0.00471481,0.00491083,0.00510875,0.00530853,0.00551008,0.00571328,0.00591794,0.00612386,0.00633076,0.00653836,0.00674629,0.00695419,0.00716164,0.00736819,0.00757335,0.00777664,0.00797753,0.00817548,0.00836998,0.00856048,0.00874647,0.00892743,0.0091029,0.00927243,0.00943562,0.0095921,0.00974157,0.00988379,0.0100185,0.0101457,0.0102652,0.0103771,0.0104813,0.010578,0.0106673,0.0107493,0.0108244,0.0108928,0.0109547,0.0110104,0.0110602,0.0111044,0.0111433,0.0111772,0.0112063,0.0112308,0.0112509,0.0112667,0.0112785,0.0112861,0.0112897,0.0112891,0.0112843,0.0112749,0.0112607,0.0112412,0.011216,0.0111844,0.0111455,0.0110983,0.0110418,0.0109744,0.0108944,0.0107998,0.0106883,0.010557,0.0104025,0.010221,0.0100079,0.00975777,0.00946418,0.00911965,0.00871544,0.00824121,0.00768487,0.00703223,0.00626666,0.00536864,0.00431533,0.00308082,0.00163284,-6.46211e-05,-0.00205405,-0.00438502,-0.00711439,-0.0103099,-0.0140484,-0.0184192,-0.0235286,-0.0294905,-0.0364416,-0.0445351,-0.0539529,-0.064881,-0.0775421,-0.0921619,-0.10902,-0.128367,-0.150515,-0.175754,-0.204357,-0.236634,-0.272773,-0.312985,-0.357326,-0.40583,-0.458386,-0.514793,-0.574743,-0.637815,-0.703546,-0.771486,-0.841323,-0.912767,-0.985608,-1.05954,-1.1345,-1.21054,-1.28726,-1.36441,-1.44249,-1.52058,-1.59934,-1.67847,-1.75815,-1.83693,-1.91822,-1.99469,-2.05956,-2.14053,-2.22151,-2.30248,-2.38346,-2.46444,-2.54542,-2.6264,-2.70739,-2.78837,-2.86935,-2.95034,-3.03133,-3.11231,-3.1933}
,{-0.108683,-0.100696,-0.0932398,-0.0862849,-0.0798018,-0.073762,-0.0681385,-0.0629051,-0.0580369,-0.05351,-0.049302,-0.0453914,-0.041758,-0.0383825,-0.0352471,-0.0323346,-0.0296292,-0.0271159,-0.0247806,-0.0226102,-0.0205924,-0.0187158,-0.0169695,-0.0153437,-0.013829,-0.0124167,-0.0110986,-0.00986737,-0.00871585,-0.00763756,-0.00662644,-0.00567683,-0.00478351,-0.00394158,-0.00314653,-0.00239414,-0.00168051,-0.001002,-0.000355228,0.000262924,0.000855371,0.00142481,0.00197374,0.00250449,0.00301919,0.00351985,0.00400827,0.00448616,0.00495507,0.00541641,0.00587147,0.00632143,0.00676735,0.00721016,0.00765069,0.00808966,0.00852767,0.00896524,0.00940276,0.00984051,0.0102787,0.0107173,0.0111565,0.0115959,0.0120355,0.0124748,0.0129134,0.0133508,0.0137864,0.0142194,0.0146492,0.0150748,0.0154954,0.0159099,0.0163176,0.0167172,0.017108,0.0174889,0.0178589,0.0182172,0.0185629,0.0188953,0.0192136,0.0195175,0.0198062,0.0200796,0.0203374,0.0205794,0.0208057,0.0210164,0.0212116,0.0213917,0.021557,0.021708,0.0218452,0.0219691,0.0220803,0.0221793,0.0222668,0.0223432,0.0224091,0.0224648,0.0225109,0.0225475,0.0225749,0.0225932,0.0226024,0.0226024,0.0225928,0.0225731,0.0225427,0.0225007,0.0224459,0.0223769,0.0222919,0.0221887,0.0220648,0.021917,0.0217415,0.0215341,0.0212895,0.0210016,0.0206631,0.0202655,0.0197988,0.0192513,0.0186091,0.0178561,0.0169732,0.0159384,0.0147258,0.0133048,0.0116401,0.00969028,0.00740718,0.00473508,0.00160861,-0.00204738,-0.00631984,-0.0113088,-0.0171323,-0.0239181,-0.0318172,-0.0410021,-0.0516599,-0.0640046,-0.0782643,-0.0947017,-0.113579,-0.135189,-0.159824,-0.187766,-0.219302,-0.254658,-0.294033,-0.337531,-0.385196,-0.436927,-0.492555,-0.551783,-0.614218,-0.67942,-0.746953,-0.816428,-0.887562,-0.96013,-1.03391,-1.10872,-1.18453,-1.26111,-1.33824,-1.41611,-1.49436,-1.57296,-1.65227,-1.73117,-1.81123,-1.89068,-1.97001,-2.03345,-2.11441,-2.19537,-2.27633,-2.3573,-2.43827,-2.51924,-2.60021,-2.68119,-2.76216,-2.84314,-2.92412,-3.0051,-3.08608,-3.16706,-3.24805,-3.32903,-3.41002,-3.491,-3.57199,-3.65298}
,{-0.223884,-0.208781,-0.194523,-0.181081,-0.168426,-0.156525,-0.145347,-0.134859,-0.125029,-0.115823,-0.10721,-0.0991583,-0.0916359,-0.0846127,-0.0780594,-0.0719475,-0.0662497,-0.0609398,-0.0559928,-0.0513847,-0.0470929,-0.0430957,-0.0393729,-0.0359051,-0.0326742,-0.029663,-0.0268555,-0.0242365,-0.0217919,-0.0195083,-0.0173734,-0.0153756,-0.0135039,-0.0117482,-0.0100991,-0.00854773,-0.00708583,-0.00570577,-0.00440039,-0.00316307,-0.00198762,-0.000868305,0.000200207,0.00122286,0.00220426,0.00314864,0.00405993,0.00494177,0.0057975,0.0066302,0.00744268,0.00823752,0.00901704,0.00978336,0.0105384,0.0112837,0.0120209,0.0127512,0.0134756,0.0141951,0.0149103,0.0156216,0.0163295,0.017034,0.017735,0.0184323,0.0191256,0.0198142,0.0204974,0.0211745,0.0218443,0.0225059,0.0231579,0.0237993,0.0244286,0.0250444,0.0256455,0.0262305,0.026798,0.0273469,0.0278758,0.0283839,0.0288701,0.0293337,0.029774,0.0301905,0.0305831,0.0309514,0.0312957,0.031616,0.0319127,0.0321864,0.0324375,0.0326669,0.0328753,0.0330635,0.0332324,0.0333829,0.0335158,0.033632,0.0337323,0.0338172,0.0338875,0.0339436,0.0339859,0.0340144,0.0340293,0.0340304,0.0340171,0.0339888,0.0339445,0.0338828,0.0338022,0.0337004,0.0335749,0.0334224,0.0332391,0.0330204,0.0327609,0.0324541,0.0320922,0.0316663,0.0311657,0.0305779,0.0298881,0.0290791,0.0281307,0.0270193,0.0257171,0.0241918,0.0224056,0.0203145,0.0178673,0.0150047,0.0116574,0.00774588,0.00317799,-0.00215329,-0.0083678,-0.0156045,-0.0240203,-0.033795,-0.0451238,-0.0582283,-0.0733446,-0.0907406,-0.110684,-0.133469,-0.159387,-0.188714,-0.221724,-0.258626,-0.299593,-0.344697,-0.393944,-0.447193,-0.504233,-0.564738,-0.628293,-0.694455,-0.762793,-0.832951,-0.904699,-0.977772,-1.05199,-1.12722,-1.20339,-1.28025,-1.35768,-1.43577,-1.51417,-1.59306,-1.67224,-1.75183,-1.83128,-1.91169,-1.99089,-2.05504,-2.13599,-2.21695,-2.29791,-2.37887,-2.45983,-2.5408,-2.62177,-2.70274,-2.78371,-2.86469,-2.94566,-3.02664,-3.10762,-3.1886,-3.26958,-3.35056,-3.43155,-3.51253,-3.59352,-3.6745,-3.75549,-3.83648}
,{-0.356328,-0.334567,-0.313777,-0.293949,-0.275073,-0.257134,-0.240114,-0.22399,-0.20874,-0.194335,-0.180747,-0.167947,-0.155903,-0.144583,-0.133954,-0.123984,-0.114639,-0.105888,-0.097699,-0.0900395,-0.0828796,-0.0761895,-0.0699406,-0.0641054,-0.0586574,-0.0535713,-0.0488229,-0.0443893,-0.0402486,-0.0363803,-0.0327648,-0.0293836,-0.0262194,-0.023256,-0.0204778,-0.0178706,-0.0154208,-0.0131158,-0.0109437,-0.00889357,-0.00695503,-0.00511848,-0.00337494,-0.00171606,-0.000134097,0.00137817,0.00282742,0.00421984,0.00556117,0.00685667,0.0081112,0.00932921,0.0105148,0.0116716,0.012803,0.013912,0.0150012,0.0160731,0.0171295,0.0181723,0.019203,0.0202225,0.0212318,0.0222314,0.0232217,0.0242028,0.0251742,0.0261358,0.0270867,0.0280262,0.028953,0.0298661,0.030764,0.0316453,0.0325083,0.0333515,0.0341731,0.0349715,0.0357451,0.0364923,0.0372117,0.037902,0.038562,0.0391908,0.0397877,0.0403521,0.0408836,0.0413822,0.041848,0.0422813,0.0426827,0.0430528,0.0433925,0.0437029,0.043985,0.0442399,0.044469,0.0446733,0.0448541,0.0450126,0.0451499,0.045267,0.0453646,0.0454436,0.0455045,0.0455475,0.0455729,0.0455805,0.0455698,0.04554,0.0454901,0.0454185,0.0453231,0.0452015,0.0450505,0.0448663,0.0446442,0.0443787,0.0440631,0.0436895,0.0432487,0.0427297,0.0421195,0.041403,0.0405622,0.0395763,0.0384209,0.0370672,0.0354818,0.0336256,0.0314533,0.0289119,0.0259402,0.0224669,0.0184098,0.0136742,0.00815037,0.00171491,-0.00577451,-0.0144784,-0.0245801,-0.0362788,-0.0497974,-0.0653825,-0.0832966,-0.103812,-0.127224,-0.153819,-0.183871,-0.217645,-0.255341,-0.297117,-0.34303,-0.39306,-0.447065,-0.504804,-0.565933,-0.630038,-0.696674,-0.76542,-0.835949,-0.907987,-0.981336,-1.0558,-1.13126,-1.20762,-1.28465,-1.36225,-1.44046,-1.51899,-1.59799,-1.67728,-1.75694,-1.83648,-1.9168,-1.99609,-2.06113,-2.14208,-2.22303,-2.30399,-2.38495,-2.46591,-2.54688,-2.62784,-2.70881,-2.78978,-2.87076,-2.95173,-3.03271,-3.11368,-3.19466,-3.27564,-3.35663,-3.43761,-3.51859,-3.59958,-3.68056,-3.76155,-3.84253,-3.92352}
,{-0.492346,-0.46527,-0.439117,-0.413908,-0.389654,-0.366367,-0.344049,-0.322702,-0.30232,-0.282894,-0.264411,-0.246854,-0.230204,-0.214437,-0.199527,-0.185447,-0.172168,-0.159659,-0.147887,-0.13682,-0.126427,-0.116672,-0.107525,-0.0989517,-0.0909213,-0.0834023,-0.0763647,-0.0697789,-0.0636169,-0.0578514,-0.0524563,-0.0474068,-0.0426793,-0.038251,-0.0341008,-0.0302082,-0.0265544,-0.0231211,-0.0198915,-0.0168496,-0.0139804,-0.0112699,-0.00870491,-0.00627323,-0.00396335,-0.00176459,0.000333002,0.00233868,0.00426101,0.00610793,0.00788678,0.00960429,0.0112667,0.0128796,0.0144481,0.015977,0.0174704,0.018932,0.020365,0.0217724,0.0231566,0.0245195,0.0258627,0.0271875,0.0284948,0.029785,0.0310583,0.0323145,0.0335531,0.0347733,0.0359742,0.0371544,0.0383125,0.0394468,0.0405557,0.0416372,0.0426894,0.0437106,0.0446987,0.0456521,0.046569,0.047448,0.0482878,0.0490873,0.0498457,0.0505623,0.0512369,0.0518694,0.0524602,0.0530095,0.0535183,0.0539875,0.0544181,0.0548116,0.0551693,0.0554928,0.0557836,0.0560433,0.0562735,0.0564757,0.0566514,0.0568018,0.0569281,0.0570313,0.0571122,0.0571712,0.0572086,0.0572244,0.0572181,0.057189,0.0571358,0.0570568,0.0569499,0.056812,0.0566396,0.0564283,0.0561729,0.0558669,0.0555027,0.0550712,0.0545617,0.0539615,0.0532558,0.052427,0.0514547,0.0503146,0.0489789,0.0474145,0.045583,0.0434397,0.0409327,0.0380017,0.0345767,0.0305768,0.025909,0.0204657,0.0141251,0.00674745,-0.0018252,-0.0117723,-0.023291,-0.0366024,-0.0519445,-0.069581,-0.0897825,-0.112838,-0.139036,-0.168651,-0.201948,-0.239136,-0.28038,-0.325754,-0.375253,-0.428744,-0.486008,-0.546717,-0.610462,-0.676808,-0.745332,-0.815672,-0.887569,-0.960788,-1.03517,-1.11055,-1.18683,-1.26382,-1.3414,-1.41958,-1.49817,-1.57714,-1.65647,-1.73593,-1.81595,-1.89599,-1.97555,-2.04085,-2.1218,-2.20274,-2.2837,-2.36465,-2.44561,-2.52657,-2.60754,-2.6885,-2.76947,-2.85044,-2.93142,-3.01239,-3.09337,-3.17435,-3.25533,-3.33631,-3.41729,-3.49827,-3.57925,-3.66024,-3.74122,-3.82221,-3.9032,-3.98418}
,{-0.623826,-0.592878,-0.562718,-0.533382,-0.504901,-0.477307,-0.450623,-0.42487,-0.400066,-0.376221,-0.353343,-0.331434,-0.31049,-0.290506,-0.271469,-0.253366,-0.236176,-0.21988,-0.204451,-0.189864,-0.176089,-0.163097,-0.150856,-0.139333,-0.128496,-0.118311,-0.108747,-0.0997688,-0.0913458,-0.0834457,-0.0760379,-0.0690924,-0.0625802,-0.0564735,-0.0507455,-0.0453706,-0.0403245,-0.0355837,-0.0311264,-0.0269315,-0.0229794,-0.0192513,-0.0157297,-0.0123982,-0.00924124,-0.0062443,-0.00339386,-0.000677272,0.00191725,0.00440064,0.00678305,0.00907385,0.0112817,0.0134145,0.0154795,0.0174833,0.0194319,0.0213305,0.0231841,0.0249967,0.026772,0.0285131,0.0302225,0.0319024,0.0335541,0.035179,0.0367775,0.03835,0.0398962,0.0414157,0.0429075,0.0443704,0.045803,0.0472037,0.0485705,0.0499015,0.0511946,0.0524479,0.0536592,0.0548266,0.0559483,0.0570227,0.0580483,0.0590239,0.0599488,0.0608223,0.0616442,0.0624145,0.0631336,0.0638023,0.0644214,0.0649923,0.0655163,0.0659952,0.0664307,0.0668247,0.0671791,0.0674961,0.0677774,0.0680251,0.068241,0.0684266,0.0685834,0.0687128,0.0688158,0.0688931,0.0689451,0.068972,0.0689734,0.0689485,0.0688963,0.0688148,0.0687017,0.0685539,0.0683676,0.068138,0.0678593,0.0675246,0.0671255,0.0666521,0.0660926,0.0654333,0.0646577,0.0637468,0.062678,0.0614251,0.0599572,0.0582384,0.0562269,0.0538739,0.0511227,0.0479079,0.0441534,0.0397716,0.0346619,0.0287081,0.0217794,0.013726,0.00437848,-0.00645166,-0.018975,-0.0334211,-0.0500427,-0.0691075,-0.0908915,-0.115687,-0.143776,-0.175422,-0.210872,-0.250302,-0.293837,-0.341501,-0.39323,-0.448841,-0.50806,-0.57051,-0.635771,-0.703403,-0.773004,-0.844273,-0.916965,-0.990885,-1.06589,-1.14183,-1.21858,-1.29597,-1.3739,-1.45239,-1.5312,-1.61048,-1.68987,-1.7698,-1.84953,-1.93001,-2.01019,-2.07593,-2.15687,-2.23782,-2.31878,-2.39973,-2.48069,-2.56165,-2.64262,-2.72358,-2.80455,-2.88552,-2.9665,-3.04747,-3.12845,-3.20942,-3.2904,-3.37138,-3.45237,-3.53335,-3.61433,-3.69532,-3.7763,-3.85729,-3.93828,-4.01926}
,{-0.747011,-0.713373,-0.680366,-0.648032,-0.616413,-0.585548,-0.555475,-0.526231,-0.497847,-0.470351,-0.443768,-0.418118,-0.393417,-0.369674,-0.346897,-0.325085,-0.304236,-0.284342,-0.26539,-0.247365,-0.230248,-0.214016,-0.198644,-0.184105,-0.170369,-0.157406,-0.145185,-0.133672,-0.122835,-0.11264,-0.103055,-0.0940457,-0.0855808,-0.0776285,-0.070158,-0.0631393,-0.0565436,-0.0503432,-0.0445113,-0.0390225,-0.0338526,-0.0289784,-0.024378,-0.0200307,-0.0159169,-0.0120183,-0.00831745,-0.00479821,-0.00144536,0.00175525,0.00481683,0.00775162,0.0105709,0.0132852,0.0159041,0.0184363,0.0208899,0.023272,0.025589,0.0278468,0.0300503,0.0322039,0.0343113,0.0363755,0.038399,0.0403837,0.0423308,0.0442411,0.0461149,0.0479518,0.0497515,0.0515127,0.0532341,0.0549142,0.056551,0.0581426,0.0596869,0.0611815,0.0626245,0.0640137,0.0653473,0.0666234,0.0678407,0.0689978,0.070094,0.0711287,0.0721017,0.0730133,0.073864,0.0746546,0.0753865,0.0760612,0.0766804,0.0772462,0.0777606,0.0782261,0.078645,0.0790196,0.0793522,0.0796453,0.0799009,0.0801209,0.0803073,0.0804616,0.0805849,0.0806782,0.0807422,0.0807769,0.0807821,0.080757,0.0807003,0.0806099,0.0804832,0.0803169,0.0801064,0.0798465,0.0795306,0.0791509,0.0786978,0.0781602,0.0775248,0.076776,0.0758952,0.0748609,0.0736476,0.0722257,0.0705604,0.0686113,0.0663314,0.0636658,0.0605513,0.0569143,0.0526702,0.0477215,0.041956,0.0352468,0.0274486,0.0183979,0.0079097,-0.00421919,-0.0182149,-0.0343204,-0.0528021,-0.0739329,-0.0980005,-0.125289,-0.156066,-0.190583,-0.229034,-0.271561,-0.318213,-0.368956,-0.423631,-0.481992,-0.54369,-0.60831,-0.675418,-0.744602,-0.815518,-0.887924,-0.961601,-1.03639,-1.11215,-1.18876,-1.26605,-1.34392,-1.42233,-1.50113,-1.5803,-1.6598,-1.73946,-1.81944,-1.89978,-1.97976,-2.04623,-2.12718,-2.20812,-2.28907,-2.37002,-2.45098,-2.53194,-2.6129,-2.69386,-2.77483,-2.8558,-2.93677,-3.01774,-3.09872,-3.17969,-3.26067,-3.34165,-3.42263,-3.50361,-3.58459,-3.66558,-3.74656,-3.82755,-3.90853,-3.98952,-4.07051}
,{-0.860779,-0.825301,-0.790314,-0.755857,-0.721974,-0.688706,-0.656096,-0.624186,-0.593016,-0.562626,-0.53305,-0.504324,-0.476475,-0.449529,-0.423509,-0.39843,-0.374306,-0.351142,-0.328941,-0.307702,-0.287417,-0.268076,-0.249664,-0.232163,-0.21555,-0.199802,-0.184891,-0.170789,-0.157466,-0.14489,-0.133028,-0.121848,-0.111315,-0.101398,-0.0920617,-0.0832748,-0.075005,-0.0672211,-0.0598929,-0.0529911,-0.0464875,-0.040355,-0.0345677,-0.029101,-0.0239314,-0.0190367,-0.0143958,-0.00998885,-0.00579728,-0.00180358,0.00200862,0.00565456,0.00914843,0.0125033,0.0157314,0.0188438,0.0218506,0.0247611,0.0275836,0.0303255,0.0329936,0.0355935,0.0381302,0.040608,0.0430303,0.0453998,0.0477186,0.0499882,0.0522092,0.054382,0.0565064,0.0585814,0.0606061,0.0625788,0.0644979,0.0663613,0.0681669,0.0699124,0.0715957,0.0732147,0.0747673,0.0762519,0.0776668,0.0790109,0.0802835,0.0814839,0.0826122,0.0836688,0.0846544,0.0855701,0.0864175,0.0871985,0.0879151,0.0885698,0.089165,0.0897036,0.0901882,0.0906217,0.0910068,0.0913462,0.0916423,0.0918976,0.0921142,0.0922938,0.0924379,0.0925477,0.0926239,0.0926667,0.0926758,0.0926505,0.0925893,0.0924901,0.0923498,0.0921647,0.0919299,0.0916394,0.091286,0.0908608,0.0903533,0.089751,0.0890391,0.0882001,0.0872135,0.086055,0.0846965,0.0831048,0.0812415,0.0790616,0.0765129,0.0735349,0.0700575,0.0659997,0.0612683,0.0557566,0.0493416,0.0418852,0.0332299,0.0231982,0.0115937,-0.00180212,-0.0172259,-0.0349362,-0.0552046,-0.0783083,-0.104536,-0.134164,-0.167441,-0.204593,-0.245772,-0.291067,-0.340465,-0.39386,-0.451037,-0.511678,-0.575389,-0.641739,-0.710308,-0.780726,-0.8527,-0.92602,-1.0005,-1.076,-1.15239,-1.22953,-1.30726,-1.38553,-1.46428,-1.54334,-1.62284,-1.70243,-1.78253,-1.86247,-1.94283,-2.00964,-2.09057,-2.17151,-2.25246,-2.33341,-2.41436,-2.49532,-2.57627,-2.65724,-2.7382,-2.81917,-2.90014,-2.98111,-3.06208,-3.14305,-3.22403,-3.30501,-3.38599,-3.46697,-3.54795,-3.62893,-3.70992,-3.7909,-3.87189,-3.95287,-4.03386,-4.11485}
,{-0.965337,-0.928595,-0.892229,-0.856276,-0.820775,-0.785764,-0.751285,-0.71738,-0.684092,-0.651464,-0.619536,-0.588349,-0.557943,-0.528352,-0.499609,-0.471744,-0.444782,-0.418744,-0.393646,-0.3695,-0.346312,-0.324084,-0.302814,-0.282495,-0.263114,-0.244658,-0.227107,-0.210439,-0.19463,-0.179652,-0.165476,-0.152072,-0.139408,-0.127451,-0.116167,-0.105524,-0.0954886,-0.0860267,-0.0771061,-0.0686947,-0.0607614,-0.0532758,-0.0462089,-0.0395324,-0.0332193,-0.027244,-0.0215818,-0.0162096,-0.0111052,-0.00624802,-0.00161839,0.00280192,0.00703001,0.0110818,0.0149719,0.0187141,0.0223207,0.0258032,0.0291719,0.0324362,0.0356043,0.0386836,0.0416805,0.0446004,0.047448,0.0502271,0.0529405,0.0555905,0.0581785,0.0607054,0.0631712,0.0655756,0.0679178,0.0701964,0.0724098,0.0745561,0.0766333,0.0786391,0.0805713,0.0824279,0.0842068,0.0859063,0.0875249,0.0890614,0.0905151,0.0918857,0.0931733,0.0943784,0.095502,0.0965456,0.0975109,0.0984003,0.099216,0.099961,0.100638,0.101251,0.101802,0.102294,0.102732,0.103117,0.103453,0.103743,0.103988,0.104191,0.104354,0.104478,0.104563,0.10461,0.104618,0.104587,0.104515,0.104399,0.104236,0.104022,0.103751,0.103415,0.103008,0.102518,0.101933,0.10124,0.10042,0.0994553,0.0983209,0.0969896,0.0954291,0.0936018,0.0914639,0.0889643,0.0860438,0.082634,0.0786557,0.0740178,0.0686159,0.0623299,0.0550246,0.0465457,0.0367196,0.0253536,0.0122334,-0.00287405,-0.0202227,-0.040081,-0.0627249,-0.0884407,-0.117505,-0.150172,-0.186672,-0.227169,-0.271766,-0.32047,-0.373195,-0.429743,-0.489819,-0.553046,-0.618999,-0.687246,-0.757401,-0.829166,-0.902306,-0.976648,-1.05202,-1.12832,-1.20538,-1.28307,-1.36129,-1.44003,-1.51909,-1.59856,-1.67821,-1.75821,-1.83823,-1.91875,-1.99914,-2.0669,-2.14784,-2.22878,-2.30973,-2.39068,-2.47163,-2.55258,-2.63354,-2.7145,-2.79547,-2.87643,-2.9574,-3.03837,-3.11935,-3.20032,-3.2813,-3.36228,-3.44326,-3.52424,-3.60522,-3.6862,-3.76718,-3.84817,-3.92915,-4.01014,-4.09113,-4.17211}
,{-1.06145,-1.02382,-0.986481,-0.949463,-0.912798,-0.876522,-0.84067,-0.805282,-0.770398,-0.73606,-0.702311,-0.669192,-0.636745,-0.605013,-0.574035,-0.543848,-0.514488,-0.485984,-0.458366,-0.431656,-0.405874,-0.381034,-0.357146,-0.334214,-0.312239,-0.291215,-0.271135,-0.251984,-0.233747,-0.216403,-0.199929,-0.184298,-0.169483,-0.155455,-0.142181,-0.12963,-0.117768,-0.106561,-0.0959776,-0.0859827,-0.0765437,-0.0676282,-0.0592043,-0.0512412,-0.0437091,-0.0365791,-0.0298236,-0.0234162,-0.0173317,-0.0115464,-0.00603749,-0.00078387,0.00423447,0.00903621,0.0136387,0.0180581,0.0223093,0.0264058,0.0303602,0.0341838,0.0378866,0.0414777,0.0449649,0.0483553,0.0516545,0.0548676,0.0579984,0.06105,0.0640246,0.0669237,0.0697479,0.0724973,0.0751714,0.0777692,0.0802893,0.08273,0.0850892,0.087365,0.0895551,0.0916575,0.0936702,0.0955917,0.0974203,0.0991552,0.100796,0.102341,0.103793,0.105151,0.106416,0.107592,0.108678,0.109679,0.110598,0.111436,0.112198,0.112887,0.113508,0.114063,0.114556,0.11499,0.11537,0.115697,0.115976,0.116207,0.116393,0.116536,0.116637,0.116696,0.116712,0.116685,0.116614,0.116494,0.116324,0.116099,0.115811,0.115455,0.115022,0.1145,0.113876,0.113136,0.112262,0.111232,0.110021,0.1086,0.106935,0.104985,0.102705,0.100039,0.0969266,0.0932941,0.0890581,0.0841228,0.0783782,0.0716982,0.0639412,0.0549462,0.0445324,0.0324998,0.0186272,0.00267527,-0.0156157,-0.0365176,-0.0603071,-0.0872687,-0.117672,-0.15176,-0.189745,-0.231767,-0.277899,-0.328112,-0.382285,-0.440185,-0.501486,-0.565789,-0.632665,-0.701696,-0.772524,-0.844867,-0.918518,-0.993305,-1.06908,-1.14573,-1.2231,-1.30105,-1.37952,-1.45845,-1.53768,-1.61734,-1.69709,-1.77727,-1.85732,-1.93783,-2.00608,-2.08701,-2.16795,-2.24889,-2.32983,-2.41078,-2.49173,-2.57269,-2.65365,-2.73461,-2.81558,-2.89654,-2.97751,-3.05848,-3.13946,-3.22043,-3.30141,-3.38238,-3.46336,-3.54434,-3.62533,-3.70631,-3.78729,-3.86828,-3.94926,-4.03025,-4.11123,-4.19222}
,{-1.15003,-1.11177,-1.07372,-1.03593,-0.998421,-0.961215,-0.924347,-0.887852,-0.851766,-0.816125,-0.780972,-0.746346,-0.71229,-0.678846,-0.646057,-0.613965,-0.582609,-0.552028,-0.522258,-0.493331,-0.465276,-0.438119,-0.41188,-0.386575,-0.362215,-0.338807,-0.316352,-0.294848,-0.274287,-0.254657,-0.235942,-0.218124,-0.20118,-0.185086,-0.169813,-0.155333,-0.141614,-0.128624,-0.116331,-0.104701,-0.0937,-0.083295,-0.0734527,-0.0641402,-0.0553255,-0.0469775,-0.039066,-0.0315619,-0.0244372,-0.0176653,-0.0112208,-0.00507953,0.000781118,0.00638254,0.0117447,0.0168863,0.0218246,0.0265754,0.0311534,0.035572,0.039843,0.0439773,0.0479844,0.0518727,0.0556493,0.0593204,0.0628909,0.0663648,0.0697453,0.0730345,0.0762337,0.0793434,0.0823637,0.0852939,0.0881328,0.0908789,0.0935305,0.0960857,0.0985423,0.100898,0.103152,0.105302,0.107347,0.109285,0.111117,0.112843,0.114462,0.115976,0.117387,0.118696,0.119907,0.121021,0.122043,0.122976,0.123824,0.124591,0.125281,0.125897,0.126445,0.126928,0.127349,0.127713,0.128022,0.128278,0.128484,0.128642,0.128753,0.128816,0.128833,0.128801,0.12872,0.128585,0.128393,0.128139,0.127817,0.127417,0.12693,0.126345,0.125647,0.124818,0.123839,0.122687,0.121332,0.119743,0.117882,0.115705,0.11316,0.110186,0.106716,0.10267,0.0979556,0.0924679,0.0860864,0.0786755,0.0700804,0.0601281,0.0486245,0.0353571,0.020092,0.0025795,-0.0174497,-0.0402697,-0.0661628,-0.0954029,-0.128242,-0.164905,-0.205557,-0.250297,-0.299133,-0.351983,-0.408646,-0.468835,-0.532176,-0.598246,-0.666619,-0.736908,-0.8088,-0.882074,-0.956537,-1.03204,-1.10845,-1.18564,-1.26345,-1.3418,-1.42064,-1.49984,-1.57938,-1.65917,-1.73925,-1.81941,-1.89998,-1.98027,-2.04954,-2.13047,-2.21141,-2.29235,-2.37329,-2.45424,-2.53519,-2.61615,-2.69711,-2.77807,-2.85903,-2.94,-3.02097,-3.10194,-3.18291,-3.26389,-3.34486,-3.42584,-3.50682,-3.5878,-3.66878,-3.74977,-3.83075,-3.91173,-3.99272,-4.07371,-4.15469,-4.23568}
,{-1.23199,-1.19325,-1.15469,-1.11632,-1.07818,-1.04028,-1.00265,-0.965316,-0.928315,-0.891678,-0.855441,-0.819641,-0.784318,-0.749512,-0.715267,-0.681624,-0.648627,-0.616315,-0.584731,-0.553913,-0.523896,-0.494715,-0.466398,-0.438972,-0.412457,-0.38687,-0.362223,-0.338524,-0.315774,-0.293972,-0.273109,-0.253176,-0.234157,-0.216034,-0.198784,-0.182382,-0.166802,-0.152015,-0.137989,-0.124692,-0.112092,-0.100156,-0.0888488,-0.0781378,-0.0679894,-0.058371,-0.0492503,-0.0405962,-0.0323784,-0.0245679,-0.0171368,-0.0100584,-0.00330757,0.00313971,0.0093059,0.015212,0.0208778,0.0263213,0.0315593,0.0366073,0.041479,0.0461872,0.0507429,0.0551561,0.0594353,0.063588,0.0676204,0.0715374,0.075343,0.0790402,0.082631,0.0861166,0.0894974,0.0927732,0.0959432,0.0990063,0.101961,0.104805,0.107537,0.110155,0.112658,0.115043,0.11731,0.119459,0.121488,0.123397,0.125189,0.126864,0.128424,0.129871,0.131209,0.13244,0.133569,0.1346,0.135536,0.136383,0.137145,0.137826,0.138431,0.138965,0.139432,0.139834,0.140177,0.140462,0.140692,0.14087,0.140996,0.14107,0.141094,0.141066,0.140983,0.140843,0.140642,0.140374,0.140032,0.139608,0.139091,0.138469,0.137726,0.136844,0.135802,0.134575,0.133133,0.131442,0.129462,0.127146,0.12444,0.12128,0.117594,0.113298,0.108296,0.102477,0.0957149,0.0878684,0.0787763,0.0682584,0.0561149,0.0421258,0.0260527,0.00763796,-0.0133882,-0.0373011,-0.0643812,-0.0948962,-0.129087,-0.167161,-0.20926,-0.255458,-0.305728,-0.359952,-0.4179,-0.479255,-0.543627,-0.610585,-0.679713,-0.750641,-0.823093,-0.896849,-0.971746,-1.04763,-1.12439,-1.20187,-1.27993,-1.35851,-1.43756,-1.51691,-1.59664,-1.67654,-1.75675,-1.83701,-1.91765,-1.99825,-2.06808,-2.14901,-2.22995,-2.31089,-2.39184,-2.47278,-2.55374,-2.63469,-2.71565,-2.79661,-2.87758,-2.95854,-3.03951,-3.12048,-3.20146,-3.28243,-3.36341,-3.44439,-3.52536,-3.60635,-3.68733,-3.76831,-3.84929,-3.93028,-4.01126,-4.09225,-4.17324,-4.25422}
,{-1.30813,-1.26902,-1.23006,-1.19126,-1.15264,-1.11421,-1.07599,-1.03802,-1.00032,-0.962912,-0.925832,-0.889112,-0.852789,-0.816901,-0.781487,-0.746587,-0.712245,-0.678502,-0.645402,-0.612985,-0.581292,-0.550362,-0.52023,-0.490931,-0.462493,-0.434941,-0.408298,-0.382579,-0.357797,-0.333958,-0.311064,-0.289113,-0.268099,-0.248009,-0.228828,-0.210538,-0.193116,-0.176539,-0.160777,-0.145802,-0.131584,-0.11809,-0.105287,-0.0931415,-0.0816202,-0.0706895,-0.060316,-0.0504672,-0.041111,-0.0322165,-0.0237536,-0.0156936,-0.00800899,-0.00067344,0.00633779,0.0130481,0.0194793,0.0256518,0.0315845,0.0372947,0.0427984,0.0481098,0.053242,0.0582063,0.0630129,0.0676703,0.0721861,0.0765664,0.080816,0.0849388,0.0889376,0.0928143,0.0965697,0.100204,0.103718,0.107109,0.110376,0.113519,0.116536,0.119424,0.122182,0.12481,0.127306,0.129669,0.1319,0.133999,0.135967,0.137806,0.139519,0.141107,0.142574,0.143924,0.145162,0.146291,0.147317,0.148244,0.149079,0.149825,0.150487,0.151071,0.151582,0.152022,0.152396,0.152707,0.152959,0.153152,0.153288,0.153369,0.153393,0.15336,0.153268,0.153112,0.15289,0.152593,0.152216,0.151748,0.151178,0.150492,0.149674,0.148703,0.147556,0.146206,0.144621,0.142763,0.140589,0.138046,0.135077,0.131612,0.127574,0.12287,0.117398,0.111038,0.103656,0.0950994,0.0851973,0.0737586,0.0605732,0.0454107,0.0280241,0.00814823,-0.014489,-0.0401665,-0.0691557,-0.101713,-0.13806,-0.178369,-0.222748,-0.27122,-0.323705,-0.38003,-0.439918,-0.503009,-0.568886,-0.637123,-0.707329,-0.779176,-0.852417,-0.926873,-1.00239,-1.07882,-1.15604,-1.23392,-1.31232,-1.39122,-1.4705,-1.5501,-1.63001,-1.71011,-1.79044,-1.8709,-1.95143,-2.02198,-2.10291,-2.18384,-2.26477,-2.34571,-2.42666,-2.50761,-2.58856,-2.66952,-2.75047,-2.83144,-2.9124,-2.99337,-3.07434,-3.15531,-3.23628,-3.31725,-3.39823,-3.47921,-3.56019,-3.64117,-3.72215,-3.80313,-3.88412,-3.9651,-4.04609,-4.12707,-4.20806,-4.28905}
,{-1.37915,-1.33976,-1.30049,-1.26135,-1.22235,-1.18351,-1.14484,-1.10637,-1.06811,-1.0301,-0.99236,-0.954914,-0.917797,-0.881043,-0.844688,-0.808769,-0.773328,-0.738405,-0.704041,-0.67028,-0.637165,-0.604735,-0.573032,-0.542095,-0.511957,-0.482653,-0.45421,-0.426654,-0.400004,-0.374278,-0.349485,-0.325632,-0.30272,-0.280745,-0.259701,-0.239575,-0.220351,-0.202009,-0.184527,-0.16788,-0.15204,-0.136977,-0.12266,-0.109057,-0.0961355,-0.0838611,-0.0722006,-0.0611206,-0.050588,-0.0405706,-0.0310366,-0.0219555,-0.0132978,-0.00503545,0.00285858,0.0104097,0.0176419,0.0245777,0.0312379,0.0376419,0.0438075,0.0497508,0.0554864,0.0610274,0.0663854,0.0715703,0.0765909,0.0814544,0.0861668,0.0907328,0.095156,0.099439,0.103583,0.10759,0.111459,0.115189,0.118781,0.122232,0.125542,0.128708,0.13173,0.134607,0.137338,0.139923,0.142362,0.144655,0.146805,0.148812,0.150681,0.152414,0.154014,0.155486,0.156836,0.158067,0.159185,0.160196,0.161106,0.161919,0.162642,0.163279,0.163836,0.164318,0.164727,0.165069,0.165345,0.165559,0.165712,0.165804,0.165837,0.165807,0.165714,0.165555,0.165323,0.165013,0.164618,0.164126,0.163526,0.162804,0.161942,0.160918,0.15971,0.158288,0.156617,0.15466,0.15237,0.149693,0.146568,0.142923,0.138676,0.133733,0.127986,0.12131,0.113567,0.1046,0.0942311,0.0822645,0.068485,0.0526574,0.0345308,0.0138375,-0.0096953,-0.0363448,-0.0663786,-0.100041,-0.137544,-0.179041,-0.224618,-0.274269,-0.327897,-0.385293,-0.446159,-0.510119,-0.576751,-0.645635,-0.716391,-0.788712,-0.862374,-0.937202,-1.01305,-1.08978,-1.16726,-1.24536,-1.32396,-1.40304,-1.48247,-1.56222,-1.64226,-1.72245,-1.8029,-1.88346,-1.96401,-2.03535,-2.11627,-2.1972,-2.27814,-2.35908,-2.44003,-2.52097,-2.60193,-2.68288,-2.76384,-2.8448,-2.92577,-3.00673,-3.0877,-3.16867,-3.24965,-3.33062,-3.4116,-3.49258,-3.57356,-3.65454,-3.73552,-3.8165,-3.89748,-3.97847,-4.05945,-4.14044,-4.22143,-4.30241}
,{-1.44565,-1.40604,-1.36652,-1.32711,-1.28781,-1.24864,-1.20961,-1.17074,-1.13205,-1.09356,-1.05529,-1.01726,-0.979508,-0.942057,-0.90494,-0.868192,-0.83185,-0.795952,-0.760538,-0.725651,-0.691331,-0.657623,-0.624567,-0.592205,-0.560577,-0.52972,-0.499669,-0.470456,-0.442108,-0.414648,-0.388096,-0.362466,-0.337768,-0.314006,-0.29118,-0.269285,-0.248313,-0.22825,-0.209079,-0.19078,-0.173329,-0.1567,-0.140865,-0.125793,-0.111454,-0.0978144,-0.0848416,-0.0725022,-0.0607626,-0.0495898,-0.038951,-0.0288145,-0.0191493,-0.00992545,-0.00111433,0.00731137,0.0153775,0.0231086,0.0305272,0.0376548,0.0445108,0.0511132,0.0574782,0.0636206,0.0695533,0.0752877,0.0808339,0.0862002,0.0913937,0.0964201,0.101284,0.105988,0.110535,0.114927,0.119163,0.123244,0.12717,0.130939,0.134551,0.138004,0.141297,0.14443,0.147403,0.150214,0.152865,0.155358,0.157693,0.159872,0.1619,0.16378,0.165516,0.167113,0.168575,0.169909,0.171121,0.172216,0.173201,0.174082,0.174864,0.175553,0.176155,0.176675,0.177117,0.177485,0.177782,0.178012,0.178174,0.178272,0.178303,0.178268,0.178163,0.177985,0.177728,0.177386,0.176951,0.17641,0.175751,0.174958,0.174012,0.17289,0.171566,0.170008,0.168179,0.166038,0.163533,0.160608,0.157195,0.153218,0.148587,0.143201,0.136945,0.129685,0.121275,0.111546,0.100312,0.0873676,0.0724867,0.0554269,0.0359282,0.0137206,-0.0114689,-0.039914,-0.0718715,-0.107567,-0.147187,-0.190848,-0.238594,-0.290369,-0.346022,-0.405299,-0.467861,-0.533308,-0.601212,-0.671167,-0.742826,-0.815928,-0.890273,-0.965705,-1.04208,-1.11928,-1.19716,-1.27559,-1.3545,-1.43385,-1.51349,-1.59347,-1.67361,-1.75403,-1.83451,-1.91529,-1.99607,-2.06798,-2.1489,-2.22983,-2.31077,-2.39171,-2.47266,-2.5536,-2.63456,-2.71551,-2.79647,-2.87743,-2.9584,-3.03936,-3.12033,-3.2013,-3.28228,-3.36325,-3.44423,-3.52521,-3.60618,-3.68717,-3.76815,-3.84913,-3.93011,-4.0111,-4.09208,-4.17307,-4.25406,-4.33504}
,{-1.50815,-1.46836,-1.42864,-1.389,-1.34946,-1.31002,-1.2707,-1.23151,-1.19247,-1.15359,-1.11489,-1.07639,-1.03812,-1.00011,-0.962368,-0.924941,-0.887857,-0.851152,-0.814863,-0.77903,-0.743694,-0.708896,-0.674679,-0.641085,-0.608155,-0.575932,-0.544453,-0.513755,-0.483872,-0.454833,-0.426665,-0.399389,-0.373022,-0.347578,-0.323062,-0.299479,-0.276827,-0.255098,-0.234281,-0.214363,-0.195325,-0.177145,-0.159798,-0.143257,-0.127494,-0.112477,-0.0981753,-0.084556,-0.0715858,-0.0592316,-0.0474602,-0.036239,-0.0255359,-0.0153199,-0.00556083,0.0037702,0.0127007,0.0212568,0.029463,0.0373423,0.0449159,0.0522036,0.0592231,0.0659907,0.0725209,0.0788264,0.0849186,0.0908071,0.0964998,0.102004,0.107324,0.112464,0.117428,0.122218,0.126834,0.131277,0.135548,0.139645,0.143567,0.147315,0.150888,0.154284,0.157505,0.160549,0.163419,0.166116,0.168641,0.170998,0.173189,0.17522,0.177095,0.17882,0.180399,0.181839,0.183147,0.18433,0.185393,0.186343,0.187188,0.187932,0.188583,0.189145,0.189624,0.190023,0.190346,0.190596,0.190776,0.190885,0.190924,0.190892,0.190786,0.190602,0.190335,0.189979,0.189522,0.188955,0.188264,0.187431,0.186438,0.185259,0.183868,0.182232,0.180312,0.178064,0.175436,0.172367,0.168788,0.164619,0.159768,0.154129,0.147583,0.139993,0.131206,0.121049,0.109332,0.0958441,0.0803549,0.0626187,0.0423727,0.0193462,-0.00673262,-0.0361334,-0.0691057,-0.105863,-0.146579,-0.191349,-0.240195,-0.293036,-0.349697,-0.409904,-0.473297,-0.53947,-0.608,-0.678486,-0.750607,-0.824112,-0.898816,-0.974567,-1.05123,-1.12868,-1.20678,-1.2854,-1.3645,-1.44398,-1.52377,-1.60387,-1.68413,-1.76465,-1.8452,-1.92606,-2.00692,-2.07952,-2.16044,-2.24137,-2.32231,-2.40325,-2.4842,-2.56515,-2.6461,-2.72705,-2.80801,-2.88897,-2.96994,-3.0509,-3.13187,-3.21284,-3.29382,-3.37479,-3.45577,-3.53675,-3.61773,-3.69871,-3.77969,-3.86067,-3.94165,-4.02264,-4.10362,-4.18461,-4.2656,-4.34659}
,{-1.56708,-1.52714,-1.48725,-1.44743,-1.40769,-1.36803,-1.32847,-1.28902,-1.24969,-1.21049,-1.17144,-1.13256,-1.09386,-1.05538,-1.01713,-0.979139,-0.94144,-0.904063,-0.867043,-0.830415,-0.794218,-0.758493,-0.72328,-0.688621,-0.65456,-0.621138,-0.588396,-0.556375,-0.525113,-0.494643,-0.464999,-0.436208,-0.408295,-0.381278,-0.355172,-0.329988,-0.305731,-0.282401,-0.259994,-0.238502,-0.21791,-0.198204,-0.179362,-0.161361,-0.144176,-0.127779,-0.11214,-0.0972276,-0.0830101,-0.0694546,-0.0565283,-0.0441981,-0.0324316,-0.0211967,-0.0104623,-0.000198342,0.00962414,0.0190327,0.0280534,0.0367108,0.0450277,0.0530254,0.0607233,0.068139,0.0752886,0.0821861,0.0888441,0.0952734,0.101483,0.107481,0.113273,0.118865,0.12426,0.12946,0.134468,0.139284,0.14391,0.148344,0.152586,0.156637,0.160496,0.164163,0.167637,0.170921,0.174014,0.176919,0.179638,0.182176,0.184534,0.186719,0.188735,0.190589,0.192286,0.193834,0.195239,0.196508,0.197649,0.198669,0.199575,0.200373,0.201069,0.20167,0.202181,0.202607,0.20295,0.203215,0.203402,0.203514,0.203549,0.203507,0.203385,0.203178,0.20288,0.202484,0.20198,0.201354,0.200592,0.199675,0.198583,0.197288,0.195761,0.193966,0.191861,0.189398,0.18652,0.183162,0.179249,0.174695,0.1694,0.163251,0.15612,0.147862,0.138312,0.12729,0.114594,0.100004,0.0832802,0.0641705,0.0424069,0.0177188,-0.0101654,-0.0415038,-0.0765274,-0.11543,-0.158344,-0.205329,-0.256354,-0.311293,-0.369914,-0.431901,-0.496868,-0.564391,-0.63406,-0.705509,-0.77845,-0.852671,-0.92801,-1.00432,-1.08148,-1.15935,-1.23781,-1.31673,-1.39612,-1.47582,-1.55583,-1.63609,-1.71652,-1.79714,-1.8779,-1.95862,-2.03208,-2.113,-2.19392,-2.27486,-2.35579,-2.43673,-2.51768,-2.59863,-2.67958,-2.76053,-2.84149,-2.92245,-3.00342,-3.08439,-3.16535,-3.24633,-3.3273,-3.40827,-3.48925,-3.57023,-3.65121,-3.73219,-3.81317,-3.89415,-3.97514,-4.05612,-4.13711,-4.21809,-4.29908,-4.38007}
,{-1.62282,-1.58274,-1.54272,-1.50275,-1.46284,-1.423,-1.38324,-1.34356,-1.30399,-1.26452,-1.22518,-1.18598,-1.14693,-1.10806,-1.06939,-1.03093,-0.992715,-0.954776,-0.91714,-0.879841,-0.842915,-0.806398,-0.77033,-0.734753,-0.699707,-0.665236,-0.631381,-0.598185,-0.565688,-0.533929,-0.502944,-0.472766,-0.443426,-0.414948,-0.387355,-0.360663,-0.334884,-0.310025,-0.28609,-0.263074,-0.240973,-0.219774,-0.199462,-0.18002,-0.161424,-0.143651,-0.126673,-0.110462,-0.094987,-0.0802164,-0.0661182,-0.0526597,-0.0398083,-0.0275317,-0.0157982,-0.00457666,0.00616277,0.0164489,0.026309,0.0357692,0.0448535,0.0535848,0.0619839,0.0700698,0.0778598,0.0853696,0.0926126,0.0996011,0.106345,0.112854,0.119133,0.125191,0.13103,0.136654,0.142065,0.147266,0.152256,0.157037,0.161609,0.165971,0.170124,0.174068,0.177803,0.181331,0.184653,0.187771,0.190689,0.19341,0.195939,0.198281,0.200442,0.202427,0.204244,0.205901,0.207404,0.208761,0.209981,0.21107,0.212037,0.212887,0.213629,0.214268,0.21481,0.21526,0.21562,0.215896,0.216088,0.216197,0.216224,0.216165,0.216019,0.21578,0.215441,0.214993,0.214426,0.213725,0.212873,0.211851,0.210633,0.209193,0.207495,0.205501,0.203165,0.200434,0.197246,0.193529,0.189201,0.184169,0.178324,0.171545,0.163692,0.154609,0.144123,0.13204,0.118146,0.102211,0.0839889,0.0632165,0.0396248,0.0129449,-0.017088,-0.0507168,-0.0881476,-0.129542,-0.174986,-0.22449,-0.277962,-0.335216,-0.395969,-0.459862,-0.526483,-0.595415,-0.666265,-0.73871,-0.812512,-0.88749,-0.963496,-1.04039,-1.11806,-1.19637,-1.27518,-1.35444,-1.4341,-1.51404,-1.59428,-1.67467,-1.75532,-1.836,-1.91697,-1.99791,-2.07187,-2.15279,-2.23372,-2.31465,-2.39558,-2.47652,-2.55747,-2.63842,-2.71937,-2.80032,-2.88128,-2.96225,-3.04321,-3.12418,-3.20515,-3.28612,-3.36709,-3.44806,-3.52904,-3.61002,-3.691,-3.77198,-3.85296,-3.93394,-4.01493,-4.09591,-4.1769,-4.25788,-4.33887,-4.41986}
,{-1.67568,-1.6355,-1.59535,-1.55525,-1.5152,-1.4752,-1.43527,-1.39541,-1.35563,-1.31595,-1.27636,-1.23689,-1.19754,-1.15834,-1.11931,-1.08046,-1.04181,-1.0034,-0.96524,-0.927372,-0.889823,-0.852629,-0.815827,-0.779454,-0.743553,-0.708164,-0.673329,-0.639091,-0.605493,-0.572575,-0.540376,-0.508934,-0.478284,-0.448456,-0.419477,-0.391371,-0.364156,-0.337846,-0.312449,-0.28797,-0.264408,-0.241758,-0.22001,-0.199151,-0.179163,-0.160025,-0.141715,-0.124205,-0.107468,-0.0914735,-0.0761915,-0.0615898,-0.0476364,-0.0342991,-0.0215458,-0.00934502,0.00233378,0.0135203,0.024243,0.0345289,0.0444035,0.0538908,0.0630129,0.0717902,0.0802413,0.088383,0.0962302,0.103796,0.111092,0.118127,0.12491,0.131448,0.137745,0.143806,0.149633,0.15523,0.160597,0.165735,0.170645,0.175327,0.179782,0.184011,0.188014,0.191793,0.19535,0.198689,0.201811,0.204723,0.207427,0.209932,0.212241,0.214364,0.216306,0.218077,0.219684,0.221135,0.222439,0.223604,0.224639,0.225551,0.226346,0.227033,0.227617,0.228103,0.228496,0.228799,0.229014,0.229143,0.229185,0.22914,0.229003,0.22877,0.228435,0.227988,0.227419,0.226713,0.225854,0.224821,0.22359,0.222132,0.220414,0.218395,0.21603,0.213265,0.210038,0.206276,0.201897,0.196807,0.190897,0.184044,0.176108,0.166934,0.156347,0.144152,0.130136,0.11407,0.095705,0.074781,0.0510292,0.0241817,-0.0060242,-0.0398296,-0.0774383,-0.119009,-0.164627,-0.214298,-0.267931,-0.325339,-0.386237,-0.450266,-0.517019,-0.586075,-0.657045,-0.729604,-0.803516,-0.878595,-0.954701,-1.03169,-1.10945,-1.18784,-1.26673,-1.34607,-1.42581,-1.50582,-1.58613,-1.66659,-1.74728,-1.82802,-1.90902,-1.99,-2.0647,-2.14562,-2.22655,-2.30748,-2.38842,-2.46936,-2.5503,-2.63125,-2.7122,-2.79316,-2.87412,-2.95508,-3.03604,-3.11701,-3.19798,-3.27895,-3.35992,-3.4409,-3.52187,-3.60285,-3.68383,-3.76481,-3.84579,-3.92678,-4.00776,-4.08874,-4.16973,-4.25072,-4.3317,-4.41269}
,{-1.72594,-1.68566,-1.64541,-1.6052,-1.56503,-1.5249,-1.48483,-1.44481,-1.40485,-1.36497,-1.32518,-1.28547,-1.24588,-1.2064,-1.16706,-1.12788,-1.08886,-1.05004,-1.01144,-0.973085,-0.935003,-0.897227,-0.859791,-0.82273,-0.786084,-0.749891,-0.714194,-0.679034,-0.644454,-0.610496,-0.577202,-0.544611,-0.512763,-0.481691,-0.451428,-0.422003,-0.393439,-0.365756,-0.33897,-0.31309,-0.288123,-0.264069,-0.240924,-0.218679,-0.197323,-0.176839,-0.157207,-0.138405,-0.120407,-0.103186,-0.0867132,-0.0709582,-0.0558898,-0.0414764,-0.0276862,-0.0144877,-0.00184995,0.0102574,0.0218634,0.032996,0.0436819,0.0539461,0.0638117,0.0733005,0.0824323,0.0912248,0.0996942,0.107855,0.115719,0.123297,0.130598,0.13763,0.144399,0.150909,0.157164,0.163168,0.168921,0.174426,0.179683,0.184694,0.189459,0.193979,0.198257,0.202293,0.206091,0.209654,0.212985,0.21609,0.218974,0.221644,0.224105,0.226367,0.228436,0.230322,0.232033,0.233579,0.234968,0.236209,0.237311,0.238282,0.23913,0.239862,0.240485,0.241004,0.241424,0.241749,0.241981,0.242122,0.242172,0.242128,0.241989,0.241749,0.241401,0.240936,0.240343,0.239606,0.238709,0.237631,0.236345,0.234823,0.233029,0.230922,0.228454,0.22557,0.222204,0.218284,0.213722,0.208422,0.202272,0.195145,0.186899,0.177372,0.166386,0.153743,0.139227,0.122603,0.103622,0.0820224,0.0575348,0.029894,-0.00115796,-0.0358547,-0.0743891,-0.116906,-0.163473,-0.214078,-0.268608,-0.326858,-0.388525,-0.453242,-0.520593,-0.590165,-0.661578,-0.734521,-0.808771,-0.884155,-0.960533,-1.03777,-1.11574,-1.19432,-1.27339,-1.35288,-1.43275,-1.51289,-1.5933,-1.67386,-1.75466,-1.83548,-1.91653,-1.99763,-2.07295,-2.15387,-2.2348,-2.31573,-2.39667,-2.47761,-2.55855,-2.6395,-2.72045,-2.80141,-2.88237,-2.96333,-3.04429,-3.12526,-3.20623,-3.2872,-3.36817,-3.44915,-3.53012,-3.6111,-3.69208,-3.77306,-3.85404,-3.93502,-4.01601,-4.09699,-4.17798,-4.25896,-4.33995,-4.42094}
,{-1.77384,-1.73348,-1.69314,-1.65283,-1.61256,-1.57231,-1.53211,-1.49196,-1.45185,-1.41181,-1.37183,-1.33193,-1.29212,-1.2524,-1.2128,-1.17333,-1.13399,-1.09483,-1.05584,-1.01707,-0.978528,-0.940249,-0.902263,-0.864604,-0.827307,-0.79041,-0.753952,-0.717975,-0.682521,-0.647632,-0.613351,-0.579719,-0.546777,-0.514563,-0.483114,-0.452461,-0.422635,-0.393661,-0.365558,-0.338345,-0.312031,-0.286624,-0.262126,-0.238533,-0.215838,-0.194031,-0.173095,-0.153012,-0.133759,-0.115314,-0.0976479,-0.0807336,-0.0645412,-0.0490401,-0.0341992,-0.0199874,-0.0063737,0.00667236,0.0191804,0.0311791,0.0426956,0.053756,0.0643845,0.0746038,0.0844346,0.093896,0.103005,0.111777,0.120225,0.128362,0.136196,0.143736,0.150989,0.157961,0.164656,0.171077,0.177226,0.183107,0.18872,0.194067,0.19915,0.203969,0.208527,0.212826,0.216869,0.220661,0.224205,0.227507,0.230573,0.233409,0.236024,0.238426,0.240623,0.242624,0.24444,0.246078,0.24755,0.248864,0.25003,0.251057,0.251952,0.252723,0.253377,0.25392,0.254357,0.254692,0.254926,0.255062,0.255099,0.255035,0.254867,0.254588,0.254192,0.253667,0.253,0.252177,0.251177,0.249977,0.248549,0.24686,0.244871,0.242539,0.239809,0.236621,0.232906,0.228581,0.223555,0.217721,0.210958,0.203132,0.194088,0.183655,0.171644,0.157846,0.142034,0.123966,0.103386,0.0800274,0.0536241,0.0239148,-0.00934364,-0.0463612,-0.087304,-0.132272,-0.181287,-0.234281,-0.291087,-0.351444,-0.415009,-0.481384,-0.55015,-0.620911,-0.693324,-0.767126,-0.842127,-0.918176,-0.99514,-1.07289,-1.1513,-1.23024,-1.30962,-1.38942,-1.4695,-1.54985,-1.63044,-1.71117,-1.79206,-1.87308,-1.95406,-2.03032,-2.11124,-2.19216,-2.27308,-2.35401,-2.43495,-2.51589,-2.59684,-2.67778,-2.75874,-2.83969,-2.92065,-3.00161,-3.08258,-3.16354,-3.24451,-3.32548,-3.40646,-3.48743,-3.56841,-3.64939,-3.73036,-3.81135,-3.89233,-3.97331,-4.05429,-4.13528,-4.21626,-4.29725,-4.37824,-4.45922}
,{-1.81958,-1.77915,-1.73874,-1.69834,-1.65798,-1.61763,-1.57732,-1.53705,-1.49681,-1.45662,-1.41649,-1.37642,-1.33641,-1.29649,-1.25666,-1.21694,-1.17734,-1.13787,-1.09855,-1.05942,-1.02048,-0.981759,-0.943295,-0.905112,-0.867245,-0.829729,-0.792601,-0.7559,-0.719667,-0.683944,-0.648774,-0.614199,-0.580261,-0.547001,-0.514457,-0.482667,-0.451664,-0.421477,-0.392132,-0.363652,-0.336053,-0.309348,-0.283544,-0.258644,-0.234645,-0.211542,-0.189324,-0.167976,-0.14748,-0.127816,-0.108959,-0.090883,-0.0735611,-0.056964,-0.0410617,-0.0258238,-0.0112196,0.00278098,0.0162079,0.02909,0.0414552,0.0533301,0.0647397,0.0757076,0.0862554,0.0964032,0.106169,0.115569,0.124618,0.133327,0.141709,0.149771,0.157522,0.164968,0.172114,0.178964,0.185521,0.191788,0.197766,0.203458,0.208865,0.213991,0.218836,0.223404,0.227699,0.231725,0.235487,0.238991,0.242243,0.245252,0.248024,0.25057,0.252898,0.255019,0.256941,0.258676,0.260234,0.261625,0.262859,0.263944,0.26489,0.265704,0.266395,0.266967,0.267426,0.267777,0.268021,0.26816,0.268193,0.268119,0.267934,0.267631,0.267201,0.266635,0.265918,0.265033,0.263959,0.262672,0.261141,0.259331,0.257202,0.254707,0.251788,0.248382,0.244414,0.239799,0.23444,0.228224,0.221026,0.212702,0.203094,0.192024,0.179293,0.164688,0.147977,0.128911,0.107232,0.0826735,0.0549719,0.0238724,-0.0108567,-0.0494079,-0.0919259,-0.138481,-0.189064,-0.243569,-0.301798,-0.363456,-0.428181,-0.495563,-0.565188,-0.636674,-0.709705,-0.784045,-0.859527,-0.936003,-1.01334,-1.09142,-1.17011,-1.2493,-1.3289,-1.40888,-1.48913,-1.56965,-1.65033,-1.73121,-1.81214,-1.8933,-1.97437,-2.05124,-2.13215,-2.21307,-2.294,-2.37493,-2.45586,-2.53681,-2.61775,-2.6987,-2.77965,-2.86061,-2.94157,-3.02253,-3.10349,-3.18446,-3.26543,-3.3464,-3.42737,-3.50835,-3.58932,-3.6703,-3.75128,-3.83226,-3.91324,-3.99422,-4.07521,-4.15619,-4.23718,-4.31816,-4.39915,-4.48014}
,{-1.86335,-1.82286,-1.78238,-1.74191,-1.70146,-1.66103,-1.62063,-1.58024,-1.53989,-1.49958,-1.45931,-1.41909,-1.37892,-1.33882,-1.29879,-1.25885,-1.219,-1.17927,-1.13967,-1.10021,-1.06092,-1.02183,-0.982943,-0.944302,-0.905934,-0.867872,-0.83015,-0.792805,-0.755878,-0.719408,-0.683437,-0.648009,-0.613165,-0.578947,-0.545398,-0.512555,-0.480456,-0.449135,-0.418621,-0.388943,-0.360121,-0.332174,-0.305114,-0.27895,-0.253685,-0.229319,-0.205844,-0.183251,-0.161527,-0.140654,-0.120611,-0.101376,-0.0829229,-0.0652248,-0.0482533,-0.0319792,-0.0163727,-0.00140405,0.0129564,0.0267377,0.0399679,0.052674,0.0648817,0.0766153,0.0878971,0.0987479,0.109187,0.119231,0.128895,0.138193,0.147136,0.155735,0.163996,0.171929,0.179538,0.186827,0.193802,0.200464,0.206816,0.212861,0.218602,0.224041,0.22918,0.234024,0.238577,0.242842,0.246827,0.250537,0.25398,0.257163,0.260097,0.262789,0.265251,0.267493,0.269525,0.271358,0.273004,0.274473,0.275775,0.276919,0.277917,0.278775,0.279501,0.280102,0.280584,0.280949,0.281202,0.281343,0.281372,0.281286,0.281082,0.280752,0.280287,0.279676,0.278904,0.277953,0.2768,0.275419,0.273778,0.271841,0.269562,0.266893,0.263774,0.260136,0.255901,0.250979,0.245268,0.238649,0.230992,0.222147,0.211947,0.200208,0.186726,0.171281,0.153634,0.133535,0.110722,0.0849292,0.0558984,0.0233825,-0.0128371,-0.0529333,-0.0970274,-0.145159,-0.197286,-0.253268,-0.312872,-0.375777,-0.441603,-0.509934,-0.580365,-0.652533,-0.726149,-0.801004,-0.876939,-0.953821,-1.03152,-1.10991,-1.18887,-1.26828,-1.3481,-1.42825,-1.50866,-1.58932,-1.67011,-1.75112,-1.83214,-1.91338,-1.99462,-2.07199,-2.1529,-2.23382,-2.31475,-2.39568,-2.47662,-2.55756,-2.6385,-2.71945,-2.8004,-2.88136,-2.96232,-3.04328,-3.12424,-3.20521,-3.28618,-3.36715,-3.44812,-3.5291,-3.61007,-3.69105,-3.77203,-3.85301,-3.93399,-4.01497,-4.09596,-4.17694,-4.25793,-4.33891,-4.4199,-4.50089}
,{-1.90531,-1.86476,-1.82422,-1.78369,-1.74317,-1.70266,-1.66217,-1.6217,-1.58125,-1.54082,-1.50043,-1.46007,-1.41976,-1.3795,-1.33929,-1.29916,-1.25911,-1.21914,-1.17929,-1.13955,-1.09996,-1.06052,-1.02127,-0.982225,-0.943414,-0.904868,-0.866619,-0.828702,-0.791154,-0.754013,-0.717322,-0.681121,-0.645453,-0.610361,-0.575886,-0.542071,-0.508955,-0.476574,-0.444964,-0.414154,-0.384172,-0.35504,-0.326777,-0.299395,-0.272905,-0.247309,-0.222607,-0.198794,-0.17586,-0.153791,-0.132572,-0.112182,-0.0925992,-0.073798,-0.0557525,-0.0384348,-0.0218163,-0.00586822,0.00943866,0.024133,0.0382431,0.0517959,0.0648176,0.0773328,0.0893647,0.100935,0.112062,0.122766,0.133061,0.142962,0.152481,0.161628,0.170414,0.178845,0.186929,0.194669,0.202071,0.209139,0.215875,0.222282,0.228364,0.234124,0.239565,0.244691,0.249506,0.254018,0.25823,0.262152,0.26579,0.269153,0.272251,0.275095,0.277694,0.280061,0.282206,0.284141,0.285878,0.287428,0.288802,0.290011,0.291063,0.291969,0.292737,0.293372,0.293881,0.294269,0.294538,0.294689,0.294723,0.294637,0.294426,0.294083,0.2936,0.292964,0.29216,0.291169,0.289967,0.288528,0.286819,0.2848,0.282428,0.279649,0.276403,0.272619,0.268217,0.263103,0.257172,0.250303,0.242362,0.233195,0.222632,0.210486,0.196548,0.180597,0.16239,0.141677,0.118194,0.0916788,0.061875,0.028542,-0.00853027,-0.0495033,-0.0944842,-0.143496,-0.196479,-0.253273,-0.313632,-0.377221,-0.443649,-0.512504,-0.583387,-0.655942,-0.729901,-0.805061,-0.881271,-0.958397,-1.03632,-1.1149,-1.19403,-1.2736,-1.35357,-1.43385,-1.51436,-1.59513,-1.67601,-1.75709,-1.83819,-1.91947,-2.0008,-2.07882,-2.15973,-2.24065,-2.32158,-2.40251,-2.48345,-2.56439,-2.64533,-2.72628,-2.80723,-2.88819,-2.96915,-3.05011,-3.13107,-3.21204,-3.29301,-3.37398,-3.45495,-3.53593,-3.6169,-3.69788,-3.77886,-3.85984,-3.94082,-4.02181,-4.10279,-4.18377,-4.26476,-4.34575,-4.42673,-4.50772}
,{-1.9456,-1.905,-1.86441,-1.82382,-1.78324,-1.74266,-1.7021,-1.66154,-1.621,-1.58047,-1.53997,-1.4995,-1.45906,-1.41865,-1.37829,-1.33799,-1.29775,-1.25758,-1.2175,-1.17752,-1.13765,-1.09792,-1.05834,-1.01894,-0.979732,-0.940756,-0.902038,-0.863609,-0.825504,-0.787762,-0.75042,-0.713519,-0.677101,-0.64121,-0.605887,-0.571175,-0.537115,-0.503747,-0.471108,-0.439232,-0.408152,-0.377893,-0.348479,-0.319928,-0.292254,-0.265467,-0.239569,-0.214562,-0.190439,-0.167193,-0.14481,-0.123274,-0.102565,-0.0826616,-0.0635398,-0.0451737,-0.0275362,-0.0105995,0.00566455,0.0212842,0.0362872,0.0507007,0.0645509,0.0778627,0.0906598,0.102964,0.114796,0.126173,0.137113,0.147631,0.157739,0.167449,0.176771,0.185713,0.194282,0.202484,0.210324,0.217807,0.224935,0.231713,0.238144,0.244232,0.24998,0.255394,0.260479,0.265241,0.269686,0.273823,0.277659,0.281205,0.284471,0.287468,0.290207,0.292699,0.294958,0.296996,0.298824,0.300455,0.3019,0.30317,0.304276,0.305227,0.306032,0.306697,0.307229,0.307632,0.30791,0.308063,0.308092,0.307993,0.307761,0.307391,0.30687,0.306188,0.305326,0.304266,0.302982,0.301446,0.299622,0.297471,0.294944,0.291987,0.288534,0.284512,0.279835,0.274408,0.268118,0.26084,0.252433,0.242738,0.23158,0.218763,0.204076,0.187289,0.168158,0.146429,0.121838,0.0941252,0.06304,0.0283532,-0.0101309,-0.0525551,-0.098997,-0.149455,-0.203837,-0.26195,-0.323521,-0.388195,-0.455571,-0.525236,-0.596802,-0.669944,-0.74441,-0.820019,-0.896633,-0.974116,-1.05235,-1.13121,-1.21057,-1.29035,-1.3705,-1.45093,-1.5316,-1.61248,-1.69346,-1.77464,-1.85587,-1.93713,-2.01626,-2.09717,-2.17808,-2.259,-2.33992,-2.42085,-2.50179,-2.58273,-2.66368,-2.74463,-2.82558,-2.90653,-2.98749,-3.06845,-3.14942,-3.23039,-3.31135,-3.39233,-3.4733,-3.55427,-3.63525,-3.71623,-3.79721,-3.87819,-3.95917,-4.04015,-4.12113,-4.20212,-4.2831,-4.36409,-4.44508,-4.52607}
,{-1.98434,-1.94371,-1.90307,-1.86243,-1.82179,-1.78115,-1.74051,-1.69988,-1.65926,-1.61865,-1.57805,-1.53747,-1.49691,-1.45638,-1.41589,-1.37543,-1.33502,-1.29467,-1.25439,-1.21419,-1.17408,-1.13408,-1.09421,-1.05449,-1.01494,-0.975576,-0.936437,-0.89755,-0.858946,-0.820661,-0.782731,-0.745196,-0.708096,-0.671474,-0.635371,-0.599832,-0.564898,-0.53061,-0.497009,-0.464132,-0.432014,-0.400685,-0.370173,-0.340501,-0.311688,-0.283747,-0.256689,-0.230516,-0.20523,-0.180825,-0.157292,-0.134621,-0.112793,-0.0917915,-0.0715938,-0.0521767,-0.0335151,-0.0155827,0.00164758,0.018203,0.0341107,0.0493977,0.0640898,0.0782123,0.0917888,0.104842,0.117392,0.129458,0.141057,0.152206,0.162917,0.173202,0.183073,0.192538,0.201604,0.210279,0.218567,0.226474,0.234004,0.241161,0.247949,0.254372,0.260436,0.266145,0.271505,0.276523,0.281207,0.285564,0.289604,0.293337,0.296775,0.299929,0.302811,0.305433,0.30781,0.309953,0.311876,0.313591,0.315112,0.316448,0.317611,0.318612,0.319459,0.320159,0.32072,0.321146,0.32144,0.321604,0.321637,0.321537,0.321298,0.320914,0.320375,0.319665,0.31877,0.317668,0.316333,0.314736,0.312841,0.310606,0.307981,0.30491,0.301327,0.297154,0.292306,0.286681,0.280167,0.272634,0.263939,0.253919,0.242395,0.22917,0.214029,0.196739,0.177056,0.154723,0.12948,0.101067,0.0692393,0.0337729,-0.00551576,-0.0487603,-0.0960232,-0.147287,-0.202444,-0.261285,-0.323523,-0.388795,-0.456696,-0.526816,-0.598775,-0.672258,-0.747027,-0.822908,-0.899766,-0.977474,-1.05591,-1.13494,-1.21446,-1.29438,-1.37466,-1.4552,-1.53598,-1.61694,-1.69804,-1.77926,-1.86057,-1.94188,-2.02172,-2.10262,-2.18354,-2.26446,-2.34538,-2.42631,-2.50725,-2.58819,-2.66913,-2.75008,-2.83104,-2.91199,-2.99295,-3.07391,-3.15488,-3.23584,-3.31681,-3.39778,-3.47876,-3.55973,-3.64071,-3.72169,-3.80266,-3.88364,-3.96463,-4.04561,-4.12659,-4.20758,-4.28856,-4.36955,-4.45054,-4.53152}
,{-2.02166,-1.98099,-1.9403,-1.89962,-1.85893,-1.81823,-1.77754,-1.73684,-1.69615,-1.65546,-1.61477,-1.5741,-1.53343,-1.49279,-1.45217,-1.41158,-1.37102,-1.3305,-1.29004,-1.24964,-1.20932,-1.16908,-1.12895,-1.08894,-1.04907,-1.00937,-0.969854,-0.930554,-0.8915,-0.852725,-0.814263,-0.776152,-0.73843,-0.701139,-0.664321,-0.628019,-0.592275,-0.557133,-0.522633,-0.488816,-0.455718,-0.423375,-0.391818,-0.361073,-0.331165,-0.302112,-0.273927,-0.246621,-0.220196,-0.194655,-0.169991,-0.146198,-0.123261,-0.101167,-0.0798961,-0.0594279,-0.0397393,-0.020806,-0.00260251,0.0148974,0.0317201,0.0478917,0.063438,0.0783838,0.092753,0.106568,0.11985,0.132618,0.14489,0.156683,0.168009,0.178883,0.189314,0.199313,0.208888,0.218046,0.226792,0.235133,0.243074,0.250618,0.257771,0.264537,0.270923,0.276932,0.282573,0.287853,0.292778,0.29736,0.301607,0.305531,0.309143,0.312456,0.315483,0.318236,0.320731,0.32298,0.324998,0.326797,0.32839,0.32979,0.331008,0.332055,0.33294,0.333671,0.334254,0.334694,0.334996,0.33516,0.335186,0.33507,0.334809,0.334392,0.333811,0.333049,0.33209,0.330912,0.329486,0.327783,0.325763,0.323382,0.320589,0.317323,0.313515,0.309084,0.303939,0.297976,0.291076,0.283104,0.27391,0.263327,0.25117,0.237235,0.221302,0.203135,0.182485,0.159096,0.132706,0.103063,0.0699284,0.0330909,-0.00761525,-0.0523019,-0.101005,-0.153677,-0.210177,-0.270274,-0.333649,-0.399927,-0.468697,-0.539556,-0.612141,-0.686162,-0.7614,-0.837704,-0.914937,-0.992976,-1.0717,-1.15098,-1.23072,-1.31083,-1.39128,-1.47197,-1.55289,-1.63395,-1.71516,-1.79646,-1.87788,-1.95921,-2.03966,-2.12057,-2.20148,-2.2824,-2.36332,-2.44425,-2.52519,-2.60613,-2.68708,-2.76802,-2.84898,-2.92993,-3.01089,-3.09185,-3.17282,-3.25378,-3.33475,-3.41572,-3.4967,-3.57767,-3.65865,-3.73963,-3.82061,-3.90159,-3.98257,-4.06355,-4.14453,-4.22552,-4.3065,-4.38749,-4.46848,-4.54946}
,{-2.05765,-2.01694,-1.97622,-1.93549,-1.89476,-1.85401,-1.81326,-1.7725,-1.73174,-1.69098,-1.65022,-1.60946,-1.5687,-1.52796,-1.48722,-1.44651,-1.40581,-1.36515,-1.32453,-1.28395,-1.24343,-1.20298,-1.16261,-1.12235,-1.0822,-1.04218,-1.00232,-0.962653,-0.923192,-0.883973,-0.845028,-0.806392,-0.768103,-0.7302,-0.692725,-0.655719,-0.619225,-0.583288,-0.547948,-0.513249,-0.479229,-0.445926,-0.413375,-0.381606,-0.350648,-0.320522,-0.291248,-0.26284,-0.235306,-0.208652,-0.182877,-0.157977,-0.133943,-0.110764,-0.0884253,-0.0669077,-0.0461913,-0.0262538,-0.00707147,0.0113803,0.0291268,0.0461932,0.0626048,0.078386,0.0935604,0.108151,0.122178,0.135661,0.148619,0.161069,0.173024,0.184498,0.195503,0.206048,0.216142,0.225794,0.235009,0.243794,0.252154,0.260095,0.267621,0.274738,0.281453,0.287771,0.293699,0.299246,0.30442,0.309232,0.313692,0.317811,0.321603,0.32508,0.328256,0.331146,0.333763,0.336123,0.33824,0.340128,0.341801,0.343271,0.34455,0.34565,0.346581,0.347351,0.347967,0.348434,0.348756,0.348935,0.348971,0.34886,0.348598,0.348176,0.347583,0.346805,0.345824,0.344616,0.343155,0.341408,0.339336,0.336895,0.334032,0.330684,0.326782,0.322244,0.316977,0.310875,0.303817,0.295667,0.286274,0.275468,0.263062,0.248852,0.232616,0.214117,0.193107,0.169329,0.142523,0.11244,0.0788441,0.0415297,0.000337092,-0.0448383,-0.0940243,-0.147165,-0.204112,-0.264625,-0.328383,-0.395005,-0.464082,-0.535213,-0.60804,-0.682277,-0.757712,-0.834196,-0.911595,-0.989786,-1.06865,-1.14806,-1.22791,-1.30814,-1.38869,-1.46947,-1.55047,-1.63162,-1.7129,-1.79427,-1.87576,-1.95715,-2.0383,-2.11921,-2.20012,-2.28104,-2.36196,-2.4429,-2.52383,-2.60477,-2.68572,-2.76667,-2.84762,-2.92857,-3.00953,-3.09049,-3.17146,-3.25243,-3.33339,-3.41437,-3.49534,-3.57631,-3.65729,-3.73827,-3.81925,-3.90023,-3.98121,-4.06219,-4.14318,-4.22416,-4.30515,-4.38613,-4.46712,-4.54811}
,{-2.0924,-2.05166,-2.0109,-1.97014,-1.92936,-1.88857,-1.84777,-1.80696,-1.76614,-1.72531,-1.68448,-1.64364,-1.6028,-1.56196,-1.52112,-1.4803,-1.43948,-1.39868,-1.35791,-1.31718,-1.27648,-1.23584,-1.19526,-1.15476,-1.11435,-1.07405,-1.03389,-0.99388,-0.95405,-0.914427,-0.875043,-0.835928,-0.797121,-0.758657,-0.720576,-0.682921,-0.645733,-0.609056,-0.572933,-0.537406,-0.502518,-0.468308,-0.434813,-0.402068,-0.370104,-0.338947,-0.308622,-0.279145,-0.250532,-0.22279,-0.195925,-0.169936,-0.144819,-0.120566,-0.0971659,-0.0746029,-0.0528597,-0.0319166,-0.0117519,0.00765723,0.0263347,0.0443045,0.0615911,0.0782182,0.0942092,0.109586,0.124371,0.138582,0.152238,0.165357,0.177953,0.190039,0.201628,0.21273,0.223355,0.233511,0.243204,0.252442,0.26123,0.269575,0.277482,0.284957,0.292006,0.298637,0.304858,0.310677,0.316104,0.321148,0.325823,0.33014,0.334112,0.337754,0.341079,0.344104,0.346843,0.349311,0.351524,0.353497,0.355243,0.356776,0.358109,0.359253,0.360218,0.361013,0.361646,0.362122,0.362444,0.362614,0.362631,0.362491,0.36219,0.361718,0.361062,0.360208,0.359134,0.357818,0.356228,0.354331,0.352085,0.349442,0.346344,0.342727,0.338514,0.333619,0.327944,0.321375,0.313786,0.305034,0.294959,0.283383,0.270113,0.254937,0.237627,0.21794,0.195626,0.170427,0.142088,0.110366,0.075039,0.0359196,-0.0071258,-0.0541713,-0.105207,-0.160138,-0.218775,-0.280844,-0.345993,-0.413828,-0.483941,-0.555945,-0.629509,-0.704377,-0.780373,-0.857352,-0.935194,-1.01377,-1.09296,-1.17266,-1.25275,-1.33319,-1.41393,-1.49487,-1.57602,-1.65727,-1.73868,-1.8201,-1.90167,-1.98324,-2.06478,-2.14569,-2.2266,-2.30752,-2.38844,-2.46937,-2.55031,-2.63125,-2.7122,-2.79314,-2.8741,-2.95505,-3.03601,-3.11697,-3.19794,-3.2789,-3.35987,-3.44084,-3.52182,-3.60279,-3.68377,-3.76475,-3.84573,-3.92671,-4.00769,-4.08867,-4.16965,-4.25064,-4.33162,-4.41261,-4.4936,-4.57458}
,{-2.12599,-2.08522,-2.04443,-2.00363,-1.96282,-1.92199,-1.88114,-1.84029,-1.79941,-1.75853,-1.71763,-1.67672,-1.6358,-1.59487,-1.55395,-1.51302,-1.47209,-1.43117,-1.39027,-1.34938,-1.30852,-1.2677,-1.22693,-1.18622,-1.14558,-1.10503,-1.06458,-1.02427,-0.984102,-0.944111,-0.904325,-0.864774,-0.82549,-0.786511,-0.747874,-0.709618,-0.671787,-0.634422,-0.597567,-0.561266,-0.525561,-0.490493,-0.456103,-0.422428,-0.389502,-0.357356,-0.326016,-0.295506,-0.265842,-0.23704,-0.209108,-0.182049,-0.155865,-0.13055,-0.106097,-0.0824937,-0.0597265,-0.0377779,-0.0166286,0.00374231,0.0233568,0.0422377,0.0604081,0.0778912,0.0947094,0.110885,0.126438,0.141389,0.155756,0.169557,0.182805,0.195516,0.207701,0.219372,0.230538,0.241208,0.25139,0.26109,0.270316,0.279074,0.28737,0.29521,0.302603,0.309554,0.316074,0.322171,0.327856,0.33314,0.338035,0.342554,0.346712,0.350523,0.354003,0.357167,0.360032,0.362614,0.364928,0.36699,0.368814,0.370416,0.371809,0.373003,0.37401,0.37484,0.375499,0.375993,0.376327,0.376501,0.376515,0.376365,0.376045,0.375546,0.374856,0.373956,0.372828,0.371445,0.369777,0.367787,0.365432,0.362662,0.359418,0.355632,0.351226,0.34611,0.340183,0.333327,0.325412,0.316291,0.305801,0.29376,0.27997,0.264216,0.246268,0.22588,0.202802,0.176777,0.147552,0.114892,0.0785809,0.038445,-0.00563475,-0.0537152,-0.105766,-0.161672,-0.221223,-0.284128,-0.350026,-0.418514,-0.489188,-0.561673,-0.635652,-0.710885,-0.787205,-0.864478,-0.94258,-1.02139,-1.10079,-1.18067,-1.26092,-1.34151,-1.42237,-1.50343,-1.58468,-1.66602,-1.74753,-1.82902,-1.91065,-1.9923,-2.07441,-2.15532,-2.23623,-2.31715,-2.39808,-2.47901,-2.55994,-2.64088,-2.72183,-2.80278,-2.88373,-2.96468,-3.04564,-3.12661,-3.20757,-3.28854,-3.36951,-3.45048,-3.53145,-3.61242,-3.6934,-3.77438,-3.85536,-3.93634,-4.01732,-4.0983,-4.17929,-4.26027,-4.34126,-4.42224,-4.50323,-4.58422}
,{-2.1585,-2.1177,-2.07689,-2.03606,-1.99521,-1.95434,-1.91346,-1.87255,-1.83163,-1.79069,-1.74973,-1.70876,-1.66777,-1.62677,-1.58575,-1.54473,-1.5037,-1.46267,-1.42164,-1.38063,-1.33962,-1.29864,-1.25769,-1.21678,-1.17593,-1.13515,-1.09445,-1.05385,-1.01338,-0.973051,-0.932897,-0.892945,-0.853225,-0.813771,-0.77462,-0.73581,-0.697381,-0.659377,-0.621839,-0.584811,-0.548338,-0.512461,-0.477223,-0.442662,-0.408817,-0.375722,-0.343405,-0.311896,-0.281214,-0.251379,-0.222403,-0.194296,-0.167061,-0.140698,-0.115202,-0.0905667,-0.0667798,-0.0438274,-0.0216929,-0.000357652,0.0201985,0.0399966,0.0590585,0.0774061,0.0950613,0.112045,0.128379,0.144081,0.15917,0.173663,0.187576,0.200922,0.213715,0.225965,0.237683,0.248878,0.259557,0.26973,0.279402,0.288581,0.297273,0.305486,0.313228,0.320507,0.327331,0.333711,0.339659,0.345185,0.350304,0.355029,0.359375,0.363357,0.366993,0.370298,0.373289,0.375983,0.378397,0.380547,0.382449,0.384117,0.385565,0.386805,0.387849,0.388706,0.389383,0.389887,0.390221,0.390387,0.390383,0.390206,0.389848,0.389299,0.388547,0.387572,0.386353,0.384862,0.383068,0.38093,0.378404,0.375435,0.371962,0.367912,0.363204,0.357742,0.351419,0.344113,0.335688,0.325989,0.314849,0.302077,0.287472,0.27081,0.251858,0.230368,0.206088,0.178763,0.148148,0.114013,0.0761605,0.0344348,-0.0112592,-0.0609451,-0.114563,-0.171964,-0.232904,-0.297067,-0.364074,-0.43352,-0.505004,-0.578172,-0.652737,-0.728483,-0.805258,-0.882941,-0.961401,-1.04052,-1.12019,-1.2003,-1.28076,-1.36154,-1.44255,-1.52374,-1.6051,-1.68655,-1.76814,-1.84975,-1.93136,-2.0148,-2.0957,-2.17661,-2.25752,-2.33844,-2.41937,-2.5003,-2.58123,-2.66217,-2.74312,-2.82407,-2.90502,-2.98598,-3.06693,-3.1479,-3.22886,-3.30983,-3.3908,-3.47177,-3.55274,-3.63371,-3.71469,-3.79567,-3.87665,-3.95763,-4.03861,-4.11959,-4.20058,-4.28156,-4.36255,-4.44353,-4.52452,-4.60551}
,{-2.18999,-2.14917,-2.10833,-2.06747,-2.02659,-1.98569,-1.94477,-1.90382,-1.86286,-1.82187,-1.78085,-1.73982,-1.69877,-1.65769,-1.6166,-1.57549,-1.53437,-1.49324,-1.4521,-1.41096,-1.36982,-1.32869,-1.28758,-1.2465,-1.20545,-1.16445,-1.12352,-1.08266,-1.04191,-1.00127,-0.960781,-0.920459,-0.880337,-0.840446,-0.80082,-0.761496,-0.722513,-0.683913,-0.645737,-0.608029,-0.570832,-0.534192,-0.49815,-0.462748,-0.428026,-0.39402,-0.360765,-0.32829,-0.296622,-0.265783,-0.235789,-0.206654,-0.178386,-0.15099,-0.124464,-0.0988047,-0.0740041,-0.0500511,-0.0269321,-0.00463091,0.0168703,0.0375908,0.0575509,0.076771,0.095272,0.113074,0.130198,0.146662,0.162484,0.177682,0.19227,0.206264,0.219675,0.232515,0.244796,0.256525,0.267713,0.278367,0.288495,0.298103,0.307201,0.315794,0.323893,0.331505,0.33864,0.34531,0.351526,0.357301,0.362648,0.367583,0.372121,0.376279,0.380074,0.383523,0.386644,0.389455,0.391972,0.394213,0.396195,0.397932,0.399439,0.400729,0.401813,0.402701,0.403401,0.40392,0.40426,0.404423,0.404408,0.40421,0.403823,0.403235,0.402432,0.401396,0.400102,0.398522,0.396622,0.394361,0.391692,0.388557,0.384892,0.380623,0.375663,0.369913,0.363263,0.355586,0.34674,0.336568,0.324895,0.311529,0.29626,0.278864,0.259104,0.236731,0.211493,0.183137,0.151425,0.116134,0.0770805,0.0341261,-0.0128067,-0.0637175,-0.118521,-0.177043,-0.239021,-0.304116,-0.371944,-0.442096,-0.514182,-0.587863,-0.662871,-0.739009,-0.816138,-0.894134,-0.972877,-1.05225,-1.13213,-1.21242,-1.29305,-1.37398,-1.45511,-1.53642,-1.61788,-1.69944,-1.78106,-1.86277,-1.94444,-2.02846,-2.10936,-2.19027,-2.27118,-2.3521,-2.43303,-2.51396,-2.59489,-2.67584,-2.75678,-2.83773,-2.91868,-2.99964,-3.0806,-3.16156,-3.24252,-3.32349,-3.40446,-3.48543,-3.5664,-3.64738,-3.72835,-3.80933,-3.89031,-3.97129,-4.05227,-4.13325,-4.21424,-4.29522,-4.37621,-4.45719,-4.53818,-4.61917}
,{-2.22053,-2.17969,-2.13883,-2.09794,-2.05703,-2.0161,-1.97514,-1.93416,-1.89315,-1.85212,-1.81105,-1.76997,-1.72885,-1.68771,-1.64655,-1.60536,-1.56416,-1.52293,-1.48169,-1.44043,-1.39917,-1.3579,-1.31664,-1.2754,-1.23417,-1.19297,-1.15182,-1.11073,-1.06972,-1.0288,-0.987998,-0.947337,-0.906844,-0.866548,-0.826482,-0.786682,-0.747183,-0.708027,-0.669255,-0.630908,-0.593033,-0.555671,-0.518868,-0.482667,-0.447108,-0.412231,-0.378073,-0.344668,-0.312045,-0.28023,-0.249244,-0.219104,-0.189824,-0.16141,-0.133867,-0.107193,-0.0813862,-0.0564372,-0.0323357,-0.00906841,0.0133802,0.0350271,0.0558908,0.0759904,0.0953454,0.113975,0.131899,0.149135,0.165701,0.181614,0.196889,0.21154,0.22558,0.239022,0.251875,0.26415,0.275856,0.287001,0.297593,0.30764,0.31715,0.326132,0.334594,0.342546,0.349999,0.356965,0.363454,0.369482,0.375063,0.380213,0.384948,0.389285,0.393242,0.396839,0.400092,0.403022,0.405645,0.40798,0.410044,0.411852,0.41342,0.414761,0.415887,0.416809,0.417534,0.418068,0.418417,0.41858,0.418556,0.418342,0.417929,0.417305,0.416456,0.415362,0.413999,0.412337,0.410339,0.407964,0.405162,0.401873,0.398032,0.393559,0.388367,0.382352,0.375401,0.367383,0.358153,0.347548,0.33539,0.321483,0.305614,0.287556,0.26707,0.243905,0.217812,0.18854,0.155857,0.11955,0.0794438,0.0354177,-0.0125888,-0.0645551,-0.120375,-0.179853,-0.242709,-0.308592,-0.37711,-0.447856,-0.520451,-0.594569,-0.669958,-0.746435,-0.823872,-0.902143,-0.981131,-1.06072,-1.14079,-1.22124,-1.30203,-1.38308,-1.46433,-1.54577,-1.6273,-1.70895,-1.79065,-1.87243,-1.95414,-2.03877,-2.11967,-2.20058,-2.28149,-2.36241,-2.44334,-2.52427,-2.6052,-2.68614,-2.76709,-2.84804,-2.92899,-3.00995,-3.0909,-3.17187,-3.25283,-3.3338,-3.41477,-3.49574,-3.57671,-3.65768,-3.73866,-3.81964,-3.90062,-3.9816,-4.06258,-4.14356,-4.22455,-4.30553,-4.38652,-4.4675,-4.54849,-4.62948}
,{-2.25017,-2.20931,-2.16842,-2.12751,-2.08658,-2.04562,-2.00463,-1.96361,-1.92257,-1.88149,-1.84038,-1.79924,-1.75808,-1.71688,-1.67565,-1.63439,-1.5931,-1.55179,-1.51045,-1.46909,-1.42771,-1.38632,-1.34492,-1.30352,-1.26213,-1.22076,-1.17941,-1.1381,-1.09684,-1.05566,-1.01457,-0.973597,-0.932761,-0.89209,-0.851617,-0.811373,-0.771395,-0.73172,-0.692389,-0.653445,-0.614929,-0.576888,-0.539364,-0.502402,-0.466046,-0.430336,-0.395312,-0.36101,-0.327463,-0.294701,-0.26275,-0.231629,-0.201355,-0.171942,-0.143395,-0.11572,-0.0889144,-0.0629752,-0.0378946,-0.0136623,0.0097346,0.0323109,0.0540828,0.0750677,0.0952837,0.114749,0.133482,0.151499,0.168819,0.185458,0.201429,0.216749,0.231429,0.245482,0.258919,0.271749,0.283982,0.295626,0.306691,0.317185,0.327116,0.336493,0.345326,0.353625,0.361401,0.368667,0.375435,0.381721,0.387539,0.392906,0.39784,0.402359,0.406482,0.410227,0.413614,0.416662,0.419391,0.421819,0.423964,0.425842,0.427468,0.428857,0.430021,0.430971,0.431715,0.432259,0.432607,0.43276,0.432717,0.432472,0.432017,0.43134,0.430424,0.429249,0.427789,0.426012,0.423881,0.421349,0.418366,0.414869,0.410787,0.40604,0.400533,0.39416,0.386802,0.378324,0.368574,0.357384,0.344571,0.329933,0.313254,0.294301,0.272834,0.248602,0.221356,0.190852,0.156864,0.119193,0.0776807,0.0322265,-0.0172051,-0.0705651,-0.127719,-0.188441,-0.252431,-0.31932,-0.38871,-0.460201,-0.533426,-0.608081,-0.683936,-0.760834,-0.838642,-0.917247,-0.996525,-1.07636,-1.15666,-1.2373,-1.31825,-1.39946,-1.48083,-1.56239,-1.64402,-1.72577,-1.80752,-1.8894,-1.97119,-2.05627,-2.13717,-2.21808,-2.29899,-2.37991,-2.46084,-2.54177,-2.6227,-2.70364,-2.78459,-2.86554,-2.94649,-3.02745,-3.1084,-3.18937,-3.27033,-3.3513,-3.43227,-3.51324,-3.59421,-3.67518,-3.75616,-3.83714,-3.91812,-3.9991,-4.08008,-4.16106,-4.24205,-4.32303,-4.40402,-4.485,-4.56599,-4.64698}
,{-2.27896,-2.23808,-2.19718,-2.15625,-2.11529,-2.0743,-2.03328,-1.99223,-1.95115,-1.91004,-1.86889,-1.8277,-1.78648,-1.74523,-1.70394,-1.66261,-1.62125,-1.57986,-1.53843,-1.49698,-1.45549,-1.41399,-1.37246,-1.33092,-1.28937,-1.24783,-1.2063,-1.16478,-1.12331,-1.08188,-1.04053,-0.999261,-0.958106,-0.917087,-0.876235,-0.835578,-0.795152,-0.754993,-0.715139,-0.675633,-0.636515,-0.597831,-0.559625,-0.521941,-0.484824,-0.448317,-0.412462,-0.377297,-0.342858,-0.309179,-0.276287,-0.244208,-0.212963,-0.182568,-0.153033,-0.124368,-0.0965738,-0.0696513,-0.043596,-0.0184006,0.00594471,0.0294523,0.0521362,0.0740117,0.0950952,0.115403,0.134954,0.153762,0.171846,0.18922,0.205899,0.221898,0.237228,0.251903,0.265933,0.279328,0.292099,0.304253,0.3158,0.326749,0.33711,0.34689,0.356102,0.364755,0.372861,0.380434,0.387488,0.394037,0.400098,0.405689,0.410828,0.415534,0.419826,0.423725,0.427251,0.430424,0.433264,0.43579,0.438021,0.439975,0.441666,0.443111,0.444321,0.445308,0.446081,0.446646,0.447007,0.447166,0.44712,0.446864,0.44639,0.445686,0.444734,0.443513,0.441996,0.440151,0.437938,0.435313,0.432219,0.428595,0.424367,0.419453,0.413756,0.407167,0.399565,0.390811,0.380752,0.369217,0.35602,0.340957,0.323808,0.304342,0.282316,0.257482,0.22959,0.198401,0.163695,0.12528,0.0830057,0.0367848,-0.0134061,-0.0675033,-0.12536,-0.186737,-0.251324,-0.318745,-0.388603,-0.4605,-0.534077,-0.609041,-0.685171,-0.762318,-0.840353,-0.919165,-0.998627,-1.07863,-1.15907,-1.23985,-1.32093,-1.40225,-1.48372,-1.56536,-1.64707,-1.7289,-1.81072,-1.89264,-1.97452,-2.06023,-2.14113,-2.22204,-2.30295,-2.38387,-2.4648,-2.54573,-2.62666,-2.70761,-2.78855,-2.8695,-2.95045,-3.03141,-3.11237,-3.19333,-3.27429,-3.35526,-3.43623,-3.5172,-3.59817,-3.67915,-3.76012,-3.8411,-3.92208,-4.00306,-4.08404,-4.16502,-4.24601,-4.32699,-4.40798,-4.48896,-4.56995,-4.65094}
,{-2.30695,-2.26606,-2.22513,-2.18418,-2.1432,-2.10219,-2.06114,-2.02007,-1.97895,-1.9378,-1.89661,-1.85539,-1.81412,-1.77282,-1.73147,-1.69008,-1.64865,-1.60718,-1.56567,-1.52413,-1.48255,-1.44093,-1.39929,-1.35762,-1.31593,-1.27423,-1.23252,-1.19082,-1.14914,-1.10749,-1.06589,-1.02435,-0.982897,-0.941555,-0.900348,-0.859307,-0.818463,-0.77785,-0.737506,-0.697471,-0.657786,-0.618495,-0.579643,-0.541273,-0.503432,-0.466163,-0.42951,-0.393515,-0.358215,-0.323646,-0.289842,-0.25683,-0.224635,-0.193276,-0.16277,-0.133127,-0.104356,-0.0764578,-0.0494333,-0.0232783,0.00201436,0.0264541,0.0500524,0.0728226,0.0947791,0.115937,0.136312,0.15592,0.174776,0.192895,0.210291,0.226979,0.24297,0.258276,0.272909,0.286879,0.300196,0.312868,0.324906,0.336319,0.347116,0.357308,0.366904,0.375917,0.38436,0.392245,0.399588,0.406405,0.412713,0.41853,0.423875,0.428769,0.433232,0.437286,0.44095,0.444247,0.447196,0.449819,0.452134,0.454159,0.45591,0.457404,0.458654,0.459669,0.460461,0.461035,0.461394,0.461542,0.461474,0.461185,0.460667,0.459906,0.458883,0.457577,0.455958,0.453993,0.45164,0.448851,0.445569,0.441727,0.43725,0.432051,0.426029,0.419072,0.411052,0.401827,0.391237,0.379107,0.365247,0.349446,0.331484,0.311124,0.288122,0.262232,0.233207,0.200815,0.164843,0.125115,0.081498,0.0339257,-0.0176008,-0.0729907,-0.132071,-0.194578,-0.260182,-0.328499,-0.399126,-0.471676,-0.54581,-0.621252,-0.697804,-0.775326,-0.853702,-0.93281,-1.01254,-1.09277,-1.17341,-1.25436,-1.3356,-1.41704,-1.49864,-1.58038,-1.66218,-1.7441,-1.826,-1.90797,-1.98996,-2.0761,-2.15699,-2.2379,-2.31881,-2.39973,-2.48066,-2.56159,-2.64253,-2.72347,-2.80441,-2.88536,-2.96631,-3.04727,-3.12823,-3.20919,-3.29015,-3.37112,-3.45209,-3.53306,-3.61403,-3.69501,-3.77598,-3.85696,-3.93794,-4.01892,-4.0999,-4.18089,-4.26187,-4.34285,-4.42384,-4.50483,-4.58581,-4.6668}
,{-2.33419,-2.29328,-2.25234,-2.21137,-2.17036,-2.12933,-2.08826,-2.04715,-2.00601,-1.96483,-1.9236,-1.88234,-1.84103,-1.79967,-1.75827,-1.71683,-1.67534,-1.6338,-1.59221,-1.55058,-1.50891,-1.46719,-1.42544,-1.38365,-1.34183,-1.29998,-1.25811,-1.21624,-1.17437,-1.1325,-1.09067,-1.04888,-1.00715,-0.965507,-0.923971,-0.88257,-0.841334,-0.800296,-0.759492,-0.71896,-0.67874,-0.638876,-0.59941,-0.560389,-0.521857,-0.48386,-0.446443,-0.409648,-0.373517,-0.338089,-0.303398,-0.269477,-0.236353,-0.20405,-0.172589,-0.141984,-0.112245,-0.0833813,-0.0553941,-0.0282834,-0.00204542,0.0233265,0.0478412,0.0715096,0.094344,0.116358,0.137565,0.15798,0.177617,0.19649,0.214614,0.232,0.248661,0.264609,0.279855,0.29441,0.308282,0.321483,0.334021,0.345906,0.357148,0.367758,0.377748,0.387128,0.395913,0.404117,0.411756,0.418847,0.425407,0.431455,0.437013,0.4421,0.446739,0.450951,0.454759,0.458184,0.461247,0.46397,0.466373,0.468475,0.470292,0.471841,0.473135,0.474187,0.475005,0.475596,0.475964,0.476111,0.476033,0.475726,0.47518,0.47438,0.473309,0.471942,0.47025,0.468197,0.465741,0.462833,0.459412,0.455412,0.450753,0.445345,0.439087,0.431862,0.42354,0.413974,0.403004,0.390449,0.376117,0.359796,0.34126,0.320275,0.296596,0.269977,0.240174,0.206961,0.170133,0.129522,0.085008,0.0365392,-0.0158678,-0.0721052,-0.131984,-0.195226,-0.261492,-0.330393,-0.401527,-0.474514,-0.549023,-0.624795,-0.701644,-0.779434,-0.858053,-0.937379,-1.0173,-1.09771,-1.17849,-1.25959,-1.34095,-1.42251,-1.5042,-1.58604,-1.66793,-1.74991,-1.83188,-1.91388,-1.99597,-2.08267,-2.16357,-2.24448,-2.32539,-2.40631,-2.48724,-2.56817,-2.6491,-2.73004,-2.81099,-2.89194,-2.97289,-3.05384,-3.1348,-3.21577,-3.29673,-3.3777,-3.45867,-3.53964,-3.62061,-3.70158,-3.78256,-3.86354,-3.94452,-4.0255,-4.10648,-4.18746,-4.26845,-4.34943,-4.43042,-4.5114,-4.59239,-4.67338}
,{-2.36071,-2.31978,-2.27882,-2.23783,-2.19681,-2.15576,-2.11467,-2.07353,-2.03236,-1.99115,-1.94989,-1.90859,-1.86724,-1.82584,-1.78439,-1.74289,-1.70134,-1.65974,-1.61808,-1.57637,-1.53462,-1.49281,-1.45095,-1.40904,-1.3671,-1.32511,-1.2831,-1.24106,-1.19901,-1.15695,-1.1149,-1.07287,-1.03089,-0.988961,-0.947116,-0.905378,-0.863774,-0.822337,-0.7811,-0.7401,-0.699376,-0.658969,-0.618922,-0.579281,-0.540092,-0.501399,-0.463249,-0.425686,-0.388754,-0.352493,-0.316942,-0.282136,-0.248106,-0.214879,-0.18248,-0.150926,-0.120234,-0.0904132,-0.0614708,-0.0334095,-0.00622903,0.0200742,0.0455062,0.0700754,0.0937918,0.116667,0.138712,0.159942,0.180368,0.200005,0.218864,0.236958,0.254299,0.270899,0.286767,0.301916,0.316354,0.330091,0.343137,0.355503,0.367199,0.378235,0.388624,0.398379,0.407513,0.416042,0.423982,0.431351,0.438167,0.444452,0.450225,0.455509,0.460327,0.4647,0.468653,0.472207,0.475386,0.478211,0.480703,0.482881,0.484764,0.486367,0.487706,0.488791,0.489633,0.490239,0.490613,0.490755,0.490665,0.490334,0.489754,0.488909,0.487781,0.486344,0.484568,0.482416,0.479845,0.476801,0.473224,0.469045,0.464181,0.45854,0.452016,0.444491,0.435831,0.425885,0.414489,0.401461,0.386602,0.3697,0.350527,0.328847,0.304415,0.276988,0.246325,0.212206,0.174433,0.132851,0.0873541,0.0379043,-0.01546,-0.0726163,-0.133357,-0.197388,-0.264361,-0.333882,-0.405551,-0.478995,-0.5539,-0.63002,-0.70718,-0.785251,-0.864124,-0.943677,-1.0238,-1.10438,-1.18533,-1.26657,-1.34805,-1.42972,-1.51153,-1.59345,-1.67542,-1.75747,-1.83951,-1.92157,-2.01007,-2.09096,-2.17186,-2.25277,-2.33368,-2.4146,-2.49553,-2.57646,-2.65739,-2.73833,-2.81928,-2.90023,-2.98118,-3.06213,-3.14309,-3.22406,-3.30502,-3.38599,-3.46696,-3.54793,-3.6289,-3.70987,-3.79085,-3.87183,-3.95281,-4.03379,-4.11477,-4.19575,-4.27674,-4.35772,-4.43871,-4.51969,-4.60068,-4.68167}
,{-2.38654,-2.3456,-2.30463,-2.26363,-2.22259,-2.18151,-2.1404,-2.09924,-2.05805,-2.0168,-1.97552,-1.93418,-1.89279,-1.85135,-1.80986,-1.76831,-1.7267,-1.68504,-1.64332,-1.60154,-1.5597,-1.5178,-1.47584,-1.43383,-1.39177,-1.34966,-1.30751,-1.26532,-1.22309,-1.18085,-1.1386,-1.09635,-1.05412,-1.01193,-0.969797,-0.927742,-0.885794,-0.843982,-0.802337,-0.760895,-0.719694,-0.678773,-0.638176,-0.597946,-0.558129,-0.518771,-0.479918,-0.441617,-0.403912,-0.366846,-0.330461,-0.294794,-0.25988,-0.225749,-0.19243,-0.159944,-0.12831,-0.0975432,-0.0676535,-0.0386476,-0.0105283,0.0167045,0.0430541,0.0685259,0.0931277,0.116868,0.139759,0.16181,0.183033,0.203441,0.223044,0.241856,0.259886,0.277147,0.293648,0.309399,0.324412,0.338695,0.352259,0.365114,0.377271,0.388742,0.399538,0.409674,0.419164,0.428024,0.436271,0.443924,0.451002,0.457527,0.463521,0.469006,0.474005,0.478544,0.482645,0.486332,0.48963,0.492559,0.495143,0.497401,0.499351,0.501012,0.502397,0.503519,0.504389,0.505013,0.505396,0.505538,0.505438,0.505089,0.50448,0.503597,0.502419,0.50092,0.499071,0.496831,0.494156,0.490993,0.487278,0.482939,0.477893,0.472045,0.465287,0.457498,0.44854,0.438261,0.426492,0.413051,0.397735,0.380331,0.360609,0.338332,0.313256,0.28514,0.253748,0.218863,0.180297,0.137903,0.0915886,0.0413272,-0.0128278,-0.0707388,-0.132185,-0.196862,-0.264412,-0.334441,-0.406551,-0.480377,-0.555614,-0.632028,-0.709453,-0.787765,-0.866859,-0.946609,-1.02691,-1.10765,-1.18874,-1.2701,-1.35171,-1.43348,-1.51539,-1.59739,-1.67944,-1.76157,-1.84369,-1.92577,-2.01493,-2.09582,-2.17672,-2.25762,-2.33854,-2.41946,-2.50038,-2.58131,-2.66225,-2.74319,-2.82413,-2.90508,-2.98604,-3.06699,-3.14795,-3.22891,-3.30988,-3.39084,-3.47181,-3.55278,-3.63376,-3.71473,-3.79571,-3.87668,-3.95766,-4.03864,-4.11963,-4.20061,-4.28159,-4.36258,-4.44356,-4.52455,-4.60554,-4.68652}
,{-2.41173,-2.37078,-2.32979,-2.28877,-2.24772,-2.20663,-2.16549,-2.12432,-2.08309,-2.04183,-2.00051,-1.95914,-1.91772,-1.87624,-1.8347,-1.79311,-1.75145,-1.70973,-1.66794,-1.62609,-1.58418,-1.5422,-1.50015,-1.45805,-1.41587,-1.37364,-1.33136,-1.28902,-1.24664,-1.20423,-1.16179,-1.11933,-1.07688,-1.03444,-0.992029,-0.949676,-0.907404,-0.865238,-0.823209,-0.78135,-0.739697,-0.69829,-0.657169,-0.616379,-0.575963,-0.535969,-0.496443,-0.457432,-0.418982,-0.381139,-0.343945,-0.307442,-0.271665,-0.236651,-0.202429,-0.169026,-0.136465,-0.104763,-0.0739352,-0.0439912,-0.0149377,0.0132222,0.0404886,0.0668642,0.0923539,0.116965,0.140705,0.163583,0.18561,0.206797,0.227154,0.246691,0.26542,0.28335,0.300493,0.316857,0.332453,0.347291,0.361381,0.374733,0.38736,0.399272,0.410483,0.421006,0.430858,0.440055,0.448614,0.456556,0.4639,0.47067,0.476887,0.482576,0.48776,0.492466,0.496717,0.500539,0.503955,0.506989,0.509664,0.512001,0.514018,0.515733,0.517163,0.518318,0.519211,0.519849,0.520234,0.52037,0.520253,0.519875,0.519227,0.518292,0.51705,0.515474,0.513531,0.511181,0.508378,0.505066,0.501179,0.496644,0.491375,0.485272,0.478226,0.470111,0.460786,0.450097,0.437871,0.423921,0.408043,0.390019,0.369621,0.346609,0.320741,0.291778,0.259489,0.223663,0.184124,0.140735,0.0934189,0.0421669,-0.0129498,-0.0717749,-0.134069,-0.19952,-0.267756,-0.338382,-0.411006,-0.485273,-0.560891,-0.637642,-0.715369,-0.793957,-0.873295,-0.953269,-1.03376,-1.11468,-1.19592,-1.27742,-1.35915,-1.44102,-1.52303,-1.60512,-1.68726,-1.76943,-1.85164,-1.93378,-2.02351,-2.1044,-2.1853,-2.2662,-2.34712,-2.42804,-2.50896,-2.58989,-2.67083,-2.75177,-2.83271,-2.91366,-2.99462,-3.07557,-3.15653,-3.23749,-3.31846,-3.39942,-3.48039,-3.56136,-3.64234,-3.72331,-3.80429,-3.88526,-3.96624,-4.04722,-4.12821,-4.20919,-4.29017,-4.37116,-4.45214,-4.53313,-4.61412,-4.6951}
,{-2.4363,-2.39534,-2.35434,-2.31331,-2.27224,-2.23113,-2.18998,-2.14878,-2.10754,-2.06624,-2.0249,-1.9835,-1.94204,-1.90053,-1.85895,-1.81731,-1.77561,-1.73384,-1.69199,-1.65008,-1.60809,-1.56604,-1.52391,-1.4817,-1.43943,-1.39709,-1.35468,-1.31221,-1.26968,-1.2271,-1.18449,-1.14183,-1.09916,-1.05649,-1.01382,-0.971192,-0.928613,-0.886113,-0.843721,-0.801468,-0.759388,-0.717519,-0.675901,-0.634577,-0.59359,-0.552988,-0.512816,-0.473123,-0.433956,-0.395361,-0.357384,-0.320067,-0.283451,-0.247573,-0.212467,-0.178163,-0.144688,-0.112063,-0.0803064,-0.0494317,-0.0194492,0.00963462,0.0378166,0.0650963,0.0914761,0.11696,0.141554,0.165267,0.188105,0.210078,0.231195,0.251467,0.270903,0.289513,0.307305,0.324291,0.34048,0.355882,0.370506,0.384365,0.397469,0.40983,0.421463,0.432382,0.442602,0.452142,0.46102,0.469256,0.476871,0.48389,0.490335,0.496232,0.501605,0.506481,0.510886,0.514844,0.518382,0.521524,0.524293,0.52671,0.528796,0.530569,0.532045,0.533236,0.534155,0.534807,0.535199,0.53533,0.535198,0.534796,0.534112,0.53313,0.531828,0.530179,0.528149,0.525696,0.522773,0.519322,0.515276,0.510557,0.505079,0.49874,0.491426,0.483009,0.473346,0.462278,0.449631,0.435215,0.418822,0.400235,0.379222,0.355545,0.328963,0.299239,0.266146,0.229483,0.189079,0.144811,0.0966143,0.0444947,-0.0114607,-0.07108,-0.13411,-0.200228,-0.269056,-0.340199,-0.413269,-0.487921,-0.563875,-0.640924,-0.718921,-0.797756,-0.877316,-0.957488,-1.03816,-1.11923,-1.20061,-1.28224,-1.36409,-1.44607,-1.52817,-1.61034,-1.69256,-1.7748,-1.85707,-1.93926,-2.0296,-2.11049,-2.19139,-2.27229,-2.35321,-2.43413,-2.51505,-2.59598,-2.67692,-2.75786,-2.83881,-2.91975,-3.00071,-3.08166,-3.16262,-3.24358,-3.32455,-3.40551,-3.48648,-3.56745,-3.64843,-3.7294,-3.81038,-3.89136,-3.97234,-4.05332,-4.1343,-4.21528,-4.29626,-4.37725,-4.45823,-4.53922,-4.62021,-4.70119}
,{-2.46029,-2.41931,-2.37831,-2.33726,-2.29618,-2.25505,-2.21388,-2.17267,-2.1314,-2.09008,-2.04871,-2.00729,-1.9658,-1.92425,-1.88264,-1.84096,-1.79921,-1.75739,-1.71549,-1.67352,-1.63146,-1.58933,-1.54712,-1.50483,-1.46247,-1.42002,-1.37749,-1.33489,-1.29223,-1.2495,-1.20671,-1.16387,-1.121,-1.0781,-1.0352,-0.992301,-0.949433,-0.906618,-0.863882,-0.821256,-0.778771,-0.736464,-0.694373,-0.65254,-0.611008,-0.569823,-0.529033,-0.488684,-0.448825,-0.409504,-0.370768,-0.332661,-0.295227,-0.258506,-0.222535,-0.187347,-0.152972,-0.119436,-0.0867609,-0.0549635,-0.024058,0.00594585,0.0350413,0.0632249,0.090496,0.116856,0.142309,0.166859,0.190514,0.213281,0.235167,0.256182,0.276333,0.29563,0.314082,0.331699,0.348489,0.364463,0.379631,0.394003,0.407592,0.420411,0.432472,0.443792,0.454388,0.464276,0.473477,0.482012,0.489903,0.497175,0.503851,0.509958,0.515522,0.520571,0.52513,0.529226,0.532886,0.536135,0.538996,0.541493,0.543645,0.545473,0.54699,0.548213,0.549151,0.549812,0.550201,0.550319,0.550161,0.549721,0.548987,0.547941,0.54656,0.544816,0.542674,0.540089,0.537013,0.533385,0.529136,0.524185,0.518443,0.511804,0.504151,0.495353,0.485263,0.473717,0.460538,0.445532,0.428489,0.409189,0.387399,0.362881,0.335395,0.304709,0.270603,0.232882,0.19139,0.146015,0.0967138,0.0435094,-0.0134904,-0.0740935,-0.138029,-0.204961,-0.274506,-0.346267,-0.419865,-0.49497,-0.571316,-0.648713,-0.727023,-0.806142,-0.885956,-0.966351,-1.04722,-1.12847,-1.21,-1.29177,-1.37373,-1.45582,-1.53803,-1.62027,-1.70258,-1.78487,-1.86721,-1.94944,-2.04031,-2.1212,-2.2021,-2.283,-2.36392,-2.44484,-2.52576,-2.60669,-2.68763,-2.76857,-2.84952,-2.93046,-3.01142,-3.09237,-3.17333,-3.25429,-3.33526,-3.41622,-3.49719,-3.57816,-3.65914,-3.74011,-3.82109,-3.90207,-3.98305,-4.06403,-4.14501,-4.22599,-4.30697,-4.38796,-4.46894,-4.54993,-4.63092,-4.7119}
,{-2.48372,-2.44273,-2.40171,-2.36066,-2.31956,-2.27842,-2.23723,-2.196,-2.15471,-2.11338,-2.07198,-2.03053,-1.98902,-1.94744,-1.90579,-1.86407,-1.82228,-1.78041,-1.73846,-1.69643,-1.65432,-1.61212,-1.56983,-1.52746,-1.485,-1.44245,-1.39982,-1.3571,-1.3143,-1.27142,-1.22848,-1.18547,-1.1424,-1.0993,-1.05616,-1.01302,-0.969874,-0.926761,-0.8837,-0.840719,-0.797849,-0.755126,-0.712585,-0.670267,-0.628214,-0.586472,-0.545088,-0.504109,-0.463583,-0.423561,-0.384089,-0.345215,-0.306985,-0.26944,-0.232622,-0.196567,-0.161307,-0.126873,-0.0932895,-0.060578,-0.0287558,0.00216354,0.0321699,0.0612566,0.0894198,0.116658,0.142973,0.168367,0.192845,0.216412,0.239074,0.260839,0.281714,0.301708,0.320828,0.339084,0.356485,0.373039,0.388759,0.403654,0.417737,0.43102,0.443518,0.455247,0.466224,0.476467,0.485998,0.494838,0.50301,0.510539,0.517452,0.523774,0.529534,0.534758,0.539476,0.543713,0.547499,0.550858,0.553815,0.556394,0.558616,0.560501,0.562064,0.563322,0.564283,0.564957,0.565348,0.565457,0.56528,0.564809,0.564031,0.56293,0.56148,0.559652,0.55741,0.554709,0.551497,0.547711,0.543282,0.538126,0.53215,0.525247,0.517296,0.508163,0.497698,0.485735,0.472093,0.456575,0.438971,0.419057,0.396601,0.371365,0.343112,0.311611,0.276651,0.238044,0.195643,0.149351,0.0991372,0.045041,-0.012813,-0.0742178,-0.138889,-0.206482,-0.276608,-0.348873,-0.422906,-0.498385,-0.575061,-0.652751,-0.731329,-0.810691,-0.890725,-0.971316,-1.05236,-1.13376,-1.21542,-1.29732,-1.3794,-1.46158,-1.54388,-1.6262,-1.7086,-1.79094,-1.87336,-1.95569,-2.04707,-2.12797,-2.20886,-2.28977,-2.37068,-2.4516,-2.53253,-2.61346,-2.6944,-2.77534,-2.85628,-2.93723,-3.01818,-3.09914,-3.1801,-3.26106,-3.34202,-3.42299,-3.50396,-3.58493,-3.6659,-3.74688,-3.82785,-3.90883,-3.98981,-4.07079,-4.15177,-4.23276,-4.31374,-4.39472,-4.47571,-4.5567,-4.63768,-4.71867}
,{-2.50661,-2.46562,-2.42459,-2.38352,-2.34241,-2.30126,-2.26005,-2.2188,-2.1775,-2.13615,-2.09473,-2.05325,-2.01171,-1.9701,-1.92842,-1.88667,-1.84483,-1.80292,-1.76092,-1.71884,-1.67667,-1.63441,-1.59205,-1.5496,-1.50705,-1.46441,-1.42167,-1.37884,-1.33592,-1.2929,-1.24981,-1.20663,-1.16339,-1.12008,-1.07673,-1.03335,-0.989948,-0.946551,-0.903181,-0.859864,-0.816629,-0.773509,-0.730539,-0.687758,-0.645208,-0.602933,-0.560978,-0.519393,-0.478225,-0.437525,-0.397341,-0.357723,-0.318717,-0.280369,-0.242722,-0.205816,-0.169687,-0.134367,-0.0998869,-0.0662702,-0.0335385,-0.00170886,0.0292051,0.0591933,0.0882488,0.116367,0.143547,0.169789,0.195094,0.219467,0.242912,0.265435,0.287042,0.307741,0.327538,0.346442,0.364461,0.381606,0.397885,0.413311,0.427894,0.44165,0.454591,0.466736,0.4781,0.488705,0.498571,0.50772,0.516178,0.523969,0.531121,0.537661,0.543618,0.549021,0.553898,0.558278,0.562189,0.565657,0.56871,0.57137,0.573659,0.575598,0.577204,0.578491,0.579471,0.580151,0.580537,0.580628,0.58042,0.579906,0.579072,0.577898,0.576361,0.574429,0.572063,0.569217,0.565838,0.56186,0.557211,0.551804,0.545543,0.538317,0.530004,0.520463,0.509542,0.497071,0.482865,0.466725,0.448438,0.427778,0.404512,0.378403,0.349218,0.316731,0.280736,0.241058,0.197561,0.150165,0.0988558,0.0436936,-0.0151764,-0.0775307,-0.143067,-0.211431,-0.282229,-0.355072,-0.429598,-0.505502,-0.582547,-0.660568,-0.739448,-0.819079,-0.899355,-0.980157,-1.06138,-1.14295,-1.22476,-1.30679,-1.38899,-1.47128,-1.55366,-1.63606,-1.71853,-1.80094,-1.88342,-1.9658,-2.05767,-2.13856,-2.21946,-2.30037,-2.38128,-2.4622,-2.54313,-2.62406,-2.70499,-2.78593,-2.86688,-2.94783,-3.02878,-3.10974,-3.19069,-3.27166,-3.35262,-3.43359,-3.51456,-3.59553,-3.6765,-3.75748,-3.83845,-3.91943,-4.00041,-4.08139,-4.16237,-4.24335,-4.32434,-4.40532,-4.48631,-4.56729,-4.64828,-4.72927}
,{-2.529,-2.48799,-2.44695,-2.40588,-2.36475,-2.32359,-2.28237,-2.24111,-2.19979,-2.15841,-2.11698,-2.07548,-2.03391,-1.99227,-1.95056,-1.90877,-1.8669,-1.82495,-1.7829,-1.74077,-1.69854,-1.65622,-1.6138,-1.57127,-1.52865,-1.48591,-1.44308,-1.40014,-1.3571,-1.31395,-1.27072,-1.22739,-1.18397,-1.14048,-1.09692,-1.05331,-1.00966,-0.965999,-0.922336,-0.878699,-0.835116,-0.791618,-0.748238,-0.705016,-0.661989,-0.619202,-0.576701,-0.534532,-0.492745,-0.45139,-0.410516,-0.370175,-0.330415,-0.291284,-0.252827,-0.215086,-0.178102,-0.141911,-0.106545,-0.0720322,-0.0383984,-0.00566395,0.0261539,0.0570417,0.0869892,0.115989,0.144037,0.17113,0.197268,0.222453,0.246688,0.269976,0.292323,0.313734,0.334217,0.353777,0.372424,0.390167,0.407015,0.42298,0.438073,0.452309,0.465702,0.478269,0.490028,0.501001,0.511208,0.520673,0.529421,0.53748,0.544876,0.55164,0.557799,0.563384,0.568424,0.572951,0.576991,0.580574,0.583725,0.58647,0.588831,0.590828,0.592481,0.593802,0.594805,0.595497,0.595883,0.595964,0.595734,0.595185,0.594304,0.593071,0.591459,0.589437,0.586965,0.583996,0.580472,0.576329,0.57149,0.565868,0.559362,0.551861,0.543237,0.53335,0.522042,0.509142,0.494462,0.4778,0.458942,0.437661,0.413725,0.386898,0.356949,0.323656,0.286821,0.246277,0.2019,0.153621,0.101441,0.0454345,-0.0142372,-0.0773374,-0.143553,-0.212522,-0.283849,-0.357151,-0.432073,-0.50832,-0.58567,-0.663966,-0.743096,-0.822954,-0.903435,-0.984419,-1.06581,-1.14752,-1.22946,-1.31161,-1.39391,-1.4763,-1.55877,-1.64125,-1.72379,-1.80626,-1.88877,-1.97126,-2.06367,-2.14456,-2.22546,-2.30637,-2.38728,-2.4682,-2.54913,-2.63006,-2.71099,-2.79194,-2.87288,-2.95383,-3.03478,-3.11574,-3.1967,-3.27766,-3.35862,-3.43959,-3.52056,-3.60153,-3.6825,-3.76348,-3.84445,-3.92543,-4.00641,-4.08739,-4.16837,-4.24935,-4.33034,-4.41132,-4.49231,-4.57329,-4.65428,-4.73527}
,{-2.55089,-2.50988,-2.46883,-2.42775,-2.38661,-2.34543,-2.30421,-2.26293,-2.22159,-2.1802,-2.13874,-2.09722,-2.05563,-2.01397,-1.97223,-1.93041,-1.8885,-1.84651,-1.80442,-1.76224,-1.71996,-1.67758,-1.6351,-1.5925,-1.5498,-1.50698,-1.46405,-1.42101,-1.37786,-1.33459,-1.29122,-1.24774,-1.20416,-1.16049,-1.11674,-1.07292,-1.02904,-0.985114,-0.941171,-0.897229,-0.853315,-0.809457,-0.765687,-0.722041,-0.678559,-0.635282,-0.592255,-0.549525,-0.50714,-0.465152,-0.423611,-0.382569,-0.342075,-0.302179,-0.26293,-0.224372,-0.186549,-0.149499,-0.113259,-0.0778604,-0.0433325,-0.0096995,0.0230179,0.0548026,0.0856411,0.115523,0.14444,0.172388,0.199363,0.225366,0.250396,0.274457,0.297551,0.319682,0.340858,0.361083,0.380366,0.398716,0.41614,0.432652,0.448262,0.462985,0.476837,0.489833,0.501994,0.513339,0.523893,0.533678,0.542722,0.551051,0.558695,0.565684,0.572047,0.577815,0.583021,0.587693,0.591863,0.595558,0.598806,0.601633,0.604061,0.606113,0.607806,0.609156,0.610174,0.610869,0.611244,0.611301,0.611034,0.610435,0.609487,0.608171,0.60646,0.604319,0.601708,0.598577,0.594866,0.590508,0.585424,0.579524,0.572703,0.564847,0.555824,0.54549,0.533684,0.52023,0.504938,0.487604,0.468009,0.445927,0.421125,0.39337,0.362434,0.328103,0.290185,0.248526,0.203016,0.153603,0.100308,0.0432262,-0.0174622,-0.081502,-0.148566,-0.218284,-0.290261,-0.364117,-0.439511,-0.516168,-0.593878,-0.672496,-0.751918,-0.832042,-0.912753,-0.993944,-1.07552,-1.15738,-1.23946,-1.32175,-1.40415,-1.48664,-1.56919,-1.65175,-1.73437,-1.81692,-1.89946,-1.982,-2.07487,-2.15576,-2.23666,-2.31756,-2.39847,-2.47939,-2.56032,-2.64125,-2.72219,-2.80313,-2.88407,-2.96502,-3.04597,-3.12693,-3.20789,-3.28885,-3.36981,-3.45078,-3.53175,-3.61272,-3.69369,-3.77467,-3.85565,-3.93662,-4.0176,-4.09858,-4.17956,-4.26055,-4.34153,-4.42252,-4.5035,-4.58449,-4.66547,-4.74646}
,{-2.57232,-2.53131,-2.49025,-2.44915,-2.40801,-2.36682,-2.32558,-2.28429,-2.24294,-2.20153,-2.16005,-2.11851,-2.0769,-2.03521,-1.99344,-1.95159,-1.90965,-1.86762,-1.8255,-1.78327,-1.74094,-1.69851,-1.65596,-1.6133,-1.57053,-1.52763,-1.48461,-1.44148,-1.39822,-1.35483,-1.31133,-1.26771,-1.22398,-1.18014,-1.1362,-1.09217,-1.04807,-1.0039,-0.959696,-0.915464,-0.871233,-0.82703,-0.782887,-0.738837,-0.694918,-0.65117,-0.607638,-0.564367,-0.521407,-0.478807,-0.436619,-0.394896,-0.353688,-0.313047,-0.273023,-0.233665,-0.195017,-0.157122,-0.12002,-0.0837461,-0.0483324,-0.0138073,0.019805,0.0524838,0.084212,0.114976,0.144764,0.17357,0.201387,0.228212,0.254045,0.278884,0.302732,0.325593,0.34747,0.368369,0.388297,0.407261,0.425271,0.442338,0.458474,0.473693,0.48801,0.501444,0.514013,0.525739,0.536646,0.546758,0.556103,0.56471,0.572607,0.579826,0.586399,0.592357,0.597732,0.602555,0.606859,0.610672,0.614022,0.616937,0.619439,0.621552,0.623292,0.624678,0.625719,0.626426,0.626802,0.626847,0.626557,0.625922,0.624926,0.623548,0.621761,0.619528,0.616808,0.61355,0.609693,0.605167,0.599891,0.593773,0.586706,0.578574,0.569241,0.558562,0.546372,0.532495,0.516737,0.498892,0.478741,0.456059,0.430612,0.402169,0.370506,0.335413,0.296707,0.254241,0.207917,0.157694,0.103607,0.0457627,-0.0156435,-0.080346,-0.148009,-0.218258,-0.2907,-0.364959,-0.440703,-0.517664,-0.595648,-0.674518,-0.754169,-0.8345,-0.915398,-0.996757,-1.07848,-1.16048,-1.24269,-1.32508,-1.40758,-1.49016,-1.5728,-1.65545,-1.73811,-1.82073,-1.90333,-1.98594,-2.07937,-2.16026,-2.24116,-2.32207,-2.40298,-2.4839,-2.56483,-2.64576,-2.72669,-2.80763,-2.88858,-2.96953,-3.05048,-3.13143,-3.21239,-3.29335,-3.37432,-3.45529,-3.53625,-3.61723,-3.6982,-3.77917,-3.86015,-3.94113,-4.02211,-4.10309,-4.18407,-4.26505,-4.34604,-4.42702,-4.50801,-4.58899,-4.66998,-4.75097}
,{-2.59331,-2.55228,-2.51122,-2.47011,-2.42896,-2.38776,-2.34651,-2.3052,-2.26384,-2.22241,-2.18092,-2.13936,-2.09773,-2.05602,-2.01422,-1.97234,-1.93037,-1.88831,-1.84615,-1.80388,-1.7615,-1.71902,-1.67642,-1.63369,-1.59085,-1.54788,-1.50478,-1.46155,-1.41818,-1.37469,-1.33107,-1.28731,-1.24343,-1.19943,-1.15532,-1.11109,-1.06678,-1.02238,-0.977918,-0.933409,-0.888876,-0.844345,-0.799844,-0.755407,-0.711069,-0.666869,-0.622851,-0.57906,-0.535544,-0.492353,-0.449539,-0.407154,-0.365252,-0.323885,-0.283105,-0.242962,-0.203505,-0.16478,-0.126828,-0.0896885,-0.053398,-0.0179878,0.016514,0.0500831,0.082699,0.114344,0.145005,0.174671,0.203333,0.230985,0.257624,0.283249,0.307858,0.331455,0.35404,0.37562,0.3962,0.415787,0.434391,0.452021,0.468689,0.484411,0.499201,0.513077,0.52606,0.538172,0.549436,0.55988,0.56953,0.578415,0.586568,0.594019,0.600802,0.606948,0.612492,0.617465,0.6219,0.625826,0.629274,0.63227,0.634838,0.637002,0.63878,0.640188,0.641238,0.641939,0.642296,0.642306,0.641967,0.641265,0.640186,0.638706,0.636796,0.63442,0.631532,0.628079,0.623998,0.619217,0.61365,0.607202,0.599764,0.591212,0.581411,0.570208,0.557435,0.542912,0.526443,0.507817,0.486816,0.463211,0.436771,0.407267,0.374482,0.338213,0.298287,0.254573,0.206988,0.155514,0.100205,0.0411936,-0.0213056,-0.0870081,-0.155564,-0.226593,-0.299705,-0.374532,-0.45076,-0.528141,-0.606496,-0.6857,-0.765654,-0.846256,-0.927392,-1.00896,-1.09086,-1.17301,-1.25537,-1.33788,-1.42049,-1.50317,-1.58589,-1.66861,-1.75133,-1.83403,-1.91664,-2.01224,-2.09312,-2.17401,-2.25491,-2.33582,-2.41673,-2.49765,-2.57858,-2.65951,-2.74044,-2.82138,-2.90233,-2.98328,-3.06423,-3.14519,-3.22614,-3.30711,-3.38807,-3.46904,-3.55001,-3.63098,-3.71195,-3.79292,-3.8739,-3.95488,-4.03586,-4.11684,-4.19782,-4.2788,-4.35979,-4.44077,-4.52176,-4.60274,-4.68373,-4.76472}
,{-2.61386,-2.57283,-2.53176,-2.49064,-2.44948,-2.40827,-2.36701,-2.32569,-2.28432,-2.24288,-2.20137,-2.15979,-2.11814,-2.0764,-2.03459,-1.99268,-1.95068,-1.90858,-1.86639,-1.82408,-1.78166,-1.73912,-1.69647,-1.65369,-1.61078,-1.56773,-1.52455,-1.48124,-1.43778,-1.39418,-1.35044,-1.30656,-1.26254,-1.21838,-1.1741,-1.12969,-1.08517,-1.04055,-0.995847,-0.951073,-0.906251,-0.861405,-0.816562,-0.771753,-0.727013,-0.682379,-0.637894,-0.593601,-0.549548,-0.505786,-0.462364,-0.419338,-0.37676,-0.334685,-0.293166,-0.252255,-0.212005,-0.172461,-0.133672,-0.0956782,-0.0585197,-0.0222316,0.0131542,0.0476099,0.0811113,0.113638,0.145172,0.1757,0.20521,0.233694,0.261146,0.287562,0.312939,0.337279,0.360581,0.382851,0.404091,0.42431,0.443515,0.461716,0.478926,0.495158,0.510429,0.524756,0.538161,0.550666,0.562295,0.573076,0.583037,0.592208,0.600622,0.608311,0.615309,0.62165,0.627367,0.632495,0.637066,0.641112,0.644663,0.647746,0.650386,0.652608,0.65443,0.655869,0.656937,0.657643,0.657991,0.65798,0.657604,0.656853,0.655709,0.654149,0.652141,0.649649,0.646625,0.643015,0.638753,0.633764,0.627962,0.621248,0.61351,0.604622,0.594444,0.582823,0.569588,0.554554,0.537524,0.518286,0.496621,0.4723,0.445094,0.414776,0.381134,0.343972,0.303126,0.258476,0.209951,0.15755,0.10134,0.0414715,-0.0218275,-0.0882586,-0.157468,-0.229069,-0.302676,-0.377929,-0.454524,-0.532229,-0.610874,-0.690343,-0.770537,-0.851355,-0.932686,-1.01443,-1.09648,-1.17877,-1.26124,-1.34387,-1.42658,-1.50935,-1.59215,-1.67494,-1.75772,-1.84048,-1.92314,-2.0193,-2.10018,-2.18107,-2.26197,-2.34288,-2.42379,-2.50471,-2.58564,-2.66657,-2.74751,-2.82845,-2.90939,-2.99034,-3.07129,-3.15225,-3.23321,-3.31417,-3.39513,-3.4761,-3.55707,-3.63804,-3.71901,-3.79999,-3.88096,-3.96194,-4.04292,-4.1239,-4.20488,-4.28586,-4.36685,-4.44783,-4.52882,-4.6098,-4.69079,-4.77178}
,{-2.634,-2.59296,-2.55189,-2.51076,-2.4696,-2.42838,-2.3871,-2.34578,-2.30439,-2.26293,-2.22141,-2.17982,-2.13814,-2.09639,-2.05455,-2.01262,-1.97059,-1.92847,-1.88623,-1.84389,-1.80143,-1.75885,-1.71614,-1.6733,-1.63033,-1.58722,-1.54396,-1.50056,-1.45701,-1.41331,-1.36946,-1.32546,-1.2813,-1.237,-1.19256,-1.14797,-1.10326,-1.05843,-1.01349,-0.968463,-0.923364,-0.878216,-0.833045,-0.78788,-0.742753,-0.697702,-0.652767,-0.607991,-0.56342,-0.519104,-0.475094,-0.431445,-0.38821,-0.345444,-0.303204,-0.261542,-0.220512,-0.180166,-0.140551,-0.101714,-0.0636965,-0.0265384,0.00972544,0.0450633,0.0794474,0.112853,0.145261,0.176652,0.207014,0.236333,0.264603,0.291815,0.317967,0.343057,0.367083,0.39005,0.411959,0.432817,0.452631,0.471412,0.48917,0.50592,0.521679,0.536464,0.550296,0.563199,0.575198,0.586321,0.596598,0.606058,0.614737,0.622666,0.629882,0.636418,0.64231,0.647593,0.6523,0.656464,0.660115,0.663282,0.665992,0.668267,0.670127,0.67159,0.672668,0.673369,0.673697,0.673652,0.673226,0.672408,0.67118,0.669517,0.667387,0.66475,0.661558,0.657753,0.653268,0.648026,0.641935,0.634896,0.626791,0.617492,0.606856,0.594725,0.580925,0.565268,0.547555,0.527572,0.505097,0.479905,0.451765,0.420458,0.385775,0.347529,0.305569,0.259786,0.210129,0.156612,0.099324,0.0384338,-0.0258123,-0.0931019,-0.163072,-0.235334,-0.309507,-0.385243,-0.462254,-0.540322,-0.619293,-0.699056,-0.77952,-0.860576,-0.942116,-1.02404,-1.10625,-1.18869,-1.27129,-1.35404,-1.43684,-1.5197,-1.60257,-1.68544,-1.76827,-1.85111,-1.93381,-2.03041,-2.1113,-2.19219,-2.27309,-2.35399,-2.4349,-2.51582,-2.59675,-2.67768,-2.75862,-2.83956,-2.9205,-3.00145,-3.0824,-3.16336,-3.24432,-3.32528,-3.40624,-3.48721,-3.56818,-3.64915,-3.73012,-3.8111,-3.89208,-3.97305,-4.05403,-4.13501,-4.21599,-4.29698,-4.37796,-4.45895,-4.53993,-4.62092,-4.7019,-4.78289}
,{-2.65375,-2.6127,-2.57162,-2.53049,-2.48931,-2.44809,-2.40681,-2.36547,-2.32407,-2.2826,-2.24106,-2.19945,-2.15776,-2.11599,-2.07413,-2.03217,-1.99012,-1.94797,-1.9057,-1.86332,-1.82082,-1.7782,-1.73544,-1.69255,-1.64952,-1.60634,-1.56301,-1.51953,-1.4759,-1.4321,-1.38814,-1.34402,-1.29974,-1.2553,-1.2107,-1.16595,-1.12105,-1.07602,-1.03086,-0.985586,-0.940221,-0.894784,-0.849298,-0.803791,-0.758293,-0.71284,-0.667471,-0.622228,-0.577157,-0.532306,-0.487726,-0.443472,-0.399597,-0.356159,-0.313213,-0.270816,-0.229022,-0.187886,-0.147459,-0.107789,-0.0689224,-0.0309019,0.00623365,0.0424491,0.0777128,0.111997,0.145278,0.177534,0.208749,0.238908,0.268,0.296015,0.322948,0.348794,0.373552,0.397223,0.419809,0.441314,0.461746,0.481114,0.499429,0.516705,0.532959,0.548209,0.562476,0.575784,0.58816,0.599632,0.610229,0.619985,0.628932,0.637107,0.644544,0.65128,0.657351,0.662792,0.667639,0.671924,0.675678,0.678933,0.681714,0.684045,0.685947,0.687436,0.688526,0.689226,0.689538,0.689461,0.688989,0.68811,0.686803,0.685043,0.682797,0.680024,0.676672,0.672684,0.667989,0.662507,0.656146,0.6488,0.640352,0.630669,0.619606,0.607,0.592675,0.576443,0.558099,0.537431,0.514215,0.488226,0.459239,0.427035,0.391412,0.352193,0.309236,0.262446,0.211784,0.157283,0.0990483,0.0372649,-0.0278061,-0.0958408,-0.16647,-0.239305,-0.31397,-0.390128,-0.467506,-0.545897,-0.62516,-0.70519,-0.785895,-0.867168,-0.948899,-1.03099,-1.11335,-1.19592,-1.27865,-1.36149,-1.44439,-1.52735,-1.61029,-1.69324,-1.77612,-1.85901,-1.94176,-2.03887,-2.11975,-2.20064,-2.28154,-2.36245,-2.44336,-2.52428,-2.60521,-2.68614,-2.76707,-2.84801,-2.92896,-3.00991,-3.09086,-3.17182,-3.25277,-3.33374,-3.4147,-3.49567,-3.57664,-3.65761,-3.73858,-3.81955,-3.90053,-3.98151,-4.06249,-4.14347,-4.22445,-4.30543,-4.38642,-4.4674,-4.54839,-4.62937,-4.71036,-4.79135}
,{-2.67311,-2.63207,-2.59097,-2.54984,-2.50866,-2.46742,-2.42613,-2.38478,-2.34337,-2.30189,-2.26034,-2.21872,-2.17701,-2.13522,-2.09334,-2.05136,-2.00928,-1.9671,-1.9248,-1.88239,-1.83985,-1.79719,-1.75439,-1.71144,-1.66836,-1.62512,-1.58172,-1.53817,-1.49445,-1.45056,-1.4065,-1.36227,-1.31787,-1.27329,-1.22854,-1.18363,-1.13855,-1.09333,-1.04795,-1.00245,-0.956831,-0.911116,-0.865328,-0.819491,-0.773636,-0.727797,-0.68201,-0.636316,-0.590761,-0.545392,-0.500259,-0.455417,-0.410921,-0.366827,-0.323193,-0.280076,-0.237533,-0.195621,-0.154394,-0.113903,-0.0741969,-0.0353226,0.00267792,0.0397656,0.0759054,0.111066,0.145219,0.178341,0.210411,0.241412,0.27133,0.300152,0.327872,0.354481,0.379977,0.40436,0.427629,0.449789,0.470846,0.490808,0.509687,0.527496,0.544252,0.559972,0.57468,0.588399,0.601156,0.612979,0.623901,0.633954,0.643173,0.651594,0.659254,0.666189,0.672437,0.678035,0.683018,0.687419,0.691273,0.694608,0.697452,0.69983,0.701762,0.703265,0.704352,0.705032,0.705307,0.705177,0.704632,0.70366,0.702239,0.700343,0.697936,0.694975,0.691406,0.687169,0.682189,0.676384,0.669657,0.661899,0.652989,0.642789,0.631149,0.617905,0.602875,0.585866,0.566674,0.545081,0.520867,0.493806,0.463675,0.430263,0.393375,0.352847,0.308551,0.260411,0.208408,0.152598,0.09311,0.0301531,-0.0359943,-0.104991,-0.176462,-0.250018,-0.325294,-0.401972,-0.479795,-0.558579,-0.638193,-0.718546,-0.799535,-0.881061,-0.963009,-1.04529,-1.12782,-1.21052,-1.29338,-1.37634,-1.45933,-1.54237,-1.62538,-1.70839,-1.79133,-1.87427,-1.95711,-2.05449,-2.13537,-2.21626,-2.29716,-2.37806,-2.45898,-2.5399,-2.62082,-2.70175,-2.78269,-2.86363,-2.94457,-3.02552,-3.10648,-3.18743,-3.26839,-3.34935,-3.43032,-3.51128,-3.59225,-3.67322,-3.7542,-3.83517,-3.91615,-3.99713,-4.0781,-4.15908,-4.24007,-4.32105,-4.40203,-4.48302,-4.564,-4.64499,-4.72598,-4.80696}
,{-2.69211,-2.65106,-2.60996,-2.56882,-2.52763,-2.48639,-2.44509,-2.40373,-2.36231,-2.32082,-2.27926,-2.23762,-2.1959,-2.15409,-2.11219,-2.07019,-2.02809,-1.98588,-1.94356,-1.90111,-1.85854,-1.81583,-1.77299,-1.73,-1.68686,-1.64356,-1.6001,-1.55648,-1.51268,-1.4687,-1.42455,-1.38021,-1.33569,-1.29098,-1.24609,-1.20103,-1.15578,-1.11036,-1.06479,-1.01906,-0.973197,-0.927215,-0.881136,-0.834983,-0.788784,-0.742571,-0.696381,-0.650252,-0.604229,-0.558358,-0.512689,-0.467276,-0.422174,-0.37744,-0.333133,-0.289312,-0.246035,-0.20336,-0.161345,-0.120043,-0.0795071,-0.0397867,-0.000927647,0.0370276,0.0740402,0.110075,0.145101,0.17909,0.212018,0.243865,0.274613,0.304249,0.332761,0.360141,0.386384,0.411487,0.435449,0.458273,0.479964,0.500531,0.519983,0.538334,0.555601,0.571803,0.58696,0.601099,0.614247,0.626433,0.637689,0.648049,0.65755,0.666228,0.674121,0.681267,0.687704,0.693471,0.698603,0.703137,0.707105,0.710539,0.713466,0.715913,0.7179,0.719445,0.720562,0.721258,0.721538,0.7214,0.720835,0.719831,0.718366,0.716412,0.713934,0.710887,0.707217,0.702863,0.697749,0.691791,0.684892,0.676941,0.667816,0.657378,0.645475,0.631941,0.616596,0.599244,0.579682,0.557692,0.533054,0.505544,0.474942,0.44104,0.403646,0.362601,0.317784,0.269124,0.216609,0.160304,0.100342,0.0369399,-0.0296196,-0.0989921,-0.170802,-0.244661,-0.320208,-0.397128,-0.475171,-0.554155,-0.633956,-0.714482,-0.795633,-0.877307,-0.959394,-1.0418,-1.12445,-1.20727,-1.29023,-1.37328,-1.45636,-1.53948,-1.62257,-1.70566,-1.78867,-1.87167,-1.95456,-2.05266,-2.13355,-2.21444,-2.29533,-2.37624,-2.45715,-2.53807,-2.619,-2.69993,-2.78087,-2.86181,-2.94275,-3.0237,-3.10465,-3.18561,-3.26657,-3.34753,-3.42849,-3.50946,-3.59043,-3.6714,-3.75237,-3.83335,-3.91432,-3.9953,-4.07628,-4.15726,-4.23824,-4.31923,-4.40021,-4.48119,-4.56218,-4.64317,-4.72415,-4.80514}
,{-2.71076,-2.6697,-2.6286,-2.58745,-2.54626,-2.50501,-2.4637,-2.42234,-2.3809,-2.3394,-2.29783,-2.25618,-2.21444,-2.17262,-2.1307,-2.08868,-2.04656,-2.00432,-1.96197,-1.9195,-1.87689,-1.83415,-1.79126,-1.74823,-1.70504,-1.66168,-1.61816,-1.57447,-1.53059,-1.48653,-1.44229,-1.39785,-1.35321,-1.30839,-1.26336,-1.21815,-1.17274,-1.12714,-1.08137,-1.03543,-0.989328,-0.94309,-0.896731,-0.850273,-0.803742,-0.75717,-0.71059,-0.664041,-0.617565,-0.571208,-0.525019,-0.479051,-0.43336,-0.388003,-0.343039,-0.298529,-0.254532,-0.211108,-0.168318,-0.126217,-0.0848617,-0.0443043,-0.00459409,0.0342227,0.0721035,0.10901,0.144906,0.179761,0.213549,0.246244,0.277826,0.308279,0.337589,0.365745,0.392739,0.418568,0.443229,0.466724,0.489056,0.510233,0.530265,0.549165,0.566949,0.583636,0.599249,0.613812,0.627353,0.639904,0.651496,0.662165,0.671947,0.68088,0.689004,0.696358,0.70298,0.70891,0.714184,0.718841,0.722913,0.726432,0.729428,0.731926,0.733948,0.735511,0.736629,0.737311,0.737559,0.737372,0.73674,0.73565,0.734079,0.731998,0.729368,0.726145,0.722273,0.717685,0.712306,0.706048,0.69881,0.690478,0.680927,0.670015,0.657586,0.643471,0.627487,0.609436,0.589112,0.566298,0.540774,0.512317,0.480712,0.445757,0.407268,0.365097,0.319136,0.269329,0.215685,0.158285,0.0972831,0.0329129,-0.0345276,-0.104684,-0.177178,-0.251625,-0.327671,-0.40502,-0.483436,-0.562753,-0.642855,-0.723654,-0.805052,-0.886944,-0.969219,-1.05179,-1.13459,-1.21754,-1.30061,-1.38377,-1.46694,-1.55015,-1.6333,-1.71645,-1.7995,-1.88254,-1.96553,-2.064,-2.14488,-2.22577,-2.30667,-2.38757,-2.46849,-2.54941,-2.63033,-2.71126,-2.7922,-2.87314,-2.95409,-3.03503,-3.11599,-3.19694,-3.2779,-3.35886,-3.43983,-3.52079,-3.60176,-3.68273,-3.76371,-3.84468,-3.92566,-4.00664,-4.08761,-4.1686,-4.24958,-4.33056,-4.41154,-4.49253,-4.57351,-4.6545,-4.73549,-4.81647}
,{-2.72907,-2.68801,-2.6469,-2.60575,-2.56455,-2.52329,-2.48198,-2.4406,-2.39916,-2.35765,-2.31606,-2.2744,-2.23265,-2.19081,-2.14888,-2.10684,-2.0647,-2.02244,-1.98006,-1.93756,-1.89492,-1.85214,-1.80922,-1.76614,-1.7229,-1.67949,-1.63591,-1.59215,-1.54821,-1.50407,-1.45973,-1.4152,-1.37046,-1.32551,-1.28036,-1.235,-1.18943,-1.14366,-1.0977,-1.05155,-1.00523,-0.958745,-0.912116,-0.865364,-0.818514,-0.771595,-0.724639,-0.677683,-0.630768,-0.58394,-0.537246,-0.490739,-0.444474,-0.398509,-0.352904,-0.307718,-0.263015,-0.218857,-0.175303,-0.132415,-0.0902494,-0.0488634,-0.00830917,0.0313635,0.0701084,0.107883,0.144649,0.180371,0.215019,0.248564,0.280985,0.31226,0.342373,0.371311,0.399065,0.425628,0.450996,0.475169,0.498151,0.519947,0.540567,0.560024,0.578334,0.595515,0.61159,0.626586,0.640529,0.653451,0.665387,0.676371,0.686442,0.695638,0.704,0.711568,0.718382,0.724481,0.729906,0.734693,0.738877,0.74249,0.745563,0.748122,0.750189,0.751782,0.752916,0.753598,0.753831,0.753614,0.752938,0.751786,0.750137,0.74796,0.745216,0.741859,0.73783,0.733064,0.727481,0.720991,0.713493,0.704871,0.694996,0.683724,0.670898,0.656347,0.639885,0.621314,0.600428,0.577009,0.550838,0.521695,0.489368,0.453659,0.414392,0.371425,0.324661,0.274055,0.219627,0.16147,0.0997513,0.0347149,-0.033333,-0.104033,-0.177004,-0.251868,-0.328276,-0.40594,-0.484637,-0.564208,-0.644545,-0.725557,-0.80715,-0.889216,-0.971651,-1.05437,-1.13729,-1.22036,-1.30354,-1.38679,-1.47005,-1.55334,-1.63656,-1.71979,-1.80291,-1.88599,-1.96902,-2.06806,-2.14895,-2.22984,-2.31074,-2.39164,-2.47256,-2.55347,-2.6344,-2.71533,-2.79627,-2.87721,-2.95815,-3.0391,-3.12005,-3.20101,-3.28197,-3.36293,-3.44389,-3.52486,-3.60583,-3.6868,-3.76777,-3.84875,-3.92973,-4.0107,-4.09168,-4.17266,-4.25364,-4.33463,-4.41561,-4.4966,-4.57758,-4.65857,-4.73955,-4.82054}
,{-2.74705,-2.70598,-2.66487,-2.62372,-2.58251,-2.54124,-2.49992,-2.45854,-2.41709,-2.37557,-2.33398,-2.2923,-2.25054,-2.20869,-2.16674,-2.12468,-2.08252,-2.04024,-1.99784,-1.95531,-1.91264,-1.86983,-1.82687,-1.78375,-1.74046,-1.697,-1.65337,-1.60954,-1.56553,-1.52131,-1.47689,-1.43227,-1.38742,-1.34236,-1.29709,-1.25159,-1.20587,-1.15994,-1.1138,-1.06745,-1.02091,-0.974186,-0.927297,-0.880262,-0.833104,-0.785849,-0.73853,-0.691181,-0.643841,-0.596556,-0.549372,-0.502341,-0.455518,-0.40896,-0.362728,-0.316883,-0.271488,-0.226607,-0.182303,-0.138638,-0.0956736,-0.053468,-0.0120776,0.0284446,0.0680487,0.106689,0.144322,0.18091,0.216418,0.250816,0.284077,0.316177,0.347099,0.376824,0.405343,0.432646,0.458728,0.483587,0.507225,0.529647,0.550862,0.570883,0.589724,0.607405,0.623949,0.639381,0.653731,0.667029,0.679311,0.690614,0.700975,0.710435,0.719035,0.726816,0.73382,0.740088,0.745658,0.750571,0.75486,0.758561,0.761702,0.764311,0.766411,0.76802,0.769151,0.769814,0.770011,0.769738,0.768988,0.767742,0.765977,0.763661,0.760755,0.757208,0.752962,0.747946,0.742081,0.735272,0.727415,0.718392,0.708068,0.6963,0.682924,0.667768,0.650644,0.631351,0.609682,0.585419,0.558345,0.528242,0.494903,0.458137,0.417777,0.373693,0.325802,0.274075,0.218549,0.159337,0.0966243,0.0306704,-0.0382058,-0.109637,-0.183242,-0.258649,-0.33552,-0.413581,-0.492627,-0.572514,-0.653137,-0.73441,-0.816236,-0.898505,-0.981119,-1.06399,-1.14705,-1.23025,-1.31354,-1.39688,-1.48023,-1.56359,-1.6469,-1.73016,-1.81336,-1.89646,-1.97957,-2.07897,-2.15986,-2.24075,-2.32165,-2.40255,-2.48347,-2.56439,-2.64531,-2.72624,-2.80718,-2.88812,-2.96906,-3.05001,-3.13096,-3.21192,-3.29288,-3.37384,-3.4548,-3.53577,-3.61674,-3.69771,-3.77868,-3.85966,-3.94064,-4.02161,-4.10259,-4.18357,-4.26455,-4.34554,-4.42652,-4.50751,-4.58849,-4.66948,-4.75046,-4.83145}
,{-2.76471,-2.72364,-2.68253,-2.64137,-2.60015,-2.55889,-2.51756,-2.47617,-2.43471,-2.39318,-2.35158,-2.30989,-2.26812,-2.22625,-2.18429,-2.14222,-2.10003,-2.05773,-2.01531,-1.97275,-1.93006,-1.88721,-1.84422,-1.80106,-1.75773,-1.71422,-1.67053,-1.62665,-1.58257,-1.53828,-1.49378,-1.44906,-1.40412,-1.35896,-1.31356,-1.26793,-1.22207,-1.17598,-1.12966,-1.08312,-1.03637,-0.989418,-0.942279,-0.89497,-0.847514,-0.799936,-0.752265,-0.704535,-0.656784,-0.609055,-0.561395,-0.513855,-0.466487,-0.419351,-0.372506,-0.326015,-0.279942,-0.234352,-0.189309,-0.144879,-0.101125,-0.0581091,-0.0158897,0.025476,0.0659347,0.105437,0.143935,0.181389,0.217759,0.253011,0.287116,0.320046,0.351781,0.3823,0.411591,0.439641,0.466444,0.491997,0.5163,0.539356,0.561175,0.581768,0.601149,0.619339,0.63636,0.652237,0.667001,0.680683,0.69332,0.704948,0.715607,0.725338,0.734183,0.742185,0.749386,0.755829,0.761553,0.766599,0.771002,0.774798,0.778018,0.780688,0.782832,0.784469,0.785614,0.786273,0.786451,0.786144,0.785341,0.784027,0.782176,0.779756,0.776725,0.773033,0.768619,0.763412,0.757328,0.750274,0.742142,0.73281,0.722146,0.709999,0.696208,0.680597,0.662977,0.643147,0.620899,0.596016,0.568282,0.537482,0.503413,0.46589,0.424753,0.37988,0.331196,0.278686,0.222397,0.162454,0.0990539,0.0324656,-0.036985,-0.108927,-0.18298,-0.258776,-0.335986,-0.414346,-0.493659,-0.573789,-0.654637,-0.736115,-0.818129,-0.900566,-0.983331,-1.06634,-1.14953,-1.23284,-1.31624,-1.39967,-1.4831,-1.56654,-1.64992,-1.73325,-1.8165,-1.89965,-1.98282,-2.08278,-2.16366,-2.24456,-2.32545,-2.40636,-2.48727,-2.56819,-2.64912,-2.73005,-2.81099,-2.89193,-2.97287,-3.05382,-3.13477,-3.21573,-3.29669,-3.37765,-3.45861,-3.53958,-3.62055,-3.70152,-3.78249,-3.86347,-3.94444,-4.02542,-4.1064,-4.18738,-4.26836,-4.34935,-4.43033,-4.51131,-4.5923,-4.67329,-4.75427,-4.83526}
,{-2.78207,-2.741,-2.69988,-2.65872,-2.6175,-2.57622,-2.53489,-2.4935,-2.45203,-2.41049,-2.36888,-2.32718,-2.2854,-2.24352,-2.20154,-2.15945,-2.11725,-2.07493,-2.03249,-1.98991,-1.94718,-1.90431,-1.86128,-1.81808,-1.77471,-1.73116,-1.68742,-1.64348,-1.59934,-1.55498,-1.5104,-1.4656,-1.42057,-1.37529,-1.32978,-1.28403,-1.23803,-1.19178,-1.1453,-1.09857,-1.05162,-1.00445,-0.957067,-0.909494,-0.86175,-0.813859,-0.765847,-0.717748,-0.669599,-0.62144,-0.573317,-0.52528,-0.477383,-0.429683,-0.382239,-0.335116,-0.288378,-0.242092,-0.196323,-0.151139,-0.106605,-0.0627872,-0.0197468,0.022456,0.0637642,0.104124,0.143486,0.181804,0.219037,0.255145,0.290096,0.32386,0.356412,0.387731,0.417799,0.446603,0.474135,0.500389,0.525364,0.549063,0.571493,0.592666,0.612595,0.631301,0.648805,0.665135,0.680319,0.694392,0.707388,0.719347,0.730309,0.740316,0.749411,0.757637,0.765039,0.77166,0.777541,0.782723,0.787243,0.791136,0.794435,0.797168,0.799358,0.801024,0.802182,0.802839,0.802998,0.802657,0.801804,0.800422,0.798486,0.795962,0.792808,0.788972,0.784391,0.778994,0.772695,0.765399,0.756995,0.747362,0.736362,0.723846,0.709649,0.693595,0.675493,0.655142,0.632333,0.606852,0.578483,0.547015,0.512248,0.474003,0.432126,0.386504,0.337072,0.283822,0.226817,0.166188,0.102145,0.0349646,-0.0350217,-0.10744,-0.181912,-0.258072,-0.335601,-0.414244,-0.493811,-0.574173,-0.655236,-0.736912,-0.819105,-0.901706,-0.984618,-1.06777,-1.15107,-1.23449,-1.31799,-1.40152,-1.48504,-1.56855,-1.652,-1.73539,-1.81871,-1.90193,-2.0048,-2.08568,-2.16656,-2.24745,-2.32835,-2.40925,-2.49017,-2.57109,-2.65201,-2.73294,-2.81388,-2.89482,-2.97576,-3.05671,-3.13767,-3.21862,-3.29958,-3.38054,-3.46151,-3.54247,-3.62344,-3.70441,-3.78539,-3.86636,-3.94734,-4.02832,-4.10929,-4.19027,-4.27126,-4.35224,-4.43322,-4.51421,-4.59519,-4.67618,-4.75717,-4.83815}
,{-2.79914,-2.75806,-2.71694,-2.67577,-2.63455,-2.59327,-2.55193,-2.51053,-2.46906,-2.42751,-2.38589,-2.34418,-2.30239,-2.2605,-2.2185,-2.1764,-2.13419,-2.09185,-2.04938,-2.00678,-1.96403,-1.92113,-1.87807,-1.83484,-1.79143,-1.74783,-1.70404,-1.66005,-1.61584,-1.57142,-1.52677,-1.48188,-1.43676,-1.39139,-1.34577,-1.29989,-1.25375,-1.20736,-1.16072,-1.11382,-1.06667,-1.01928,-0.971666,-0.923839,-0.875816,-0.827621,-0.77928,-0.730824,-0.682288,-0.633711,-0.585139,-0.536619,-0.488205,-0.439954,-0.391926,-0.344185,-0.296795,-0.249824,-0.203341,-0.157414,-0.112111,-0.0675005,-0.0236468,0.0193864,0.0615389,0.102753,0.142976,0.182157,0.220252,0.257217,0.293017,0.327619,0.360993,0.393116,0.423967,0.453532,0.481799,0.508762,0.534417,0.558766,0.581815,0.603575,0.62406,0.643289,0.661285,0.678073,0.693685,0.708154,0.721516,0.733812,0.745082,0.755369,0.764718,0.773173,0.78078,0.787582,0.793622,0.798943,0.803581,0.807575,0.810955,0.813752,0.815989,0.817686,0.818858,0.819514,0.819657,0.819282,0.81838,0.816932,0.814912,0.812286,0.809011,0.805033,0.80029,0.794707,0.788197,0.780664,0.771995,0.762068,0.750742,0.737868,0.723279,0.706797,0.68823,0.667379,0.644034,0.617981,0.589008,0.556905,0.521477,0.48255,0.439977,0.393652,0.343519,0.28958,0.231907,0.170642,0.106003,0.0382735,-0.0322088,-0.105069,-0.179929,-0.25643,-0.334259,-0.413167,-0.492976,-0.57356,-0.654827,-0.736692,-0.819059,-0.901816,-0.984871,-1.06815,-1.15157,-1.2351,-1.31871,-1.40232,-1.48594,-1.56952,-1.65304,-1.7365,-1.81988,-1.90315,-2.00668,-2.08756,-2.16844,-2.24933,-2.33023,-2.41113,-2.49205,-2.57297,-2.65389,-2.73482,-2.81576,-2.8967,-2.97764,-3.05859,-3.13954,-3.2205,-3.30146,-3.38242,-3.46339,-3.54435,-3.62532,-3.70629,-3.78727,-3.86824,-3.94922,-4.03019,-4.11117,-4.19215,-4.27314,-4.35412,-4.4351,-4.51609,-4.59707,-4.67806,-4.75904,-4.84003}
,{-2.81592,-2.77484,-2.73371,-2.69254,-2.65131,-2.61003,-2.56869,-2.52728,-2.4858,-2.44425,-2.40262,-2.36091,-2.3191,-2.2772,-2.23519,-2.19308,-2.15085,-2.10849,-2.066,-2.02338,-1.98061,-1.93768,-1.89459,-1.85132,-1.80787,-1.76424,-1.7204,-1.67636,-1.63209,-1.58761,-1.54289,-1.49792,-1.45271,-1.40724,-1.36152,-1.31552,-1.26926,-1.22273,-1.17592,-1.12885,-1.08152,-1.03392,-0.986083,-0.938008,-0.889717,-0.841229,-0.792568,-0.743766,-0.694854,-0.645872,-0.596862,-0.547873,-0.498956,-0.450168,-0.401568,-0.353221,-0.305193,-0.257551,-0.210365,-0.163707,-0.117645,-0.0722513,-0.0275927,0.016264,0.0592548,0.101319,0.142399,0.182442,0.221398,0.259221,0.295871,0.331312,0.365512,0.398444,0.430084,0.460415,0.489424,0.517101,0.543442,0.568448,0.592123,0.614477,0.635524,0.655282,0.673774,0.691026,0.70707,0.721939,0.735671,0.748305,0.759885,0.770454,0.780057,0.78874,0.79655,0.803531,0.809727,0.815181,0.819932,0.824018,0.827471,0.830321,0.832592,0.834306,0.835476,0.836111,0.836214,0.835781,0.8348,0.833253,0.831112,0.828342,0.824898,0.820726,0.815759,0.809922,0.803126,0.79527,0.786242,0.775915,0.764147,0.750785,0.735661,0.718594,0.699392,0.677854,0.653771,0.62693,0.597121,0.564139,0.527794,0.487919,0.444376,0.39707,0.34596,0.29106,0.232459,0.170312,0.104852,0.0363744,-0.0347757,-0.108224,-0.183591,-0.260527,-0.338732,-0.41797,-0.498072,-0.578925,-0.660438,-0.742526,-0.825091,-0.908028,-0.991244,-1.07466,-1.15821,-1.24185,-1.32556,-1.40926,-1.49296,-1.57661,-1.6602,-1.74372,-1.82716,-1.91045,-2.01447,-2.09535,-2.17623,-2.25712,-2.33802,-2.41892,-2.49984,-2.58076,-2.66168,-2.74261,-2.82355,-2.90449,-2.98543,-3.06638,-3.14734,-3.22829,-3.30925,-3.39021,-3.47118,-3.55214,-3.63311,-3.71408,-3.79506,-3.87603,-3.95701,-4.03798,-4.11896,-4.19994,-4.28093,-4.36191,-4.44289,-4.52388,-4.60486,-4.68585,-4.76684,-4.84782}
,{-2.83242,-2.79134,-2.75021,-2.70904,-2.66781,-2.62652,-2.58517,-2.54376,-2.50227,-2.46072,-2.41908,-2.37735,-2.33554,-2.29363,-2.25161,-2.20948,-2.16724,-2.12486,-2.08236,-2.03971,-1.99692,-1.95396,-1.91084,-1.86755,-1.82406,-1.78039,-1.73651,-1.69241,-1.6481,-1.60355,-1.55876,-1.51372,-1.46843,-1.42287,-1.37704,-1.33093,-1.28455,-1.23788,-1.19092,-1.14369,-1.09617,-1.04838,-1.00032,-0.952007,-0.903455,-0.854682,-0.805713,-0.756574,-0.707298,-0.657921,-0.608486,-0.55904,-0.509632,-0.460319,-0.411162,-0.362222,-0.313567,-0.265266,-0.217389,-0.17001,-0.1232,-0.077031,-0.0315753,0.0130981,0.0569219,0.0998318,0.141767,0.182669,0.222486,0.261169,0.298672,0.334956,0.369986,0.403731,0.436166,0.46727,0.497028,0.525427,0.552463,0.578133,0.602443,0.625399,0.647017,0.667312,0.686309,0.704034,0.720518,0.735796,0.749905,0.762886,0.774783,0.785641,0.795506,0.804425,0.812446,0.819613,0.825973,0.831569,0.836442,0.840629,0.844165,0.847079,0.849397,0.85114,0.852323,0.852954,0.853036,0.852565,0.85153,0.84991,0.847679,0.8448,0.841227,0.836904,0.831764,0.82573,0.818712,0.810609,0.801304,0.79067,0.778564,0.764832,0.749303,0.731797,0.712121,0.690074,0.665447,0.638029,0.607612,0.573995,0.536992,0.496441,0.452212,0.404218,0.352424,0.296856,0.237611,0.174854,0.108826,0.0398276,-0.0317912,-0.105655,-0.181389,-0.258647,-0.337135,-0.416628,-0.496962,-0.578028,-0.659739,-0.742011,-0.824743,-0.907832,-0.991186,-1.07473,-1.15839,-1.24214,-1.32595,-1.40974,-1.49352,-1.57725,-1.66091,-1.74449,-1.828,-1.91134,-2.01603,-2.0969,-2.17778,-2.25867,-2.33957,-2.42048,-2.50139,-2.58231,-2.66323,-2.74416,-2.8251,-2.90604,-2.98699,-3.06793,-3.14889,-3.22984,-3.3108,-3.39176,-3.47273,-3.55369,-3.63466,-3.71563,-3.79661,-3.87758,-3.95856,-4.03954,-4.12052,-4.2015,-4.28248,-4.36346,-4.44444,-4.52543,-4.60641,-4.6874,-4.76839,-4.84937}
,{-2.84866,-2.80758,-2.76645,-2.72527,-2.68403,-2.64274,-2.60139,-2.55997,-2.51848,-2.47692,-2.43527,-2.39354,-2.35172,-2.3098,-2.26777,-2.22563,-2.18337,-2.14098,-2.09846,-2.05579,-2.01298,-1.97,-1.92685,-1.88352,-1.84001,-1.79629,-1.75237,-1.70823,-1.66386,-1.61926,-1.5744,-1.52929,-1.48392,-1.43827,-1.39234,-1.34613,-1.29963,-1.25282,-1.20573,-1.15833,-1.11064,-1.06265,-1.01438,-0.965841,-0.917037,-0.867989,-0.81872,-0.769255,-0.719625,-0.669865,-0.620017,-0.570125,-0.520239,-0.470415,-0.420711,-0.371192,-0.321923,-0.272975,-0.22442,-0.176331,-0.128782,-0.081849,-0.035605,0.00987746,0.0545277,0.098278,0.141063,0.182823,0.2235,0.26304,0.301397,0.338526,0.374388,0.408951,0.442184,0.474066,0.504577,0.533704,0.56144,0.587781,0.61273,0.636294,0.658486,0.679324,0.69883,0.717031,0.733958,0.749646,0.764133,0.777461,0.789675,0.80082,0.810943,0.820093,0.828318,0.835664,0.842179,0.847906,0.852886,0.857159,0.860758,0.863715,0.866055,0.8678,0.868962,0.869552,0.869572,0.869015,0.867871,0.866117,0.863726,0.860659,0.856868,0.852294,0.84687,0.840514,0.833133,0.824624,0.814867,0.803731,0.791071,0.776728,0.760532,0.742297,0.721831,0.698932,0.67339,0.644998,0.61355,0.57885,0.540721,0.499009,0.453597,0.404412,0.351436,0.294713,0.234358,0.170556,0.103563,0.0336936,-0.0386949,-0.113225,-0.189528,-0.267271,-0.346174,-0.426029,-0.506688,-0.588048,-0.670028,-0.752543,-0.835488,-0.918762,-1.00228,-1.08596,-1.16975,-1.25361,-1.33752,-1.42139,-1.50525,-1.58904,-1.67277,-1.75639,-1.83995,-1.92335,-2.02832,-2.1092,-2.19008,-2.27097,-2.35187,-2.43277,-2.51369,-2.59461,-2.67553,-2.75646,-2.8374,-2.91834,-2.99929,-3.08023,-3.16119,-3.24214,-3.3231,-3.40406,-3.48503,-3.56599,-3.64696,-3.72793,-3.80891,-3.88988,-3.97086,-4.05184,-4.13281,-4.2138,-4.29478,-4.37576,-4.45674,-4.53773,-4.61871,-4.6997,-4.78069,-4.86167}
,{-2.86464,-2.82356,-2.78242,-2.74124,-2.7,-2.65871,-2.61735,-2.57593,-2.53444,-2.49287,-2.45121,-2.40948,-2.36764,-2.32571,-2.28367,-2.24152,-2.19925,-2.15685,-2.11431,-2.07163,-2.02879,-1.98579,-1.94261,-1.89926,-1.85571,-1.81196,-1.768,-1.72381,-1.67939,-1.63473,-1.58982,-1.54464,-1.49919,-1.45346,-1.40744,-1.36112,-1.3145,-1.26757,-1.22033,-1.17278,-1.12492,-1.07675,-1.02828,-0.979513,-0.930464,-0.88115,-0.831589,-0.781808,-0.731834,-0.681702,-0.631451,-0.581125,-0.530772,-0.480448,-0.430211,-0.380123,-0.330253,-0.28067,-0.231446,-0.182658,-0.134381,-0.086692,-0.0396674,0.00661733,0.0520886,0.0966749,0.140308,0.182923,0.224459,0.264859,0.304071,0.342047,0.378747,0.414131,0.44817,0.480836,0.512108,0.541971,0.570415,0.597435,0.623032,0.647213,0.66999,0.69138,0.711404,0.73009,0.747469,0.763576,0.77845,0.792135,0.804674,0.816116,0.826507,0.835898,0.844337,0.851873,0.858552,0.864421,0.869522,0.873894,0.877572,0.880589,0.882969,0.884734,0.8859,0.886474,0.886459,0.88585,0.884633,0.882788,0.880283,0.877081,0.873132,0.868377,0.862745,0.856154,0.84851,0.839706,0.829622,0.818124,0.805067,0.790289,0.773619,0.754872,0.733853,0.710361,0.684188,0.655129,0.62298,0.58755,0.548666,0.506183,0.45999,0.410024,0.356278,0.298806,0.237734,0.173258,0.105642,0.0352083,-0.0376836,-0.112656,-0.189345,-0.267424,-0.346624,-0.426743,-0.507644,-0.589227,-0.671413,-0.754117,-0.837232,-0.92066,-1.00431,-1.08812,-1.17203,-1.25599,-1.33999,-1.42396,-1.5079,-1.59176,-1.67556,-1.75923,-1.84287,-1.9263,-2.03186,-2.11273,-2.19362,-2.27451,-2.35541,-2.43631,-2.51723,-2.59814,-2.67907,-2.76,-2.84094,-2.92188,-3.00282,-3.08377,-3.16472,-3.24568,-3.32664,-3.4076,-3.48856,-3.56953,-3.6505,-3.73147,-3.81244,-3.89342,-3.9744,-4.05537,-4.13635,-4.21733,-4.29831,-4.3793,-4.46028,-4.54127,-4.62225,-4.70324,-4.78422,-4.86521}
,{-2.88037,-2.83929,-2.79815,-2.75696,-2.71572,-2.67443,-2.63307,-2.59164,-2.55014,-2.50857,-2.46691,-2.42516,-2.38332,-2.34138,-2.29934,-2.25717,-2.21489,-2.17247,-2.12992,-2.08722,-2.04436,-2.00134,-1.95814,-1.91476,-1.87118,-1.8274,-1.7834,-1.73917,-1.6947,-1.64999,-1.60501,-1.55977,-1.51425,-1.46843,-1.42232,-1.37591,-1.32918,-1.28213,-1.23475,-1.18706,-1.13903,-1.09068,-1.04201,-0.993028,-0.943743,-0.89417,-0.844328,-0.794239,-0.743931,-0.693437,-0.642794,-0.592045,-0.541238,-0.490426,-0.439667,-0.389024,-0.338563,-0.288357,-0.238477,-0.189001,-0.140006,-0.0915704,-0.0437741,0.00330526,0.0495907,0.0950076,0.139484,0.182951,0.225344,0.266602,0.30667,0.345496,0.383034,0.419244,0.454091,0.487546,0.519584,0.550187,0.579345,0.60705,0.633301,0.658105,0.681471,0.703417,0.723964,0.743139,0.760973,0.777502,0.792766,0.806808,0.819673,0.831409,0.842067,0.851695,0.860343,0.868063,0.8749,0.880902,0.886112,0.89057,0.894312,0.89737,0.89977,0.901533,0.902674,0.903202,0.903118,0.902416,0.901082,0.899094,0.896419,0.893018,0.888839,0.883821,0.877891,0.870963,0.862942,0.853717,0.843166,0.831152,0.817526,0.802126,0.784776,0.765291,0.743475,0.719127,0.69204,0.662011,0.628841,0.592345,0.552358,0.508744,0.461407,0.410296,0.355422,0.296854,0.234739,0.169287,0.100778,0.0295436,-0.0440504,-0.119629,-0.196834,-0.275353,-0.354933,-0.435389,-0.516592,-0.598452,-0.680891,-0.76382,-0.847135,-0.930735,-1.01454,-1.09848,-1.18251,-1.26658,-1.35067,-1.43471,-1.51873,-1.60264,-1.68651,-1.77022,-1.85388,-1.93739,-2.04326,-2.12413,-2.20501,-2.2859,-2.3668,-2.44771,-2.52862,-2.60954,-2.69047,-2.7714,-2.85233,-2.93328,-3.01422,-3.09517,-3.17612,-3.25708,-3.33804,-3.419,-3.49996,-3.58093,-3.6619,-3.74287,-3.82384,-3.90482,-3.98579,-4.06677,-4.14775,-4.22873,-4.30971,-4.39069,-4.47168,-4.55266,-4.63365,-4.71463,-4.79562,-4.87661}
,{-2.89586,-2.85477,-2.81363,-2.77245,-2.7312,-2.6899,-2.64854,-2.60711,-2.56561,-2.52403,-2.48236,-2.44061,-2.39876,-2.35682,-2.31476,-2.27259,-2.23029,-2.18786,-2.1453,-2.10258,-2.05971,-2.01666,-1.97344,-1.93003,-1.88643,-1.84261,-1.79857,-1.75431,-1.70979,-1.66503,-1.62,-1.57469,-1.5291,-1.48321,-1.43701,-1.3905,-1.34366,-1.29649,-1.24899,-1.20115,-1.15297,-1.10444,-1.05558,-1.00639,-0.956876,-0.907052,-0.856936,-0.806549,-0.755916,-0.70507,-0.654045,-0.602883,-0.551632,-0.500343,-0.449074,-0.397886,-0.346847,-0.296028,-0.245503,-0.195349,-0.145645,-0.0964725,-0.0479123,-4.53661e-05,0.0470485,0.0932913,0.138607,0.182924,0.226174,0.268291,0.309216,0.348893,0.387274,0.424315,0.459976,0.494225,0.527037,0.558389,0.588268,0.616666,0.643581,0.669016,0.692981,0.715492,0.736571,0.756244,0.774543,0.791503,0.807166,0.821574,0.834774,0.846815,0.857747,0.867622,0.876491,0.884404,0.89141,0.897557,0.902888,0.907446,0.911266,0.914381,0.916818,0.918598,0.919738,0.920244,0.920118,0.919355,0.917939,0.915848,0.913049,0.9095,0.905149,0.899934,0.893779,0.886599,0.878295,0.868755,0.857856,0.845459,0.831413,0.815554,0.797708,0.777687,0.755296,0.730334,0.702597,0.671883,0.637997,0.600758,0.560008,0.515618,0.467499,0.415612,0.359976,0.300673,0.237859,0.171754,0.102647,0.0308717,-0.0432009,-0.119199,-0.196769,-0.275607,-0.35547,-0.436181,-0.517618,-0.599694,-0.682333,-0.765445,-0.848924,-0.932673,-1.01661,-1.10068,-1.18481,-1.26899,-1.35317,-1.4373,-1.52139,-1.60538,-1.68932,-1.77309,-1.8568,-1.94037,-2.04679,-2.12766,-2.20855,-2.28944,-2.37034,-2.45124,-2.53215,-2.61307,-2.694,-2.77493,-2.85587,-2.93681,-3.01775,-3.0987,-3.17965,-3.26061,-3.34157,-3.42253,-3.50349,-3.58446,-3.66543,-3.7464,-3.82737,-3.90835,-3.98932,-4.0703,-4.15128,-4.23226,-4.31324,-4.39423,-4.47521,-4.55619,-4.63718,-4.71817,-4.79915,-4.88014}
,{-2.91112,-2.87002,-2.82889,-2.78769,-2.74645,-2.70515,-2.66378,-2.62235,-2.58084,-2.53925,-2.49759,-2.45583,-2.41398,-2.37202,-2.32996,-2.28777,-2.24547,-2.20303,-2.16045,-2.11772,-2.07482,-2.03176,-1.98852,-1.94509,-1.90145,-1.85761,-1.81353,-1.76923,-1.72467,-1.67986,-1.63478,-1.58941,-1.54375,-1.49778,-1.4515,-1.4049,-1.35796,-1.31068,-1.26305,-1.21507,-1.16674,-1.11805,-1.069,-1.01961,-0.969869,-0.919802,-0.86942,-0.818742,-0.767794,-0.716604,-0.665208,-0.613645,-0.56196,-0.510205,-0.458437,-0.406717,-0.355111,-0.30369,-0.25253,-0.201709,-0.151307,-0.101407,-0.0520912,-0.00344436,0.0444512,0.0915143,0.137666,0.182829,0.226933,0.269907,0.31169,0.35222,0.391446,0.42932,0.465799,0.500848,0.534438,0.566544,0.597151,0.626248,0.653832,0.679904,0.704474,0.727557,0.749174,0.76935,0.788118,0.805514,0.821578,0.836355,0.849892,0.862239,0.873448,0.883569,0.892656,0.90076,0.907932,0.914219,0.919666,0.924316,0.928206,0.931368,0.933831,0.935615,0.936736,0.937203,0.937016,0.936168,0.934645,0.932421,0.929464,0.925731,0.921167,0.915707,0.909277,0.901787,0.893136,0.883211,0.871886,0.859021,0.844462,0.828044,0.80959,0.788913,0.765818,0.740104,0.711569,0.680014,0.645247,0.607096,0.565408,0.520063,0.470984,0.418144,0.361575,0.301373,0.237707,0.170811,0.100982,0.0285631,-0.0460743,-0.122561,-0.200551,-0.279753,-0.359934,-0.44093,-0.522628,-0.604945,-0.687805,-0.771113,-0.854769,-0.938672,-1.02275,-1.10694,-1.19119,-1.27547,-1.35974,-1.44394,-1.52811,-1.61217,-1.69614,-1.77998,-1.86374,-1.94736,-2.05421,-2.13508,-2.21596,-2.29685,-2.37775,-2.45866,-2.53957,-2.62049,-2.70141,-2.78235,-2.86328,-2.94422,-3.02517,-3.10612,-3.18707,-3.26802,-3.34898,-3.42994,-3.51091,-3.59188,-3.67284,-3.75382,-3.83479,-3.91576,-3.99674,-4.07772,-4.1587,-4.23968,-4.32066,-4.40164,-4.48263,-4.56361,-4.6446,-4.72558,-4.80657,-4.88756}
,{-2.92614,-2.88505,-2.84391,-2.80272,-2.76147,-2.72016,-2.67879,-2.63736,-2.59585,-2.55426,-2.51258,-2.47082,-2.42896,-2.387,-2.34493,-2.30274,-2.26042,-2.21797,-2.17538,-2.13263,-2.08972,-2.04664,-2.00338,-1.95993,-1.91627,-1.87239,-1.82829,-1.78394,-1.73935,-1.69449,-1.64935,-1.60393,-1.5582,-1.51217,-1.46581,-1.41911,-1.37208,-1.32469,-1.27694,-1.22883,-1.18034,-1.13149,-1.08227,-1.03268,-0.982724,-0.932421,-0.881781,-0.830822,-0.779566,-0.728043,-0.676284,-0.624329,-0.572222,-0.520012,-0.467755,-0.415513,-0.363351,-0.31134,-0.259556,-0.208078,-0.156987,-0.106368,-0.0563055,-0.00688606,0.0418049,0.0896829,0.136665,0.182673,0.227629,0.27146,0.3141,0.355486,0.39556,0.43427,0.471572,0.507426,0.541799,0.574666,0.606008,0.635812,0.664072,0.69079,0.715973,0.739635,0.761796,0.782483,0.801727,0.819566,0.836039,0.851191,0.865072,0.877731,0.88922,0.899594,0.908904,0.917205,0.924546,0.930978,0.936546,0.941292,0.945256,0.948471,0.950964,0.952757,0.953866,0.954299,0.954057,0.953132,0.951509,0.949163,0.946059,0.942153,0.93739,0.931704,0.925016,0.917237,0.908265,0.897984,0.886265,0.872967,0.857936,0.841005,0.821997,0.800723,0.776989,0.750595,0.721341,0.689031,0.653478,0.614514,0.571994,0.525806,0.475883,0.422207,0.364823,0.303838,0.239433,0.171851,0.101399,0.0284217,-0.0467067,-0.12362,-0.201982,-0.281505,-0.361973,-0.443228,-0.525163,-0.6077,-0.690763,-0.774254,-0.858074,-0.942124,-1.02633,-1.11065,-1.195,-1.27938,-1.36374,-1.44804,-1.53227,-1.61639,-1.70043,-1.78433,-1.86812,-1.95181,-2.05915,-2.14003,-2.22091,-2.3018,-2.3827,-2.4636,-2.54452,-2.62544,-2.70636,-2.78729,-2.86823,-2.94917,-3.03012,-3.11106,-3.19202,-3.27297,-3.35393,-3.43489,-3.51586,-3.59682,-3.67779,-3.75876,-3.83974,-3.92071,-4.00169,-4.08267,-4.16364,-4.24462,-4.32561,-4.40659,-4.48757,-4.56856,-4.64954,-4.73053,-4.81152,-4.8925}
,{-2.94095,-2.89985,-2.85871,-2.81752,-2.77627,-2.73496,-2.69359,-2.65215,-2.61063,-2.56904,-2.52737,-2.4856,-2.44373,-2.40176,-2.35969,-2.31749,-2.27516,-2.2327,-2.1901,-2.14734,-2.10441,-2.06132,-2.01804,-1.97456,-1.93087,-1.88697,-1.84284,-1.79846,-1.75382,-1.70892,-1.66374,-1.61826,-1.57247,-1.52637,-1.47993,-1.43315,-1.38602,-1.33853,-1.29066,-1.24242,-1.1938,-1.14479,-1.09539,-1.04561,-0.995446,-0.944914,-0.894023,-0.84279,-0.791237,-0.739388,-0.687277,-0.634939,-0.582419,-0.529764,-0.47703,-0.424276,-0.371569,-0.318979,-0.266582,-0.214457,-0.162687,-0.111358,-0.060557,-0.0103727,0.039107,0.0877943,0.135603,0.182451,0.228257,0.272945,0.316443,0.358684,0.399608,0.439159,0.477287,0.51395,0.549114,0.582748,0.61483,0.645348,0.674291,0.701661,0.727464,0.751712,0.774425,0.79563,0.815357,0.833644,0.850531,0.866064,0.880293,0.893268,0.905043,0.915672,0.925209,0.933708,0.941221,0.947799,0.953488,0.958332,0.96237,0.965636,0.968158,0.969959,0.971054,0.971451,0.971152,0.970147,0.968421,0.965948,0.962693,0.958611,0.953644,0.947725,0.940775,0.932702,0.923403,0.912759,0.900642,0.886907,0.8714,0.853952,0.834385,0.812512,0.788138,0.761065,0.731094,0.698033,0.6617,0.621931,0.578589,0.531571,0.480817,0.426323,0.368142,0.306394,0.24127,0.173024,0.101967,0.0284521,-0.0471493,-0.124475,-0.203193,-0.28303,-0.363775,-0.445283,-0.527452,-0.610205,-0.693464,-0.777135,-0.861114,-0.94531,-1.02965,-1.11408,-1.19854,-1.28302,-1.36747,-1.45185,-1.53616,-1.62034,-1.70445,-1.78839,-1.87224,-1.95599,-2.06383,-2.1447,-2.22558,-2.30647,-2.38737,-2.46828,-2.54919,-2.63011,-2.71104,-2.79197,-2.8729,-2.95384,-3.03479,-3.11574,-3.19669,-3.27765,-3.3586,-3.43957,-3.52053,-3.6015,-3.68247,-3.76344,-3.84441,-3.92539,-4.00636,-4.08734,-4.16832,-4.2493,-4.33028,-4.41126,-4.49225,-4.57323,-4.65422,-4.7352,-4.81619,-4.89718}
,{-2.95554,-2.91445,-2.8733,-2.83211,-2.79085,-2.74954,-2.70817,-2.66673,-2.62521,-2.58361,-2.54193,-2.50016,-2.45829,-2.41632,-2.37423,-2.33203,-2.28969,-2.24722,-2.20461,-2.16184,-2.1189,-2.07579,-2.03249,-1.98899,-1.94528,-1.90135,-1.85719,-1.81278,-1.76811,-1.72316,-1.67793,-1.6324,-1.58656,-1.54038,-1.49388,-1.44702,-1.39979,-1.3522,-1.30422,-1.25586,-1.20709,-1.15793,-1.10837,-1.0584,-1.00804,-0.957285,-0.906151,-0.854652,-0.802808,-0.750643,-0.698187,-0.645477,-0.592554,-0.539464,-0.486263,-0.433008,-0.379766,-0.326607,-0.273607,-0.220845,-0.168406,-0.116376,-0.0648452,-0.0139034,0.0363582,0.0858493,0.134481,0.182165,0.228819,0.274362,0.318718,0.361816,0.403592,0.443986,0.482945,0.520423,0.556381,0.590788,0.623618,0.654856,0.68449,0.71252,0.73895,0.763791,0.787064,0.808793,0.82901,0.847751,0.865059,0.88098,0.895562,0.908859,0.920924,0.931812,0.94158,0.950281,0.95797,0.964697,0.97051,0.975455,0.97957,0.98289,0.985444,0.987255,0.988338,0.988702,0.988347,0.987265,0.98544,0.982844,0.979443,0.975188,0.970023,0.963879,0.956675,0.948319,0.938703,0.927711,0.91521,0.901057,0.885094,0.867154,0.847056,0.824615,0.799636,0.771922,0.741278,0.707513,0.670451,0.629933,0.585829,0.538042,0.486523,0.431275,0.372364,0.309918,0.244138,0.175286,0.10368,0.0296737,-0.0463599,-0.124063,-0.203111,-0.283239,-0.364245,-0.445992,-0.528381,-0.611339,-0.694786,-0.778629,-0.862762,-0.947098,-1.03157,-1.11611,-1.20068,-1.28526,-1.3698,-1.45426,-1.53865,-1.62289,-1.70707,-1.79107,-1.87496,-1.95874,-2.06715,-2.14802,-2.2289,-2.30979,-2.39069,-2.4716,-2.55251,-2.63343,-2.71436,-2.79529,-2.87623,-2.95717,-3.03811,-3.11906,-3.20001,-3.28097,-3.36193,-3.44289,-3.52385,-3.60482,-3.68579,-3.76676,-3.84773,-3.92871,-4.00968,-4.09066,-4.17164,-4.25262,-4.3336,-4.41458,-4.49557,-4.57655,-4.65754,-4.73852,-4.81951,-4.9005}
,{-2.96992,-2.92883,-2.88768,-2.84649,-2.80523,-2.76392,-2.72254,-2.6811,-2.63958,-2.59798,-2.5563,-2.51452,-2.47265,-2.43067,-2.38858,-2.34636,-2.30402,-2.26154,-2.21892,-2.17613,-2.13318,-2.09006,-2.04674,-2.00322,-1.9595,-1.91554,-1.87135,-1.82691,-1.7822,-1.73722,-1.69194,-1.64636,-1.60046,-1.55423,-1.50765,-1.46071,-1.4134,-1.36571,-1.31763,-1.26914,-1.22025,-1.17094,-1.12121,-1.07107,-1.02051,-0.969539,-0.918168,-0.866411,-0.814284,-0.761811,-0.709021,-0.655947,-0.60263,-0.549116,-0.495458,-0.441713,-0.387947,-0.334229,-0.280636,-0.227248,-0.17415,-0.121429,-0.0691766,-0.0174856,0.0335508,0.0838391,0.133287,0.181804,0.229302,0.275698,0.320911,0.364867,0.407495,0.448734,0.488526,0.526823,0.56358,0.598764,0.632347,0.66431,0.694641,0.723336,0.750397,0.775838,0.799674,0.821932,0.842643,0.861842,0.879573,0.895882,0.910819,0.924437,0.936791,0.947937,0.957932,0.966832,0.97469,0.981559,0.987488,0.992522,0.996702,1.00006,1.00263,1.00443,1.00548,1.00579,1.00535,1.00416,1.0022,0.999443,0.995851,0.991375,0.985958,0.979528,0.972003,0.963287,0.953274,0.941842,0.928858,0.914177,0.89764,0.879077,0.858309,0.835148,0.809402,0.780875,0.749375,0.714715,0.676724,0.635251,0.590173,0.541404,0.488908,0.4327,0.372858,0.309528,0.24292,0.173309,0.10102,0.0264107,-0.0501463,-0.128299,-0.207735,-0.288199,-0.369503,-0.451519,-0.534159,-0.617348,-0.701004,-0.785033,-0.86933,-0.953811,-1.03841,-1.12307,-1.20775,-1.29242,-1.37703,-1.46157,-1.54601,-1.63034,-1.71457,-1.79862,-1.88254,-1.96637,-2.07516,-2.15603,-2.23691,-2.3178,-2.3987,-2.4796,-2.56052,-2.64144,-2.72236,-2.80329,-2.88423,-2.96517,-3.04612,-3.12706,-3.20802,-3.28897,-3.36993,-3.45089,-3.53186,-3.61282,-3.69379,-3.77476,-3.85574,-3.93671,-4.01769,-4.09867,-4.17965,-4.26063,-4.34161,-4.42259,-4.50357,-4.58456,-4.66554,-4.74653,-4.82752,-4.9085}
,{-2.98411,-2.94301,-2.90186,-2.86066,-2.81941,-2.7781,-2.73672,-2.69527,-2.65375,-2.61215,-2.57046,-2.52868,-2.4868,-2.44482,-2.40272,-2.3605,-2.31815,-2.27567,-2.23303,-2.19024,-2.14728,-2.10414,-2.0608,-2.01727,-1.97352,-1.92954,-1.88533,-1.84086,-1.79612,-1.75109,-1.70578,-1.66015,-1.61419,-1.5679,-1.52126,-1.47424,-1.42685,-1.37906,-1.33088,-1.28228,-1.23325,-1.1838,-1.13392,-1.08361,-1.03286,-0.981677,-0.930077,-0.878068,-0.825666,-0.772894,-0.719777,-0.666348,-0.612647,-0.558718,-0.504613,-0.450387,-0.396107,-0.341841,-0.287665,-0.23366,-0.179912,-0.126509,-0.0735432,-0.0211103,0.0306942,0.0817743,0.132034,0.18138,0.229721,0.276968,0.323038,0.367852,0.411336,0.453423,0.494053,0.533172,0.570734,0.606702,0.641045,0.673741,0.704776,0.734143,0.761846,0.787893,0.812302,0.835097,0.856309,0.875976,0.894138,0.910843,0.926143,0.94009,0.952741,0.964153,0.974383,0.983488,0.991524,0.998544,1.0046,1.00973,1.01398,1.01739,1.01999,1.02179,1.02283,1.02309,1.02259,1.02131,1.01924,1.01634,1.01259,1.00792,1.00229,0.995611,0.98781,0.978787,0.968434,0.956628,0.943235,0.928107,0.911085,0.892001,0.870673,0.846915,0.820534,0.791339,0.759138,0.72375,0.685007,0.642763,0.596905,0.547355,0.494082,0.437115,0.376541,0.312515,0.245257,0.175048,0.102221,0.027134,-0.0498422,-0.128361,-0.208116,-0.288862,-0.370422,-0.452672,-0.53553,-0.61892,-0.702761,-0.786958,-0.871406,-0.956023,-1.04075,-1.12552,-1.21031,-1.29507,-1.37977,-1.46438,-1.5489,-1.6333,-1.71756,-1.80169,-1.88565,-1.96955,-2.07885,-2.15972,-2.2406,-2.32149,-2.40239,-2.4833,-2.56421,-2.64513,-2.72605,-2.80699,-2.88792,-2.96886,-3.04981,-3.13076,-3.21171,-3.29266,-3.37362,-3.45458,-3.53555,-3.61652,-3.69748,-3.77846,-3.85943,-3.9404,-4.02138,-4.10236,-4.18334,-4.26432,-4.3453,-4.42628,-4.50727,-4.58825,-4.66924,-4.75022,-4.83121,-4.9122}
,{-2.99809,-2.95699,-2.91584,-2.87465,-2.83339,-2.79208,-2.7507,-2.70925,-2.66772,-2.62612,-2.58443,-2.54265,-2.50077,-2.45878,-2.41667,-2.37445,-2.3321,-2.2896,-2.24696,-2.20415,-2.16118,-2.11803,-2.07468,-2.03113,-1.98736,-1.94336,-1.89912,-1.85462,-1.80985,-1.7648,-1.71944,-1.67376,-1.62776,-1.58141,-1.5347,-1.48762,-1.44014,-1.39227,-1.34398,-1.29527,-1.24612,-1.19654,-1.1465,-1.09602,-1.04509,-0.993705,-0.941882,-0.889629,-0.83696,-0.783895,-0.73046,-0.676686,-0.62261,-0.568276,-0.513732,-0.459037,-0.404253,-0.349449,-0.2947,-0.240089,-0.185699,-0.131623,-0.0779535,-0.0247869,0.0277784,0.0796437,0.13071,0.180881,0.23006,0.278157,0.325082,0.370753,0.415093,0.45803,0.4995,0.539446,0.577817,0.614573,0.649681,0.683115,0.714859,0.744905,0.773254,0.799914,0.8249,0.848237,0.869956,0.890092,0.908689,0.925794,0.941458,0.955736,0.968684,0.98036,0.990824,1.00013,1.00834,1.01551,1.02168,1.0269,1.03122,1.03467,1.03728,1.03908,1.04007,1.04028,1.03969,1.0383,1.03609,1.03303,1.02908,1.02419,1.0183,1.01133,1.00321,0.993826,0.983075,0.970831,0.956959,0.941309,0.923723,0.904028,0.882047,0.85759,0.830469,0.800492,0.767471,0.731231,0.691607,0.648463,0.601692,0.551227,0.497049,0.439196,0.37777,0.312937,0.244929,0.174036,0.100596,0.0249699,-0.0524753,-0.131398,-0.211503,-0.292557,-0.374392,-0.456895,-0.539985,-0.623591,-0.707627,-0.791998,-0.876602,-0.961357,-1.04621,-1.13109,-1.21598,-1.30083,-1.38561,-1.47031,-1.55489,-1.63934,-1.72366,-1.80785,-1.89185,-2.00463,-2.08549,-2.16636,-2.24725,-2.32814,-2.40904,-2.48994,-2.57085,-2.65177,-2.7327,-2.81363,-2.89457,-2.97551,-3.05645,-3.1374,-3.21835,-3.29931,-3.38027,-3.46123,-3.54219,-3.62316,-3.70413,-3.7851,-3.86607,-3.94705,-4.02802,-4.109,-4.18998,-4.27096,-4.35194,-4.43293,-4.51391,-4.59489,-4.67588,-4.75687,-4.83785,-4.91884}
,{-3.01188,-2.97078,-2.92964,-2.88844,-2.84718,-2.80587,-2.76448,-2.72303,-2.68151,-2.6399,-2.59821,-2.55642,-2.51454,-2.47255,-2.43044,-2.38821,-2.34585,-2.30335,-2.2607,-2.21789,-2.1749,-2.13174,-2.08838,-2.04481,-2.00103,-1.95701,-1.91274,-1.86822,-1.82342,-1.77833,-1.73293,-1.68722,-1.64116,-1.59476,-1.54799,-1.50083,-1.45328,-1.40532,-1.35694,-1.30812,-1.25886,-1.20914,-1.15896,-1.10832,-1.0572,-1.00563,-0.953586,-0.901096,-0.848167,-0.794818,-0.741073,-0.686962,-0.632519,-0.577788,-0.522817,-0.467661,-0.412382,-0.35705,-0.301739,-0.24653,-0.19151,-0.136769,-0.0824035,-0.0285109,0.0248083,0.0774527,0.129321,0.180312,0.230327,0.27927,0.32705,0.37358,0.418777,0.462566,0.50488,0.545656,0.584841,0.622391,0.65827,0.692449,0.724909,0.755641,0.784644,0.811923,0.837495,0.861381,0.883613,0.904227,0.923266,0.940776,0.956811,0.971425,0.984676,0.996622,1.00732,1.01684,1.02523,1.03255,1.03884,1.04416,1.04855,1.05204,1.05467,1.05646,1.05743,1.05758,1.05691,1.05542,1.05307,1.04986,1.04572,1.04062,1.03449,1.02725,1.01883,1.0091,0.99798,0.985327,0.971008,0.954873,0.936762,0.916504,0.89392,0.868822,0.841022,0.810332,0.776567,0.739554,0.699136,0.655182,0.607594,0.556312,0.501328,0.44269,0.38051,0.314966,0.246297,0.174801,0.100821,0.0247187,-0.0531422,-0.132426,-0.212847,-0.294181,-0.376269,-0.459006,-0.542314,-0.62612,-0.71034,-0.794877,-0.879628,-0.964516,-1.04949,-1.13448,-1.21947,-1.30442,-1.38928,-1.47405,-1.5587,-1.64322,-1.72759,-1.81183,-1.89588,-2.00919,-2.09005,-2.17092,-2.2518,-2.3327,-2.41359,-2.4945,-2.57541,-2.65633,-2.73726,-2.81819,-2.89913,-2.98007,-3.06101,-3.14196,-3.22291,-3.30387,-3.38483,-3.46579,-3.54675,-3.62772,-3.70869,-3.78966,-3.87063,-3.95161,-4.03258,-4.11356,-4.19454,-4.27552,-4.3565,-4.43749,-4.51847,-4.59945,-4.68044,-4.76143,-4.84241,-4.9234}
,{-3.02549,-2.98439,-2.94324,-2.90204,-2.86079,-2.81947,-2.77809,-2.73664,-2.69511,-2.6535,-2.61181,-2.57002,-2.52813,-2.48614,-2.44403,-2.40179,-2.35943,-2.31692,-2.27426,-2.23144,-2.18845,-2.14527,-2.1019,-2.05832,-2.01452,-1.97048,-1.92619,-1.88164,-1.83682,-1.79169,-1.74626,-1.70051,-1.65441,-1.60795,-1.56112,-1.5139,-1.46628,-1.41824,-1.36976,-1.32084,-1.27146,-1.22162,-1.1713,-1.1205,-1.06921,-1.01744,-0.965194,-0.912472,-0.859291,-0.805665,-0.751618,-0.697178,-0.642378,-0.587259,-0.531869,-0.476262,-0.420499,-0.364648,-0.308784,-0.252988,-0.197346,-0.141951,-0.0868977,-0.0322871,0.0217786,0.0751956,0.127859,0.179666,0.230513,0.280301,0.328935,0.376322,0.422377,0.46702,0.510179,0.551789,0.591792,0.630141,0.666796,0.701725,0.734908,0.766332,0.795994,0.823899,0.850062,0.874504,0.897255,0.918351,0.937836,0.955756,0.972165,0.987119,1.00068,1.01289,1.02384,1.03356,1.04213,1.04959,1.05601,1.06142,1.06588,1.06941,1.07206,1.07383,1.07476,1.07485,1.07409,1.07249,1.07,1.06662,1.06229,1.05696,1.05057,1.04304,1.03429,1.02421,1.01269,0.999606,0.984816,0.96817,0.949507,0.928657,0.905439,0.879669,0.851159,0.819723,0.78518,0.747361,0.706117,0.661321,0.612884,0.560756,0.504938,0.445491,0.382536,0.316261,0.246917,0.174807,0.100279,0.0236952,-0.0545842,-0.134231,-0.214969,-0.296585,-0.378929,-0.461902,-0.545428,-0.629436,-0.71384,-0.798539,-0.883439,-0.968464,-1.05355,-1.13866,-1.22374,-1.30878,-1.39372,-1.47857,-1.56328,-1.64786,-1.73229,-1.81658,-1.90066,-2.01447,-2.09534,-2.17621,-2.25709,-2.33798,-2.41888,-2.49979,-2.5807,-2.66162,-2.74254,-2.82348,-2.90441,-2.98535,-3.0663,-3.14725,-3.2282,-3.30915,-3.39011,-3.47107,-3.55204,-3.63301,-3.71397,-3.79495,-3.87592,-3.95689,-4.03787,-4.11885,-4.19983,-4.28081,-4.36179,-4.44277,-4.52375,-4.60474,-4.68572,-4.76671,-4.8477,-4.92869}
,{-3.03892,-2.99782,-2.95667,-2.91547,-2.87421,-2.83289,-2.79151,-2.75006,-2.70853,-2.66692,-2.62523,-2.58344,-2.54155,-2.49955,-2.45743,-2.41519,-2.37282,-2.33031,-2.28765,-2.24482,-2.20182,-2.15863,-2.11525,-2.07165,-2.02784,-1.98378,-1.93948,-1.89491,-1.85005,-1.8049,-1.75943,-1.71364,-1.6675,-1.62099,-1.57411,-1.52683,-1.47913,-1.43101,-1.38245,-1.33343,-1.28394,-1.23397,-1.18352,-1.13256,-1.08111,-1.02916,-0.976707,-0.923762,-0.870334,-0.81644,-0.762099,-0.707337,-0.652189,-0.596691,-0.540892,-0.484843,-0.428605,-0.372245,-0.315838,-0.259464,-0.203209,-0.147168,-0.0914358,-0.0361153,0.0186897,0.0728728,0.126327,0.178945,0.23062,0.281251,0.330736,0.37898,0.425894,0.471392,0.5154,0.557847,0.598673,0.637825,0.675261,0.710947,0.744859,0.776982,0.80731,0.835849,0.862609,0.887613,0.91089,0.932475,0.952411,0.970748,0.987536,1.00283,1.0167,1.0292,1.04038,1.05032,1.05907,1.06668,1.07322,1.07873,1.08325,1.08683,1.08949,1.09126,1.09215,1.09218,1.09134,1.08961,1.08699,1.08344,1.07892,1.07336,1.06672,1.05891,1.04984,1.03941,1.0275,1.01399,0.998744,0.981602,0.962405,0.940982,0.917154,0.890737,0.861546,0.829397,0.794112,0.755528,0.713499,0.667908,0.61867,0.565746,0.509147,0.448943,0.385264,0.31831,0.248338,0.175658,0.100622,0.0235902,-0.0550795,-0.135067,-0.216103,-0.297986,-0.380574,-0.463772,-0.547509,-0.63171,-0.716291,-0.80115,-0.886194,-0.971349,-1.05656,-1.14177,-1.22695,-1.31208,-1.3971,-1.48202,-1.5668,-1.65145,-1.73592,-1.82027,-1.9044,-2.01874,-2.0996,-2.18047,-2.26135,-2.34225,-2.42314,-2.50405,-2.58496,-2.66588,-2.74681,-2.82774,-2.90868,-2.98962,-3.07056,-3.15151,-3.23246,-3.31342,-3.39438,-3.47534,-3.5563,-3.63727,-3.71824,-3.79921,-3.88018,-3.96116,-4.04213,-4.12311,-4.20409,-4.28507,-4.36605,-4.44704,-4.52802,-4.609,-4.68999,-4.77098,-4.85196,-4.93295}
,{-3.05217,-3.01107,-2.96992,-2.92872,-2.88746,-2.84614,-2.80476,-2.76331,-2.72178,-2.68017,-2.63847,-2.59668,-2.55479,-2.51279,-2.47067,-2.42843,-2.38605,-2.34353,-2.30086,-2.25803,-2.21502,-2.17182,-2.12843,-2.08483,-2.04099,-1.99692,-1.9526,-1.90801,-1.86313,-1.81795,-1.77245,-1.72662,-1.68044,-1.63389,-1.58695,-1.53961,-1.49185,-1.44365,-1.39501,-1.34589,-1.2963,-1.24621,-1.19562,-1.14453,-1.09291,-1.04078,-0.988131,-0.934969,-0.881302,-0.827146,-0.772518,-0.717445,-0.661955,-0.606089,-0.549889,-0.493408,-0.436704,-0.379846,-0.322905,-0.265962,-0.209105,-0.152427,-0.096025,-0.0400029,0.0155335,0.0704757,0.124714,0.178137,0.230637,0.282106,0.33244,0.38154,0.429312,0.475667,0.520524,0.563811,0.605462,0.645421,0.683643,0.72009,0.754735,0.787562,0.818562,0.847737,0.8751,0.90067,0.924476,0.946553,0.966945,0.985699,1.00287,1.01851,1.03269,1.04546,1.05688,1.06703,1.07595,1.08372,1.09037,1.09596,1.10055,1.10415,1.10681,1.10856,1.1094,1.10934,1.10839,1.10653,1.10374,1.09999,1.09523,1.08942,1.08248,1.07434,1.0649,1.05406,1.0417,1.02771,1.01193,0.994211,0.974395,0.95231,0.927777,0.900612,0.870632,0.837657,0.801514,0.762043,0.719106,0.672593,0.622429,0.568585,0.511084,0.450007,0.385498,0.317767,0.24708,0.173757,0.0981497,0.0206215,-0.058477,-0.138834,-0.220193,-0.302363,-0.385211,-0.46865,-0.55261,-0.637015,-0.721782,-0.806803,-0.891991,-0.977275,-1.0626,-1.14792,-1.23319,-1.31841,-1.40351,-1.4885,-1.57333,-1.65804,-1.74256,-1.82696,-1.91115,-2.02586,-2.10673,-2.1876,-2.26848,-2.34937,-2.43027,-2.51118,-2.59209,-2.67301,-2.75393,-2.83486,-2.9158,-2.99674,-3.07769,-3.15863,-3.23959,-3.32054,-3.4015,-3.48246,-3.56343,-3.64439,-3.72536,-3.80633,-3.88731,-3.96828,-4.04926,-4.13024,-4.21122,-4.2922,-4.37318,-4.45416,-4.53514,-4.61613,-4.69711,-4.7781,-4.85909,-4.94007}
,{-3.06524,-3.02414,-2.983,-2.9418,-2.90054,-2.85922,-2.81784,-2.77638,-2.73485,-2.69324,-2.65154,-2.60975,-2.56786,-2.52586,-2.48374,-2.44149,-2.39911,-2.35659,-2.31392,-2.27108,-2.22806,-2.18486,-2.14145,-2.09784,-2.05399,-2.00991,-1.96557,-1.92095,-1.87605,-1.83085,-1.78532,-1.73946,-1.69323,-1.64664,-1.59965,-1.55226,-1.50443,-1.45616,-1.40743,-1.35823,-1.30853,-1.25834,-1.20762,-1.15638,-1.10461,-1.05231,-0.999467,-0.946094,-0.892196,-0.837785,-0.782879,-0.7275,-0.671678,-0.61545,-0.558859,-0.501954,-0.444795,-0.387446,-0.329981,-0.272479,-0.215029,-0.157722,-0.100659,-0.0439429,0.0123178,0.0680126,0.123029,0.177253,0.230574,0.282879,0.334061,0.384017,0.432647,0.47986,0.52557,0.5697,0.612181,0.652953,0.691967,0.729182,0.764567,0.798105,0.829784,0.859605,0.887579,0.913724,0.938067,0.960645,0.981499,1.00068,1.01824,1.03423,1.04873,1.06178,1.07346,1.08382,1.09293,1.10084,1.10762,1.11331,1.11796,1.12161,1.12428,1.12601,1.12681,1.12669,1.12565,1.12367,1.12074,1.11681,1.11186,1.10581,1.09861,1.09018,1.08042,1.06922,1.05648,1.04206,1.02582,1.00761,0.987265,0.964615,0.939482,0.911685,0.881042,0.847375,0.810516,0.77031,0.726623,0.679353,0.628432,0.573839,0.515605,0.453822,0.388642,0.320283,0.249019,0.175174,0.0991023,0.0211652,-0.0582917,-0.138961,-0.220598,-0.303018,-0.386097,-0.469751,-0.55391,-0.638501,-0.723437,-0.808611,-0.893936,-0.979347,-1.06478,-1.15021,-1.23558,-1.32089,-1.40606,-1.49113,-1.57603,-1.6608,-1.74538,-1.82984,-1.91406,-2.02933,-2.11019,-2.19106,-2.27194,-2.35283,-2.43373,-2.51464,-2.59555,-2.67647,-2.7574,-2.83833,-2.91926,-3.0002,-3.08115,-3.1621,-3.24305,-3.32401,-3.40497,-3.48593,-3.56689,-3.64786,-3.72883,-3.8098,-3.89077,-3.97175,-4.05272,-4.1337,-4.21468,-4.29566,-4.37664,-4.45762,-4.53861,-4.61959,-4.70058,-4.78156,-4.86255,-4.94354}
,{-3.07816,-3.03706,-2.99591,-2.95471,-2.91345,-2.87213,-2.83075,-2.7893,-2.74777,-2.70615,-2.66445,-2.62266,-2.58077,-2.53876,-2.49664,-2.45439,-2.41201,-2.36949,-2.32681,-2.28396,-2.24094,-2.19773,-2.15432,-2.11069,-2.06684,-2.02274,-1.97838,-1.93375,-1.88883,-1.8436,-1.79804,-1.75215,-1.70589,-1.65925,-1.61222,-1.56477,-1.51688,-1.46855,-1.41974,-1.37045,-1.32066,-1.27035,-1.21951,-1.16814,-1.11622,-1.06375,-1.01072,-0.957144,-0.90302,-0.848362,-0.793184,-0.737508,-0.681363,-0.624782,-0.567808,-0.510489,-0.452883,-0.395054,-0.337074,-0.279023,-0.220988,-0.163063,-0.105347,-0.0479454,0.00903178,0.065472,0.12126,0.17628,0.230416,0.283554,0.335582,0.386391,0.43588,0.483951,0.530515,0.57549,0.618804,0.660392,0.700201,0.738188,0.77432,0.808573,0.840937,0.871409,0.899998,0.926722,0.951608,0.974691,0.996012,1.01562,1.03357,1.04992,1.06473,1.07807,1.08999,1.10057,1.10986,1.11793,1.12483,1.13061,1.13532,1.139,1.14168,1.14339,1.14414,1.14394,1.14279,1.14068,1.13758,1.13346,1.12829,1.12199,1.1145,1.10575,1.09563,1.08405,1.07089,1.056,1.03926,1.02051,0.999592,0.976327,0.950543,0.922059,0.890696,0.85628,0.818644,0.777641,0.733142,0.685052,0.633312,0.57791,0.518887,0.456344,0.390444,0.321414,0.249536,0.175138,0.0985765,0.0202112,-0.059618,-0.140612,-0.222535,-0.305214,-0.388531,-0.472405,-0.55677,-0.641549,-0.726655,-0.811983,-0.897446,-0.982982,-1.06853,-1.15406,-1.23953,-1.32491,-1.41017,-1.49531,-1.58027,-1.6651,-1.74973,-1.83425,-1.91851,-2.03425,-2.11511,-2.19599,-2.27687,-2.35776,-2.43866,-2.51956,-2.60048,-2.6814,-2.76232,-2.84325,-2.92419,-3.00513,-3.08607,-3.16702,-3.24798,-3.32893,-3.40989,-3.49085,-3.57182,-3.65278,-3.73375,-3.81472,-3.8957,-3.97667,-4.05765,-4.13862,-4.2196,-4.30058,-4.38157,-4.46255,-4.54353,-4.62452,-4.7055,-4.78649,-4.86748,-4.94846}
,{-3.0909,-3.0498,-3.00866,-2.96746,-2.9262,-2.88488,-2.8435,-2.80205,-2.76052,-2.7189,-2.6772,-2.63541,-2.59351,-2.55151,-2.50939,-2.46714,-2.42475,-2.38222,-2.33954,-2.29669,-2.25366,-2.21045,-2.16703,-2.12339,-2.07953,-2.03542,-1.99105,-1.9464,-1.90146,-1.85621,-1.81063,-1.7647,-1.71841,-1.67173,-1.62465,-1.57715,-1.52921,-1.48081,-1.43193,-1.38255,-1.33267,-1.28226,-1.2313,-1.1798,-1.12773,-1.0751,-1.02189,-0.968119,-0.913778,-0.858879,-0.803437,-0.747472,-0.69101,-0.634085,-0.576737,-0.519013,-0.460969,-0.402669,-0.344184,-0.285592,-0.226982,-0.168447,-0.110087,-0.0520082,0.0056778,0.0628566,0.119411,0.175221,0.230169,0.284135,0.337006,0.388668,0.439015,0.487945,0.535365,0.581188,0.625338,0.667747,0.708357,0.747122,0.784005,0.818981,0.852036,0.883166,0.912378,0.939689,0.965124,0.988717,1.01051,1.03056,1.0489,1.06562,1.08075,1.09438,1.10655,1.11735,1.12683,1.13506,1.14208,1.14795,1.15273,1.15645,1.15914,1.16082,1.16153,1.16126,1.16001,1.15777,1.15452,1.15022,1.14483,1.1383,1.13054,1.12148,1.11104,1.09909,1.08552,1.07021,1.053,1.03375,1.01229,0.988455,0.962068,0.932951,0.900928,0.865825,0.827482,0.785753,0.740519,0.691689,0.639212,0.583083,0.523353,0.460132,0.39359,0.323962,0.251536,0.176645,0.0996444,0.0208936,-0.0592732,-0.140564,-0.222752,-0.305672,-0.389212,-0.473294,-0.557853,-0.642813,-0.728082,-0.813559,-0.899156,-0.984814,-1.07048,-1.15611,-1.24168,-1.32714,-1.41248,-1.49769,-1.58272,-1.66762,-1.75229,-1.83685,-1.92117,-2.03746,-2.11833,-2.1992,-2.28008,-2.36097,-2.44187,-2.52278,-2.60369,-2.68461,-2.76553,-2.84647,-2.9274,-3.00834,-3.08929,-3.17024,-3.25119,-3.33214,-3.4131,-3.49406,-3.57503,-3.656,-3.73696,-3.81794,-3.89891,-3.97988,-4.06086,-4.14184,-4.22282,-4.3038,-4.38478,-4.46576,-4.54674,-4.62773,-4.70871,-4.7897,-4.87069,-4.95168}
,{-3.10349,-3.06239,-3.02125,-2.98005,-2.93879,-2.89747,-2.85609,-2.81464,-2.77311,-2.7315,-2.6898,-2.648,-2.60611,-2.5641,-2.52198,-2.47973,-2.43734,-2.39481,-2.35212,-2.30927,-2.26624,-2.22302,-2.17959,-2.13595,-2.09207,-2.04795,-2.00357,-1.9589,-1.91395,-1.86867,-1.82307,-1.77712,-1.73079,-1.68408,-1.63696,-1.58941,-1.54141,-1.49295,-1.444,-1.39455,-1.34457,-1.29406,-1.243,-1.19137,-1.13916,-1.08637,-1.03299,-0.979026,-0.924473,-0.86934,-0.813642,-0.757396,-0.700626,-0.643366,-0.585652,-0.527532,-0.46906,-0.410298,-0.351317,-0.292195,-0.23302,-0.173884,-0.114889,-0.0561421,0.00224444,0.0601539,0.117467,0.174061,0.229815,0.284606,0.338316,0.390828,0.442031,0.491819,0.540095,0.586767,0.631755,0.674987,0.716401,0.755947,0.793585,0.829288,0.863038,0.89483,0.924668,0.952569,0.978556,1.00266,1.02493,1.04541,1.06416,1.08123,1.09669,1.1106,1.12303,1.13404,1.1437,1.15207,1.15921,1.16517,1.17,1.17374,1.17643,1.17808,1.17872,1.17835,1.17698,1.17459,1.17115,1.16664,1.161,1.15418,1.14611,1.1367,1.12586,1.11349,1.09946,1.08364,1.06589,1.04606,1.02398,0.999483,0.972397,0.942545,0.909752,0.87385,0.834682,0.792109,0.746016,0.696323,0.642985,0.58601,0.525457,0.461448,0.394163,0.323846,0.250794,0.175343,0.0978484,0.018669,-0.0618689,-0.143483,-0.225956,-0.309135,-0.392913,-0.477217,-0.561982,-0.64713,-0.732568,-0.818195,-0.903928,-0.989705,-1.07548,-1.16121,-1.24687,-1.33242,-1.41782,-1.5031,-1.58818,-1.67315,-1.75786,-1.84246,-1.92685,-2.04354,-2.1244,-2.20527,-2.28616,-2.36705,-2.44795,-2.52885,-2.60976,-2.69068,-2.77161,-2.85254,-2.93348,-3.01442,-3.09536,-3.17631,-3.25726,-3.33822,-3.41918,-3.50014,-3.5811,-3.66207,-3.74304,-3.82401,-3.90498,-3.98596,-4.06693,-4.14791,-4.22889,-4.30987,-4.39085,-4.47184,-4.55282,-4.6338,-4.71479,-4.79578,-4.87676,-4.95775}
,{-3.11593,-3.07483,-3.03368,-2.99248,-2.95123,-2.90991,-2.86853,-2.82708,-2.78555,-2.74394,-2.70224,-2.66044,-2.61855,-2.57654,-2.53442,-2.49216,-2.44978,-2.40725,-2.36456,-2.3217,-2.27867,-2.23544,-2.19201,-2.14836,-2.10447,-2.06034,-2.01595,-1.97127,-1.9263,-1.88101,-1.83538,-1.7894,-1.74305,-1.6963,-1.64914,-1.60155,-1.5535,-1.50498,-1.45596,-1.40643,-1.35637,-1.30577,-1.25459,-1.20284,-1.1505,-1.09756,-1.04402,-0.989866,-0.935108,-0.879749,-0.823802,-0.767282,-0.710213,-0.652625,-0.594555,-0.536048,-0.477157,-0.417942,-0.358475,-0.298832,-0.2391,-0.179373,-0.119753,-0.0603461,-0.00126729,0.0573654,0.11543,0.172802,0.229356,0.284968,0.339514,0.392873,0.444931,0.495578,0.54471,0.592233,0.638061,0.682119,0.72434,0.764672,0.80307,0.839504,0.873955,0.906414,0.936884,0.965379,0.991923,1.01655,1.0393,1.06022,1.07937,1.0968,1.11259,1.12678,1.13946,1.15069,1.16053,1.16905,1.17631,1.18235,1.18723,1.19099,1.19366,1.19527,1.19584,1.19537,1.19387,1.19131,1.18768,1.18294,1.17705,1.16993,1.16154,1.15177,1.14053,1.12772,1.11321,1.09688,1.07858,1.05815,1.03544,1.01027,0.982472,0.951874,0.918302,0.881592,0.841592,0.798168,0.751213,0.700653,0.646455,0.588634,0.527261,0.462468,0.394446,0.323449,0.249779,0.173778,0.0958002,0.0162014,-0.0646994,-0.146631,-0.229384,-0.312817,-0.396831,-0.481355,-0.566323,-0.651658,-0.73726,-0.823035,-0.9089,-0.994798,-1.08068,-1.1665,-1.25225,-1.33788,-1.42335,-1.5087,-1.59385,-1.67885,-1.76364,-1.84826,-1.93269,-2.04978,-2.13065,-2.21152,-2.2924,-2.37329,-2.45419,-2.5351,-2.61601,-2.69693,-2.77785,-2.85879,-2.93972,-3.02066,-3.10161,-3.18256,-3.26351,-3.34446,-3.42542,-3.50638,-3.58735,-3.66832,-3.74928,-3.83026,-3.91123,-3.9922,-4.07318,-4.15416,-4.23514,-4.31612,-4.3971,-4.47808,-4.55906,-4.64005,-4.72103,-4.80202,-4.88301,-4.964}
,{-3.12821,-3.08712,-3.04597,-3.00477,-2.96352,-2.9222,-2.88082,-2.83937,-2.79784,-2.75623,-2.71453,-2.67273,-2.63084,-2.58883,-2.54671,-2.50446,-2.46207,-2.41954,-2.37684,-2.33399,-2.29095,-2.24772,-2.20428,-2.16063,-2.11674,-2.0726,-2.02819,-1.9835,-1.93851,-1.8932,-1.84756,-1.80156,-1.75518,-1.7084,-1.6612,-1.61357,-1.56547,-1.51689,-1.46782,-1.41822,-1.36808,-1.31738,-1.2661,-1.21423,-1.16176,-1.10868,-1.05497,-1.00064,-0.945687,-0.890109,-0.833919,-0.777133,-0.719772,-0.661865,-0.603447,-0.544562,-0.48526,-0.425603,-0.365658,-0.305504,-0.245225,-0.184916,-0.124678,-0.0646206,-0.00485751,0.0544909,0.113301,0.171444,0.228795,0.285222,0.340601,0.394806,0.447717,0.499222,0.549211,0.597587,0.644259,0.689146,0.732179,0.773301,0.812465,0.849636,0.884794,0.917926,0.949034,0.978131,1.00524,1.03039,1.05363,1.07499,1.09455,1.11235,1.12847,1.14296,1.15589,1.16734,1.17737,1.18604,1.19341,1.19954,1.20448,1.20826,1.21093,1.2125,1.21301,1.21245,1.21082,1.20811,1.20429,1.19934,1.19319,1.1858,1.17709,1.16698,1.15536,1.14214,1.12719,1.11037,1.09154,1.07056,1.04725,1.02146,0.993005,0.961717,0.927428,0.889975,0.849213,0.805012,0.757271,0.705925,0.650947,0.592362,0.530251,0.464755,0.396072,0.324465,0.250242,0.173746,0.0953337,0.015355,-0.0658767,-0.148099,-0.231114,-0.314786,-0.399022,-0.483754,-0.568915,-0.654426,-0.740188,-0.826107,-0.9121,-0.998116,-1.08411,-1.17003,-1.25587,-1.34158,-1.42713,-1.51254,-1.59775,-1.6828,-1.76764,-1.85231,-1.93679,-2.05435,-2.13521,-2.21608,-2.29696,-2.37785,-2.45875,-2.53966,-2.62057,-2.70149,-2.78242,-2.86335,-2.94428,-3.02522,-3.10617,-3.18712,-3.26807,-3.34903,-3.42999,-3.51095,-3.59191,-3.67288,-3.75385,-3.83482,-3.91579,-3.99677,-4.07774,-4.15872,-4.2397,-4.32068,-4.40166,-4.48264,-4.56363,-4.64461,-4.7256,-4.80658,-4.88757,-4.96856}
,{-3.14035,-3.09925,-3.05811,-3.01691,-2.97566,-2.93434,-2.89296,-2.85151,-2.80998,-2.76837,-2.72667,-2.68488,-2.64299,-2.60098,-2.55886,-2.51661,-2.47422,-2.43168,-2.38899,-2.34613,-2.30309,-2.25986,-2.21642,-2.17276,-2.12886,-2.08472,-2.0403,-1.9956,-1.9506,-1.90528,-1.85961,-1.81359,-1.76718,-1.72038,-1.67315,-1.62547,-1.57733,-1.5287,-1.47956,-1.4299,-1.37968,-1.32889,-1.27752,-1.22554,-1.17295,-1.11973,-1.06586,-1.01136,-0.956212,-0.900421,-0.843997,-0.786952,-0.729308,-0.67109,-0.612332,-0.553077,-0.493374,-0.433283,-0.372871,-0.312214,-0.251398,-0.190516,-0.12967,-0.0689693,-0.00852992,0.0515267,0.111075,0.169984,0.228125,0.285364,0.341572,0.39662,0.450384,0.502746,0.553594,0.602824,0.650341,0.696061,0.739911,0.781828,0.821763,0.859678,0.895548,0.92936,0.961113,0.990818,1.0185,1.04418,1.06791,1.08973,1.1097,1.12788,1.14433,1.15912,1.17231,1.18399,1.19421,1.20303,1.21053,1.21675,1.22175,1.22556,1.22823,1.22977,1.23022,1.22957,1.22782,1.22497,1.22098,1.21582,1.20945,1.20179,1.19279,1.18235,1.17039,1.15677,1.1414,1.12413,1.10483,1.08333,1.05948,1.03311,1.00405,0.972129,0.937186,0.89906,0.857608,0.812706,0.764259,0.712208,0.656534,0.597268,0.5345,0.468378,0.399109,0.32696,0.252245,0.175308,0.0965058,0.0161842,-0.0653494,-0.147841,-0.231097,-0.314994,-0.39944,-0.484369,-0.569712,-0.655393,-0.741309,-0.827367,-0.913488,-0.999621,-1.08572,-1.17174,-1.25767,-1.34346,-1.4291,-1.51457,-1.59985,-1.68496,-1.76985,-1.85458,-1.93911,-2.0572,-2.13806,-2.21893,-2.29981,-2.38071,-2.4616,-2.54251,-2.62342,-2.70434,-2.78527,-2.8662,-2.94714,-3.02808,-3.10902,-3.18997,-3.27092,-3.35188,-3.43284,-3.5138,-3.59476,-3.67573,-3.7567,-3.83767,-3.91864,-3.99962,-4.08059,-4.16157,-4.24255,-4.32353,-4.40451,-4.4855,-4.56648,-4.64746,-4.72845,-4.80944,-4.89042,-4.97141}
,{-3.15234,-3.11125,-3.0701,-3.02891,-2.98765,-2.94634,-2.90496,-2.86351,-2.82199,-2.78038,-2.73868,-2.69689,-2.65499,-2.61299,-2.57087,-2.52861,-2.48623,-2.44369,-2.401,-2.35814,-2.3151,-2.27186,-2.22842,-2.18476,-2.14086,-2.0967,-2.05228,-2.00757,-1.96256,-1.91722,-1.87154,-1.8255,-1.77907,-1.73224,-1.68498,-1.63726,-1.58908,-1.5404,-1.49121,-1.44148,-1.39119,-1.34032,-1.28885,-1.23677,-1.18406,-1.1307,-1.07669,-1.02202,-0.966687,-0.91069,-0.854038,-0.796743,-0.738822,-0.680301,-0.621212,-0.561596,-0.501501,-0.440985,-0.380114,-0.318964,-0.25762,-0.196174,-0.134728,-0.0733937,-0.0122861,0.0484712,0.10875,0.16842,0.227346,0.285393,0.342426,0.398315,0.452931,0.506151,0.557858,0.607943,0.656309,0.702866,0.747536,0.790254,0.830966,0.869631,0.90622,0.94072,0.973126,1.00345,1.0317,1.05793,1.08216,1.10444,1.12483,1.14339,1.16018,1.17528,1.18875,1.20066,1.21108,1.22007,1.2277,1.23402,1.23909,1.24294,1.24562,1.24716,1.24756,1.24684,1.245,1.24202,1.23788,1.23255,1.22597,1.21809,1.20883,1.19811,1.18583,1.17189,1.15615,1.13849,1.11877,1.09683,1.07252,1.04566,1.01609,0.983649,0.948162,0.909478,0.867458,0.821981,0.772959,0.720334,0.664095,0.604279,0.540981,0.474355,0.404612,0.332024,0.256906,0.179606,0.100477,0.0198643,-0.0619308,-0.144659,-0.228133,-0.312234,-0.396871,-0.48198,-0.567494,-0.653334,-0.739398,-0.825592,-0.91184,-0.998091,-1.0843,-1.17042,-1.25645,-1.34233,-1.42805,-1.5136,-1.59895,-1.68412,-1.76908,-1.85386,-1.93845,-2.0572,-2.13806,-2.21894,-2.29982,-2.38071,-2.46161,-2.54251,-2.62343,-2.70435,-2.78527,-2.8662,-2.94714,-3.02808,-3.10902,-3.18997,-3.27093,-3.35188,-3.43284,-3.5138,-3.59477,-3.67573,-3.7567,-3.83767,-3.91865,-3.99962,-4.0806,-4.16157,-4.24255,-4.32353,-4.40452,-4.4855,-4.56648,-4.64747,-4.72845,-4.80944,-4.89043,-4.97141}
,{-3.16419,-3.1231,-3.08196,-3.04076,-2.99951,-2.9582,-2.91682,-2.87537,-2.83385,-2.79224,-2.75055,-2.70876,-2.66686,-2.62486,-2.58274,-2.54049,-2.4981,-2.45557,-2.41288,-2.37002,-2.32697,-2.28374,-2.24029,-2.19663,-2.15272,-2.10856,-2.06413,-2.01942,-1.9744,-1.92905,-1.88335,-1.83729,-1.79084,-1.74398,-1.69669,-1.64895,-1.60073,-1.55201,-1.50276,-1.45297,-1.40261,-1.35166,-1.30011,-1.24792,-1.1951,-1.14161,-1.08746,-1.03263,-0.977116,-0.920921,-0.864049,-0.80651,-0.748322,-0.689506,-0.630095,-0.570127,-0.509649,-0.448718,-0.387398,-0.325765,-0.263901,-0.201901,-0.139867,-0.077907,-0.0161403,0.0453092,0.106312,0.166734,0.226438,0.285286,0.343142,0.399867,0.455331,0.509406,0.561971,0.612913,0.662127,0.709522,0.755015,0.798536,0.840028,0.879446,0.916759,0.951949,0.985012,1.01595,1.04479,1.07156,1.09629,1.11904,1.13985,1.15879,1.17593,1.19134,1.20507,1.21721,1.22783,1.23698,1.24474,1.25116,1.25629,1.26018,1.26286,1.26436,1.26471,1.2639,1.26195,1.25883,1.25452,1.24899,1.24219,1.23405,1.22451,1.21348,1.20086,1.18654,1.17041,1.15232,1.13215,1.10972,1.0849,1.0575,1.02737,0.994344,0.958254,0.918951,0.876301,0.830186,0.780523,0.727261,0.670394,0.609967,0.54608,0.478894,0.408626,0.335555,0.259997,0.182302,0.102822,0.0218981,-0.0601735,-0.14315,-0.226853,-0.311164,-0.396,-0.481297,-0.566986,-0.652988,-0.739201,-0.825532,-0.911905,-0.998273,-1.08459,-1.17081,-1.25693,-1.3429,-1.42869,-1.51432,-1.59973,-1.68497,-1.76998,-1.85481,-1.93946,-2.0588,-2.13966,-2.22053,-2.30142,-2.38231,-2.46321,-2.54411,-2.62503,-2.70595,-2.78687,-2.8678,-2.94874,-3.02968,-3.11062,-3.19157,-3.27252,-3.35348,-3.43444,-3.5154,-3.59637,-3.67733,-3.7583,-3.83927,-3.92024,-4.00122,-4.0822,-4.16317,-4.24415,-4.32513,-4.40611,-4.4871,-4.56808,-4.64907,-4.73005,-4.81104,-4.89202,-4.97301}
,{-3.17591,-3.13482,-3.09368,-3.05248,-3.01123,-2.96992,-2.92855,-2.8871,-2.84558,-2.80397,-2.76228,-2.72049,-2.6786,-2.6366,-2.59448,-2.55223,-2.50984,-2.46731,-2.42462,-2.38176,-2.33872,-2.29548,-2.25204,-2.20837,-2.16446,-2.1203,-2.07587,-2.03114,-1.98611,-1.94075,-1.89505,-1.84897,-1.8025,-1.75562,-1.70831,-1.66053,-1.61227,-1.56351,-1.51422,-1.46437,-1.41395,-1.36293,-1.31129,-1.25901,-1.20607,-1.15247,-1.09818,-1.04319,-0.987509,-0.931124,-0.87404,-0.816267,-0.757819,-0.69872,-0.638996,-0.578687,-0.517838,-0.456502,-0.394746,-0.332641,-0.270272,-0.207731,-0.145119,-0.0825473,-0.0201343,0.0419946,0.103708,0.16487,0.225341,0.28498,0.343646,0.401198,0.457501,0.512421,0.565835,0.617624,0.66768,0.715905,0.762212,0.806528,0.848791,0.888953,0.92698,0.96285,0.996557,1.0281,1.05751,1.0848,1.11002,1.1332,1.15441,1.17371,1.19116,1.20684,1.2208,1.23312,1.24388,1.25314,1.26096,1.2674,1.27251,1.27634,1.27893,1.28029,1.28046,1.27943,1.27721,1.27379,1.26913,1.26319,1.25594,1.2473,1.23721,1.22557,1.21229,1.19725,1.18034,1.16141,1.14033,1.11694,1.09108,1.0626,1.03132,0.997086,0.95974,0.919137,0.87515,0.827672,0.776631,0.721994,0.663767,0.602015,0.536858,0.468474,0.397101,0.323029,0.246586,0.168124,0.0879938,0.0065229,-0.0760073,-0.159375,-0.243422,-0.328041,-0.413163,-0.498722,-0.584647,-0.670849,-0.757231,-0.843699,-0.93019,-1.01666,-1.10306,-1.18936,-1.27553,-1.36153,-1.44737,-1.53301,-1.61846,-1.7037,-1.78875,-1.87354,-1.95822,-2.07737,-2.15823,-2.23911,-2.31999,-2.40088,-2.48178,-2.56268,-2.6436,-2.72452,-2.80544,-2.88637,-2.96731,-3.04825,-3.12919,-3.21014,-3.2911,-3.37205,-3.45301,-3.53397,-3.61494,-3.6959,-3.77687,-3.85784,-3.93882,-4.01979,-4.10077,-4.18174,-4.26272,-4.3437,-4.42469,-4.50567,-4.58665,-4.66764,-4.74862,-4.82961,-4.9106,-4.99158}
,{-3.18749,-3.1464,-3.10526,-3.06407,-3.02282,-2.98151,-2.94014,-2.89869,-2.85717,-2.81557,-2.77388,-2.73209,-2.6902,-2.6482,-2.60608,-2.56384,-2.52146,-2.47892,-2.43624,-2.39338,-2.35034,-2.3071,-2.26365,-2.21999,-2.17608,-2.13191,-2.08748,-2.04275,-1.99771,-1.95234,-1.90663,-1.86054,-1.81405,-1.76715,-1.71981,-1.67201,-1.62372,-1.57492,-1.52558,-1.47568,-1.4252,-1.37411,-1.32239,-1.27002,-1.21698,-1.16326,-1.10884,-1.05371,-0.997858,-0.941288,-0.883999,-0.825998,-0.767299,-0.707922,-0.647894,-0.587251,-0.526037,-0.464306,-0.402119,-0.339551,-0.276683,-0.213607,-0.150426,-0.0872482,-0.0241945,0.038609,0.101029,0.162929,0.224164,0.284593,0.344069,0.40245,0.459594,0.515366,0.569635,0.622279,0.673185,0.72225,0.769384,0.814509,0.857558,0.89848,0.937238,0.973808,1.00818,1.04036,1.07035,1.09819,1.12392,1.14758,1.16922,1.1889,1.2067,1.22269,1.23692,1.24948,1.26043,1.26985,1.2778,1.28433,1.2895,1.29336,1.29594,1.29727,1.29737,1.29625,1.29391,1.29033,1.28549,1.27935,1.27186,1.26296,1.25257,1.24061,1.22698,1.21156,1.19424,1.17488,1.15333,1.12946,1.10309,1.07407,1.04223,1.00742,0.969476,0.928264,0.883659,0.835558,0.783895,0.72864,0.669808,0.60747,0.541751,0.472835,0.400968,0.326441,0.249586,0.170756,0.0902982,0.00853661,-0.0742534,-0.157857,-0.242121,-0.326944,-0.412258,-0.497999,-0.584094,-0.670452,-0.756978,-0.843578,-0.930191,-1.01677,-1.10327,-1.18967,-1.27593,-1.36202,-1.44793,-1.53365,-1.61917,-1.70446,-1.78957,-1.87441,-1.95914,-2.07887,-2.15973,-2.24061,-2.32149,-2.40238,-2.48328,-2.56418,-2.6451,-2.72602,-2.80694,-2.88787,-2.96881,-3.04975,-3.1307,-3.21164,-3.2926,-3.37355,-3.45451,-3.53547,-3.61644,-3.6974,-3.77837,-3.85934,-3.94032,-4.02129,-4.10227,-4.18325,-4.26422,-4.34521,-4.42619,-4.50717,-4.58815,-4.66914,-4.75012,-4.83111,-4.9121,-4.99308}
,{-3.19894,-3.15785,-3.11672,-3.07553,-3.03428,-2.99297,-2.9516,-2.91016,-2.86864,-2.82704,-2.78535,-2.74357,-2.70168,-2.65968,-2.61757,-2.57532,-2.53294,-2.49041,-2.44773,-2.40487,-2.36183,-2.3186,-2.27515,-2.23148,-2.18757,-2.14341,-2.09897,-2.05424,-2.0092,-1.96382,-1.9181,-1.87199,-1.8255,-1.77858,-1.73122,-1.68339,-1.63507,-1.58624,-1.53686,-1.48691,-1.43637,-1.38522,-1.33342,-1.28097,-1.22783,-1.174,-1.11945,-1.06418,-1.00817,-0.951425,-0.893939,-0.835718,-0.776776,-0.71713,-0.656807,-0.595839,-0.534271,-0.472154,-0.409549,-0.346527,-0.283171,-0.219572,-0.15583,-0.0920576,-0.0283734,0.0350948,0.0982127,0.16084,0.222833,0.284043,0.344324,0.403527,0.461508,0.518126,0.573246,0.626743,0.678497,0.728402,0.776362,0.822295,0.866131,0.907815,0.947306,0.984576,1.01961,1.05242,1.083,1.1114,1.13763,1.16176,1.18383,1.2039,1.22204,1.23833,1.25283,1.26561,1.27675,1.28632,1.29438,1.30099,1.3062,1.31007,1.31262,1.3139,1.31391,1.31267,1.31018,1.30642,1.30136,1.29497,1.2872,1.27799,1.26725,1.25492,1.24087,1.22501,1.20721,1.18734,1.16526,1.1408,1.11383,1.08418,1.05168,1.01618,0.977533,0.935598,0.890255,0.84141,0.789002,0.733008,0.673453,0.610413,0.544023,0.474477,0.402024,0.326965,0.249632,0.170379,0.089551,0.00746587,-0.0756093,-0.159468,-0.243966,-0.329008,-0.414527,-0.500461,-0.586732,-0.673252,-0.759921,-0.846652,-0.933384,-1.02008,-1.10668,-1.19316,-1.27951,-1.36567,-1.45165,-1.53743,-1.623,-1.70835,-1.7935,-1.87841,-1.96315,-2.08333,-2.1642,-2.24507,-2.32595,-2.40684,-2.48774,-2.56865,-2.64956,-2.73048,-2.8114,-2.89234,-2.97327,-3.05421,-3.13516,-3.21611,-3.29706,-3.37801,-3.45897,-3.53993,-3.6209,-3.70187,-3.78283,-3.86381,-3.94478,-4.02575,-4.10673,-4.18771,-4.26869,-4.34967,-4.43065,-4.51163,-4.59261,-4.6736,-4.75458,-4.83557,-4.91656,-4.99755}
,{-3.21027,-3.16918,-3.12804,-3.08686,-3.04561,-3.00431,-2.96294,-2.9215,-2.87998,-2.83838,-2.7967,-2.75491,-2.71303,-2.67104,-2.62892,-2.58668,-2.54431,-2.50178,-2.4591,-2.41624,-2.37321,-2.32997,-2.28653,-2.24286,-2.19895,-2.15479,-2.11035,-2.06562,-2.02057,-1.97519,-1.92946,-1.88335,-1.83684,-1.78991,-1.74253,-1.69468,-1.64633,-1.59747,-1.54805,-1.49806,-1.44747,-1.39625,-1.34439,-1.29185,-1.23863,-1.18469,-1.13002,-1.07461,-1.01845,-0.961538,-0.903861,-0.845429,-0.786251,-0.726345,-0.665735,-0.604452,-0.542539,-0.480045,-0.41703,-0.353566,-0.289731,-0.225618,-0.161326,-0.0969679,-0.0326622,0.0314621,0.0952693,0.158617,0.22136,0.283346,0.344426,0.404448,0.463262,0.520725,0.576696,0.631045,0.683649,0.734396,0.783186,0.829932,0.874559,0.91701,0.957239,0.995216,1.03093,1.06437,1.09555,1.1245,1.15126,1.17586,1.19837,1.21883,1.23733,1.25393,1.2687,1.28172,1.29306,1.30279,1.31097,1.31767,1.32294,1.32683,1.32938,1.33061,1.33056,1.32922,1.3266,1.32268,1.31743,1.31083,1.30282,1.29333,1.2823,1.26964,1.25524,1.239,1.22079,1.20048,1.17794,1.153,1.12551,1.09533,1.06228,1.02621,0.986977,0.944445,0.898497,0.849044,0.79603,0.739436,0.679294,0.615687,0.548755,0.478697,0.40577,0.330275,0.252548,0.172944,0.0918026,0.00943889,-0.0738864,-0.157974,-0.242684,-0.327925,-0.413633,-0.499744,-0.586181,-0.672854,-0.759664,-0.846525,-0.933376,-1.02018,-1.10688,-1.19347,-1.2799,-1.36614,-1.4522,-1.53805,-1.62369,-1.7091,-1.7943,-1.87926,-2.00396,-2.08481,-2.16567,-2.24654,-2.32743,-2.40832,-2.48922,-2.57012,-2.65103,-2.73195,-2.81288,-2.89381,-2.97475,-3.05569,-3.13663,-3.21758,-3.29853,-3.37949,-3.46045,-3.54141,-3.62237,-3.70334,-3.78431,-3.86528,-3.94625,-4.02723,-4.10821,-4.18918,-4.27016,-4.35114,-4.43212,-4.51311,-4.59409,-4.67507,-4.75606,-4.83705,-4.91803,-4.99902}
,{-3.22147,-3.18038,-3.13925,-3.09806,-3.05682,-3.01552,-2.97415,-2.93271,-2.8912,-2.8496,-2.80792,-2.76614,-2.72426,-2.68227,-2.64016,-2.59792,-2.55555,-2.51303,-2.47035,-2.4275,-2.38446,-2.34123,-2.29779,-2.25413,-2.21022,-2.16606,-2.12162,-2.07688,-2.03184,-1.98645,-1.94072,-1.8946,-1.84808,-1.80114,-1.75375,-1.70588,-1.65751,-1.60861,-1.55916,-1.50913,-1.45849,-1.40722,-1.35529,-1.30268,-1.24936,-1.19533,-1.14055,-1.08502,-1.02871,-0.971632,-0.913773,-0.855138,-0.795734,-0.735577,-0.67469,-0.613102,-0.550854,-0.487994,-0.424582,-0.360685,-0.296384,-0.231768,-0.166939,-0.102006,-0.0370908,0.0276781,0.0921635,0.156222,0.219704,0.282457,0.344326,0.405158,0.464798,0.523099,0.579915,0.635112,0.688561,0.740145,0.789761,0.837316,0.882732,0.925947,0.966911,1.00559,1.04197,1.07605,1.10783,1.13733,1.1646,1.18967,1.2126,1.23345,1.25229,1.26919,1.28422,1.29746,1.30897,1.31884,1.32712,1.33388,1.33917,1.34305,1.34555,1.3467,1.34653,1.34504,1.34223,1.33809,1.33259,1.32569,1.31735,1.30751,1.29608,1.28298,1.26811,1.25135,1.2326,1.21171,1.18854,1.16294,1.13477,1.10386,1.07005,1.0332,0.99316,0.949799,0.903008,0.852705,0.79884,0.741404,0.680438,0.616034,0.548345,0.477578,0.403998,0.327913,0.249662,0.1696,0.0880625,0.00535648,-0.0782688,-0.162624,-0.247578,-0.333047,-0.418969,-0.505277,-0.591895,-0.678729,-0.76568,-0.852668,-0.939637,-1.02654,-1.11333,-1.2,-1.28651,-1.37281,-1.45894,-1.54484,-1.63052,-1.71597,-1.80123,-1.8862,-2.01124,-2.09209,-2.17295,-2.25382,-2.3347,-2.41559,-2.49649,-2.5774,-2.65831,-2.73923,-2.82016,-2.90109,-2.98202,-3.06296,-3.14391,-3.22486,-3.30581,-3.38677,-3.46772,-3.54869,-3.62965,-3.71062,-3.79159,-3.87256,-3.95353,-4.0345,-4.11548,-4.19646,-4.27744,-4.35842,-4.4394,-4.52038,-4.60137,-4.68235,-4.76334,-4.84432,-4.92531,-5.0063}
,{-3.23254,-3.19146,-3.15033,-3.10914,-3.0679,-3.0266,-2.98524,-2.94381,-2.90229,-2.8607,-2.81902,-2.77725,-2.73537,-2.69338,-2.65128,-2.60905,-2.56668,-2.52416,-2.48148,-2.43863,-2.39561,-2.35238,-2.30894,-2.26528,-2.22138,-2.17722,-2.13278,-2.08805,-2.043,-1.99761,-1.95187,-1.90575,-1.85923,-1.81227,-1.76487,-1.71698,-1.66859,-1.61967,-1.57019,-1.52012,-1.46944,-1.41811,-1.36613,-1.31345,-1.26005,-1.20592,-1.15104,-1.09538,-1.03894,-0.981706,-0.923673,-0.864842,-0.80522,-0.74482,-0.683664,-0.62178,-0.559206,-0.49599,-0.432188,-0.367869,-0.30311,-0.238001,-0.172642,-0.107144,-0.0416269,0.0237791,0.0889358,0.153698,0.217914,0.281429,0.344086,0.405725,0.466191,0.525329,0.582992,0.639039,0.693336,0.745764,0.796213,0.844585,0.890799,0.934789,0.9765,1.0159,1.05296,1.08768,1.12007,1.15015,1.17794,1.20351,1.22688,1.24814,1.26735,1.28457,1.29989,1.31337,1.32509,1.33513,1.34355,1.35041,1.35578,1.35969,1.3622,1.36333,1.36311,1.36154,1.35862,1.35435,1.3487,1.34162,1.33307,1.323,1.31131,1.29794,1.28277,1.2657,1.24661,1.22536,1.20181,1.17582,1.14724,1.1159,1.08166,1.04436,1.00386,0.960034,0.912777,0.862007,0.807679,0.749789,0.688379,0.623546,0.555447,0.484293,0.41035,0.33393,0.255372,0.17503,0.093238,0.0102993,-0.0735403,-0.158095,-0.243238,-0.328888,-0.414981,-0.501454,-0.588226,-0.675205,-0.762293,-0.84941,-0.9365,-1.02352,-1.11042,-1.19718,-1.28379,-1.37018,-1.45639,-1.54237,-1.62812,-1.71364,-1.79896,-1.88399,-2.00979,-2.09064,-2.17151,-2.25238,-2.33326,-2.41415,-2.49505,-2.57596,-2.65687,-2.73779,-2.81871,-2.89964,-2.98058,-3.06152,-3.14247,-3.22341,-3.30437,-3.38532,-3.46628,-3.54724,-3.62821,-3.70917,-3.79014,-3.87111,-3.95209,-4.03306,-4.11404,-4.19502,-4.276,-4.35698,-4.43796,-4.51894,-4.59992,-4.68091,-4.76189,-4.84288,-4.92387,-5.00485}
,{-3.2435,-3.20242,-3.16129,-3.12011,-3.07887,-3.03757,-2.99621,-2.95478,-2.91327,-2.87169,-2.83001,-2.78824,-2.74636,-2.70438,-2.66228,-2.62005,-2.57769,-2.53517,-2.4925,-2.44966,-2.40664,-2.36341,-2.31998,-2.27633,-2.23243,-2.18827,-2.14383,-2.0991,-2.05406,-2.00867,-1.96293,-1.91681,-1.87028,-1.82332,-1.7759,-1.728,-1.6796,-1.63065,-1.58114,-1.53104,-1.48032,-1.42895,-1.37691,-1.32417,-1.2707,-1.21648,-1.1615,-1.10573,-1.04915,-0.991773,-0.933573,-0.874556,-0.814725,-0.754093,-0.692679,-0.63051,-0.567622,-0.504061,-0.439883,-0.375154,-0.309951,-0.244362,-0.178488,-0.112438,-0.0463338,0.0196951,0.085509,0.150961,0.215898,0.280162,0.343592,0.406027,0.467306,0.527271,0.58577,0.642656,0.697793,0.751054,0.802325,0.851506,0.898508,0.943262,0.985711,1.02581,1.06355,1.09891,1.13189,1.16252,1.19083,1.21686,1.24066,1.2623,1.28185,1.29936,1.31493,1.32862,1.34051,1.35067,1.35917,1.36608,1.37145,1.37533,1.37777,1.37879,1.37842,1.37667,1.37353,1.369,1.36305,1.35564,1.34672,1.33623,1.3241,1.31023,1.29453,1.27689,1.25718,1.23528,1.21104,1.18432,1.15496,1.12281,1.08772,1.04955,1.00814,0.963396,0.915199,0.863481,0.808206,0.74938,0.687056,0.621344,0.552412,0.480481,0.405829,0.328773,0.249656,0.168829,0.0866222,0.0033262,-0.080822,-0.165653,-0.251049,-0.336934,-0.423247,-0.509921,-0.596875,-0.684013,-0.771238,-0.858474,-0.945671,-1.03278,-1.11977,-1.20661,-1.29328,-1.37972,-1.46598,-1.552,-1.6378,-1.72334,-1.80869,-1.89374,-2.01973,-2.10058,-2.18144,-2.26232,-2.3432,-2.42409,-2.50499,-2.58589,-2.66681,-2.74773,-2.82865,-2.90958,-2.99052,-3.07146,-3.15241,-3.23335,-3.31431,-3.39526,-3.47622,-3.55718,-3.63815,-3.71911,-3.80008,-3.88105,-3.96203,-4.043,-4.12398,-4.20496,-4.28594,-4.36692,-4.4479,-4.52888,-4.60986,-4.69085,-4.77183,-4.85282,-4.93381,-5.01479}
,{-3.25434,-3.21326,-3.17214,-3.13096,-3.08972,-3.04843,-3.00707,-2.96564,-2.92414,-2.88255,-2.84088,-2.79911,-2.75724,-2.71527,-2.67317,-2.63095,-2.58859,-2.54608,-2.50341,-2.46058,-2.41756,-2.37434,-2.33092,-2.28726,-2.24337,-2.19922,-2.15479,-2.11006,-2.06502,-2.01963,-1.97389,-1.92777,-1.88124,-1.83427,-1.78685,-1.73894,-1.69052,-1.64156,-1.59203,-1.5419,-1.49114,-1.43973,-1.38764,-1.33483,-1.2813,-1.227,-1.17192,-1.11604,-1.05935,-1.00183,-0.943469,-0.884272,-0.824241,-0.763385,-0.701721,-0.639276,-0.576083,-0.512186,-0.44764,-0.38251,-0.316872,-0.250813,-0.184432,-0.117839,-0.0511548,0.0154897,0.0819541,0.14809,0.213743,0.278752,0.342953,0.406182,0.468274,0.529067,0.588403,0.646133,0.702115,0.756216,0.808319,0.858318,0.90612,0.951652,0.994852,1.03568,1.0741,1.11011,1.14371,1.17492,1.20376,1.23029,1.25454,1.2766,1.29651,1.31435,1.33021,1.34414,1.35624,1.36658,1.37522,1.38223,1.38767,1.39158,1.39403,1.39503,1.3946,1.39277,1.38952,1.38486,1.37875,1.37115,1.36203,1.35131,1.33892,1.32478,1.30879,1.29083,1.27079,1.24853,1.22392,1.19681,1.16705,1.13449,1.09897,1.06036,1.01851,0.973315,0.924666,0.872497,0.816776,0.75751,0.694759,0.628635,0.559308,0.487006,0.412006,0.334629,0.255218,0.174123,0.0916705,0.00815002,-0.0762061,-0.161232,-0.246813,-0.332875,-0.419357,-0.506193,-0.593299,-0.680581,-0.76794,-0.855304,-0.942619,-1.02984,-1.11693,-1.20387,-1.29064,-1.37717,-1.46351,-1.5496,-1.63547,-1.72108,-1.8065,-1.89161,-2.01836,-2.09921,-2.18007,-2.26094,-2.34182,-2.42271,-2.50361,-2.58452,-2.66543,-2.74635,-2.82728,-2.90821,-2.98914,-3.07008,-3.15103,-3.23198,-3.31293,-3.39389,-3.47484,-3.55581,-3.63677,-3.71774,-3.79871,-3.87968,-3.96065,-4.04163,-4.1226,-4.20358,-4.28456,-4.36554,-4.44652,-4.5275,-4.60849,-4.68947,-4.77046,-4.85144,-4.93243,-5.01342}
,{-3.26507,-3.22399,-3.18287,-3.14169,-3.10046,-3.05917,-3.01781,-2.97639,-2.93489,-2.89331,-2.85164,-2.80988,-2.76801,-2.72604,-2.68395,-2.64173,-2.59938,-2.55687,-2.51421,-2.47138,-2.42837,-2.38516,-2.34174,-2.2981,-2.25421,-2.21006,-2.16564,-2.12092,-2.07588,-2.0305,-1.98476,-1.93864,-1.89211,-1.84514,-1.79771,-1.7498,-1.70136,-1.65239,-1.60284,-1.55268,-1.5019,-1.45045,-1.39831,-1.34546,-1.29186,-1.23748,-1.18232,-1.12634,-1.06953,-1.01188,-0.953372,-0.894007,-0.833785,-0.772716,-0.710814,-0.648104,-0.584618,-0.520398,-0.455498,-0.389981,-0.323922,-0.257407,-0.190534,-0.123413,-0.0561641,0.0110807,0.0781805,0.144986,0.211339,0.277078,0.342036,0.406045,0.468936,0.530544,0.590706,0.649267,0.706081,0.761012,0.813935,0.86474,0.913331,0.959628,1.00357,1.0451,1.0842,1.12085,1.15505,1.18681,1.21617,1.24317,1.26786,1.2903,1.31055,1.32869,1.34479,1.35894,1.3712,1.38166,1.39038,1.39743,1.40287,1.40675,1.40912,1.41001,1.40943,1.40741,1.40394,1.39901,1.3926,1.38467,1.37517,1.36404,1.3512,1.33657,1.32004,1.30152,1.28087,1.25797,1.23267,1.20484,1.17432,1.14096,1.10462,1.06515,1.02243,0.976329,0.926767,0.87368,0.817043,0.756875,0.693245,0.626277,0.556155,0.483114,0.407443,0.329466,0.249529,0.167978,0.0851368,0.00128075,-0.0833688,-0.168659,-0.254484,-0.340773,-0.427468,-0.514497,-0.601777,-0.68921,-0.776702,-0.86418,-0.951599,-1.03891,-1.12609,-1.2131,-1.29992,-1.38651,-1.4729,-1.55903,-1.64494,-1.73058,-1.81603,-1.90119,-2.02808,-2.10893,-2.18979,-2.27066,-2.35155,-2.43244,-2.51333,-2.59424,-2.67515,-2.75607,-2.837,-2.91793,-2.99887,-3.07981,-3.16075,-3.2417,-3.32265,-3.40361,-3.48457,-3.56553,-3.64649,-3.72746,-3.80843,-3.8894,-3.97037,-4.05135,-4.13232,-4.2133,-4.29428,-4.37526,-4.45624,-4.53723,-4.61821,-4.69919,-4.78018,-4.86117,-4.94215,-5.02314}
,{-3.27568,-3.23461,-3.19349,-3.15231,-3.11109,-3.0698,-3.02845,-2.98703,-2.94553,-2.90395,-2.86229,-2.82053,-2.77867,-2.73671,-2.69462,-2.65241,-2.61006,-2.56756,-2.52491,-2.48209,-2.43908,-2.39588,-2.35247,-2.30883,-2.26495,-2.22081,-2.17639,-2.13168,-2.08665,-2.04127,-1.99554,-1.94942,-1.90289,-1.85592,-1.8085,-1.76058,-1.71214,-1.66315,-1.61358,-1.56341,-1.5126,-1.46112,-1.40894,-1.35604,-1.30238,-1.24794,-1.19269,-1.13662,-1.07971,-1.02193,-0.96328,-0.903753,-0.84335,-0.782075,-0.719944,-0.656978,-0.593208,-0.528676,-0.463431,-0.397537,-0.331066,-0.264104,-0.196748,-0.129108,-0.0613033,0.00653377,0.0742615,0.141729,0.208777,0.275242,0.340953,0.40574,0.469429,0.531851,0.592841,0.652237,0.709889,0.765655,0.819406,0.871027,0.920418,0.967493,1.01219,1.05445,1.09424,1.13154,1.16636,1.19871,1.22861,1.25611,1.28125,1.3041,1.32473,1.3432,1.3596,1.37399,1.38647,1.3971,1.40596,1.41311,1.41862,1.42254,1.42491,1.42577,1.42514,1.42304,1.41946,1.4144,1.40783,1.39972,1.39001,1.37865,1.36557,1.35067,1.33386,1.31502,1.29405,1.2708,1.24515,1.21694,1.18604,1.15228,1.11553,1.07564,1.03249,0.985963,0.93597,0.882452,0.825388,0.7648,0.700763,0.633402,0.562904,0.489509,0.413507,0.335224,0.255008,0.1732,0.0901243,0.0060521,-0.0787987,-0.164279,-0.250285,-0.336748,-0.423609,-0.510797,-0.598227,-0.685801,-0.773426,-0.861029,-0.948566,-1.03599,-1.12327,-1.21038,-1.2973,-1.38397,-1.47044,-1.55665,-1.64263,-1.72834,-1.81385,-1.89906,-2.02671,-2.10756,-2.18842,-2.26929,-2.35017,-2.43106,-2.51196,-2.59287,-2.67378,-2.7547,-2.83563,-2.91656,-2.99749,-3.07843,-3.15938,-3.24033,-3.32128,-3.40224,-3.48319,-3.56416,-3.64512,-3.72609,-3.80706,-3.88803,-3.969,-4.04998,-4.13095,-4.21193,-4.29291,-4.37389,-4.45487,-4.53585,-4.61684,-4.69782,-4.77881,-4.85979,-4.94078,-5.02177}
,{-3.28619,-3.24512,-3.204,-3.16283,-3.1216,-3.08032,-3.03897,-2.99756,-2.95606,-2.91449,-2.87283,-2.83108,-2.78923,-2.74726,-2.70519,-2.66298,-2.62064,-2.57815,-2.5355,-2.49269,-2.44969,-2.4065,-2.36309,-2.31946,-2.27559,-2.23146,-2.18705,-2.14235,-2.09732,-2.05196,-2.00623,-1.96012,-1.91359,-1.86663,-1.8192,-1.77128,-1.72284,-1.67384,-1.62426,-1.57408,-1.52324,-1.47174,-1.41952,-1.36658,-1.31287,-1.25837,-1.20305,-1.14689,-1.08988,-1.03198,-0.973203,-0.913525,-0.852949,-0.791481,-0.729132,-0.665922,-0.601881,-0.537048,-0.471472,-0.405214,-0.338345,-0.270951,-0.203127,-0.134983,-0.0666369,0.00177746,0.0701182,0.138233,0.205962,0.273138,0.339589,0.405139,0.469614,0.53284,0.594645,0.654865,0.713344,0.769935,0.824505,0.876934,0.927115,0.974961,1.0204,1.06337,1.10385,1.1418,1.17723,1.21015,1.24058,1.26857,1.29415,1.3174,1.33838,1.35716,1.37382,1.38844,1.4011,1.41188,1.42084,1.42806,1.43359,1.4375,1.43982,1.4406,1.43986,1.43761,1.43385,1.42857,1.42176,1.41337,1.40335,1.39165,1.37819,1.36289,1.34565,1.32635,1.30489,1.28112,1.25492,1.22613,1.19462,1.16023,1.12283,1.08227,1.03843,0.991198,0.940493,0.886261,0.828488,0.767204,0.702488,0.634478,0.563367,0.489402,0.412879,0.334129,0.253499,0.17133,0.0879377,0.00358709,-0.0815141,-0.167223,-0.253443,-0.34011,-0.427161,-0.514526,-0.602116,-0.689834,-0.777587,-0.865306,-0.952949,-1.04047,-1.12784,-1.21503,-1.30201,-1.38876,-1.47529,-1.56154,-1.64758,-1.73333,-1.81889,-1.90413,-2.03216,-2.11301,-2.19387,-2.27474,-2.35563,-2.43652,-2.51741,-2.59832,-2.67923,-2.76015,-2.84108,-2.92201,-3.00295,-3.08389,-3.16483,-3.24578,-3.32673,-3.40769,-3.48865,-3.56961,-3.65057,-3.73154,-3.81251,-3.89348,-3.97445,-4.05543,-4.1364,-4.21738,-4.29836,-4.37934,-4.46032,-4.54131,-4.62229,-4.70327,-4.78426,-4.86525,-4.94623,-5.02722}
,{-3.29659,-3.25552,-3.2144,-3.17324,-3.13202,-3.09074,-3.04939,-3.00798,-2.96649,-2.92492,-2.88327,-2.84152,-2.79968,-2.75772,-2.71565,-2.67345,-2.63111,-2.58863,-2.546,-2.50319,-2.4602,-2.41702,-2.37362,-2.33,-2.28614,-2.24202,-2.19762,-2.15292,-2.10791,-2.06255,-2.01684,-1.97073,-1.92421,-1.87725,-1.82983,-1.78191,-1.73347,-1.68447,-1.63488,-1.58468,-1.53384,-1.48231,-1.43007,-1.37708,-1.32333,-1.26877,-1.21339,-1.15715,-1.10005,-1.04205,-0.983141,-0.92332,-0.862582,-0.80093,-0.738372,-0.674929,-0.610628,-0.545505,-0.479609,-0.412999,-0.345744,-0.277929,-0.209649,-0.141011,-0.0721361,-0.00315529,0.065788,0.134541,0.202941,0.270819,0.338002,0.40431,0.469565,0.533589,0.596207,0.657249,0.716554,0.773972,0.829363,0.882602,0.933579,0.9822,1.02839,1.07209,1.11326,1.15187,1.18792,1.22142,1.25239,1.28088,1.30692,1.33059,1.35194,1.37105,1.388,1.40287,1.41574,1.42668,1.43577,1.44309,1.44868,1.45262,1.45494,1.45569,1.45488,1.45253,1.44865,1.44323,1.43624,1.42766,1.41742,1.40548,1.39176,1.37617,1.35862,1.339,1.31719,1.29305,1.26647,1.23728,1.20536,1.17055,1.1327,1.09169,1.04739,0.999696,0.948523,0.893823,0.835586,0.773845,0.708685,0.640248,0.568731,0.494385,0.417508,0.338434,0.257508,0.175072,0.0914372,0.00686493,-0.0784417,-0.164344,-0.250749,-0.337592,-0.424813,-0.512337,-0.600078,-0.687935,-0.775819,-0.863659,-0.951417,-1.03905,-1.12651,-1.2138,-1.30086,-1.38769,-1.4743,-1.56063,-1.64673,-1.73254,-1.81816,-1.90345,-2.03216,-2.11301,-2.19387,-2.27474,-2.35563,-2.43652,-2.51741,-2.59832,-2.67923,-2.76015,-2.84108,-2.92201,-3.00295,-3.08389,-3.16483,-3.24578,-3.32673,-3.40769,-3.48865,-3.56961,-3.65057,-3.73154,-3.81251,-3.89348,-3.97445,-4.05543,-4.1364,-4.21738,-4.29836,-4.37934,-4.46032,-4.54131,-4.62229,-4.70327,-4.78426,-4.86525,-4.94623,-5.02722}
,{-3.30688,-3.26582,-3.2247,-3.18354,-3.14232,-3.10105,-3.05971,-3.0183,-2.97682,-2.93525,-2.89361,-2.85187,-2.81002,-2.76807,-2.72601,-2.68382,-2.64149,-2.59902,-2.55639,-2.51359,-2.47061,-2.42744,-2.38405,-2.34044,-2.29659,-2.25248,-2.2081,-2.16341,-2.11841,-2.07306,-2.02736,-1.98126,-1.93475,-1.8878,-1.84039,-1.79247,-1.74403,-1.69503,-1.64545,-1.59524,-1.54438,-1.49283,-1.44057,-1.38756,-1.33376,-1.27916,-1.22372,-1.16741,-1.11022,-1.05212,-0.993102,-0.93315,-0.87226,-0.810434,-0.747681,-0.684016,-0.619467,-0.554069,-0.487866,-0.420918,-0.353292,-0.285072,-0.21635,-0.147235,-0.0778459,-0.00831457,0.0612154,0.13059,0.199646,0.268212,0.336112,0.403164,0.469185,0.533995,0.597412,0.659264,0.719385,0.777619,0.833821,0.887861,0.939624,0.989013,1.03595,1.08036,1.12221,1.16147,1.19814,1.23221,1.26372,1.29269,1.31918,1.34324,1.36495,1.38437,1.40159,1.41669,1.42974,1.44083,1.45003,1.4574,1.46303,1.46695,1.46923,1.46989,1.46897,1.46648,1.46242,1.45679,1.44956,1.44071,1.43017,1.4179,1.40381,1.38784,1.36986,1.34979,1.3275,1.30287,1.27575,1.24601,1.2135,1.17808,1.13961,1.09795,1.05298,1.00461,0.952752,0.897366,0.838447,0.776036,0.710226,0.641167,0.569064,0.494174,0.416802,0.337284,0.255966,0.173186,0.0892511,0.00441271,-0.0811349,-0.167259,-0.253873,-0.340914,-0.42832,-0.516017,-0.603913,-0.691909,-0.779919,-0.867875,-0.955733,-1.04346,-1.13101,-1.21837,-1.30551,-1.3924,-1.47907,-1.56544,-1.6516,-1.73744,-1.82308,-1.90844,-2.03753,-2.11838,-2.19924,-2.28011,-2.36099,-2.44188,-2.52278,-2.60369,-2.6846,-2.76552,-2.84645,-2.92738,-3.00831,-3.08925,-3.1702,-3.25115,-3.3321,-3.41306,-3.49401,-3.57498,-3.65594,-3.73691,-3.81788,-3.89885,-3.97982,-4.06079,-4.14177,-4.22275,-4.30373,-4.38471,-4.46569,-4.54667,-4.62766,-4.70864,-4.78963,-4.87061,-4.9516,-5.03259}
,{-3.31707,-3.27601,-3.2349,-3.19374,-3.15253,-3.11126,-3.06992,-3.02852,-2.98704,-2.94548,-2.90384,-2.86211,-2.82027,-2.77833,-2.73627,-2.69409,-2.65177,-2.60931,-2.56669,-2.5239,-2.48093,-2.43777,-2.39439,-2.3508,-2.30696,-2.26286,-2.21849,-2.17381,-2.12882,-2.08349,-2.0378,-1.99171,-1.94522,-1.89828,-1.85087,-1.80297,-1.75453,-1.70554,-1.65595,-1.60574,-1.55487,-1.50332,-1.45104,-1.398,-1.34417,-1.28953,-1.23404,-1.17767,-1.1204,-1.06221,-1.00309,-0.943014,-0.881982,-0.819994,-0.757055,-0.693181,-0.628396,-0.562733,-0.496237,-0.428963,-0.360979,-0.292366,-0.223217,-0.153637,-0.0837467,-0.0136774,0.056427,0.126412,0.196112,0.265355,0.333962,0.401749,0.468529,0.534117,0.598329,0.660987,0.72192,0.780967,0.83798,0.892821,0.945373,0.995532,1.04321,1.08835,1.13089,1.17081,1.20809,1.24275,1.27479,1.30427,1.33121,1.35569,1.37777,1.39752,1.41503,1.43037,1.44363,1.45488,1.4642,1.47167,1.47735,1.4813,1.48357,1.48419,1.48319,1.4806,1.47641,1.47063,1.46322,1.45415,1.44338,1.43086,1.4165,1.40022,1.38193,1.36151,1.33886,1.31384,1.28632,1.25616,1.22322,1.18735,1.14841,1.10627,1.06082,1.01195,0.959588,0.903701,0.844285,0.781385,0.715099,0.645584,0.573048,0.497753,0.420009,0.34015,0.258527,0.175472,0.0912891,0.00622543,-0.0795306,-0.165851,-0.252652,-0.339872,-0.427448,-0.515305,-0.60335,-0.691484,-0.77962,-0.867695,-0.955663,-1.04349,-1.13114,-1.21859,-1.30581,-1.39278,-1.47951,-1.56596,-1.65218,-1.73807,-1.82376,-1.90917,-2.03885,-2.11971,-2.20057,-2.28144,-2.36232,-2.44321,-2.52411,-2.60502,-2.68593,-2.76685,-2.84778,-2.92871,-3.00964,-3.09058,-3.17153,-3.25248,-3.33343,-3.41438,-3.49534,-3.5763,-3.65727,-3.73824,-3.81921,-3.90018,-3.98115,-4.06212,-4.1431,-4.22408,-4.30506,-4.38604,-4.46702,-4.548,-4.62899,-4.70997,-4.79096,-4.87194,-4.95293,-5.03392}
,{-3.32716,-3.28611,-3.245,-3.20384,-3.16263,-3.12137,-3.08004,-3.03864,-2.99716,-2.95561,-2.91398,-2.87225,-2.83042,-2.78849,-2.74644,-2.70426,-2.66195,-2.6195,-2.57689,-2.53411,-2.49115,-2.448,-2.40464,-2.36106,-2.31723,-2.27315,-2.22879,-2.18413,-2.13915,-2.09384,-2.04816,-2.00209,-1.95561,-1.90868,-1.86129,-1.8134,-1.76497,-1.71598,-1.6664,-1.6162,-1.56533,-1.51376,-1.46147,-1.40842,-1.35456,-1.29989,-1.24435,-1.18793,-1.1306,-1.07233,-1.01311,-0.952921,-0.891759,-0.82962,-0.766508,-0.702438,-0.63743,-0.571518,-0.504743,-0.437159,-0.368832,-0.299843,-0.230282,-0.160255,-0.0898806,-0.0192908,0.0513707,0.121948,0.192276,0.262179,0.331477,0.399982,0.467504,0.533856,0.598848,0.662298,0.72403,0.783878,0.841689,0.89732,0.950649,1.00157,1.04998,1.09583,1.13905,1.17962,1.21751,1.25274,1.28531,1.31527,1.34266,1.36754,1.38997,1.41004,1.42781,1.44337,1.45681,1.4682,1.47762,1.48515,1.49085,1.49478,1.497,1.49753,1.49642,1.49367,1.4893,1.48329,1.47563,1.46628,1.45521,1.44234,1.4276,1.41092,1.3922,1.37133,1.34819,1.32265,1.29458,1.26385,1.2303,1.1938,1.15421,1.1114,1.06526,1.01569,0.962617,0.906017,0.845893,0.782299,0.715341,0.645184,0.572044,0.496194,0.417946,0.337639,0.255621,0.172223,0.0877411,0.00241265,-0.0835828,-0.170124,-0.257136,-0.344554,-0.432316,-0.520341,-0.608539,-0.696807,-0.785064,-0.873247,-0.961313,-1.04923,-1.13696,-1.22448,-1.31176,-1.39879,-1.48558,-1.57207,-1.65834,-1.74428,-1.82999,-1.91544,-2.04542,-2.12627,-2.20713,-2.288,-2.36888,-2.44977,-2.53067,-2.61158,-2.69249,-2.77341,-2.85434,-2.93527,-3.0162,-3.09715,-3.17809,-3.25904,-3.33999,-3.42095,-3.50191,-3.58287,-3.66383,-3.7448,-3.82577,-3.90674,-3.98771,-4.06869,-4.14966,-4.23064,-4.31162,-4.3926,-4.47358,-4.55456,-4.63555,-4.71653,-4.79752,-4.8785,-4.95949,-5.04048}
,{-3.33716,-3.2961,-3.255,-3.21385,-3.17264,-3.13138,-3.09005,-3.04866,-3.00719,-2.96565,-2.92402,-2.8823,-2.84048,-2.79855,-2.75651,-2.71434,-2.67204,-2.6296,-2.587,-2.54423,-2.50129,-2.45815,-2.4148,-2.37123,-2.32742,-2.28335,-2.23901,-2.19437,-2.14941,-2.10411,-2.05845,-2.01239,-1.96593,-1.91902,-1.87164,-1.82376,-1.77535,-1.72638,-1.67681,-1.62661,-1.57574,-1.52418,-1.47188,-1.41881,-1.36494,-1.31024,-1.25466,-1.1982,-1.14081,-1.08247,-1.02316,-0.962873,-0.901591,-0.839312,-0.776039,-0.711784,-0.646567,-0.580417,-0.513376,-0.445496,-0.37684,-0.307488,-0.237529,-0.167069,-0.0962245,-0.0251275,0.0460778,0.117235,0.188178,0.25873,0.328708,0.397921,0.466178,0.533286,0.599052,0.663288,0.725816,0.786464,0.845072,0.901495,0.955603,1.00728,1.05644,1.10301,1.14692,1.18814,1.22665,1.26246,1.29558,1.32604,1.35388,1.37918,1.40199,1.42238,1.44044,1.45626,1.4699,1.48146,1.49102,1.49864,1.5044,1.50836,1.51057,1.51107,1.50989,1.50705,1.50256,1.49641,1.48858,1.47904,1.46774,1.45464,1.43965,1.42269,1.40366,1.38247,1.35899,1.33309,1.30465,1.27352,1.23957,1.20264,1.16262,1.11936,1.07275,1.02271,0.969169,0.912094,0.851499,0.787441,0.720032,0.649442,0.575892,0.499659,0.421058,0.340429,0.258122,0.174462,0.0897442,0.00419946,-0.0819975,-0.168729,-0.255924,-0.343518,-0.431446,-0.519628,-0.607972,-0.696374,-0.784755,-0.873054,-0.96123,-1.04925,-1.13707,-1.22468,-1.31204,-1.39914,-1.486,-1.57256,-1.65889,-1.74489,-1.83065,-1.91615,-2.04671,-2.12757,-2.20843,-2.2893,-2.37018,-2.45107,-2.53197,-2.61288,-2.69379,-2.77471,-2.85564,-2.93657,-3.0175,-3.09844,-3.17939,-3.26034,-3.34129,-3.42224,-3.5032,-3.58417,-3.66513,-3.7461,-3.82707,-3.90804,-3.98901,-4.06998,-4.15096,-4.23194,-4.31292,-4.3939,-4.47488,-4.55586,-4.63685,-4.71783,-4.79882,-4.8798,-4.96079,-5.04178}
,{-3.34705,-3.306,-3.2649,-3.22375,-3.18255,-3.14129,-3.09997,-3.05859,-3.01713,-2.97559,-2.93396,-2.89225,-2.85044,-2.80852,-2.76649,-2.72433,-2.68204,-2.63961,-2.59702,-2.55426,-2.51133,-2.46821,-2.42487,-2.38132,-2.33752,-2.29347,-2.24914,-2.20452,-2.15958,-2.1143,-2.06866,-2.02263,-1.97618,-1.92929,-1.88193,-1.83407,-1.78568,-1.73672,-1.68716,-1.63697,-1.58612,-1.53456,-1.48226,-1.42918,-1.3753,-1.32058,-1.26498,-1.20848,-1.15104,-1.09264,-1.03326,-0.972876,-0.911486,-0.84908,-0.785659,-0.721232,-0.655819,-0.589446,-0.522154,-0.453992,-0.385023,-0.315324,-0.244984,-0.174107,-0.102808,-0.031221,0.0405118,0.112233,0.183775,0.254961,0.325603,0.395511,0.464489,0.532339,0.598867,0.66388,0.727194,0.788632,0.848029,0.905237,0.960119,1.01256,1.06246,1.10973,1.15433,1.1962,1.23534,1.27173,1.30539,1.33635,1.36466,1.39037,1.41356,1.43428,1.45264,1.4687,1.48256,1.49429,1.50398,1.5117,1.51753,1.52152,1.52373,1.52419,1.52296,1.52003,1.51543,1.50914,1.50115,1.49143,1.47993,1.46659,1.45135,1.43413,1.41482,1.39332,1.36951,1.34327,1.31447,1.28296,1.24862,1.21128,1.17083,1.12714,1.08008,1.02959,0.975588,0.918052,0.856998,0.792489,0.724641,0.653628,0.579678,0.50307,0.424125,0.343182,0.260591,0.176677,0.0917271,0.00596967,-0.080426,-0.167347,-0.254723,-0.342491,-0.430584,-0.518921,-0.607408,-0.695944,-0.784448,-0.872862,-0.961146,-1.04926,-1.13718,-1.22488,-1.31232,-1.39949,-1.48642,-1.57306,-1.65943,-1.7455,-1.83131,-1.91685,-2.04801,-2.12886,-2.20972,-2.29059,-2.37147,-2.45236,-2.53326,-2.61417,-2.69508,-2.776,-2.85693,-2.93786,-3.0188,-3.09974,-3.18068,-3.26163,-3.34258,-3.42354,-3.5045,-3.58546,-3.66642,-3.74739,-3.82836,-3.90933,-3.9903,-4.07128,-4.15225,-4.23323,-4.31421,-4.39519,-4.47617,-4.55715,-4.63814,-4.71912,-4.80011,-4.88109,-4.96208,-5.04307}
,{-3.35685,-3.3158,-3.27471,-3.23357,-3.19237,-3.15112,-3.1098,-3.06842,-3.02697,-2.98543,-2.94382,-2.90211,-2.86031,-2.8184,-2.77637,-2.73423,-2.69195,-2.64953,-2.60695,-2.56421,-2.52129,-2.47818,-2.43486,-2.39132,-2.34754,-2.30351,-2.2592,-2.2146,-2.16968,-2.12442,-2.0788,-2.03279,-1.98636,-1.9395,-1.89216,-1.84432,-1.79595,-1.74701,-1.69747,-1.6473,-1.59645,-1.5449,-1.49261,-1.43954,-1.38566,-1.33092,-1.2753,-1.21877,-1.16129,-1.10284,-1.0434,-0.982937,-0.921451,-0.85893,-0.795374,-0.73079,-0.665195,-0.598616,-0.531088,-0.462661,-0.393396,-0.323368,-0.252664,-0.181388,-0.109655,-0.0375952,0.0346462,0.106913,0.179036,0.250836,0.322125,0.39271,0.462392,0.530969,0.598243,0.664018,0.728103,0.790319,0.850494,0.908475,0.96412,1.01731,1.06794,1.11592,1.16119,1.20371,1.24346,1.28042,1.31462,1.34608,1.37484,1.40096,1.42451,1.44557,1.4642,1.48051,1.49456,1.50646,1.51627,1.52408,1.52995,1.53396,1.53615,1.53657,1.53526,1.53223,1.52749,1.52104,1.51286,1.50292,1.49118,1.47759,1.46206,1.44453,1.42488,1.40303,1.37884,1.3522,1.32298,1.29102,1.25621,1.21839,1.17743,1.13321,1.08563,1.03458,0.980028,0.921935,0.860327,0.795274,0.726897,0.65538,0.580954,0.503907,0.42456,0.343258,0.260347,0.17615,0.0909472,0.00496141,-0.0816457,-0.168767,-0.256332,-0.344282,-0.432545,-0.52104,-0.609671,-0.698337,-0.78696,-0.875483,-0.963869,-1.05208,-1.14008,-1.22785,-1.31537,-1.40262,-1.4896,-1.57628,-1.6627,-1.74882,-1.83468,-1.92027,-2.05186,-2.13271,-2.21357,-2.29444,-2.37532,-2.45621,-2.53711,-2.61802,-2.69893,-2.77985,-2.86078,-2.94171,-3.02264,-3.10358,-3.18453,-3.26548,-3.34643,-3.42739,-3.50835,-3.58931,-3.67027,-3.75124,-3.83221,-3.91318,-3.99415,-4.07513,-4.1561,-4.23708,-4.31806,-4.39904,-4.48002,-4.561,-4.64199,-4.72297,-4.80396,-4.88494,-4.96593,-5.04692}
,{-3.36656,-3.32552,-3.28443,-3.24329,-3.2021,-3.16085,-3.11954,-3.07816,-3.03671,-2.99519,-2.95358,-2.91188,-2.87009,-2.82819,-2.78617,-2.74404,-2.70177,-2.65936,-2.6168,-2.57407,-2.53116,-2.48807,-2.44477,-2.40125,-2.35749,-2.31347,-2.26918,-2.2246,-2.1797,-2.13447,-2.08887,-2.04288,-1.99648,-1.94964,-1.90233,-1.85452,-1.80617,-1.75725,-1.70774,-1.65759,-1.60676,-1.55523,-1.50295,-1.44989,-1.39601,-1.34127,-1.28564,-1.22909,-1.17158,-1.11309,-1.05359,-0.99306,-0.93149,-0.868866,-0.805188,-0.740461,-0.674698,-0.607926,-0.540178,-0.471501,-0.401956,-0.331614,-0.260563,-0.188903,-0.116751,-0.0442354,0.0284991,0.101295,0.173984,0.246385,0.318309,0.389558,0.459932,0.529227,0.597238,0.663767,0.728619,0.791607,0.852557,0.91131,0.967719,1.02166,1.07302,1.12171,1.16767,1.21085,1.25121,1.28877,1.32351,1.35548,1.38471,1.41127,1.43521,1.45661,1.47555,1.49213,1.50641,1.5185,1.52847,1.53641,1.54238,1.54645,1.54868,1.54911,1.54778,1.5447,1.5399,1.53337,1.52509,1.51503,1.50316,1.48941,1.47372,1.456,1.43616,1.41409,1.38968,1.36281,1.33333,1.30112,1.26603,1.22793,1.18668,1.14216,1.09427,1.04291,0.988028,0.92961,0.867678,0.802302,0.733609,0.661783,0.587063,0.509735,0.430125,0.348577,0.265439,0.18103,0.0956304,0.00945824,-0.0773269,-0.164619,-0.252352,-0.340463,-0.428882,-0.517525,-0.606296,-0.695095,-0.783843,-0.872485,-0.960983,-1.0493,-1.1374,-1.22527,-1.31287,-1.4002,-1.48727,-1.57403,-1.66051,-1.7467,-1.83261,-1.91826,-2.05058,-2.13143,-2.21229,-2.29317,-2.37405,-2.45494,-2.53584,-2.61674,-2.69766,-2.77858,-2.8595,-2.94043,-3.02137,-3.10231,-3.18325,-3.2642,-3.34516,-3.42611,-3.50707,-3.58803,-3.669,-3.74996,-3.83093,-3.9119,-3.99288,-4.07385,-4.15483,-4.2358,-4.31678,-4.39776,-4.47875,-4.55973,-4.64071,-4.7217,-4.80268,-4.88367,-4.96466,-5.04564}
,{-3.37618,-3.33514,-3.29405,-3.25292,-3.21173,-3.17049,-3.12918,-3.08781,-3.04637,-3.00486,-2.96325,-2.92156,-2.87978,-2.83789,-2.79588,-2.75376,-2.7115,-2.6691,-2.62656,-2.58384,-2.54095,-2.49787,-2.45459,-2.41109,-2.36735,-2.32335,-2.27909,-2.23453,-2.18965,-2.14444,-2.09887,-2.05291,-2.00654,-1.95973,-1.91244,-1.86466,-1.81634,-1.76745,-1.71797,-1.66784,-1.61704,-1.56553,-1.51327,-1.46022,-1.40635,-1.35162,-1.29599,-1.23942,-1.1819,-1.12338,-1.06384,-1.00325,-0.94161,-0.878898,-0.815112,-0.750256,-0.684342,-0.617393,-0.549442,-0.480534,-0.410726,-0.34009,-0.268711,-0.196689,-0.124137,-0.0511866,0.0220202,0.0953256,0.16856,0.241541,0.314078,0.385972,0.457019,0.527012,0.595744,0.66301,0.728611,0.792357,0.854068,0.913579,0.970739,1.02542,1.0775,1.12689,1.17353,1.21735,1.25833,1.29646,1.33175,1.36422,1.39392,1.4209,1.44522,1.46696,1.4862,1.50304,1.51755,1.52982,1.53994,1.54799,1.55404,1.55816,1.56041,1.56084,1.55947,1.55634,1.55146,1.54482,1.53642,1.52621,1.51417,1.50024,1.48434,1.4664,1.44632,1.42399,1.39931,1.37214,1.34236,1.30982,1.2744,1.23594,1.19431,1.14941,1.10111,1.04934,0.994049,0.935212,0.872859,0.807068,0.73797,0.665755,0.590664,0.51299,0.43306,0.35122,0.267818,0.183169,0.0975514,0.0111769,-0.0757989,-0.163275,-0.251183,-0.339463,-0.428043,-0.516836,-0.605748,-0.694676,-0.783545,-0.872299,-0.960903,-1.04932,-1.13751,-1.22547,-1.31315,-1.40055,-1.48769,-1.57451,-1.66105,-1.74729,-1.83326,-1.91895,-2.05186,-2.13271,-2.21357,-2.29445,-2.37533,-2.45622,-2.53712,-2.61802,-2.69894,-2.77986,-2.86078,-2.94171,-3.02265,-3.10359,-3.18453,-3.26548,-3.34644,-3.42739,-3.50835,-3.58931,-3.67028,-3.75124,-3.83221,-3.91318,-3.99416,-4.07513,-4.15611,-4.23708,-4.31806,-4.39904,-4.48003,-4.56101,-4.64199,-4.72298,-4.80396,-4.88495,-4.96594,-5.04692}
,{-3.38571,-3.34467,-3.30359,-3.26246,-3.22128,-3.18004,-3.13874,-3.09738,-3.05594,-3.01443,-2.97284,-2.93116,-2.88938,-2.8475,-2.80551,-2.76339,-2.72115,-2.67877,-2.63623,-2.59354,-2.55066,-2.5076,-2.46434,-2.42085,-2.37713,-2.33316,-2.28892,-2.24438,-2.19953,-2.15435,-2.1088,-2.06287,-2.01653,-1.96975,-1.9225,-1.87475,-1.82646,-1.77761,-1.72815,-1.67806,-1.62729,-1.57581,-1.52357,-1.47055,-1.4167,-1.36198,-1.30635,-1.24979,-1.19225,-1.13371,-1.07414,-1.01352,-0.951817,-0.889031,-0.825153,-0.760184,-0.694135,-0.627027,-0.558891,-0.489771,-0.41972,-0.34881,-0.277124,-0.204761,-0.131833,-0.058469,0.0151874,0.0889791,0.162735,0.236274,0.309402,0.381919,0.453617,0.524287,0.593718,0.6617,0.728032,0.792517,0.854971,0.915224,0.973119,1.02852,1.08131,1.13139,1.17869,1.22315,1.26473,1.30343,1.33924,1.37221,1.40235,1.42974,1.45443,1.4765,1.49603,1.51311,1.52782,1.54026,1.55052,1.55866,1.56477,1.56892,1.57117,1.57156,1.57013,1.56691,1.56191,1.55513,1.54656,1.53617,1.52391,1.50973,1.49357,1.47534,1.45495,1.43229,1.40725,1.3797,1.34951,1.31654,1.28065,1.24171,1.19959,1.15416,1.10533,1.05301,0.997149,0.937744,0.874826,0.80848,0.738842,0.666112,0.590538,0.512419,0.432086,0.349887,0.266167,0.181239,0.0953719,0.00877181,-0.0784135,-0.166088,-0.254185,-0.342646,-0.431394,-0.520344,-0.609392,-0.698445,-0.787427,-0.876284,-0.964982,-1.05348,-1.14175,-1.22978,-1.31753,-1.405,-1.49218,-1.57905,-1.66564,-1.75192,-1.83792,-1.92367,-2.05692,-2.13777,-2.21863,-2.2995,-2.38039,-2.46128,-2.54218,-2.62308,-2.704,-2.78492,-2.86584,-2.94677,-3.02771,-3.10865,-3.18959,-3.27054,-3.35149,-3.43245,-3.51341,-3.59437,-3.67533,-3.7563,-3.83727,-3.91824,-3.99921,-4.08019,-4.16117,-4.24214,-4.32312,-4.4041,-4.48508,-4.56607,-4.64705,-4.72804,-4.80902,-4.89001,-4.97099,-5.05198}
,{-3.39515,-3.35412,-3.31304,-3.27191,-3.23074,-3.18951,-3.14821,-3.10686,-3.06543,-3.02393,-2.98234,-2.94067,-2.8989,-2.85703,-2.81505,-2.77295,-2.73072,-2.68835,-2.64583,-2.60315,-2.56029,-2.51725,-2.474,-2.43054,-2.38684,-2.34289,-2.29868,-2.25417,-2.20935,-2.16419,-2.11868,-2.07278,-2.02647,-1.97972,-1.93251,-1.88479,-1.83654,-1.78773,-1.73831,-1.68825,-1.63752,-1.58607,-1.53387,-1.48088,-1.42705,-1.37235,-1.31674,-1.26019,-1.20266,-1.14411,-1.08452,-1.02386,-0.962118,-0.899271,-0.835314,-0.770248,-0.70408,-0.636829,-0.568525,-0.499208,-0.428933,-0.357767,-0.285791,-0.213104,-0.139817,-0.066058,0.00803073,0.0822917,0.156554,0.230634,0.304339,0.377464,0.449801,0.521137,0.591258,0.659949,0.727005,0.792226,0.855421,0.916415,0.975048,1.03118,1.08468,1.13546,1.18343,1.22853,1.27074,1.31002,1.34639,1.37986,1.41049,1.43831,1.46341,1.48584,1.50569,1.52306,1.53803,1.55069,1.56113,1.56944,1.57568,1.57993,1.58225,1.5827,1.5813,1.5781,1.57309,1.56629,1.55768,1.54723,1.53491,1.52066,1.50441,1.48608,1.46558,1.4428,1.41763,1.38994,1.3596,1.32647,1.29041,1.2513,1.20898,1.16336,1.11432,1.06178,1.0057,0.946064,0.882912,0.816329,0.746455,0.673491,0.597689,0.519348,0.438803,0.356401,0.272488,0.187377,0.101335,0.0145654,-0.0727844,-0.160619,-0.248874,-0.337488,-0.426385,-0.515479,-0.604665,-0.693849,-0.782957,-0.871934,-0.960747,-1.04936,-1.13773,-1.22586,-1.3137,-1.40125,-1.48852,-1.57547,-1.66213,-1.74848,-1.83454,-1.92034,-2.05441,-2.13526,-2.21612,-2.29699,-2.37788,-2.45877,-2.53967,-2.62057,-2.70148,-2.7824,-2.86333,-2.94426,-3.0252,-3.10614,-3.18708,-3.26803,-3.34898,-3.42994,-3.5109,-3.59186,-3.67282,-3.75379,-3.83476,-3.91573,-3.9967,-4.07768,-4.15865,-4.23963,-4.32061,-4.40159,-4.48257,-4.56356,-4.64454,-4.72552,-4.80651,-4.8875,-4.96848,-5.04947}
,{-3.4045,-3.36347,-3.3224,-3.28128,-3.24011,-3.19889,-3.1576,-3.11625,-3.07483,-3.03334,-2.99176,-2.9501,-2.90834,-2.86648,-2.82451,-2.78242,-2.7402,-2.69785,-2.65535,-2.61268,-2.56984,-2.52682,-2.48359,-2.44015,-2.39648,-2.35255,-2.30836,-2.26388,-2.21909,-2.17396,-2.12848,-2.08262,-2.03635,-1.98964,-1.94246,-1.89479,-1.84658,-1.7978,-1.74843,-1.69841,-1.64772,-1.59631,-1.54415,-1.4912,-1.4374,-1.38274,-1.32715,-1.27062,-1.2131,-1.15456,-1.09496,-1.03429,-0.972515,-0.909624,-0.845606,-0.78046,-0.714192,-0.646818,-0.578367,-0.508876,-0.438399,-0.367,-0.294761,-0.221776,-0.148156,-0.0740292,0.000463838,0.0751655,0.149905,0.224498,0.298749,0.372453,0.445399,0.517372,0.588152,0.657524,0.725275,0.791202,0.855109,0.916817,0.976161,1.03299,1.08718,1.13863,1.18725,1.23297,1.27576,1.31561,1.3525,1.38646,1.41753,1.44576,1.47122,1.49398,1.51413,1.53175,1.54693,1.55977,1.57034,1.57875,1.58506,1.58936,1.59169,1.59211,1.59067,1.58739,1.58228,1.57535,1.56659,1.55597,1.54344,1.52897,1.51247,1.49386,1.47306,1.44996,1.42444,1.39637,1.36563,1.33207,1.29555,1.25595,1.21312,1.16696,1.11737,1.06426,1.00759,0.947366,0.883626,0.816463,0.746028,0.67253,0.596228,0.517428,0.43647,0.353702,0.269468,0.184075,0.097783,0.0107874,-0.0767727,-0.164807,-0.253252,-0.342047,-0.431111,-0.520356,-0.609677,-0.698982,-0.788196,-0.877272,-0.966174,-1.05487,-1.14331,-1.2315,-1.3194,-1.40701,-1.49433,-1.58131,-1.66802,-1.7544,-1.84049,-1.92635,-2.06067,-2.14152,-2.22238,-2.30326,-2.38414,-2.46503,-2.54593,-2.62683,-2.70775,-2.78867,-2.86959,-2.95052,-3.03146,-3.1124,-3.19334,-3.27429,-3.35525,-3.4362,-3.51716,-3.59812,-3.67909,-3.76005,-3.84102,-3.92199,-4.00297,-4.08394,-4.16492,-4.24589,-4.32687,-4.40785,-4.48884,-4.56982,-4.6508,-4.73179,-4.81277,-4.89376,-4.97475,-5.05573}
};
static const double ls_ahi[108][200]={{-0.0286005,-0.0263509,-0.0242674,-0.0223377,-0.0205507,-0.0188958,-0.0173631,-0.0159436,-0.0146287,-0.0134106,-0.0122818,-0.0112356,-0.0102656,-0.00936584,-0.00853095,-0.00775584,-0.00703578,-0.00636642,-0.00574372,-0.00516392,-0.00462354,-0.00411936,-0.00364839,-0.00320786,-0.0027952,-0.00240804,-0.00204415,-0.00170149,-0.00137817,-0.00107241,-0.000782573,-0.000507144,-0.000244708,6.04904e-06,0.000246346,0.000477319,0.000700021,0.000915435,0.00112447,0.00132798,0.00152675,0.00172152,0.00191297,0.00210172,0.00228836,0.00247345,0.00265746,0.00284087,0.00302408,0.00320749,0.00339143,0.0035762,0.00376208,0.0039493,0.00413804,0.00432847,0.00452069,0.00471479,0.0049108,0.00510871,0.00530849,0.00551004,0.00571324,0.0059179,0.00612381,0.00633071,0.0065383,0.00674623,0.00695413,0.00716157,0.00736812,0.00757328,0.00777655,0.00797743,0.00817538,0.00836987,0.00856036,0.00874634,0.00892729,0.00910275,0.00927227,0.00943544,0.00959191,0.00974136,0.00988355,0.0100183,0.0101454,0.0102649,0.0103767,0.0104809,0.0105776,0.0106668,0.0107488,0.0108239,0.0108921,0.010954,0.0110096,0.0110593,0.0111034,0.0111422,0.0111759,0.0112048,0.0112291,0.0112489,0.0112645,0.011276,0.0112832,0.0112864,0.0112853,0.0112798,0.0112698,0.0112548,0.0112344,0.0112081,0.0111752,0.0111349,0.011086,0.0110274,0.0109577,0.0108749,0.0107772,0.0106619,0.0105261,0.0103665,0.010179,0.00995886,0.0097004,0.0093971,0.00904119,0.00862363,0.00813377,0.00755911,0.006885,0.00609425,0.00516675,0.00407938,0.00280401,0.0013087,-0.000444126,-0.00249831,-0.00490495,-0.00772254,-0.011021,-0.0148795,-0.0193897,-0.0246615,-0.0308112,-0.0379795,-0.0463278,-0.0560302,-0.0672887,-0.0803185,-0.0953726,-0.112713,-0.132596,-0.15534,-0.181235,-0.210547,-0.243591,-0.280538,-0.321579,-0.366756,-0.416083,-0.469427,-0.52658,-0.587179,-0.650834,-0.717057,-0.785375,-0.855555,-0.927295,-1.00039,-1.07454,-1.14975,-1.22595,-1.30273,-1.37996,-1.45822,-1.53632,-1.61553,-1.69404,-1.7744,-1.85265,-1.93465,-2.01376,-2.07582,-2.1568,-2.23777,-2.31875,-2.39972,-2.4807,-2.56168,-2.64267,-2.72365,-2.80463,-2.88562,-2.9666,-3.04759,-3.12858,-3.20956}
,{-0.108683,-0.100696,-0.0932398,-0.0862849,-0.0798018,-0.073762,-0.0681385,-0.0629051,-0.0580369,-0.05351,-0.049302,-0.0453914,-0.041758,-0.0383825,-0.0352471,-0.0323346,-0.0296292,-0.0271159,-0.0247806,-0.0226102,-0.0205924,-0.0187158,-0.0169696,-0.0153437,-0.013829,-0.0124167,-0.0110986,-0.00986737,-0.00871586,-0.00763757,-0.00662645,-0.00567685,-0.00478352,-0.0039416,-0.00314654,-0.00239416,-0.00168052,-0.00100201,-0.000355246,0.000262905,0.00085535,0.00142479,0.00197372,0.00250446,0.00301917,0.00351982,0.00400824,0.00448613,0.00495503,0.00541637,0.00587143,0.00632139,0.0067673,0.0072101,0.00765063,0.00808959,0.00852761,0.00896517,0.00940268,0.00984043,0.0102786,0.0107172,0.0111564,0.0115958,0.0120353,0.0124746,0.0129132,0.0133506,0.0137862,0.0142193,0.014649,0.0150746,0.0154951,0.0159097,0.0163173,0.016717,0.0171077,0.0174885,0.0178585,0.0182168,0.0185625,0.0188948,0.0192131,0.0195169,0.0198056,0.020079,0.0203367,0.0205787,0.0208049,0.0210154,0.0212105,0.0213905,0.0215557,0.0217065,0.0218435,0.0219673,0.0220782,0.022177,0.0222642,0.0223402,0.0224057,0.022461,0.0225065,0.0225425,0.0225692,0.0225867,0.022595,0.0225938,0.0225829,0.0225617,0.0225296,0.0224856,0.0224284,0.0223566,0.0222684,0.0221614,0.022033,0.02188,0.0216986,0.0214841,0.0212313,0.0209337,0.0205839,0.0201732,0.019691,0.0191254,0.018462,0.0176842,0.0167724,0.0157035,0.0144514,0.0129839,0.0112649,0.00925167,0.00689451,0.00413605,0.000908886,-0.00286433,-0.00727305,-0.012422,-0.0184274,-0.0254251,-0.0335685,-0.043035,-0.0540149,-0.0667272,-0.0814032,-0.0983111,-0.117713,-0.139908,-0.165186,-0.193827,-0.226116,-0.262266,-0.302466,-0.346799,-0.395295,-0.447823,-0.504197,-0.564103,-0.627131,-0.692839,-0.760788,-0.830604,-0.902061,-0.974879,-1.04885,-1.12387,-1.19986,-1.27657,-1.35384,-1.43182,-1.51017,-1.58887,-1.66798,-1.74743,-1.82669,-1.90751,-1.98598,-2.04971,-2.13067,-2.21163,-2.29259,-2.37356,-2.45453,-2.5355,-2.61647,-2.69745,-2.77843,-2.8594,-2.94038,-3.02136,-3.10234,-3.18333,-3.26431,-3.3453,-3.42628,-3.50727,-3.58825,-3.66924}
,{-0.223884,-0.208781,-0.194523,-0.181081,-0.168426,-0.156525,-0.145347,-0.134859,-0.125029,-0.115823,-0.10721,-0.0991584,-0.0916359,-0.0846127,-0.0780594,-0.0719475,-0.0662497,-0.0609398,-0.0559928,-0.0513847,-0.0470929,-0.0430957,-0.0393729,-0.0359051,-0.0326742,-0.029663,-0.0268555,-0.0242365,-0.0217919,-0.0195083,-0.0173735,-0.0153756,-0.0135039,-0.0117483,-0.0100991,-0.00854775,-0.00708586,-0.00570579,-0.00440042,-0.0031631,-0.00198765,-0.000868339,0.00020017,0.00122282,0.00220421,0.00314859,0.00405988,0.00494172,0.00579745,0.00663014,0.00744262,0.00823744,0.00901696,0.00978328,0.0105383,0.0112836,0.0120208,0.0127511,0.0134755,0.014195,0.0149101,0.0156215,0.0163293,0.0170338,0.0177348,0.0184321,0.0191254,0.019814,0.0204972,0.0211742,0.021844,0.0225055,0.0231576,0.0237989,0.0244282,0.025044,0.0256451,0.02623,0.0267975,0.0273463,0.0278752,0.0283832,0.0288694,0.0293329,0.0297731,0.0301896,0.030582,0.0309503,0.0312944,0.0316146,0.0319111,0.0321846,0.0324356,0.0326647,0.0328729,0.0330608,0.0332294,0.0333795,0.0335119,0.0336276,0.0337273,0.0338115,0.033881,0.0339362,0.0339774,0.0340048,0.0340183,0.0340176,0.0340024,0.0339719,0.033925,0.0338604,0.0337762,0.0336703,0.03354,0.0333819,0.0331921,0.0329658,0.0326973,0.0323801,0.032006,0.0315659,0.0310486,0.0304413,0.0297288,0.0288931,0.0279135,0.0267657,0.0254209,0.0238458,0.0220015,0.0198425,0.0173161,0.0143612,0.0109065,0.00686995,0.00215693,-0.00334283,-0.00975213,-0.0172137,-0.0258898,-0.0359603,-0.0476287,-0.0611167,-0.0766728,-0.0945608,-0.115052,-0.138444,-0.165026,-0.195071,-0.22885,-0.266559,-0.308355,-0.354293,-0.404351,-0.458384,-0.516149,-0.5773,-0.641417,-0.708052,-0.776778,-0.847281,-0.919295,-0.992614,-1.06704,-1.14249,-1.2188,-1.29578,-1.37331,-1.45151,-1.52998,-1.60903,-1.68818,-1.76782,-1.84713,-1.92806,-2.0078,-2.0713,-2.15225,-2.23321,-2.31417,-2.39513,-2.4761,-2.55706,-2.63803,-2.719,-2.79997,-2.88095,-2.96193,-3.0429,-3.12388,-3.20486,-3.28584,-3.36683,-3.44781,-3.5288,-3.60978,-3.69077,-3.77175,-3.85274}
,{-0.356328,-0.334567,-0.313777,-0.293949,-0.275073,-0.257134,-0.240114,-0.22399,-0.20874,-0.194335,-0.180747,-0.167947,-0.155903,-0.144583,-0.133954,-0.123984,-0.114639,-0.105889,-0.097699,-0.0900395,-0.0828796,-0.0761895,-0.0699406,-0.0641054,-0.0586574,-0.0535713,-0.0488229,-0.0443893,-0.0402487,-0.0363803,-0.0327648,-0.0293836,-0.0262195,-0.023256,-0.0204778,-0.0178706,-0.0154208,-0.0131158,-0.0109437,-0.00889361,-0.00695508,-0.00511852,-0.00337498,-0.00171611,-0.000134152,0.00137811,0.00282736,0.00421978,0.0055611,0.00685659,0.00811112,0.00932912,0.0105147,0.0116715,0.0128029,0.0139119,0.0150011,0.0160729,0.0171294,0.0181722,0.0192028,0.0202223,0.0212316,0.0222312,0.0232215,0.0242025,0.025174,0.0261355,0.0270864,0.0280258,0.0289527,0.0298657,0.0307636,0.0316449,0.0325079,0.033351,0.0341725,0.0349709,0.0357444,0.0364916,0.0372109,0.0379011,0.0385611,0.0391899,0.0397866,0.0403509,0.0408823,0.0413807,0.0418464,0.0422795,0.0426807,0.0430506,0.0433902,0.0437002,0.043982,0.0442366,0.0444652,0.0446691,0.0448494,0.0450072,0.0451438,0.04526,0.0453567,0.0454346,0.0454941,0.0455357,0.0455594,0.0455649,0.0455519,0.0455194,0.0454663,0.045391,0.0452913,0.0451647,0.0450079,0.0448168,0.0445867,0.0443119,0.0439854,0.0435992,0.0431435,0.0426071,0.0419766,0.0412364,0.0403679,0.0393495,0.0381563,0.0367583,0.0351212,0.0332047,0.030962,0.0283385,0.0252712,0.0216866,0.0175002,0.0126146,0.00691673,0.000280251,-0.00744097,-0.0164126,-0.0268188,-0.0388663,-0.052781,-0.0688136,-0.0872304,-0.108305,-0.132334,-0.159603,-0.190382,-0.224932,-0.263439,-0.306045,-0.352791,-0.403633,-0.458414,-0.516859,-0.578616,-0.643266,-0.71036,-0.779481,-0.850329,-0.922643,-0.996219,-1.07091,-1.14656,-1.22305,-1.3002,-1.37794,-1.45623,-1.53483,-1.61398,-1.69315,-1.77297,-1.85248,-1.93302,-2.01305,-2.0774,-2.15835,-2.2393,-2.32025,-2.40121,-2.48217,-2.56314,-2.64411,-2.72507,-2.80605,-2.88702,-2.96799,-3.04897,-3.12995,-3.21093,-3.29191,-3.37289,-3.45387,-3.53485,-3.61584,-3.69682,-3.77781,-3.8588,-3.93979}
,{-0.492346,-0.46527,-0.439117,-0.413908,-0.389654,-0.366367,-0.344049,-0.322702,-0.30232,-0.282894,-0.264411,-0.246854,-0.230204,-0.214437,-0.199527,-0.185447,-0.172168,-0.159659,-0.147887,-0.13682,-0.126427,-0.116672,-0.107525,-0.0989517,-0.0909213,-0.0834024,-0.0763647,-0.069779,-0.0636169,-0.0578514,-0.0524563,-0.0474069,-0.0426793,-0.0382511,-0.0341008,-0.0302083,-0.0265544,-0.0231211,-0.0198915,-0.0168496,-0.0139804,-0.0112699,-0.00870496,-0.00627329,-0.00396342,-0.00176466,0.000332926,0.0023386,0.00426092,0.00610784,0.00788668,0.00960419,0.0112666,0.0128794,0.014448,0.0159769,0.0174702,0.0189318,0.0203649,0.0217722,0.0231564,0.0245192,0.0258625,0.0271873,0.0284946,0.0297847,0.031058,0.0323142,0.0335527,0.0347729,0.0359738,0.0371539,0.038312,0.0394463,0.0405551,0.0416366,0.0426888,0.0437099,0.0446979,0.0456512,0.0465681,0.0474471,0.0482868,0.0490862,0.0498444,0.0505609,0.0512354,0.0518678,0.0524583,0.0530075,0.0535161,0.053985,0.0544154,0.0548085,0.0551658,0.0554889,0.0557792,0.0560384,0.0562679,0.0564694,0.0566443,0.0567937,0.0569189,0.0570208,0.0571002,0.0571575,0.0571929,0.0572063,0.0571973,0.0571651,0.0571082,0.0570249,0.056913,0.0567693,0.0565901,0.056371,0.0561063,0.0557895,0.0554127,0.0549665,0.0544398,0.0538196,0.0530904,0.0522342,0.0512298,0.0500525,0.048673,0.0470575,0.0451665,0.0429538,0.0403658,0.0373406,0.0338059,0.0296787,0.0248631,0.0192485,0.01271,0.00510418,-0.00373079,-0.0139788,-0.0258408,-0.0395424,-0.0553249,-0.0734566,-0.0942092,-0.117874,-0.144738,-0.175073,-0.209138,-0.247131,-0.289202,-0.335408,-0.38572,-0.439991,-0.497975,-0.559326,-0.62363,-0.690445,-0.759356,-0.830019,-0.902201,-0.975668,-1.05025,-1.12582,-1.20226,-1.27939,-1.35708,-1.43536,-1.51397,-1.59304,-1.67238,-1.75208,-1.83176,-1.91213,-1.99174,-2.05711,-2.13806,-2.21901,-2.29996,-2.38092,-2.46188,-2.54284,-2.6238,-2.70477,-2.78574,-2.86671,-2.94768,-3.02866,-3.10963,-3.19061,-3.27159,-3.35257,-3.43355,-3.51453,-3.59552,-3.6765,-3.75749,-3.83847,-3.91946,-4.00045}
,{-0.623826,-0.592878,-0.562718,-0.533382,-0.504901,-0.477307,-0.450623,-0.42487,-0.400066,-0.376221,-0.353343,-0.331434,-0.31049,-0.290506,-0.271469,-0.253366,-0.236176,-0.21988,-0.204451,-0.189864,-0.176089,-0.163097,-0.150856,-0.139333,-0.128496,-0.118311,-0.108747,-0.0997689,-0.0913458,-0.0834458,-0.076038,-0.0690924,-0.0625802,-0.0564735,-0.0507455,-0.0453707,-0.0403245,-0.0355838,-0.0311264,-0.0269316,-0.0229794,-0.0192514,-0.0157298,-0.0123983,-0.00924131,-0.00624439,-0.00339395,-0.000677365,0.00191715,0.00440054,0.00678294,0.00907373,0.0112816,0.0134143,0.0154793,0.0174831,0.0194317,0.0213304,0.0231839,0.0249965,0.0267718,0.0285129,0.0302223,0.0319021,0.0335538,0.0351786,0.0367772,0.0383496,0.0398958,0.0414153,0.042907,0.0443699,0.0458025,0.0472031,0.0485699,0.0499008,0.0511939,0.0524471,0.0536584,0.0548257,0.0559473,0.0570216,0.0580471,0.0590226,0.0599474,0.0608208,0.0616425,0.0624126,0.0631316,0.0638,0.0644189,0.0649895,0.0655132,0.0659917,0.0664268,0.0668204,0.0671743,0.0674906,0.0677713,0.0680182,0.0682331,0.0684176,0.0685733,0.0687013,0.0688026,0.068878,0.0689278,0.0689521,0.0689505,0.0689221,0.0688658,0.0687796,0.068661,0.0685069,0.0683131,0.0680748,0.0677859,0.0674393,0.0670264,0.0665368,0.0659584,0.065277,0.0644757,0.0635346,0.0624307,0.0611367,0.0596209,0.0578462,0.0557695,0.0533404,0.0505008,0.047183,0.0433087,0.0387881,0.0335175,0.0273774,0.020234,0.0119335,0.00230221,-0.00885213,-0.0217445,-0.0366082,-0.0537003,-0.0732913,-0.0956578,-0.121093,-0.149878,-0.18227,-0.218509,-0.258757,-0.303124,-0.351613,-0.404138,-0.460502,-0.520401,-0.583446,-0.64921,-0.717263,-0.787225,-0.858793,-0.931752,-1.0059,-1.08108,-1.1572,-1.23409,-1.31159,-1.38966,-1.46823,-1.5471,-1.62645,-1.70588,-1.78588,-1.8656,-1.94591,-2.01125,-2.09219,-2.17314,-2.25409,-2.33504,-2.41599,-2.49695,-2.57791,-2.65888,-2.73985,-2.82081,-2.90179,-2.98276,-3.06373,-3.14471,-3.22569,-3.30667,-3.38765,-3.46863,-3.54961,-3.6306,-3.71158,-3.79257,-3.87355,-3.95454,-4.03553}
,{-0.747011,-0.713373,-0.680366,-0.648032,-0.616413,-0.585548,-0.555475,-0.526231,-0.497847,-0.470351,-0.443768,-0.418118,-0.393417,-0.369674,-0.346897,-0.325085,-0.304236,-0.284342,-0.26539,-0.247365,-0.230248,-0.214016,-0.198644,-0.184105,-0.170369,-0.157406,-0.145185,-0.133672,-0.122835,-0.11264,-0.103055,-0.0940458,-0.0855809,-0.0776286,-0.070158,-0.0631394,-0.0565437,-0.0503432,-0.0445114,-0.0390226,-0.0338527,-0.0289784,-0.024378,-0.0200307,-0.015917,-0.0120184,-0.00831755,-0.00479832,-0.00144548,0.00175513,0.0048167,0.00775147,0.0105708,0.0132851,0.0159039,0.0184362,0.0208897,0.0232717,0.0255888,0.0278465,0.03005,0.0322036,0.034311,0.0363752,0.0383987,0.0403833,0.0423304,0.0442407,0.0461144,0.0479514,0.0497509,0.0515121,0.0532335,0.0549135,0.0565503,0.0581419,0.059686,0.0611806,0.0626236,0.0640127,0.0653462,0.0666222,0.0678393,0.0689964,0.0700924,0.0711269,0.0720998,0.0730112,0.0738616,0.0746521,0.0753837,0.076058,0.0766769,0.0772423,0.0777563,0.0782212,0.0786395,0.0790134,0.0793452,0.0796374,0.0798919,0.0801108,0.0802958,0.0804484,0.0805698,0.080661,0.0807224,0.0807542,0.080756,0.0807269,0.0806656,0.0805698,0.0804369,0.0802633,0.0800444,0.0797746,0.0794471,0.0790539,0.0785851,0.0780291,0.0773723,0.0765984,0.0756884,0.0746199,0.0733669,0.0718984,0.0701789,0.0681666,0.065813,0.0630617,0.0598474,0.0560945,0.0517159,0.0466113,0.0406655,0.0337483,0.0257107,0.0163852,0.00558258,-0.00690432,-0.0213044,-0.0378683,-0.056862,-0.078561,-0.103254,-0.131224,-0.162734,-0.198029,-0.237291,-0.280646,-0.328126,-0.379671,-0.43511,-0.49417,-0.556489,-0.621644,-0.689198,-0.758751,-0.829987,-0.902655,-0.976571,-1.05156,-1.12749,-1.20426,-1.28167,-1.35964,-1.43815,-1.517,-1.59627,-1.67577,-1.75561,-1.83546,-1.91587,-1.99595,-2.0625,-2.14344,-2.22438,-2.30533,-2.38628,-2.46724,-2.5482,-2.62916,-2.71013,-2.79109,-2.87206,-2.95303,-3.034,-3.11498,-3.19596,-3.27693,-3.35791,-3.43889,-3.51987,-3.60086,-3.68184,-3.76283,-3.84381,-3.9248,-4.00578,-4.08677}
,{-0.860779,-0.825301,-0.790314,-0.755857,-0.721974,-0.688706,-0.656096,-0.624186,-0.593016,-0.562626,-0.53305,-0.504324,-0.476475,-0.449529,-0.423509,-0.39843,-0.374306,-0.351142,-0.328941,-0.307702,-0.287417,-0.268076,-0.249664,-0.232163,-0.21555,-0.199802,-0.184891,-0.170789,-0.157466,-0.14489,-0.133028,-0.121848,-0.111315,-0.101398,-0.0920617,-0.0832748,-0.075005,-0.0672212,-0.059893,-0.0529912,-0.0464875,-0.040355,-0.0345678,-0.0291011,-0.0239315,-0.0190368,-0.0143959,-0.00998898,-0.00579742,-0.00180373,0.00200846,0.0056544,0.00914825,0.0125031,0.0157312,0.0188435,0.0218503,0.0247608,0.0275833,0.0303253,0.0329933,0.0355932,0.0381299,0.0406077,0.0430299,0.0453994,0.0477182,0.0499877,0.0522087,0.0543815,0.0565058,0.0585808,0.0606054,0.0625781,0.0644971,0.0663604,0.0681659,0.0699114,0.0715946,0.0732135,0.074766,0.0762505,0.0776653,0.0790093,0.0802817,0.0814819,0.0826101,0.0836664,0.0846518,0.0855672,0.0864143,0.0871949,0.0879112,0.0885654,0.0891601,0.0896981,0.090182,0.0906147,0.0909989,0.0913373,0.0916323,0.0918862,0.0921012,0.0922789,0.092421,0.0925283,0.0926016,0.0926411,0.0926465,0.0926167,0.0925504,0.0924451,0.0922978,0.0921045,0.0918602,0.0915586,0.0911922,0.0907519,0.0902268,0.089604,0.0888681,0.0880011,0.0869817,0.0857851,0.0843821,0.0827385,0.0808147,0.0785643,0.0759336,0.0728602,0.0692719,0.0650854,0.060205,0.0545209,0.0479067,0.040221,0.0313025,0.0209695,0.00902142,-0.0047642,-0.0206277,-0.0388315,-0.059647,-0.0833589,-0.110251,-0.140593,-0.174636,-0.212585,-0.254586,-0.300712,-0.350924,-0.405097,-0.462996,-0.524286,-0.588561,-0.655388,-0.724353,-0.7951,-0.867354,-0.940919,-1.01562,-1.0913,-1.16785,-1.24512,-1.32295,-1.40134,-1.48014,-1.55929,-1.63883,-1.71853,-1.79856,-1.87865,-1.95881,-2.0259,-2.10684,-2.18778,-2.26872,-2.34967,-2.43062,-2.51158,-2.59254,-2.6735,-2.75446,-2.83543,-2.9164,-2.99737,-3.07834,-3.15932,-3.24029,-3.32127,-3.40225,-3.48323,-3.56421,-3.6452,-3.72618,-3.80716,-3.88815,-3.96914,-4.05012,-4.13111}
,{-0.965337,-0.928595,-0.892229,-0.856276,-0.820775,-0.785764,-0.751285,-0.71738,-0.684092,-0.651464,-0.619536,-0.588349,-0.557943,-0.528352,-0.499609,-0.471744,-0.444782,-0.418744,-0.393646,-0.3695,-0.346312,-0.324084,-0.302814,-0.282495,-0.263114,-0.244658,-0.227107,-0.210439,-0.19463,-0.179652,-0.165476,-0.152072,-0.139408,-0.127451,-0.116167,-0.105525,-0.0954887,-0.0860268,-0.0771062,-0.0686948,-0.0607614,-0.0532759,-0.046209,-0.0395325,-0.0332194,-0.0272441,-0.021582,-0.0162097,-0.0111054,-0.00624819,-0.00161858,0.00280173,0.0070298,0.0110815,0.0149717,0.0187138,0.0223204,0.0258029,0.0291716,0.0324358,0.0356039,0.0386832,0.04168,0.0446,0.0474476,0.0502266,0.05294,0.0555899,0.0581779,0.0607047,0.0631705,0.0655749,0.067917,0.0701955,0.0724089,0.0745551,0.0766322,0.0786379,0.08057,0.0824265,0.0842053,0.0859047,0.0875231,0.0890595,0.090513,0.0918834,0.0931708,0.0943756,0.095499,0.0965423,0.0975072,0.0983962,0.0992115,0.099956,0.100633,0.101244,0.101795,0.102286,0.102723,0.103107,0.103442,0.10373,0.103973,0.104174,0.104335,0.104455,0.104537,0.10458,0.104584,0.104548,0.10447,0.104347,0.104176,0.103953,0.10367,0.103322,0.1029,0.102392,0.101787,0.10107,0.100224,0.0992264,0.0980545,0.0966795,0.0950681,0.0931815,0.0909744,0.0883943,0.0853803,0.0818619,0.0777575,0.0729736,0.0674028,0.0609217,0.0533918,0.0446551,0.0345339,0.0228314,0.00932918,-0.00620942,-0.0240422,-0.04444,-0.0676797,-0.0940478,-0.123818,-0.157238,-0.194532,-0.235847,-0.281273,-0.330795,-0.384306,-0.44159,-0.502327,-0.566136,-0.63258,-0.701232,-0.771733,-0.843788,-0.917179,-0.991732,-1.0673,-1.14376,-1.22096,-1.29876,-1.37709,-1.4559,-1.53502,-1.61457,-1.69424,-1.77435,-1.85431,-1.93476,-2.01533,-2.08317,-2.1641,-2.24504,-2.32599,-2.40694,-2.48789,-2.56885,-2.64981,-2.73077,-2.81173,-2.8927,-2.97367,-3.05464,-3.13561,-3.21659,-3.29756,-3.37854,-3.45952,-3.5405,-3.62148,-3.70246,-3.78345,-3.86443,-3.94542,-4.0264,-4.10739,-4.18838}
,{-1.06145,-1.02382,-0.986481,-0.949463,-0.912798,-0.876522,-0.84067,-0.805282,-0.770398,-0.736061,-0.702311,-0.669192,-0.636745,-0.605013,-0.574035,-0.543848,-0.514488,-0.485984,-0.458366,-0.431656,-0.405874,-0.381034,-0.357146,-0.334214,-0.312239,-0.291215,-0.271135,-0.251984,-0.233747,-0.216403,-0.199929,-0.184298,-0.169483,-0.155455,-0.142181,-0.12963,-0.117768,-0.106561,-0.0959777,-0.0859828,-0.0765439,-0.0676283,-0.0592044,-0.0512414,-0.0437092,-0.0365792,-0.0298237,-0.0234163,-0.0173319,-0.0115465,-0.0060377,-0.000784085,0.00423425,0.00903596,0.0136385,0.0180578,0.022309,0.0264055,0.0303599,0.0341834,0.0378862,0.0414773,0.0449645,0.0483548,0.051654,0.0548671,0.0579978,0.0610494,0.064024,0.0669229,0.0697471,0.0724965,0.0751705,0.0777683,0.0802883,0.0827289,0.085088,0.0873637,0.0895537,0.091656,0.0936686,0.0955899,0.0974184,0.0991531,0.100793,0.102339,0.10379,0.105148,0.106413,0.107588,0.108674,0.109675,0.110593,0.11143,0.112192,0.112881,0.1135,0.114054,0.114546,0.114979,0.115357,0.115683,0.11596,0.116189,0.116373,0.116513,0.11661,0.116664,0.116676,0.116643,0.116565,0.116439,0.11626,0.116024,0.115725,0.115356,0.114906,0.114366,0.113721,0.112956,0.112052,0.110987,0.109736,0.108269,0.106549,0.104536,0.102182,0.0994317,0.0962196,0.0924717,0.088102,0.0830119,0.0770885,0.0702023,0.0622084,0.0529417,0.0422175,0.0298316,0.0155589,-0.000843535,-0.0196388,-0.0410989,-0.0655065,-0.0931397,-0.124267,-0.159126,-0.197911,-0.240756,-0.287715,-0.338735,-0.393676,-0.452287,-0.514223,-0.579075,-0.646413,-0.71583,-0.786979,-0.859595,-0.933486,-1.00848,-1.08445,-1.16125,-1.23874,-1.31679,-1.39536,-1.47435,-1.55367,-1.63335,-1.7132,-1.79334,-1.87359,-1.95393,-2.02234,-2.10328,-2.18421,-2.26515,-2.3461,-2.42705,-2.508,-2.58895,-2.66991,-2.75087,-2.83184,-2.91281,-2.99377,-3.07475,-3.15572,-3.23669,-3.31767,-3.39865,-3.47963,-3.56061,-3.64159,-3.72257,-3.80356,-3.88454,-3.96553,-4.04651,-4.1275,-4.20849}
,{-1.15003,-1.11177,-1.07372,-1.03593,-0.998421,-0.961215,-0.924347,-0.887852,-0.851766,-0.816125,-0.780972,-0.746346,-0.71229,-0.678846,-0.646057,-0.613965,-0.582609,-0.552028,-0.522258,-0.493331,-0.465276,-0.438119,-0.41188,-0.386575,-0.362215,-0.338807,-0.316353,-0.294848,-0.274287,-0.254657,-0.235942,-0.218124,-0.201181,-0.185086,-0.169813,-0.155333,-0.141614,-0.128624,-0.116331,-0.104701,-0.0937001,-0.0832952,-0.0734528,-0.0641404,-0.0553257,-0.0469777,-0.0390662,-0.0315621,-0.0244374,-0.0176655,-0.011221,-0.00507978,0.000780855,0.00638226,0.0117444,0.016886,0.0218242,0.026575,0.0311531,0.0355716,0.0398426,0.0439768,0.0479839,0.0518721,0.0556487,0.0593197,0.0628902,0.0663641,0.0697446,0.0730337,0.0762328,0.0793425,0.0823627,0.0852928,0.0881317,0.0908777,0.0935292,0.0960842,0.0985407,0.100897,0.10315,0.1053,0.107345,0.109283,0.111115,0.11284,0.114459,0.115973,0.117383,0.118692,0.119902,0.121016,0.122038,0.12297,0.123817,0.124583,0.125272,0.125888,0.126434,0.126916,0.127335,0.127697,0.128004,0.128257,0.128461,0.128615,0.128722,0.128781,0.128792,0.128755,0.128666,0.128523,0.128321,0.128056,0.12772,0.127305,0.126801,0.126195,0.125472,0.124616,0.123604,0.122413,0.121014,0.119373,0.117452,0.115204,0.112577,0.109509,0.105929,0.101754,0.096892,0.0912334,0.0846548,0.0770171,0.068162,0.0579119,0.04607,0.0324184,0.0167212,-0.00127793,-0.0218478,-0.0452644,-0.0718099,-0.101755,-0.135347,-0.172802,-0.214269,-0.259836,-0.309488,-0.363121,-0.420517,-0.481369,-0.545291,-0.611856,-0.680641,-0.75127,-0.823457,-0.896975,-0.971661,-1.04735,-1.12393,-1.20125,-1.27917,-1.35762,-1.43655,-1.5158,-1.59543,-1.67524,-1.75537,-1.83555,-1.91613,-1.99657,-2.0658,-2.14673,-2.22767,-2.30861,-2.38955,-2.4705,-2.55146,-2.63241,-2.71337,-2.79433,-2.8753,-2.95626,-3.03723,-3.1182,-3.19918,-3.28015,-3.36113,-3.44211,-3.52308,-3.60406,-3.68505,-3.76603,-3.84701,-3.928,-4.00898,-4.08997,-4.17096,-4.25194}
,{-1.23199,-1.19325,-1.15469,-1.11632,-1.07818,-1.04028,-1.00265,-0.965316,-0.928315,-0.891678,-0.855441,-0.819641,-0.784318,-0.749513,-0.715267,-0.681624,-0.648627,-0.616315,-0.584731,-0.553913,-0.523896,-0.494715,-0.466398,-0.438972,-0.412457,-0.38687,-0.362223,-0.338524,-0.315774,-0.293972,-0.273109,-0.253176,-0.234157,-0.216034,-0.198784,-0.182382,-0.166802,-0.152015,-0.137989,-0.124692,-0.112093,-0.100156,-0.088849,-0.078138,-0.0679896,-0.0583711,-0.0492505,-0.0405964,-0.0323786,-0.0245682,-0.0171371,-0.0100587,-0.00330786,0.00313941,0.00930557,0.0152117,0.0208774,0.0263209,0.0315589,0.0366068,0.0414785,0.0461866,0.0507423,0.0551555,0.0594347,0.0635874,0.0676197,0.0715366,0.0753422,0.0790393,0.0826301,0.0861156,0.0894963,0.0927721,0.095942,0.0990049,0.101959,0.104803,0.107535,0.110153,0.112656,0.115041,0.117308,0.119456,0.121485,0.123394,0.125186,0.12686,0.12842,0.129867,0.131204,0.132435,0.133563,0.134593,0.135529,0.136374,0.137135,0.137816,0.13842,0.138952,0.139417,0.139817,0.140157,0.14044,0.140667,0.140841,0.140963,0.141033,0.141051,0.141016,0.140925,0.140777,0.140565,0.140285,0.13993,0.139489,0.138953,0.138309,0.13754,0.136628,0.135551,0.134283,0.132794,0.131048,0.129004,0.126614,0.123821,0.12056,0.116758,0.112326,0.107168,0.101168,0.0941986,0.0861135,0.0767481,0.0659181,0.0534201,0.0390297,0.0225052,0.00358576,-0.0180005,-0.0425291,-0.0702799,-0.101517,-0.136473,-0.175348,-0.218268,-0.26529,-0.316366,-0.371358,-0.43002,-0.49201,-0.556934,-0.624356,-0.693867,-0.765122,-0.837847,-0.911843,-0.986945,-1.06302,-1.13993,-1.21753,-1.2957,-1.37438,-1.45348,-1.5329,-1.6127,-1.69263,-1.77292,-1.85314,-1.93372,-2.00342,-2.08435,-2.16528,-2.24621,-2.32715,-2.4081,-2.48905,-2.57,-2.65096,-2.73191,-2.81288,-2.89384,-2.97481,-3.05578,-3.13675,-3.21772,-3.29869,-3.37967,-3.46065,-3.54163,-3.62261,-3.70359,-3.78457,-3.86556,-3.94654,-4.02753,-4.10851,-4.1895,-4.27049}
,{-1.30813,-1.26902,-1.23006,-1.19126,-1.15264,-1.11421,-1.07599,-1.03802,-1.00032,-0.962912,-0.925832,-0.889112,-0.852789,-0.816901,-0.781487,-0.746587,-0.712245,-0.678502,-0.645402,-0.612985,-0.581292,-0.550362,-0.52023,-0.490931,-0.462493,-0.434941,-0.408298,-0.382579,-0.357797,-0.333958,-0.311064,-0.289113,-0.268099,-0.248009,-0.228828,-0.210538,-0.193117,-0.176539,-0.160777,-0.145803,-0.131584,-0.11809,-0.105287,-0.0931417,-0.0816204,-0.0706897,-0.0603163,-0.0504674,-0.0411113,-0.0322168,-0.0237539,-0.015694,-0.00800931,-0.000673783,0.00633742,0.0130477,0.0194788,0.0256513,0.031584,0.0372942,0.0427978,0.0481093,0.0532414,0.0582057,0.0630122,0.0676696,0.0721853,0.0765655,0.0808151,0.0849379,0.0889366,0.0928132,0.0965686,0.100203,0.103716,0.107107,0.110375,0.113517,0.116534,0.119422,0.12218,0.124808,0.127303,0.129666,0.131897,0.133996,0.135964,0.137803,0.139514,0.141102,0.142568,0.143918,0.145155,0.146284,0.147309,0.148235,0.149068,0.149813,0.150474,0.151057,0.151565,0.152003,0.152375,0.152683,0.152931,0.15312,0.153252,0.153327,0.153345,0.153305,0.153204,0.153039,0.152805,0.152495,0.152103,0.151617,0.151026,0.150316,0.149469,0.148465,0.147281,0.145886,0.144249,0.142331,0.140086,0.137462,0.134398,0.130823,0.126657,0.121807,0.116164,0.109609,0.102002,0.0931871,0.0829902,0.0712158,0.0576501,0.0420587,0.0241915,0.00378065,-0.019447,-0.0457703,-0.0754593,-0.108761,-0.145894,-0.187015,-0.232217,-0.281502,-0.334778,-0.391842,-0.452403,-0.516085,-0.582468,-0.651129,-0.721684,-0.793824,-0.86732,-0.941998,-1.0177,-1.0943,-1.17167,-1.24965,-1.32816,-1.40714,-1.48649,-1.56615,-1.6461,-1.72624,-1.80662,-1.88719,-1.96757,-2.03824,-2.11917,-2.2001,-2.28104,-2.36198,-2.44292,-2.52387,-2.60482,-2.68578,-2.76674,-2.8477,-2.92866,-3.00963,-3.0906,-3.17157,-3.25254,-3.33352,-3.41449,-3.49547,-3.57645,-3.65743,-3.73841,-3.8194,-3.90038,-3.98136,-4.06235,-4.14334,-4.22432,-4.30531}
,{-1.37915,-1.33976,-1.30049,-1.26135,-1.22235,-1.18351,-1.14484,-1.10637,-1.06811,-1.0301,-0.99236,-0.954914,-0.917797,-0.881043,-0.844688,-0.80877,-0.773328,-0.738405,-0.704041,-0.67028,-0.637165,-0.604735,-0.573033,-0.542095,-0.511957,-0.482653,-0.45421,-0.426654,-0.400005,-0.374278,-0.349485,-0.325632,-0.30272,-0.280746,-0.259701,-0.239575,-0.220351,-0.202009,-0.184527,-0.16788,-0.15204,-0.136977,-0.12266,-0.109058,-0.0961357,-0.0838614,-0.0722009,-0.0611209,-0.0505883,-0.0405708,-0.0310369,-0.0219558,-0.0132982,-0.00503582,0.00285819,0.0104093,0.0176415,0.0245772,0.0312374,0.0376414,0.0438069,0.0497502,0.0554857,0.0610267,0.0663846,0.0715695,0.0765901,0.0814535,0.0861659,0.0907318,0.0951549,0.0994378,0.103582,0.107589,0.111457,0.115188,0.118779,0.12223,0.12554,0.128706,0.131728,0.134605,0.137336,0.13992,0.142359,0.144652,0.146801,0.148808,0.150676,0.152408,0.154008,0.15548,0.156829,0.158059,0.159177,0.160187,0.161095,0.161907,0.162628,0.163264,0.163819,0.164298,0.164705,0.165043,0.165316,0.165525,0.165673,0.16576,0.165786,0.165749,0.165647,0.165477,0.165233,0.16491,0.164498,0.163987,0.163366,0.162618,0.161726,0.160668,0.159419,0.15795,0.156225,0.154204,0.15184,0.149077,0.145853,0.142093,0.137713,0.132616,0.126691,0.119811,0.111833,0.102597,0.0919211,0.079606,0.0654321,0.0491607,0.0305383,0.00929418,-0.0148446,-0.0421547,-0.0729006,-0.10732,-0.145616,-0.187929,-0.234328,-0.284789,-0.339193,-0.39731,-0.458827,-0.523357,-0.590472,-0.659758,-0.730846,-0.803448,-0.877357,-0.952398,-1.02843,-1.10531,-1.18293,-1.26113,-1.33984,-1.419,-1.49848,-1.5783,-1.65835,-1.73865,-1.81902,-1.89972,-1.98026,-2.05161,-2.13254,-2.21347,-2.2944,-2.37534,-2.45629,-2.53724,-2.61819,-2.69915,-2.78011,-2.86107,-2.94203,-3.023,-3.10397,-3.18494,-3.26591,-3.34689,-3.42786,-3.50884,-3.58982,-3.6708,-3.75178,-3.83276,-3.91375,-3.99473,-4.07572,-4.1567,-4.23769,-4.31868}
,{-1.44565,-1.40604,-1.36652,-1.32711,-1.28781,-1.24864,-1.20961,-1.17074,-1.13205,-1.09356,-1.05529,-1.01726,-0.979508,-0.942057,-0.90494,-0.868192,-0.83185,-0.795952,-0.760538,-0.725651,-0.691331,-0.657623,-0.624567,-0.592205,-0.560577,-0.52972,-0.499669,-0.470456,-0.442108,-0.414648,-0.388096,-0.362466,-0.337768,-0.314006,-0.29118,-0.269285,-0.248313,-0.22825,-0.209079,-0.19078,-0.173329,-0.1567,-0.140865,-0.125793,-0.111454,-0.0978146,-0.0848419,-0.0725025,-0.0607629,-0.0495901,-0.0389514,-0.0288149,-0.0191497,-0.00992586,-0.00111477,0.0073109,0.015377,0.023108,0.0305267,0.0376542,0.0445102,0.0511125,0.0574775,0.0636198,0.0695524,0.0752869,0.080833,0.0861992,0.0913926,0.0964189,0.101282,0.105987,0.110534,0.114925,0.119161,0.123242,0.127168,0.130937,0.134548,0.138001,0.141295,0.144427,0.1474,0.150211,0.152862,0.155354,0.157688,0.159868,0.161895,0.163775,0.16551,0.167106,0.168568,0.169901,0.171112,0.172206,0.173189,0.174068,0.174849,0.175536,0.176136,0.176653,0.177092,0.177457,0.17775,0.177975,0.178132,0.178223,0.178247,0.178204,0.178089,0.1779,0.17763,0.177273,0.176819,0.176258,0.175575,0.174754,0.173775,0.172615,0.171247,0.169638,0.16775,0.165539,0.162954,0.159936,0.156415,0.152312,0.147537,0.141984,0.135536,0.128056,0.119392,0.109375,0.0978118,0.0844945,0.0691933,0.0516625,0.0316393,0.00885205,-0.0169718,-0.0461042,-0.0787974,-0.115268,-0.155695,-0.200176,-0.248739,-0.301308,-0.357711,-0.417678,-0.480849,-0.546821,-0.615163,-0.685481,-0.757448,-0.830809,-0.905382,-0.981009,-1.05756,-1.1349,-1.2129,-1.29143,-1.37043,-1.44984,-1.52953,-1.60957,-1.68975,-1.77023,-1.85068,-1.93142,-2.00332,-2.08424,-2.16517,-2.2461,-2.32703,-2.40797,-2.48892,-2.56987,-2.65082,-2.73178,-2.81273,-2.8937,-2.97466,-3.05563,-3.1366,-3.21757,-3.29854,-3.37951,-3.46049,-3.54147,-3.62245,-3.70343,-3.78441,-3.86539,-3.94638,-4.02736,-4.10835,-4.18933,-4.27032,-4.35131}
,{-1.50815,-1.46836,-1.42864,-1.389,-1.34946,-1.31002,-1.2707,-1.23151,-1.19247,-1.15359,-1.11489,-1.07639,-1.03812,-1.00011,-0.962368,-0.924941,-0.887857,-0.851152,-0.814863,-0.77903,-0.743694,-0.708896,-0.674679,-0.641085,-0.608156,-0.575932,-0.544453,-0.513755,-0.483872,-0.454833,-0.426665,-0.399389,-0.373022,-0.347578,-0.323062,-0.299479,-0.276827,-0.255098,-0.234282,-0.214364,-0.195325,-0.177145,-0.159798,-0.143257,-0.127494,-0.112477,-0.0981756,-0.0845563,-0.0715861,-0.0592319,-0.0474606,-0.0362394,-0.0255364,-0.0153204,-0.0055613,0.0037697,0.0127002,0.0212562,0.0294624,0.0373416,0.0449153,0.0522028,0.0592223,0.0659899,0.07252,0.0788255,0.0849176,0.090806,0.0964987,0.102002,0.107322,0.112463,0.117427,0.122216,0.126832,0.131276,0.135546,0.139643,0.143565,0.147313,0.150885,0.154281,0.157502,0.160546,0.163415,0.166112,0.168636,0.170993,0.173184,0.175214,0.177089,0.178812,0.180391,0.18183,0.183137,0.184318,0.18538,0.186329,0.187172,0.187914,0.188563,0.189122,0.189597,0.189993,0.190312,0.190557,0.190731,0.190834,0.190865,0.190824,0.190708,0.190512,0.190232,0.189859,0.189384,0.188795,0.188079,0.187217,0.186189,0.184971,0.183533,0.181843,0.179861,0.17754,0.174828,0.171662,0.16797,0.16367,0.158668,0.152856,0.14611,0.13829,0.12924,0.118783,0.106726,0.0928521,0.0769293,0.058708,0.037923,0.0143037,-0.0124243,-0.0425249,-0.0762436,-0.113787,-0.155311,-0.200901,-0.25056,-0.304184,-0.361581,-0.422457,-0.486441,-0.553116,-0.622064,-0.692901,-0.765314,-0.839068,-0.913995,-0.989935,-1.06676,-1.14435,-1.22256,-1.30128,-1.38046,-1.46002,-1.53986,-1.62,-1.70029,-1.78088,-1.86148,-1.94221,-2.01486,-2.09578,-2.17671,-2.25764,-2.33857,-2.41951,-2.50046,-2.58141,-2.66236,-2.74332,-2.82428,-2.90524,-2.9862,-3.06717,-3.14814,-3.22911,-3.31008,-3.39106,-3.47203,-3.55301,-3.63399,-3.71497,-3.79595,-3.87693,-3.95792,-4.0389,-4.11989,-4.20087,-4.28186,-4.36285}
,{-1.56708,-1.52714,-1.48725,-1.44743,-1.40769,-1.36803,-1.32847,-1.28902,-1.24969,-1.21049,-1.17144,-1.13256,-1.09386,-1.05538,-1.01713,-0.979139,-0.94144,-0.904063,-0.867043,-0.830415,-0.794219,-0.758493,-0.72328,-0.688621,-0.65456,-0.621138,-0.588396,-0.556375,-0.525113,-0.494643,-0.464999,-0.436208,-0.408295,-0.381278,-0.355172,-0.329989,-0.305732,-0.282402,-0.259995,-0.238502,-0.217911,-0.198204,-0.179362,-0.161361,-0.144176,-0.127779,-0.11214,-0.0972279,-0.0830104,-0.069455,-0.0565287,-0.0441986,-0.0324321,-0.0211972,-0.0104628,-0.000198898,0.00962355,0.0190321,0.0280527,0.0367101,0.045027,0.0530246,0.0607224,0.0681381,0.0752876,0.0821851,0.088843,0.0952722,0.101482,0.10748,0.113272,0.118863,0.124258,0.129458,0.134466,0.139282,0.143907,0.148341,0.152584,0.156635,0.160493,0.16416,0.167634,0.170917,0.17401,0.176914,0.179634,0.18217,0.184528,0.186713,0.188728,0.190581,0.192278,0.193824,0.195228,0.196496,0.197636,0.198654,0.199557,0.200353,0.201047,0.201645,0.202153,0.202574,0.202913,0.203172,0.203353,0.203458,0.203485,0.203433,0.203299,0.203079,0.202767,0.202353,0.201828,0.201178,0.200388,0.19944,0.198309,0.196971,0.195394,0.19354,0.191367,0.188824,0.185855,0.182391,0.178355,0.173659,0.168201,0.161864,0.154516,0.14601,0.136177,0.124834,0.111773,0.0967708,0.0795859,0.0599625,0.0376307,0.0123199,-0.01624,-0.0483031,-0.0840931,-0.123795,-0.167524,-0.215327,-0.267151,-0.32285,-0.382173,-0.444788,-0.5103,-0.578284,-0.648334,-0.7201,-0.793307,-0.867764,-0.943306,-1.01979,-1.0971,-1.1751,-1.25365,-1.33268,-1.41213,-1.49189,-1.57196,-1.65223,-1.73274,-1.81332,-1.8942,-1.97494,-2.04834,-2.12926,-2.21019,-2.29112,-2.37206,-2.453,-2.53394,-2.61489,-2.69584,-2.7768,-2.85776,-2.93872,-3.01968,-3.10065,-3.18162,-3.26259,-3.34356,-3.42454,-3.50551,-3.58649,-3.66747,-3.74845,-3.82943,-3.91041,-3.9914,-4.07238,-4.15337,-4.23435,-4.31534,-4.39633}
,{-1.62282,-1.58274,-1.54272,-1.50275,-1.46284,-1.423,-1.38324,-1.34356,-1.30399,-1.26452,-1.22518,-1.18598,-1.14693,-1.10806,-1.06939,-1.03093,-0.992715,-0.954776,-0.91714,-0.879841,-0.842915,-0.806398,-0.77033,-0.734753,-0.699707,-0.665236,-0.631381,-0.598185,-0.565688,-0.533929,-0.502944,-0.472766,-0.443426,-0.414948,-0.387355,-0.360663,-0.334884,-0.310025,-0.28609,-0.263075,-0.240973,-0.219774,-0.199463,-0.18002,-0.161425,-0.143651,-0.126674,-0.110463,-0.0949874,-0.0802169,-0.0661187,-0.0526602,-0.0398089,-0.0275323,-0.0157988,-0.00457729,0.0061621,0.0164482,0.0263083,0.0357684,0.0448527,0.0535839,0.0619829,0.0700688,0.0778587,0.0853684,0.0926114,0.0995997,0.106344,0.112852,0.119132,0.125189,0.131028,0.136652,0.142063,0.147264,0.152254,0.157035,0.161606,0.165968,0.170121,0.174064,0.177799,0.181326,0.184648,0.187766,0.190684,0.193404,0.195933,0.198274,0.200434,0.202418,0.204235,0.20589,0.207392,0.208748,0.209965,0.211053,0.212017,0.212865,0.213604,0.21424,0.214778,0.215223,0.215578,0.215848,0.216033,0.216134,0.216152,0.216082,0.215924,0.21567,0.215314,0.214847,0.214257,0.213529,0.212647,0.211589,0.21033,0.208841,0.207088,0.205029,0.202618,0.199799,0.19651,0.192676,0.188213,0.183025,0.177001,0.170016,0.161927,0.152575,0.141781,0.129349,0.115062,0.0986852,0.0799693,0.0586498,0.0344565,0.00712168,-0.0236166,-0.0579959,-0.0962125,-0.138417,-0.184679,-0.234991,-0.289239,-0.34722,-0.408633,-0.473105,-0.54022,-0.60956,-0.68075,-0.753483,-0.82753,-0.902723,-0.978914,-1.05597,-1.13378,-1.21219,-1.29109,-1.37044,-1.45016,-1.53015,-1.61044,-1.69086,-1.77154,-1.85225,-1.93313,-2.00722,-2.08813,-2.16905,-2.24998,-2.33091,-2.41185,-2.49279,-2.57373,-2.65468,-2.73563,-2.81659,-2.89755,-2.97851,-3.05947,-3.14044,-3.22141,-3.30238,-3.38335,-3.46433,-3.5453,-3.62628,-3.70726,-3.78824,-3.86922,-3.95021,-4.03119,-4.11217,-4.19316,-4.27415,-4.35513,-4.43612}
,{-1.67568,-1.6355,-1.59535,-1.55525,-1.5152,-1.4752,-1.43527,-1.39541,-1.35563,-1.31595,-1.27636,-1.23689,-1.19754,-1.15834,-1.11931,-1.08046,-1.04181,-1.0034,-0.96524,-0.927372,-0.889823,-0.852629,-0.815827,-0.779454,-0.743553,-0.708164,-0.673329,-0.639091,-0.605493,-0.572575,-0.540376,-0.508935,-0.478284,-0.448456,-0.419478,-0.391372,-0.364157,-0.337846,-0.312449,-0.287971,-0.264409,-0.241759,-0.220011,-0.199151,-0.179163,-0.160026,-0.141715,-0.124205,-0.107468,-0.0914739,-0.076192,-0.0615903,-0.047637,-0.0342996,-0.0215464,-0.00934567,0.00233309,0.0135196,0.0242422,0.034528,0.0444026,0.0538898,0.0630119,0.0717891,0.0802402,0.0883818,0.0962289,0.103795,0.11109,0.118125,0.124908,0.131446,0.137743,0.143804,0.149631,0.155227,0.160594,0.165732,0.170642,0.175324,0.179779,0.184007,0.18801,0.191789,0.195346,0.198684,0.201806,0.204716,0.207421,0.209924,0.212233,0.214355,0.216296,0.218066,0.219671,0.221121,0.222423,0.223587,0.224619,0.225528,0.226321,0.227004,0.227584,0.228066,0.228453,0.22875,0.228958,0.229079,0.229112,0.229055,0.228906,0.228658,0.228306,0.22784,0.227247,0.226515,0.225624,0.224555,0.223282,0.221776,0.220001,0.217917,0.215475,0.212622,0.209292,0.205413,0.200898,0.19565,0.189559,0.182498,0.174325,0.164879,0.153982,0.141437,0.127026,0.110515,0.0916551,0.0701822,0.0458273,0.0183237,-0.0125885,-0.0471447,-0.0855393,-0.12792,-0.174354,-0.224832,-0.27924,-0.337373,-0.39893,-0.463536,-0.530782,-0.600248,-0.671554,-0.744401,-0.818554,-0.893848,-0.970135,-1.04729,-1.12518,-1.20367,-1.28266,-1.36209,-1.44188,-1.52194,-1.6023,-1.68279,-1.76353,-1.84428,-1.92525,-2.00634,-2.08097,-2.16189,-2.24281,-2.32374,-2.40468,-2.48562,-2.56656,-2.64751,-2.72847,-2.80942,-2.89038,-2.97134,-3.05231,-3.13327,-3.21424,-3.29521,-3.37619,-3.45716,-3.53814,-3.61911,-3.70009,-3.78107,-3.86206,-3.94304,-4.02402,-4.10501,-4.18599,-4.26698,-4.34797,-4.42895}
,{-1.72594,-1.68566,-1.64541,-1.6052,-1.56503,-1.5249,-1.48483,-1.44481,-1.40485,-1.36497,-1.32518,-1.28547,-1.24588,-1.2064,-1.16706,-1.12788,-1.08886,-1.05004,-1.01144,-0.973085,-0.935003,-0.897227,-0.859791,-0.82273,-0.786084,-0.749891,-0.714194,-0.679034,-0.644454,-0.610496,-0.577202,-0.544612,-0.512763,-0.481691,-0.451428,-0.422003,-0.393439,-0.365756,-0.33897,-0.313091,-0.288123,-0.264069,-0.240924,-0.21868,-0.197324,-0.176839,-0.157207,-0.138405,-0.120407,-0.103186,-0.0867137,-0.0709588,-0.0558904,-0.041477,-0.0276869,-0.0144884,-0.00185068,0.0102566,0.0218625,0.0329952,0.043681,0.0539451,0.0638107,0.0732994,0.0824311,0.0912235,0.0996928,0.107853,0.115717,0.123295,0.130596,0.137628,0.144397,0.150907,0.157162,0.163165,0.168918,0.174423,0.17968,0.18469,0.189455,0.193975,0.198253,0.202289,0.206086,0.209648,0.212979,0.216084,0.218967,0.221636,0.224097,0.226357,0.228426,0.23031,0.23202,0.233564,0.234951,0.23619,0.23729,0.238258,0.239103,0.239832,0.240451,0.240965,0.24138,0.241698,0.241923,0.242055,0.242095,0.24204,0.241888,0.241632,0.241266,0.240781,0.240163,0.239399,0.238469,0.237353,0.236024,0.234451,0.232598,0.230422,0.227875,0.224899,0.221427,0.217384,0.212681,0.207218,0.20088,0.193539,0.185046,0.175239,0.163934,0.15093,0.136007,0.118928,0.0994396,0.0772786,0.052176,0.0238681,-0.00789989,-0.0433552,-0.0826807,-0.126009,-0.173392,-0.224797,-0.280093,-0.339053,-0.401364,-0.46664,-0.534465,-0.60443,-0.676168,-0.749388,-0.823874,-0.899467,-0.976021,-1.05341,-1.13152,-1.2102,-1.28935,-1.36893,-1.44885,-1.52904,-1.6095,-1.69008,-1.77091,-1.85176,-1.93276,-2.0083,-2.08922,-2.17014,-2.25106,-2.33199,-2.41293,-2.49387,-2.57481,-2.65576,-2.73672,-2.81767,-2.89863,-2.97959,-3.06056,-3.14152,-3.22249,-3.30346,-3.38444,-3.46541,-3.54639,-3.62736,-3.70834,-3.78932,-3.87031,-3.95129,-4.03227,-4.11326,-4.19424,-4.27523,-4.35621,-4.4372}
,{-1.77384,-1.73348,-1.69314,-1.65283,-1.61256,-1.57231,-1.53211,-1.49196,-1.45185,-1.41181,-1.37183,-1.33193,-1.29212,-1.2524,-1.2128,-1.17333,-1.13399,-1.09483,-1.05584,-1.01707,-0.978528,-0.940249,-0.902263,-0.864604,-0.827307,-0.79041,-0.753952,-0.717975,-0.682521,-0.647632,-0.613351,-0.579719,-0.546777,-0.514563,-0.483114,-0.452461,-0.422635,-0.393661,-0.365559,-0.338345,-0.312031,-0.286624,-0.262126,-0.238533,-0.215839,-0.194031,-0.173095,-0.153012,-0.13376,-0.115314,-0.0976484,-0.0807342,-0.0645418,-0.0490408,-0.0341999,-0.0199882,-0.00637452,0.00667149,0.0191795,0.0311781,0.0426946,0.0537549,0.0643833,0.0746025,0.0844333,0.0938946,0.103004,0.111775,0.120224,0.12836,0.136194,0.143734,0.150987,0.157959,0.164653,0.171074,0.177224,0.183104,0.188717,0.194064,0.199146,0.203964,0.208522,0.212821,0.216864,0.220655,0.224198,0.227499,0.230565,0.233401,0.236015,0.238415,0.240611,0.242611,0.244425,0.246062,0.247532,0.248844,0.250007,0.25103,0.251922,0.252689,0.253339,0.253877,0.254308,0.254635,0.254861,0.254988,0.255014,0.254937,0.254754,0.254458,0.254042,0.253494,0.252801,0.251947,0.250911,0.249669,0.248192,0.246447,0.244394,0.241986,0.239169,0.235881,0.232048,0.227589,0.222408,0.216396,0.20943,0.201369,0.192058,0.181322,0.168966,0.15478,0.138532,0.119977,0.0988577,0.0749059,0.0478569,0.0174514,-0.0165485,-0.0543441,-0.0960908,-0.141873,-0.191696,-0.245471,-0.303013,-0.36404,-0.4282,-0.495086,-0.56428,-0.635394,-0.7081,-0.782151,-0.857373,-0.933612,-1.01074,-1.08862,-1.16715,-1.24618,-1.32566,-1.40551,-1.48565,-1.56606,-1.64665,-1.72743,-1.80831,-1.88941,-1.97042,-2.04659,-2.1275,-2.20842,-2.28935,-2.37028,-2.45121,-2.53215,-2.6131,-2.69405,-2.775,-2.85596,-2.93691,-3.01788,-3.09884,-3.17981,-3.26078,-3.34175,-3.42272,-3.50369,-3.58467,-3.66565,-3.74663,-3.82761,-3.90859,-3.98957,-4.07056,-4.15154,-4.23253,-4.31351,-4.3945,-4.47549}
,{-1.81958,-1.77915,-1.73874,-1.69834,-1.65798,-1.61763,-1.57732,-1.53705,-1.49681,-1.45662,-1.41649,-1.37642,-1.33641,-1.29649,-1.25666,-1.21694,-1.17734,-1.13787,-1.09855,-1.05942,-1.02048,-0.981759,-0.943295,-0.905112,-0.867246,-0.829729,-0.792601,-0.7559,-0.719667,-0.683944,-0.648774,-0.614199,-0.580261,-0.547001,-0.514458,-0.482667,-0.451664,-0.421477,-0.392133,-0.363653,-0.336054,-0.309348,-0.283544,-0.258644,-0.234646,-0.211543,-0.189324,-0.167976,-0.147481,-0.127816,-0.108959,-0.0908836,-0.0735618,-0.0569648,-0.0410625,-0.0258246,-0.0112205,0.00278004,0.0162069,0.0290889,0.0414541,0.0533289,0.0647384,0.0757062,0.086254,0.0964017,0.106167,0.115567,0.124616,0.133325,0.141707,0.149769,0.15752,0.164966,0.172112,0.178961,0.185518,0.191784,0.197762,0.203454,0.208861,0.213986,0.218831,0.223399,0.227693,0.231719,0.23548,0.238983,0.242235,0.245242,0.248014,0.250558,0.252885,0.255004,0.256925,0.258659,0.260215,0.261603,0.262834,0.263916,0.264858,0.265668,0.266353,0.26692,0.267373,0.267715,0.267951,0.26808,0.268101,0.268014,0.267813,0.267491,0.267041,0.26645,0.265704,0.264786,0.263674,0.262342,0.260759,0.25889,0.256692,0.254116,0.251104,0.247591,0.243499,0.238741,0.233218,0.226813,0.219399,0.210829,0.200939,0.189549,0.176457,0.161445,0.144278,0.124706,0.102467,0.0772954,0.048929,0.0171162,-0.0183685,-0.0577077,-0.101034,-0.148402,-0.199784,-0.255055,-0.313997,-0.376299,-0.441587,-0.50945,-0.579475,-0.65129,-0.724596,-0.799176,-0.874862,-0.951517,-1.02901,-1.10722,-1.18602,-1.26528,-1.34497,-1.42502,-1.50531,-1.58587,-1.66657,-1.74749,-1.82843,-1.9096,-1.99079,-2.0675,-2.14842,-2.22934,-2.31026,-2.39119,-2.47213,-2.55307,-2.63401,-2.71496,-2.79591,-2.87687,-2.95783,-3.03879,-3.11976,-3.20072,-3.28169,-3.36266,-3.44364,-3.52461,-3.60559,-3.68656,-3.76754,-3.84852,-3.92951,-4.01049,-4.09147,-4.17246,-4.25344,-4.33443,-4.41541,-4.4964}
,{-1.86335,-1.82286,-1.78238,-1.74191,-1.70146,-1.66103,-1.62063,-1.58024,-1.53989,-1.49958,-1.45931,-1.41909,-1.37892,-1.33882,-1.29879,-1.25885,-1.219,-1.17927,-1.13967,-1.10021,-1.06092,-1.02183,-0.982943,-0.944302,-0.905934,-0.867872,-0.83015,-0.792805,-0.755878,-0.719408,-0.683437,-0.648009,-0.613165,-0.578948,-0.545398,-0.512555,-0.480456,-0.449135,-0.418622,-0.388943,-0.360121,-0.332174,-0.305114,-0.278951,-0.253686,-0.229319,-0.205844,-0.183252,-0.161528,-0.140655,-0.120612,-0.101377,-0.0829237,-0.0652256,-0.0482542,-0.0319801,-0.0163737,-0.00140507,0.0129553,0.0267366,0.0399667,0.0526727,0.0648804,0.0766138,0.0878955,0.0987463,0.109185,0.119229,0.128893,0.138191,0.147134,0.155732,0.163994,0.171926,0.179535,0.186824,0.193798,0.20046,0.206812,0.212857,0.218597,0.224036,0.229175,0.234018,0.23857,0.242835,0.246819,0.250528,0.25397,0.257153,0.260085,0.262777,0.265237,0.267477,0.269508,0.271339,0.272983,0.274449,0.275747,0.276889,0.277882,0.278736,0.279457,0.280052,0.280526,0.280884,0.281127,0.281257,0.281274,0.281173,0.280952,0.280602,0.280115,0.279478,0.278675,0.277688,0.276494,0.275066,0.27337,0.271368,0.269016,0.266261,0.263043,0.259291,0.254925,0.249852,0.243966,0.237148,0.229263,0.220157,0.20966,0.197585,0.183725,0.167854,0.149732,0.129107,0.105713,0.0792879,0.0495741,0.0163289,-0.0206589,-0.0615511,-0.106456,-0.155397,-0.208312,-0.265041,-0.325334,-0.388856,-0.455215,-0.523994,-0.594795,-0.66727,-0.741147,-0.816226,-0.89236,-0.969409,-1.04725,-1.12576,-1.20482,-1.28432,-1.36421,-1.44442,-1.52487,-1.60557,-1.68638,-1.7674,-1.84846,-1.92963,-2.00735,-2.08825,-2.16917,-2.25009,-2.33101,-2.41194,-2.49288,-2.57382,-2.65476,-2.73571,-2.81667,-2.89762,-2.97858,-3.05954,-3.14051,-3.22147,-3.30244,-3.38341,-3.46439,-3.54536,-3.62634,-3.70731,-3.78829,-3.86927,-3.95026,-4.03124,-4.11222,-4.19321,-4.27419,-4.35518,-4.43617,-4.51715}
,{-1.90531,-1.86476,-1.82422,-1.78369,-1.74317,-1.70266,-1.66217,-1.6217,-1.58125,-1.54082,-1.50043,-1.46007,-1.41976,-1.3795,-1.33929,-1.29916,-1.25911,-1.21914,-1.17929,-1.13955,-1.09996,-1.06052,-1.02127,-0.982225,-0.943414,-0.904868,-0.866619,-0.828702,-0.791154,-0.754014,-0.717322,-0.681121,-0.645453,-0.610361,-0.575887,-0.542072,-0.508955,-0.476575,-0.444964,-0.414154,-0.384172,-0.35504,-0.326777,-0.299396,-0.272905,-0.24731,-0.222608,-0.198794,-0.17586,-0.153792,-0.132573,-0.112183,-0.0926,-0.0737989,-0.0557534,-0.0384357,-0.0218174,-0.0058693,0.00943751,0.0241318,0.0382418,0.0517945,0.0648161,0.0773313,0.089363,0.100933,0.112061,0.122764,0.133059,0.142959,0.152478,0.161626,0.170411,0.178842,0.186925,0.194666,0.202068,0.209135,0.21587,0.222277,0.228359,0.234118,0.239559,0.244684,0.2495,0.25401,0.258222,0.262143,0.26578,0.269142,0.27224,0.275082,0.27768,0.280045,0.282188,0.284121,0.285856,0.287403,0.288774,0.289979,0.291027,0.291928,0.29269,0.293319,0.293821,0.2942,0.294459,0.294599,0.29462,0.294518,0.294289,0.293927,0.29342,0.292757,0.291921,0.290893,0.289648,0.28816,0.286393,0.284308,0.281859,0.278992,0.275643,0.271741,0.267202,0.261932,0.255821,0.248746,0.240569,0.231133,0.220266,0.207774,0.193448,0.17706,0.158367,0.137116,0.113043,0.0858848,0.0553878,0.0213176,-0.0165285,-0.0583025,-0.104093,-0.153909,-0.207674,-0.265205,-0.326238,-0.390427,-0.457373,-0.526661,-0.5979,-0.670754,-0.744964,-0.820341,-0.896744,-0.974035,-1.05209,-1.1308,-1.21002,-1.28967,-1.3697,-1.45003,-1.5306,-1.61139,-1.6923,-1.77341,-1.85456,-1.93576,-2.01418,-2.09508,-2.176,-2.25692,-2.33784,-2.41877,-2.49971,-2.58065,-2.66159,-2.74254,-2.8235,-2.90445,-2.98541,-3.06637,-3.14734,-3.2283,-3.30927,-3.39024,-3.47122,-3.55219,-3.63317,-3.71414,-3.79512,-3.8761,-3.95709,-4.03807,-4.11905,-4.20004,-4.28102,-4.36201,-4.443,-4.52398}
,{-1.9456,-1.905,-1.86441,-1.82382,-1.78324,-1.74266,-1.7021,-1.66154,-1.621,-1.58047,-1.53997,-1.4995,-1.45906,-1.41865,-1.37829,-1.33799,-1.29775,-1.25758,-1.2175,-1.17752,-1.13765,-1.09792,-1.05834,-1.01894,-0.979732,-0.940756,-0.902038,-0.863609,-0.825505,-0.787762,-0.75042,-0.713519,-0.677102,-0.64121,-0.605887,-0.571175,-0.537115,-0.503747,-0.471108,-0.439233,-0.408152,-0.377893,-0.348479,-0.319929,-0.292255,-0.265467,-0.23957,-0.214563,-0.19044,-0.167194,-0.144811,-0.123274,-0.102566,-0.0826625,-0.0635408,-0.0451747,-0.0275373,-0.0106007,0.00566331,0.0212829,0.0362858,0.0506992,0.0645493,0.077861,0.090658,0.102962,0.114794,0.126171,0.137111,0.147628,0.157737,0.167447,0.176768,0.18571,0.194279,0.202481,0.210321,0.217802,0.22493,0.231708,0.238138,0.244226,0.249974,0.255388,0.260472,0.265233,0.269677,0.273813,0.277649,0.281194,0.284459,0.287454,0.290191,0.292682,0.294939,0.296974,0.2988,0.300428,0.301869,0.303136,0.304237,0.305183,0.305982,0.30664,0.307164,0.307559,0.307826,0.307967,0.307981,0.307866,0.307616,0.307223,0.306678,0.305966,0.305071,0.303971,0.302642,0.301053,0.299169,0.296947,0.294339,0.291287,0.287726,0.283579,0.278758,0.273165,0.266686,0.259191,0.250536,0.240559,0.229081,0.215904,0.200811,0.18357,0.163935,0.141649,0.116449,0.0880763,0.0562829,0.0208451,-0.0184211,-0.0616493,-0.108901,-0.160156,-0.215303,-0.274136,-0.336357,-0.401604,-0.469469,-0.539541,-0.611443,-0.684864,-0.759567,-0.835385,-0.912178,-0.98982,-1.06818,-1.14715,-1.2266,-1.30645,-1.38667,-1.46714,-1.54786,-1.62875,-1.70979,-1.79095,-1.87222,-1.95344,-2.03252,-2.11343,-2.19434,-2.27526,-2.35619,-2.43712,-2.51805,-2.59899,-2.67994,-2.76089,-2.84184,-2.9228,-3.00376,-3.08472,-3.16568,-3.24665,-3.32762,-3.40859,-3.48956,-3.57054,-3.65151,-3.73249,-3.81347,-3.89445,-3.97543,-4.05641,-4.1374,-4.21838,-4.29937,-4.38035,-4.46134,-4.54233}
,{-1.98434,-1.94371,-1.90307,-1.86243,-1.82179,-1.78115,-1.74051,-1.69988,-1.65926,-1.61865,-1.57805,-1.53747,-1.49691,-1.45638,-1.41589,-1.37543,-1.33502,-1.29467,-1.25439,-1.21419,-1.17408,-1.13408,-1.09421,-1.05449,-1.01494,-0.975576,-0.936437,-0.89755,-0.858946,-0.820661,-0.782731,-0.745196,-0.708096,-0.671474,-0.635371,-0.599832,-0.564898,-0.530611,-0.49701,-0.464133,-0.432014,-0.400685,-0.370174,-0.340502,-0.311689,-0.283748,-0.256689,-0.230517,-0.20523,-0.180825,-0.157293,-0.134621,-0.112794,-0.0917924,-0.0715948,-0.0521778,-0.0335163,-0.0155839,0.00164628,0.0182016,0.0341093,0.0493961,0.0640882,0.0782105,0.0917869,0.10484,0.117389,0.129455,0.141055,0.152203,0.162914,0.173199,0.18307,0.192534,0.2016,0.210275,0.218563,0.226469,0.233999,0.241156,0.247943,0.254366,0.26043,0.266138,0.271498,0.276515,0.281197,0.285554,0.289593,0.293325,0.296762,0.299914,0.302794,0.305415,0.30779,0.309931,0.311851,0.313563,0.31508,0.316412,0.317571,0.318566,0.319407,0.3201,0.320653,0.321069,0.321352,0.321503,0.321522,0.321405,0.321147,0.32074,0.320174,0.319435,0.318504,0.317361,0.315979,0.314328,0.312369,0.310061,0.307352,0.304184,0.300488,0.296186,0.291189,0.285394,0.278684,0.270928,0.261978,0.251668,0.239816,0.226221,0.210664,0.192911,0.172713,0.149814,0.123952,0.0948703,0.0623264,0.0261038,-0.0139717,-0.0580215,-0.106092,-0.158149,-0.214062,-0.27361,-0.336486,-0.402315,-0.470691,-0.541205,-0.613489,-0.687242,-0.762241,-0.838326,-0.915361,-0.99322,-1.07178,-1.15092,-1.23052,-1.31051,-1.39085,-1.47144,-1.55226,-1.63324,-1.71437,-1.7956,-1.87696,-1.95823,-2.03798,-2.11889,-2.1998,-2.28072,-2.36165,-2.44258,-2.52351,-2.60445,-2.6854,-2.76635,-2.8473,-2.92826,-3.00921,-3.09018,-3.17114,-3.25211,-3.33308,-3.41405,-3.49502,-3.57599,-3.65697,-3.73795,-3.81893,-3.89991,-3.98089,-4.06187,-4.14286,-4.22384,-4.30483,-4.38581,-4.4668,-4.54779}
,{-2.02166,-1.98099,-1.9403,-1.89962,-1.85893,-1.81823,-1.77754,-1.73684,-1.69615,-1.65546,-1.61477,-1.5741,-1.53343,-1.49279,-1.45217,-1.41158,-1.37102,-1.3305,-1.29004,-1.24964,-1.20932,-1.16908,-1.12895,-1.08894,-1.04907,-1.00937,-0.969854,-0.930554,-0.8915,-0.852725,-0.814263,-0.776152,-0.73843,-0.70114,-0.664322,-0.628019,-0.592276,-0.557133,-0.522633,-0.488816,-0.455718,-0.423376,-0.391818,-0.361074,-0.331166,-0.302112,-0.273928,-0.246621,-0.220197,-0.194656,-0.169992,-0.146198,-0.123262,-0.101168,-0.0798972,-0.059429,-0.0397406,-0.0208074,-0.00260391,0.0148959,0.0317185,0.04789,0.0634362,0.0783819,0.092751,0.106566,0.119848,0.132616,0.144888,0.15668,0.168006,0.17888,0.189311,0.19931,0.208884,0.218042,0.226788,0.235129,0.243068,0.250612,0.257765,0.264531,0.270916,0.276925,0.282565,0.287844,0.292769,0.297349,0.301595,0.305518,0.309129,0.31244,0.315465,0.318217,0.320709,0.322956,0.324971,0.326766,0.328356,0.329752,0.330965,0.332006,0.332884,0.333607,0.334181,0.334612,0.334902,0.335053,0.335063,0.334929,0.334647,0.334206,0.333597,0.332803,0.331807,0.330585,0.329109,0.327348,0.325261,0.322803,0.31992,0.316551,0.312624,0.308057,0.302755,0.296612,0.289506,0.281299,0.271838,0.260952,0.248451,0.23413,0.217765,0.199116,0.177934,0.15396,0.126934,0.0966061,0.0627414,0.0251368,-0.0163627,-0.0618563,-0.111363,-0.164817,-0.222059,-0.282839,-0.346826,-0.413634,-0.482851,-0.55408,-0.62697,-0.701245,-0.776706,-0.8532,-0.930603,-1.00878,-1.08762,-1.167,-1.24682,-1.327,-1.40751,-1.48823,-1.56919,-1.65027,-1.73152,-1.8128,-1.89426,-1.97564,-2.05592,-2.13683,-2.21774,-2.29866,-2.37959,-2.46052,-2.54145,-2.62239,-2.70334,-2.78429,-2.86524,-2.9462,-3.02716,-3.10812,-3.18908,-3.27005,-3.35102,-3.43199,-3.51296,-3.59394,-3.67491,-3.75589,-3.83687,-3.91785,-3.99883,-4.07981,-4.1608,-4.24178,-4.32277,-4.40375,-4.48474,-4.56573}
,{-2.05765,-2.01694,-1.97622,-1.93549,-1.89476,-1.85401,-1.81326,-1.7725,-1.73174,-1.69098,-1.65022,-1.60946,-1.5687,-1.52796,-1.48722,-1.44651,-1.40581,-1.36515,-1.32453,-1.28395,-1.24343,-1.20298,-1.16261,-1.12235,-1.0822,-1.04218,-1.00232,-0.962653,-0.923192,-0.883973,-0.845028,-0.806392,-0.768103,-0.730201,-0.692725,-0.655719,-0.619226,-0.583288,-0.547949,-0.513249,-0.479229,-0.445926,-0.413375,-0.381607,-0.350648,-0.320523,-0.291249,-0.262841,-0.235307,-0.208653,-0.182878,-0.157978,-0.133944,-0.110765,-0.0884264,-0.0669089,-0.0461926,-0.0262551,-0.00707292,0.0113788,0.0291251,0.0461915,0.062603,0.078384,0.0935583,0.108148,0.122175,0.135659,0.148617,0.161066,0.173021,0.184495,0.195499,0.206044,0.216138,0.22579,0.235004,0.243789,0.252149,0.260089,0.267615,0.274732,0.281446,0.287763,0.293691,0.299237,0.30441,0.309221,0.31368,0.317798,0.321588,0.325063,0.328238,0.331126,0.333741,0.336098,0.338212,0.340097,0.341765,0.343231,0.344505,0.3456,0.346524,0.347285,0.347892,0.348349,0.348659,0.348825,0.348844,0.348715,0.348431,0.347985,0.347363,0.346552,0.345532,0.34428,0.342767,0.340961,0.338821,0.336301,0.333346,0.329893,0.32587,0.321193,0.315765,0.309479,0.302211,0.293823,0.284157,0.273043,0.260289,0.245688,0.229013,0.210027,0.188479,0.16411,0.136663,0.10589,0.0715611,0.0334773,-0.00850968,-0.0544915,-0.104479,-0.158398,-0.216081,-0.277271,-0.341633,-0.408777,-0.478294,-0.549788,-0.622914,-0.697401,-0.773052,-0.849727,-0.927292,-1.00562,-1.0846,-1.16411,-1.24404,-1.32433,-1.40493,-1.48575,-1.56679,-1.64795,-1.72927,-1.81062,-1.89214,-1.97359,-2.05456,-2.13547,-2.21638,-2.2973,-2.37823,-2.45916,-2.5401,-2.62104,-2.70198,-2.78293,-2.86388,-2.94484,-3.0258,-3.10676,-3.18772,-3.26869,-3.34966,-3.43063,-3.5116,-3.59258,-3.67355,-3.75453,-3.83551,-3.91649,-3.99747,-4.07845,-4.15944,-4.24042,-4.32141,-4.40239,-4.48338,-4.56437}
,{-2.0924,-2.05166,-2.0109,-1.97014,-1.92936,-1.88857,-1.84777,-1.80696,-1.76614,-1.72531,-1.68448,-1.64364,-1.6028,-1.56196,-1.52112,-1.4803,-1.43948,-1.39868,-1.35791,-1.31718,-1.27648,-1.23584,-1.19526,-1.15476,-1.11435,-1.07405,-1.03389,-0.99388,-0.95405,-0.914428,-0.875043,-0.835929,-0.797121,-0.758657,-0.720577,-0.682921,-0.645734,-0.609056,-0.572933,-0.537407,-0.502519,-0.468308,-0.434814,-0.402069,-0.370104,-0.338948,-0.308623,-0.279146,-0.250533,-0.222791,-0.195926,-0.169937,-0.14482,-0.120568,-0.0971671,-0.0746042,-0.0528611,-0.0319181,-0.0117535,0.00765554,0.0263329,0.0443026,0.0615891,0.0782161,0.0942069,0.109584,0.124368,0.138579,0.152235,0.165354,0.177949,0.190036,0.201624,0.212726,0.223351,0.233506,0.243199,0.252436,0.261224,0.269569,0.277475,0.284949,0.291998,0.298629,0.304849,0.310667,0.316093,0.321136,0.32581,0.330125,0.334096,0.337736,0.34106,0.344082,0.346818,0.349284,0.351494,0.353463,0.355204,0.356733,0.35806,0.359197,0.360155,0.360942,0.361565,0.36203,0.362338,0.362493,0.362493,0.362334,0.362009,0.36151,0.360823,0.359933,0.358818,0.357453,0.355809,0.353848,0.351528,0.348799,0.345603,0.341872,0.33753,0.332486,0.326639,0.319874,0.312062,0.303055,0.29269,0.280788,0.26715,0.251561,0.23379,0.213593,0.190717,0.164905,0.135902,0.103471,0.0673942,0.0274937,-0.0163518,-0.0642025,-0.11603,-0.171723,-0.231071,-0.293785,-0.359504,-0.427824,-0.498342,-0.570677,-0.644516,-0.719621,-0.795818,-0.872977,-0.950968,-1.02967,-1.10897,-1.18875,-1.26892,-1.34943,-1.4302,-1.51118,-1.59236,-1.67363,-1.75505,-1.83649,-1.91804,-1.99968,-2.08104,-2.16195,-2.24286,-2.32378,-2.40471,-2.48564,-2.56657,-2.64751,-2.72846,-2.80941,-2.89036,-2.97132,-3.05228,-3.13324,-3.2142,-3.29517,-3.37614,-3.45711,-3.53808,-3.61906,-3.70003,-3.78101,-3.86199,-3.94297,-4.02395,-4.10493,-4.18592,-4.2669,-4.34789,-4.42887,-4.50986,-4.59085}
,{-2.12599,-2.08522,-2.04443,-2.00363,-1.96282,-1.92199,-1.88114,-1.84029,-1.79941,-1.75853,-1.71763,-1.67672,-1.6358,-1.59487,-1.55395,-1.51302,-1.47209,-1.43117,-1.39027,-1.34938,-1.30852,-1.2677,-1.22693,-1.18622,-1.14558,-1.10503,-1.06458,-1.02427,-0.984102,-0.944112,-0.904325,-0.864774,-0.825491,-0.786511,-0.747874,-0.709619,-0.671787,-0.634423,-0.597568,-0.561266,-0.525561,-0.490494,-0.456104,-0.422429,-0.389503,-0.357356,-0.326017,-0.295506,-0.265843,-0.237041,-0.209109,-0.18205,-0.155866,-0.130551,-0.106098,-0.0824951,-0.059728,-0.0377794,-0.0166302,0.00374052,0.0233549,0.0422357,0.060406,0.0778889,0.094707,0.110882,0.126435,0.141386,0.155753,0.169553,0.182801,0.195512,0.207697,0.219367,0.230533,0.241203,0.251384,0.261085,0.27031,0.279067,0.287362,0.295202,0.302594,0.309545,0.316064,0.322161,0.327844,0.333127,0.338021,0.342539,0.346695,0.350504,0.353982,0.357144,0.360006,0.362585,0.364895,0.366954,0.368774,0.370371,0.371757,0.372945,0.373944,0.374765,0.375413,0.375896,0.376216,0.376374,0.37637,0.376199,0.375855,0.375328,0.374605,0.373668,0.372496,0.371063,0.369337,0.36728,0.364848,0.361989,0.358643,0.354739,0.350197,0.344926,0.33882,0.331761,0.323614,0.31423,0.30344,0.291062,0.276893,0.260714,0.242292,0.221381,0.197729,0.171078,0.14118,0.107799,0.0707315,0.0298098,-0.0150729,-0.0639545,-0.116791,-0.173447,-0.233695,-0.297228,-0.363675,-0.432631,-0.503691,-0.576492,-0.650735,-0.726196,-0.802712,-0.88016,-0.958408,-1.03734,-1.11684,-1.1968,-1.27712,-1.35777,-1.43867,-1.51976,-1.60104,-1.6824,-1.76391,-1.84543,-1.92701,-2.00978,-2.09067,-2.17158,-2.25249,-2.33341,-2.41434,-2.49527,-2.57621,-2.65715,-2.73809,-2.81904,-2.89999,-2.98095,-3.06191,-3.14287,-3.22383,-3.3048,-3.38577,-3.46674,-3.54771,-3.62869,-3.70966,-3.79064,-3.87162,-3.9526,-4.03358,-4.11457,-4.19555,-4.27653,-4.35752,-4.43851,-4.51949,-4.60048}
,{-2.1585,-2.1177,-2.07689,-2.03606,-1.99521,-1.95434,-1.91346,-1.87255,-1.83163,-1.79069,-1.74973,-1.70876,-1.66777,-1.62677,-1.58575,-1.54473,-1.5037,-1.46267,-1.42164,-1.38063,-1.33962,-1.29864,-1.25769,-1.21678,-1.17593,-1.13515,-1.09445,-1.05385,-1.01338,-0.973051,-0.932897,-0.892945,-0.853225,-0.813771,-0.77462,-0.73581,-0.697382,-0.659377,-0.621839,-0.584812,-0.548338,-0.512462,-0.477223,-0.442663,-0.408818,-0.375722,-0.343406,-0.311896,-0.281215,-0.25138,-0.222405,-0.194297,-0.167062,-0.140699,-0.115204,-0.0905682,-0.0667814,-0.0438291,-0.0216947,-0.000359583,0.0201964,0.0399944,0.0590562,0.0774036,0.0950587,0.112042,0.128376,0.144078,0.159167,0.173659,0.187572,0.200918,0.21371,0.22596,0.237678,0.248872,0.259552,0.269724,0.279395,0.288574,0.297265,0.305478,0.313219,0.320497,0.32732,0.3337,0.339646,0.345172,0.350289,0.355012,0.359356,0.363337,0.36697,0.370273,0.373261,0.375952,0.378363,0.380508,0.382405,0.384068,0.385509,0.386742,0.387778,0.388625,0.389291,0.389783,0.390102,0.390251,0.390227,0.390027,0.389643,0.389065,0.388277,0.387262,0.385996,0.384452,0.382596,0.380387,0.377778,0.374715,0.371133,0.366958,0.362105,0.356478,0.349966,0.342446,0.333775,0.323799,0.312344,0.299218,0.284214,0.267109,0.247664,0.225631,0.200757,0.172788,0.14148,0.106612,0.0679898,0.0254728,-0.0210239,-0.0715067,-0.125898,-0.184028,-0.245642,-0.310404,-0.377929,-0.447811,-0.519655,-0.59312,-0.667931,-0.743889,-0.820852,-0.898695,-0.977296,-1.05653,-1.13629,-1.21648,-1.29699,-1.37783,-1.45887,-1.5401,-1.62148,-1.70296,-1.78452,-1.86618,-1.94776,-2.03107,-2.11196,-2.19287,-2.27378,-2.3547,-2.43563,-2.51656,-2.5975,-2.67844,-2.75938,-2.84033,-2.92128,-3.00224,-3.0832,-3.16416,-3.24512,-3.32609,-3.40706,-3.48803,-3.569,-3.64998,-3.73095,-3.81193,-3.89291,-3.97389,-4.05487,-4.13586,-4.21684,-4.29782,-4.37881,-4.4598,-4.54078,-4.62177}
,{-2.18999,-2.14917,-2.10833,-2.06747,-2.02659,-1.98569,-1.94477,-1.90382,-1.86286,-1.82187,-1.78085,-1.73982,-1.69877,-1.65769,-1.6166,-1.57549,-1.53437,-1.49324,-1.4521,-1.41096,-1.36982,-1.32869,-1.28758,-1.2465,-1.20545,-1.16445,-1.12352,-1.08266,-1.04191,-1.00127,-0.960781,-0.92046,-0.880337,-0.840446,-0.80082,-0.761496,-0.722514,-0.683913,-0.645737,-0.608029,-0.570833,-0.534192,-0.498151,-0.462749,-0.428027,-0.394021,-0.360766,-0.328291,-0.296623,-0.265784,-0.23579,-0.206655,-0.178388,-0.150991,-0.124466,-0.0988063,-0.0740058,-0.0500529,-0.026934,-0.00463297,0.0168681,0.0375885,0.0575484,0.0767684,0.0952692,0.113071,0.130195,0.146659,0.162481,0.177678,0.192266,0.206259,0.21967,0.23251,0.24479,0.25652,0.267707,0.278361,0.288488,0.298096,0.307192,0.315785,0.323883,0.331494,0.338629,0.345298,0.351512,0.357286,0.362632,0.367565,0.372102,0.376258,0.38005,0.383496,0.386614,0.389422,0.391935,0.394172,0.396148,0.39788,0.39938,0.400662,0.401737,0.402615,0.403304,0.403808,0.404133,0.404278,0.404242,0.404021,0.403606,0.402987,0.402147,0.401068,0.399725,0.398088,0.396123,0.393787,0.391031,0.387797,0.384018,0.379617,0.374506,0.368584,0.361737,0.353835,0.344734,0.334272,0.322272,0.308538,0.292858,0.275003,0.254735,0.231804,0.205957,0.176943,0.144526,0.108492,0.0686624,0.0249125,-0.022822,-0.0745236,-0.13009,-0.189326,-0.251956,-0.317628,-0.385951,-0.456516,-0.528943,-0.602905,-0.678148,-0.754489,-0.831799,-0.90995,-0.988822,-1.0683,-1.14827,-1.22863,-1.30932,-1.39029,-1.47145,-1.55281,-1.63427,-1.71586,-1.79747,-1.87922,-1.96089,-2.04473,-2.12563,-2.20653,-2.28745,-2.36837,-2.44929,-2.53022,-2.61116,-2.6921,-2.77304,-2.85399,-2.93494,-3.0159,-3.09686,-3.17782,-3.25879,-3.33975,-3.42072,-3.50169,-3.58266,-3.66364,-3.74462,-3.82559,-3.90657,-3.98755,-4.06853,-4.14952,-4.2305,-4.31149,-4.39247,-4.47346,-4.55444,-4.63543}
,{-2.22053,-2.17969,-2.13883,-2.09794,-2.05703,-2.0161,-1.97514,-1.93416,-1.89315,-1.85212,-1.81105,-1.76997,-1.72885,-1.68771,-1.64655,-1.60536,-1.56416,-1.52293,-1.48169,-1.44043,-1.39917,-1.3579,-1.31664,-1.2754,-1.23417,-1.19297,-1.15182,-1.11073,-1.06972,-1.0288,-0.987998,-0.947337,-0.906844,-0.866548,-0.826483,-0.786682,-0.747184,-0.708028,-0.669255,-0.630909,-0.593033,-0.555672,-0.518869,-0.482667,-0.447108,-0.412232,-0.378074,-0.344669,-0.312046,-0.280231,-0.249245,-0.219106,-0.189825,-0.161411,-0.133868,-0.107195,-0.081388,-0.0564391,-0.0323377,-0.00907059,0.0133778,0.0350247,0.0558882,0.0759876,0.0953424,0.113972,0.131895,0.149131,0.165697,0.18161,0.196884,0.211535,0.225575,0.239017,0.25187,0.264144,0.27585,0.286994,0.297585,0.307632,0.317141,0.326122,0.334584,0.342535,0.349987,0.356951,0.36344,0.369467,0.375046,0.380194,0.384927,0.389262,0.393217,0.396811,0.400061,0.402987,0.405606,0.407936,0.409994,0.411797,0.413358,0.41469,0.415807,0.416718,0.417431,0.417951,0.418283,0.418427,0.418382,0.418142,0.4177,0.417043,0.416156,0.415018,0.413603,0.411881,0.409816,0.407362,0.404469,0.401077,0.397116,0.392506,0.387156,0.380963,0.373807,0.365555,0.35606,0.345156,0.33266,0.318374,0.302081,0.283551,0.262544,0.238808,0.212093,0.182152,0.148754,0.111695,0.0708087,0.0259855,-0.0228205,-0.0755712,-0.132143,-0.192321,-0.255811,-0.322251,-0.391244,-0.462386,-0.535306,-0.609692,-0.685306,-0.761983,-0.83959,-0.918012,-0.997123,-1.07681,-1.15697,-1.23749,-1.31832,-1.39943,-1.4807,-1.56217,-1.64372,-1.72539,-1.80708,-1.88889,-1.97063,-2.05504,-2.13594,-2.21684,-2.29775,-2.37867,-2.4596,-2.54053,-2.62147,-2.70241,-2.78335,-2.8643,-2.94525,-3.02621,-3.10717,-3.18813,-3.26909,-3.35006,-3.43103,-3.512,-3.59297,-3.67395,-3.75492,-3.8359,-3.91688,-3.99786,-4.07884,-4.15983,-4.24081,-4.32179,-4.40278,-4.48377,-4.56475,-4.64574}
,{-2.25017,-2.20931,-2.16842,-2.12751,-2.08658,-2.04562,-2.00463,-1.96361,-1.92257,-1.88149,-1.84038,-1.79924,-1.75808,-1.71688,-1.67565,-1.63439,-1.5931,-1.55179,-1.51045,-1.46909,-1.42771,-1.38632,-1.34492,-1.30352,-1.26213,-1.22076,-1.17941,-1.1381,-1.09684,-1.05566,-1.01457,-0.973598,-0.932761,-0.892091,-0.851617,-0.811373,-0.771395,-0.731721,-0.69239,-0.653445,-0.61493,-0.576888,-0.539365,-0.502403,-0.466047,-0.430337,-0.395313,-0.361011,-0.327464,-0.294703,-0.262751,-0.23163,-0.201357,-0.171943,-0.143397,-0.115721,-0.0889163,-0.0629773,-0.0378968,-0.0136646,0.00973211,0.0323082,0.05408,0.0750647,0.0952805,0.114745,0.133478,0.151495,0.168815,0.185453,0.201425,0.216744,0.231424,0.245477,0.258913,0.271742,0.283975,0.295619,0.306683,0.317176,0.327107,0.336483,0.345315,0.353613,0.361388,0.368653,0.37542,0.381704,0.387521,0.392886,0.397818,0.402335,0.406454,0.410196,0.41358,0.416625,0.41935,0.421772,0.423911,0.425782,0.427401,0.428781,0.429936,0.430874,0.431604,0.432133,0.432464,0.432597,0.43253,0.432259,0.431773,0.43106,0.430104,0.428882,0.427367,0.425527,0.423323,0.420709,0.41763,0.414023,0.409815,0.404923,0.39925,0.392689,0.385116,0.376392,0.366365,0.354862,0.341696,0.326663,0.309543,0.290102,0.268096,0.243276,0.215392,0.184203,0.149488,0.111055,0.0687561,0.0225037,-0.0277232,-0.0818568,-0.139746,-0.201149,-0.265748,-0.333168,-0.403006,-0.474866,-0.548396,-0.623304,-0.699374,-0.776457,-0.854431,-0.933176,-1.01257,-1.09251,-1.17287,-1.25358,-1.33458,-1.41582,-1.49723,-1.57881,-1.66044,-1.74222,-1.82398,-1.90583,-1.98771,-2.07254,-2.15343,-2.23434,-2.31525,-2.39617,-2.4771,-2.55803,-2.63897,-2.71991,-2.80085,-2.8818,-2.96275,-3.04371,-3.12467,-3.20563,-3.28659,-3.36756,-3.44853,-3.5295,-3.61047,-3.69145,-3.77242,-3.8534,-3.93438,-4.01536,-4.09634,-4.17733,-4.25831,-4.33929,-4.42028,-4.50127,-4.58225,-4.66324}
,{-2.27896,-2.23808,-2.19718,-2.15625,-2.11529,-2.0743,-2.03328,-1.99223,-1.95115,-1.91004,-1.86889,-1.8277,-1.78648,-1.74523,-1.70394,-1.66261,-1.62125,-1.57986,-1.53843,-1.49698,-1.45549,-1.41399,-1.37246,-1.33092,-1.28937,-1.24783,-1.2063,-1.16478,-1.12331,-1.08188,-1.04053,-0.999261,-0.958106,-0.917088,-0.876235,-0.835579,-0.795152,-0.754993,-0.71514,-0.675633,-0.636516,-0.597832,-0.559625,-0.521942,-0.484825,-0.448318,-0.412463,-0.377298,-0.342859,-0.30918,-0.276288,-0.24421,-0.212965,-0.182569,-0.153035,-0.124369,-0.0965758,-0.0696534,-0.0435983,-0.0184031,0.0059421,0.0294495,0.0521332,0.0740085,0.0950918,0.1154,0.13495,0.153758,0.171841,0.189215,0.205894,0.221892,0.237223,0.251897,0.265927,0.279321,0.292091,0.304245,0.315792,0.32674,0.3371,0.34688,0.35609,0.364742,0.372848,0.38042,0.387472,0.39402,0.400079,0.405668,0.410805,0.415508,0.419797,0.423693,0.427215,0.430384,0.43322,0.435741,0.437966,0.439913,0.441596,0.443032,0.444232,0.445207,0.445966,0.446515,0.446858,0.446996,0.446926,0.446642,0.446136,0.445395,0.444401,0.443131,0.441557,0.439647,0.43736,0.434648,0.431456,0.427718,0.423361,0.418297,0.412429,0.405647,0.397823,0.388818,0.378474,0.366618,0.35306,0.337593,0.319995,0.300032,0.277458,0.252027,0.223489,0.191608,0.156169,0.116988,0.0739252,0.0269066,-0.0240762,-0.0789414,-0.137525,-0.199571,-0.264754,-0.332694,-0.402986,-0.475241,-0.549113,-0.624322,-0.700662,-0.777989,-0.856186,-0.93513,-1.01471,-1.09481,-1.17531,-1.25615,-1.33728,-1.41863,-1.50014,-1.5818,-1.66352,-1.74536,-1.8272,-1.90911,-1.99104,-2.0765,-2.1574,-2.2383,-2.31922,-2.40014,-2.48106,-2.56199,-2.64293,-2.72387,-2.80481,-2.88576,-2.96671,-3.04767,-3.12863,-3.20959,-3.29056,-3.37152,-3.45249,-3.53346,-3.61443,-3.69541,-3.77639,-3.85736,-3.93834,-4.01932,-4.1003,-4.18129,-4.26227,-4.34326,-4.42424,-4.50523,-4.58621,-4.6672}
,{-2.30695,-2.26606,-2.22513,-2.18418,-2.1432,-2.10219,-2.06114,-2.02007,-1.97895,-1.9378,-1.89661,-1.85539,-1.81412,-1.77282,-1.73147,-1.69008,-1.64865,-1.60718,-1.56567,-1.52413,-1.48255,-1.44093,-1.39929,-1.35762,-1.31593,-1.27423,-1.23252,-1.19082,-1.14914,-1.10749,-1.06589,-1.02435,-0.982897,-0.941555,-0.900349,-0.859307,-0.818463,-0.77785,-0.737507,-0.697472,-0.657787,-0.618496,-0.579643,-0.541274,-0.503433,-0.466164,-0.429511,-0.393516,-0.358216,-0.323648,-0.289843,-0.256832,-0.224636,-0.193278,-0.162772,-0.133129,-0.104358,-0.07646,-0.0494358,-0.0232809,0.00201157,0.0264511,0.0500492,0.0728192,0.0947755,0.115933,0.136308,0.155915,0.174771,0.19289,0.210286,0.226973,0.242964,0.25827,0.272902,0.286872,0.300188,0.31286,0.324897,0.336309,0.347106,0.357296,0.366892,0.375904,0.384345,0.392229,0.399571,0.406386,0.412692,0.418507,0.42385,0.428742,0.433202,0.437252,0.440912,0.444205,0.447149,0.449766,0.452075,0.454092,0.455836,0.45732,0.458558,0.459561,0.460338,0.460895,0.461236,0.461361,0.461267,0.460949,0.460397,0.459597,0.458529,0.457171,0.455492,0.453459,0.451027,0.448147,0.44476,0.440799,0.436185,0.430829,0.424628,0.417467,0.409216,0.399727,0.388841,0.376377,0.36214,0.345921,0.327493,0.306619,0.283054,0.256551,0.226865,0.193768,0.157053,0.116551,0.0721426,0.0237727,-0.0285377,-0.0846835,-0.144473,-0.207627,-0.273803,-0.342612,-0.41365,-0.486537,-0.560945,-0.636619,-0.713372,-0.791069,-0.869598,-0.948835,-1.02867,-1.10899,-1.18969,-1.2707,-1.35198,-1.43346,-1.51509,-1.59684,-1.67866,-1.76058,-1.8425,-1.92441,-2.01147,-2.09236,-2.17326,-2.25416,-2.33508,-2.416,-2.49692,-2.57785,-2.65879,-2.73973,-2.82067,-2.90162,-2.98258,-3.06353,-3.14449,-3.22545,-3.30642,-3.38738,-3.46835,-3.54932,-3.6303,-3.71127,-3.79225,-3.87322,-3.9542,-4.03518,-4.11617,-4.19715,-4.27813,-4.35912,-4.4401,-4.52109,-4.60208,-4.68306}
,{-2.33419,-2.29328,-2.25234,-2.21137,-2.17036,-2.12933,-2.08826,-2.04715,-2.00601,-1.96483,-1.9236,-1.88234,-1.84103,-1.79967,-1.75827,-1.71683,-1.67534,-1.6338,-1.59221,-1.55058,-1.50891,-1.46719,-1.42544,-1.38365,-1.34183,-1.29998,-1.25811,-1.21624,-1.17437,-1.1325,-1.09067,-1.04888,-1.00715,-0.965507,-0.923971,-0.88257,-0.841334,-0.800296,-0.759492,-0.71896,-0.678741,-0.638876,-0.599411,-0.56039,-0.521858,-0.483861,-0.446444,-0.409649,-0.373519,-0.33809,-0.303399,-0.269478,-0.236354,-0.204052,-0.172591,-0.141986,-0.112248,-0.0833837,-0.0553967,-0.0282862,-0.00204835,0.0233234,0.0478379,0.0715061,0.0943402,0.116354,0.137561,0.157975,0.177612,0.196485,0.214608,0.231994,0.248655,0.264602,0.279848,0.294402,0.308274,0.321474,0.334011,0.345896,0.357137,0.367746,0.377735,0.387114,0.395898,0.404101,0.411738,0.418827,0.425385,0.431431,0.436987,0.442071,0.446707,0.450916,0.454719,0.458139,0.461198,0.463915,0.466312,0.468405,0.470214,0.471753,0.473035,0.474073,0.474876,0.475449,0.475798,0.475921,0.475817,0.475479,0.474898,0.474057,0.472939,0.471518,0.469763,0.467639,0.465102,0.462099,0.45857,0.454446,0.449645,0.444075,0.437632,0.430196,0.421635,0.411799,0.400522,0.387625,0.372907,0.356156,0.337145,0.315636,0.291382,0.26414,0.233668,0.199742,0.162164,0.120775,0.0754696,0.0262053,-0.02698,-0.0839644,-0.144541,-0.208415,-0.275238,-0.344614,-0.416144,-0.489454,-0.56423,-0.640226,-0.717268,-0.795228,-0.873992,-0.953445,-1.03347,-1.11396,-1.19481,-1.27595,-1.35736,-1.43894,-1.52067,-1.60251,-1.68441,-1.76639,-1.8484,-1.93036,-2.01804,-2.09894,-2.17983,-2.26074,-2.34165,-2.42257,-2.5035,-2.58443,-2.66537,-2.74631,-2.82725,-2.9082,-2.98915,-3.07011,-3.15107,-3.23203,-3.31299,-3.39396,-3.47493,-3.5559,-3.63687,-3.71785,-3.79882,-3.8798,-3.96078,-4.04176,-4.12274,-4.20373,-4.28471,-4.36569,-4.44668,-4.52767,-4.60865,-4.68964}
,{-2.36071,-2.31978,-2.27882,-2.23783,-2.19681,-2.15576,-2.11467,-2.07353,-2.03236,-1.99115,-1.94989,-1.90859,-1.86724,-1.82584,-1.78439,-1.74289,-1.70134,-1.65974,-1.61808,-1.57638,-1.53462,-1.49281,-1.45095,-1.40904,-1.3671,-1.32511,-1.2831,-1.24106,-1.19901,-1.15695,-1.1149,-1.07288,-1.03089,-0.988961,-0.947116,-0.905378,-0.863775,-0.822338,-0.781101,-0.740101,-0.699376,-0.658969,-0.618923,-0.579282,-0.540093,-0.5014,-0.46325,-0.425687,-0.388755,-0.352494,-0.316943,-0.282137,-0.248107,-0.214881,-0.182482,-0.150929,-0.120236,-0.0904158,-0.0614735,-0.0334124,-0.00623212,0.0200709,0.0455027,0.0700717,0.0937878,0.116662,0.138708,0.159937,0.180363,0.199999,0.218858,0.236952,0.254292,0.270891,0.28676,0.301907,0.316345,0.330081,0.343127,0.355492,0.367187,0.378222,0.388611,0.398364,0.407497,0.416024,0.423963,0.43133,0.438144,0.444427,0.450197,0.455479,0.460293,0.464663,0.468611,0.472161,0.475334,0.478153,0.480638,0.482808,0.484681,0.486274,0.4876,0.488672,0.489498,0.490085,0.490438,0.490556,0.490438,0.490075,0.489457,0.48857,0.487393,0.485899,0.484059,0.481833,0.479176,0.476034,0.472345,0.468036,0.463025,0.457216,0.4505,0.442757,0.43385,0.423624,0.411913,0.398531,0.383276,0.365934,0.346274,0.324058,0.29904,0.270979,0.239637,0.204796,0.166268,0.123905,0.0776155,0.0273745,-0.0267626,-0.0846554,-0.146078,-0.210727,-0.278239,-0.348217,-0.420266,-0.494021,-0.569181,-0.645516,-0.722862,-0.801099,-0.880111,-0.959785,-1.04001,-1.12067,-1.20167,-1.28295,-1.36449,-1.44617,-1.52801,-1.60993,-1.69193,-1.77396,-1.85604,-1.93806,-2.02633,-2.10723,-2.18812,-2.26903,-2.34994,-2.43086,-2.51179,-2.59272,-2.67366,-2.7546,-2.83554,-2.91649,-2.99744,-3.0784,-3.15936,-3.24032,-3.32128,-3.40225,-3.48322,-3.56419,-3.64516,-3.72614,-3.80711,-3.88809,-3.96907,-4.05005,-4.13103,-4.21202,-4.293,-4.37398,-4.45497,-4.53596,-4.61694,-4.69793}
,{-2.38654,-2.3456,-2.30463,-2.26363,-2.22259,-2.18151,-2.1404,-2.09924,-2.05805,-2.0168,-1.97552,-1.93418,-1.89279,-1.85135,-1.80986,-1.76831,-1.7267,-1.68504,-1.64332,-1.60154,-1.5597,-1.5178,-1.47584,-1.43383,-1.39177,-1.34966,-1.30751,-1.26532,-1.22309,-1.18085,-1.1386,-1.09635,-1.05412,-1.01193,-0.969797,-0.927743,-0.885795,-0.843982,-0.802338,-0.760896,-0.719695,-0.678774,-0.638177,-0.597947,-0.55813,-0.518772,-0.479919,-0.441618,-0.403913,-0.366848,-0.330463,-0.294796,-0.259882,-0.225751,-0.192432,-0.159946,-0.128313,-0.0975459,-0.0676564,-0.0386506,-0.0105316,0.0167011,0.0430504,0.068522,0.0931235,0.116864,0.139754,0.161805,0.183028,0.203435,0.223038,0.241849,0.259879,0.277139,0.293639,0.309391,0.324402,0.338685,0.352248,0.365103,0.377259,0.388728,0.399524,0.409658,0.419147,0.428005,0.436251,0.443902,0.450978,0.457501,0.463492,0.468973,0.47397,0.478504,0.482601,0.486284,0.489575,0.492498,0.495075,0.497324,0.499265,0.500914,0.502287,0.503395,0.504247,0.504852,0.505213,0.50533,0.505201,0.504819,0.504171,0.503244,0.502015,0.500458,0.498541,0.496224,0.493461,0.490195,0.486364,0.481892,0.476694,0.470673,0.463718,0.455704,0.446491,0.435925,0.423834,0.41003,0.394309,0.376455,0.356236,0.333413,0.307743,0.278985,0.246906,0.211294,0.171968,0.128791,0.081684,0.0306345,-0.0242871,-0.0829255,-0.145042,-0.210323,-0.278398,-0.348871,-0.421347,-0.495473,-0.570957,-0.64758,-0.725186,-0.80366,-0.882888,-0.962755,-1.04315,-1.12396,-1.20511,-1.28651,-1.36816,-1.44995,-1.53188,-1.61389,-1.69597,-1.77806,-1.86022,-1.94228,-2.03119,-2.11208,-2.19298,-2.27389,-2.3548,-2.43572,-2.51665,-2.59758,-2.67851,-2.75945,-2.8404,-2.92135,-3.0023,-3.08325,-3.16421,-3.24518,-3.32614,-3.40711,-3.48808,-3.56905,-3.65002,-3.73099,-3.81197,-3.89295,-3.97393,-4.05491,-4.13589,-4.21687,-4.29786,-4.37884,-4.45983,-4.54081,-4.6218,-4.70279}
,{-2.41173,-2.37078,-2.32979,-2.28877,-2.24772,-2.20663,-2.16549,-2.12432,-2.08309,-2.04183,-2.00051,-1.95914,-1.91772,-1.87624,-1.8347,-1.79311,-1.75145,-1.70973,-1.66794,-1.62609,-1.58418,-1.5422,-1.50015,-1.45805,-1.41587,-1.37364,-1.33136,-1.28902,-1.24665,-1.20423,-1.16179,-1.11933,-1.07688,-1.03444,-0.992029,-0.949677,-0.907404,-0.865238,-0.823209,-0.78135,-0.739698,-0.698291,-0.65717,-0.61638,-0.575964,-0.53597,-0.496444,-0.457433,-0.418984,-0.381141,-0.343947,-0.307443,-0.271667,-0.236653,-0.202431,-0.169029,-0.136467,-0.104766,-0.0739381,-0.0439944,-0.0149411,0.0132186,0.0404848,0.0668601,0.0923495,0.11696,0.1407,0.163578,0.185605,0.206791,0.227147,0.246684,0.265412,0.283342,0.300484,0.316848,0.332443,0.34728,0.361369,0.374721,0.387347,0.399258,0.410467,0.42099,0.43084,0.440035,0.448593,0.456533,0.463875,0.470642,0.476856,0.482542,0.487723,0.492424,0.496671,0.500487,0.503897,0.506925,0.509592,0.51192,0.513927,0.515631,0.517047,0.518187,0.519063,0.51968,0.520043,0.520152,0.520004,0.519591,0.518903,0.517922,0.516626,0.514989,0.512976,0.510546,0.50765,0.504232,0.500225,0.495551,0.490124,0.483841,0.47659,0.468243,0.458655,0.44767,0.435111,0.420787,0.404493,0.386008,0.365101,0.341532,0.315059,0.285443,0.252457,0.215898,0.175593,0.131419,0.0833113,0.0312759,-0.024599,-0.0841397,-0.147091,-0.213127,-0.28187,-0.352923,-0.425898,-0.500451,-0.576306,-0.653258,-0.73116,-0.809903,-0.889373,-0.969455,-1.05004,-1.13102,-1.21231,-1.29386,-1.37562,-1.45752,-1.53955,-1.62164,-1.70379,-1.78595,-1.86817,-1.95028,-2.03977,-2.12066,-2.20156,-2.28247,-2.36338,-2.4443,-2.52523,-2.60616,-2.68709,-2.76803,-2.84898,-2.92993,-3.01088,-3.09183,-3.17279,-3.25375,-3.33472,-3.41569,-3.49665,-3.57763,-3.6586,-3.73957,-3.82055,-3.90153,-3.98251,-4.06349,-4.14447,-4.22545,-4.30644,-4.38742,-4.46841,-4.54939,-4.63038,-4.71137}
,{-2.4363,-2.39534,-2.35434,-2.31331,-2.27224,-2.23113,-2.18998,-2.14878,-2.10754,-2.06624,-2.0249,-1.9835,-1.94204,-1.90053,-1.85895,-1.81731,-1.77561,-1.73384,-1.69199,-1.65008,-1.60809,-1.56604,-1.52391,-1.4817,-1.43943,-1.39709,-1.35468,-1.31221,-1.26968,-1.22711,-1.18449,-1.14183,-1.09916,-1.05649,-1.01382,-0.971192,-0.928613,-0.886114,-0.843722,-0.801469,-0.759389,-0.71752,-0.675902,-0.634578,-0.593591,-0.552989,-0.512817,-0.473124,-0.433957,-0.395363,-0.357385,-0.320069,-0.283453,-0.247575,-0.212469,-0.178166,-0.144691,-0.112066,-0.0803095,-0.0494351,-0.0194528,0.0096308,0.0378125,0.065092,0.0914714,0.116955,0.141549,0.165261,0.188099,0.210071,0.231188,0.25146,0.270895,0.289504,0.307296,0.324282,0.34047,0.355871,0.370495,0.384352,0.397455,0.409816,0.421447,0.432364,0.442583,0.452121,0.460997,0.469231,0.476845,0.48386,0.490303,0.496196,0.501565,0.506437,0.510837,0.51479,0.518322,0.521457,0.524217,0.526625,0.528701,0.530461,0.531923,0.533099,0.533999,0.53463,0.534998,0.535101,0.534937,0.534499,0.533773,0.532743,0.531386,0.529673,0.52757,0.525034,0.522015,0.518454,0.514282,0.509421,0.503779,0.497254,0.489729,0.481072,0.471139,0.459767,0.446778,0.431978,0.41516,0.396102,0.37457,0.350326,0.323129,0.292743,0.258946,0.221543,0.18037,0.135315,0.0863287,0.0334304,-0.0232752,-0.0835993,-0.147273,-0.213962,-0.283281,-0.354835,-0.428242,-0.50317,-0.579353,-0.656596,-0.734763,-0.813748,-0.893436,-0.973712,-1.05447,-1.1356,-1.21703,-1.29871,-1.38058,-1.46258,-1.5447,-1.62687,-1.70911,-1.79132,-1.87362,-1.95583,-2.04586,-2.12675,-2.20765,-2.28856,-2.36947,-2.45039,-2.53132,-2.61225,-2.69318,-2.77412,-2.85507,-2.93602,-3.01697,-3.09793,-3.17888,-3.25985,-3.34081,-3.42178,-3.50275,-3.58372,-3.66469,-3.74567,-3.82664,-3.90762,-3.9886,-4.06958,-4.15056,-4.23154,-4.31253,-4.39351,-4.4745,-4.55548,-4.63647,-4.71746}
,{-2.46029,-2.41931,-2.37831,-2.33726,-2.29618,-2.25505,-2.21388,-2.17267,-2.1314,-2.09008,-2.04871,-2.00729,-1.9658,-1.92425,-1.88264,-1.84096,-1.79921,-1.75739,-1.71549,-1.67352,-1.63147,-1.58933,-1.54712,-1.50483,-1.46247,-1.42002,-1.37749,-1.33489,-1.29223,-1.2495,-1.20671,-1.16387,-1.121,-1.0781,-1.0352,-0.992301,-0.949434,-0.906619,-0.863883,-0.821256,-0.778772,-0.736464,-0.694374,-0.652541,-0.611009,-0.569825,-0.529034,-0.488686,-0.448827,-0.409506,-0.37077,-0.332663,-0.295229,-0.258508,-0.222537,-0.187349,-0.152975,-0.119439,-0.0867641,-0.0549671,-0.0240617,0.0059418,0.035037,0.0632203,0.090491,0.116851,0.142303,0.166853,0.190508,0.213274,0.23516,0.256174,0.276325,0.295621,0.314073,0.331689,0.348478,0.364451,0.379618,0.393989,0.407578,0.420395,0.432455,0.443774,0.454367,0.464254,0.473453,0.481986,0.489875,0.497143,0.503817,0.50992,0.515481,0.520524,0.525078,0.529169,0.532822,0.536064,0.538916,0.541403,0.543544,0.545359,0.546862,0.548068,0.548986,0.549626,0.549989,0.550077,0.549886,0.549408,0.54863,0.547533,0.546094,0.544284,0.542065,0.539393,0.536217,0.532474,0.528094,0.522994,0.517081,0.510249,0.502377,0.493331,0.48296,0.471099,0.457566,0.442165,0.424685,0.4049,0.382579,0.357481,0.329368,0.29801,0.26319,0.224721,0.182456,0.136294,0.0862053,0.0322287,-0.0255102,-0.0868033,-0.151365,-0.218848,-0.288863,-0.361016,-0.434936,-0.510303,-0.586867,-0.66445,-0.742928,-0.822188,-0.902125,-0.982618,-1.06356,-1.14487,-1.22645,-1.30826,-1.39025,-1.47235,-1.55457,-1.63682,-1.71914,-1.80142,-1.88378,-1.96604,-2.05657,-2.13746,-2.21836,-2.29927,-2.38018,-2.4611,-2.54203,-2.62296,-2.70389,-2.78483,-2.86578,-2.94673,-3.02768,-3.10864,-3.18959,-3.27056,-3.35152,-3.43249,-3.51346,-3.59443,-3.6754,-3.75638,-3.83735,-3.91833,-3.99931,-4.08029,-4.16127,-4.24225,-4.32324,-4.40422,-4.48521,-4.56619,-4.64718,-4.72817}
,{-2.48372,-2.44273,-2.40171,-2.36066,-2.31956,-2.27842,-2.23723,-2.196,-2.15471,-2.11338,-2.07198,-2.03053,-1.98902,-1.94744,-1.90579,-1.86407,-1.82228,-1.78041,-1.73846,-1.69643,-1.65432,-1.61212,-1.56983,-1.52746,-1.485,-1.44245,-1.39982,-1.3571,-1.3143,-1.27142,-1.22848,-1.18547,-1.1424,-1.0993,-1.05616,-1.01302,-0.969875,-0.926761,-0.8837,-0.840719,-0.79785,-0.755126,-0.712585,-0.670268,-0.628215,-0.586474,-0.545089,-0.50411,-0.463585,-0.423562,-0.384091,-0.345217,-0.306987,-0.269443,-0.232625,-0.196569,-0.16131,-0.126876,-0.0932929,-0.0605817,-0.0287597,0.00215929,0.0321654,0.0612517,0.0894146,0.116653,0.142967,0.168361,0.192838,0.216404,0.239066,0.26083,0.281705,0.301698,0.320818,0.339073,0.356473,0.373027,0.388746,0.40364,0.417721,0.431003,0.4435,0.455227,0.466202,0.476444,0.485973,0.49481,0.50298,0.510506,0.517416,0.523734,0.529489,0.534709,0.539421,0.543653,0.547432,0.550783,0.553731,0.5563,0.55851,0.560381,0.561929,0.563169,0.56411,0.564761,0.565126,0.565204,0.564992,0.564481,0.563658,0.562503,0.560993,0.559096,0.556774,0.553982,0.550666,0.546762,0.542197,0.536886,0.530734,0.523631,0.515454,0.506065,0.495311,0.483024,0.469019,0.453097,0.435044,0.414635,0.391637,0.365811,0.336921,0.30474,0.269058,0.229699,0.186522,0.139443,0.0884451,0.0335834,-0.0249994,-0.0870826,-0.152365,-0.220493,-0.291074,-0.363716,-0.438057,-0.513788,-0.590674,-0.668545,-0.747284,-0.826783,-0.906935,-0.987617,-1.06874,-1.15019,-1.2319,-1.31384,-1.39594,-1.47814,-1.56045,-1.64277,-1.72517,-1.8075,-1.8899,-1.97227,-2.06334,-2.14423,-2.22513,-2.30603,-2.38695,-2.46787,-2.54879,-2.62972,-2.71066,-2.7916,-2.87254,-2.95349,-3.03445,-3.1154,-3.19636,-3.27732,-3.35829,-3.43925,-3.52022,-3.60119,-3.68217,-3.76314,-3.84412,-3.9251,-4.00607,-4.08705,-4.16804,-4.24902,-4.33,-4.41099,-4.49197,-4.57296,-4.65395,-4.73493}
,{-2.50661,-2.46562,-2.42459,-2.38352,-2.34241,-2.30126,-2.26005,-2.21881,-2.1775,-2.13615,-2.09473,-2.05325,-2.01171,-1.9701,-1.92842,-1.88667,-1.84483,-1.80292,-1.76092,-1.71884,-1.67667,-1.63441,-1.59205,-1.5496,-1.50705,-1.46441,-1.42167,-1.37884,-1.33592,-1.2929,-1.24981,-1.20663,-1.16339,-1.12009,-1.07673,-1.03335,-0.989949,-0.946552,-0.903182,-0.859865,-0.81663,-0.77351,-0.73054,-0.687759,-0.645209,-0.602934,-0.56098,-0.519394,-0.478227,-0.437526,-0.397343,-0.357725,-0.318719,-0.280372,-0.242725,-0.205819,-0.16969,-0.134371,-0.0998905,-0.0662741,-0.0335427,-0.00171335,0.0292003,0.0591882,0.0882433,0.116361,0.143541,0.169782,0.195087,0.21946,0.242904,0.265427,0.287033,0.307731,0.327527,0.34643,0.364449,0.381592,0.397871,0.413295,0.427878,0.441632,0.454572,0.466715,0.478078,0.48868,0.498544,0.507691,0.516146,0.523934,0.531082,0.537619,0.543571,0.548969,0.55384,0.558214,0.562117,0.565578,0.568621,0.57127,0.573547,0.575472,0.577061,0.57833,0.579288,0.579944,0.580302,0.580361,0.580117,0.579561,0.578678,0.577449,0.575849,0.573844,0.571395,0.568454,0.564966,0.560864,0.556073,0.550505,0.544061,0.536627,0.528079,0.518272,0.507053,0.494247,0.479666,0.46311,0.444361,0.423194,0.399373,0.372662,0.342829,0.309651,0.272928,0.232491,0.188215,0.140032,0.0879438,0.0320247,-0.0275622,-0.090578,-0.156707,-0.225586,-0.29682,-0.370022,-0.44484,-0.520984,-0.598231,-0.676426,-0.755458,-0.835223,-0.915606,-0.996498,-1.0778,-1.15941,-1.24126,-1.32333,-1.40554,-1.48785,-1.57024,-1.65265,-1.73512,-1.81754,-1.89997,-1.98239,-2.07394,-2.15483,-2.23573,-2.31663,-2.39754,-2.47846,-2.55939,-2.64032,-2.72126,-2.8022,-2.88314,-2.96409,-3.04504,-3.126,-3.20696,-3.28792,-3.36888,-3.44985,-3.53082,-3.61179,-3.69276,-3.77374,-3.85472,-3.93569,-4.01667,-4.09765,-4.17863,-4.25962,-4.3406,-4.42159,-4.50257,-4.58356,-4.66454,-4.74553}
,{-2.529,-2.48799,-2.44695,-2.40588,-2.36475,-2.32359,-2.28237,-2.24111,-2.19979,-2.15841,-2.11698,-2.07548,-2.03391,-1.99227,-1.95056,-1.90877,-1.8669,-1.82495,-1.7829,-1.74077,-1.69854,-1.65622,-1.6138,-1.57127,-1.52865,-1.48592,-1.44308,-1.40014,-1.3571,-1.31396,-1.27072,-1.22739,-1.18397,-1.14048,-1.09692,-1.05331,-1.00967,-0.966,-0.922336,-0.878699,-0.835117,-0.791619,-0.748239,-0.705017,-0.66199,-0.619204,-0.576702,-0.534534,-0.492747,-0.451392,-0.410519,-0.370178,-0.330418,-0.291287,-0.25283,-0.215089,-0.178105,-0.141914,-0.106548,-0.0720363,-0.0384028,-0.00566865,0.0261489,0.0570363,0.0869834,0.115983,0.14403,0.171123,0.197261,0.222445,0.246679,0.269967,0.292313,0.313724,0.334205,0.353765,0.372411,0.390153,0.407,0.422964,0.438056,0.45229,0.465681,0.478247,0.490005,0.500975,0.51118,0.520642,0.529388,0.537443,0.544836,0.551595,0.557749,0.563329,0.568364,0.572883,0.576916,0.58049,0.583631,0.586365,0.588713,0.590696,0.592331,0.593633,0.594614,0.595281,0.595638,0.595684,0.595416,0.594824,0.593893,0.592602,0.590924,0.588827,0.586269,0.5832,0.579564,0.575292,0.570307,0.564518,0.557823,0.550108,0.541242,0.531081,0.519466,0.506222,0.491158,0.47407,0.454741,0.432943,0.408442,0.381003,0.350398,0.316407,0.278838,0.237531,0.192374,0.143309,0.0903543,0.0335988,-0.0267794,-0.0905282,-0.157322,-0.22679,-0.29854,-0.372186,-0.447388,-0.523865,-0.601409,-0.679876,-0.759154,-0.839142,-0.919724,-1.00079,-1.08225,-1.16401,-1.24599,-1.32818,-1.41049,-1.49289,-1.57537,-1.65786,-1.74038,-1.82287,-1.90534,-1.98786,-2.07994,-2.16083,-2.24173,-2.32263,-2.40355,-2.48447,-2.56539,-2.64632,-2.72726,-2.8082,-2.88914,-2.97009,-3.05104,-3.132,-3.21296,-3.29392,-3.37489,-3.45585,-3.53682,-3.61779,-3.69876,-3.77974,-3.86072,-3.94169,-4.02267,-4.10365,-4.18463,-4.26562,-4.3466,-4.42759,-4.50857,-4.58956,-4.67054,-4.75153}
,{-2.55089,-2.50988,-2.46883,-2.42775,-2.38661,-2.34543,-2.30421,-2.26293,-2.22159,-2.1802,-2.13874,-2.09722,-2.05563,-2.01397,-1.97223,-1.93041,-1.8885,-1.84651,-1.80442,-1.76224,-1.71996,-1.67758,-1.6351,-1.5925,-1.5498,-1.50698,-1.46405,-1.42101,-1.37786,-1.33459,-1.29122,-1.24774,-1.20416,-1.16049,-1.11674,-1.07292,-1.02904,-0.985114,-0.941172,-0.89723,-0.853316,-0.809458,-0.765688,-0.722042,-0.67856,-0.635283,-0.592256,-0.549526,-0.507142,-0.465154,-0.423613,-0.382571,-0.342077,-0.302182,-0.262933,-0.224375,-0.186552,-0.149502,-0.113263,-0.0778647,-0.0433371,-0.00970448,0.0230126,0.0547969,0.0856349,0.115516,0.144433,0.17238,0.199355,0.225357,0.250387,0.274447,0.29754,0.319671,0.340846,0.361071,0.380353,0.398701,0.416125,0.432635,0.448244,0.462965,0.476815,0.48981,0.501968,0.513312,0.523863,0.533646,0.542686,0.551012,0.558652,0.565636,0.571994,0.577758,0.582957,0.587622,0.591783,0.595469,0.598707,0.601521,0.603936,0.605972,0.607648,0.608977,0.609971,0.610639,0.610984,0.611006,0.610699,0.610053,0.609053,0.607677,0.605896,0.603677,0.600975,0.59774,0.593912,0.58942,0.584183,0.578109,0.571091,0.563012,0.553738,0.54312,0.530996,0.517187,0.501499,0.483726,0.463647,0.441035,0.415656,0.387278,0.355674,0.320635,0.281976,0.239549,0.193257,0.143062,0.0889982,0.0311785,-0.0302019,-0.0948728,-0.162495,-0.232691,-0.30507,-0.379253,-0.454913,-0.531787,-0.609684,-0.688467,-0.768032,-0.848278,-0.929089,-1.01036,-1.09199,-1.1739,-1.25602,-1.33833,-1.42075,-1.50325,-1.58581,-1.66838,-1.75097,-1.83352,-1.91603,-2.01025,-2.09113,-2.17202,-2.25292,-2.33383,-2.41474,-2.49566,-2.57658,-2.65751,-2.73845,-2.81939,-2.90034,-2.98128,-3.06224,-3.14319,-3.22415,-3.30511,-3.38608,-3.46704,-3.54801,-3.62898,-3.70996,-3.79093,-3.87191,-3.95289,-4.03387,-4.11485,-4.19583,-4.27681,-4.35779,-4.43878,-4.51976,-4.60075,-4.68174,-4.76272}
,{-2.57232,-2.53131,-2.49025,-2.44915,-2.40801,-2.36682,-2.32558,-2.28429,-2.24294,-2.20153,-2.16005,-2.11851,-2.0769,-2.03521,-1.99344,-1.95159,-1.90965,-1.86762,-1.8255,-1.78327,-1.74094,-1.69851,-1.65596,-1.6133,-1.57053,-1.52763,-1.48461,-1.44148,-1.39822,-1.35483,-1.31133,-1.26771,-1.22398,-1.18014,-1.1362,-1.09217,-1.04807,-1.00391,-0.959696,-0.915464,-0.871234,-0.827031,-0.782888,-0.738838,-0.694919,-0.651172,-0.607639,-0.564369,-0.521409,-0.478809,-0.436622,-0.394898,-0.35369,-0.31305,-0.273027,-0.233668,-0.195021,-0.157126,-0.120024,-0.0837506,-0.0483373,-0.0138125,0.0197994,0.0524778,0.0842056,0.114969,0.144757,0.173562,0.201379,0.228204,0.254035,0.278874,0.302722,0.325581,0.347457,0.368355,0.388282,0.407245,0.425254,0.44232,0.458455,0.473672,0.487988,0.501419,0.513986,0.52571,0.536614,0.546724,0.556066,0.564669,0.572562,0.579776,0.586344,0.592296,0.597664,0.602481,0.606776,0.610579,0.613918,0.61682,0.619308,0.621404,0.623127,0.62449,0.625508,0.626186,0.626531,0.626539,0.626207,0.625524,0.624474,0.623033,0.621174,0.618859,0.616046,0.612681,0.608702,0.604037,0.598604,0.592306,0.585037,0.576675,0.567084,0.556114,0.543599,0.529358,0.513195,0.494902,0.474259,0.451037,0.425004,0.39593,0.363592,0.327786,0.288334,0.245099,0.197992,0.14699,0.0921386,0.033565,-0.0285225,-0.0938437,-0.162051,-0.232765,-0.305595,-0.380169,-0.456169,-0.533343,-0.611508,-0.690536,-0.770326,-0.850776,-0.93177,-1.01321,-1.09498,-1.17702,-1.25927,-1.34169,-1.4242,-1.5068,-1.58943,-1.67208,-1.75474,-1.83737,-1.91991,-2.01475,-2.09563,-2.17652,-2.25742,-2.33833,-2.41924,-2.50016,-2.58109,-2.66202,-2.74296,-2.8239,-2.90484,-2.98579,-3.06674,-3.1477,-3.22866,-3.30962,-3.39058,-3.47155,-3.55252,-3.63349,-3.71446,-3.79544,-3.87641,-3.95739,-4.03837,-4.11935,-4.20033,-4.28132,-4.3623,-4.44328,-4.52427,-4.60525,-4.68624,-4.76723}
,{-2.59331,-2.55228,-2.51122,-2.47011,-2.42896,-2.38776,-2.34651,-2.3052,-2.26384,-2.22241,-2.18092,-2.13936,-2.09773,-2.05602,-2.01422,-1.97234,-1.93037,-1.88831,-1.84615,-1.80388,-1.7615,-1.71902,-1.67642,-1.63369,-1.59085,-1.54788,-1.50478,-1.46155,-1.41818,-1.37469,-1.33107,-1.28731,-1.24343,-1.19943,-1.15532,-1.1111,-1.06678,-1.02238,-0.977919,-0.93341,-0.888877,-0.844346,-0.799845,-0.755408,-0.71107,-0.666871,-0.622853,-0.579062,-0.535546,-0.492355,-0.449541,-0.407157,-0.365255,-0.323888,-0.283108,-0.242966,-0.203509,-0.164784,-0.126832,-0.0896933,-0.0534031,-0.0179933,0.0165081,0.0500768,0.0826921,0.114337,0.144997,0.174662,0.203324,0.230976,0.257614,0.283238,0.307847,0.331442,0.354027,0.375606,0.396185,0.415771,0.434373,0.452001,0.468669,0.484388,0.499176,0.513051,0.526032,0.538141,0.549403,0.559843,0.569489,0.578371,0.58652,0.593966,0.600743,0.606883,0.61242,0.617385,0.621811,0.625727,0.629163,0.632145,0.634699,0.636845,0.638603,0.639988,0.641013,0.641685,0.642007,0.641979,0.641595,0.640843,0.639706,0.63816,0.636175,0.633712,0.630726,0.627161,0.622953,0.618026,0.612294,0.605659,0.598009,0.589218,0.579148,0.567642,0.554532,0.539632,0.522744,0.503657,0.482148,0.45799,0.43095,0.400802,0.367331,0.330339,0.289661,0.245174,0.196807,0.144558,0.088495,0.0287672,-0.0343958,-0.100694,-0.169773,-0.241244,-0.314722,-0.389847,-0.466317,-0.543899,-0.622426,-0.701782,-0.781869,-0.86258,-0.943806,-1.02544,-1.1074,-1.18959,-1.27197,-1.35451,-1.43713,-1.51982,-1.60253,-1.68526,-1.76796,-1.85066,-1.93326,-2.0285,-2.10939,-2.19028,-2.27117,-2.35208,-2.43299,-2.51391,-2.59484,-2.67577,-2.75671,-2.83765,-2.91859,-2.99954,-3.08049,-3.16145,-3.24241,-3.32337,-3.40433,-3.4853,-3.56627,-3.64724,-3.72821,-3.80919,-3.89016,-3.97114,-4.05212,-4.1331,-4.21408,-4.29507,-4.37605,-4.45703,-4.53802,-4.61901,-4.69999,-4.78098}
,{-2.61386,-2.57283,-2.53176,-2.49064,-2.44948,-2.40827,-2.36701,-2.32569,-2.28432,-2.24288,-2.20137,-2.15979,-2.11814,-2.0764,-2.03459,-1.99268,-1.95068,-1.90858,-1.86639,-1.82408,-1.78166,-1.73913,-1.69647,-1.65369,-1.61078,-1.56773,-1.52455,-1.48124,-1.43778,-1.39418,-1.35044,-1.30656,-1.26254,-1.21838,-1.1741,-1.12969,-1.08517,-1.04055,-0.995848,-0.951074,-0.906252,-0.861406,-0.816563,-0.771754,-0.727014,-0.682381,-0.637896,-0.593603,-0.54955,-0.505788,-0.462367,-0.41934,-0.376763,-0.334688,-0.293169,-0.252259,-0.212009,-0.172466,-0.133677,-0.0956832,-0.0585251,-0.0222374,0.013148,0.0476032,0.0811041,0.11363,0.145164,0.175691,0.2052,0.233684,0.261135,0.28755,0.312927,0.337265,0.360567,0.382835,0.404075,0.424292,0.443496,0.461696,0.478904,0.495135,0.510403,0.524729,0.538131,0.550633,0.562259,0.573037,0.582994,0.592162,0.600571,0.608255,0.615247,0.621581,0.627291,0.632411,0.636973,0.641008,0.644546,0.647615,0.65024,0.652443,0.654244,0.65566,0.656701,0.657376,0.657688,0.657637,0.657215,0.656411,0.655207,0.653578,0.651492,0.64891,0.645784,0.642057,0.637662,0.632523,0.62655,0.619642,0.611685,0.602551,0.592096,0.580164,0.566581,0.551161,0.533702,0.513993,0.49181,0.466925,0.439109,0.408138,0.373803,0.335911,0.294309,0.248885,0.19958,0.146408,0.0894519,0.0288774,-0.0350718,-0.102085,-0.1718,-0.243827,-0.317784,-0.393322,-0.47015,-0.548048,-0.62686,-0.706475,-0.786798,-0.867722,-0.949137,-1.03094,-1.11304,-1.19537,-1.27788,-1.36052,-1.44323,-1.52602,-1.6088,-1.69161,-1.77436,-1.85714,-1.93978,-2.03557,-2.11645,-2.19734,-2.27824,-2.35914,-2.44006,-2.52098,-2.6019,-2.68283,-2.76377,-2.84471,-2.92565,-3.0066,-3.08756,-3.16851,-3.24947,-3.33043,-3.4114,-3.49236,-3.57333,-3.6543,-3.73528,-3.81625,-3.89723,-3.9782,-4.05918,-4.14016,-4.22115,-4.30213,-4.38311,-4.4641,-4.54508,-4.62607,-4.70706,-4.78804}
,{-2.634,-2.59296,-2.55189,-2.51076,-2.4696,-2.42838,-2.3871,-2.34578,-2.30439,-2.26293,-2.22141,-2.17982,-2.13814,-2.09639,-2.05455,-2.01262,-1.97059,-1.92847,-1.88623,-1.84389,-1.80143,-1.75885,-1.71614,-1.6733,-1.63033,-1.58722,-1.54396,-1.50056,-1.45701,-1.41331,-1.36946,-1.32546,-1.2813,-1.237,-1.19256,-1.14797,-1.10326,-1.05843,-1.01349,-0.968464,-0.923365,-0.878217,-0.833046,-0.787881,-0.742755,-0.697704,-0.652769,-0.607993,-0.563422,-0.519106,-0.475097,-0.431448,-0.388213,-0.345448,-0.303207,-0.261546,-0.220517,-0.18017,-0.140556,-0.101719,-0.0637023,-0.0265445,0.00971882,0.0450562,0.0794397,0.112845,0.145252,0.176643,0.207004,0.236322,0.264591,0.291803,0.317954,0.343043,0.367068,0.390033,0.411941,0.432798,0.452611,0.47139,0.489147,0.505895,0.521651,0.536434,0.550264,0.563164,0.575161,0.58628,0.596553,0.606009,0.614683,0.622607,0.629816,0.636345,0.64223,0.647504,0.652201,0.656353,0.659991,0.663144,0.665836,0.668092,0.669931,0.671369,0.672418,0.673086,0.673377,0.673289,0.672815,0.671942,0.670651,0.668915,0.666703,0.663972,0.660673,0.656746,0.652123,0.646724,0.640455,0.633214,0.624882,0.615328,0.604404,0.591951,0.577792,0.561737,0.543583,0.523115,0.500111,0.474342,0.445582,0.413611,0.378224,0.339242,0.296521,0.249963,0.199528,0.145247,0.0872229,0.0256406,-0.0392385,-0.107091,-0.177546,-0.250214,-0.324719,-0.400725,-0.477956,-0.556209,-0.63534,-0.715245,-0.795831,-0.876988,-0.958607,-1.04059,-1.12285,-1.20531,-1.28795,-1.3707,-1.45351,-1.53638,-1.61923,-1.70213,-1.78493,-1.86776,-1.95048,-2.04668,-2.12756,-2.20845,-2.28935,-2.37026,-2.45117,-2.53209,-2.61301,-2.69394,-2.77488,-2.85582,-2.93677,-3.01771,-3.09867,-3.17962,-3.26058,-3.34154,-3.42251,-3.50347,-3.58444,-3.66541,-3.74639,-3.82736,-3.90834,-3.98932,-4.0703,-4.15128,-4.23226,-4.31324,-4.39422,-4.47521,-4.55619,-4.63718,-4.71817,-4.79915}
,{-2.65375,-2.6127,-2.57162,-2.53049,-2.48931,-2.44809,-2.40681,-2.36547,-2.32407,-2.2826,-2.24106,-2.19945,-2.15776,-2.11599,-2.07413,-2.03217,-1.99012,-1.94797,-1.9057,-1.86332,-1.82082,-1.7782,-1.73544,-1.69255,-1.64952,-1.60634,-1.56302,-1.51954,-1.4759,-1.4321,-1.38814,-1.34402,-1.29974,-1.2553,-1.2107,-1.16595,-1.12105,-1.07602,-1.03086,-0.985587,-0.940222,-0.894786,-0.8493,-0.803792,-0.758295,-0.712842,-0.667473,-0.62223,-0.577159,-0.532308,-0.487729,-0.443475,-0.3996,-0.356162,-0.313217,-0.27082,-0.229027,-0.187891,-0.147464,-0.107794,-0.0689284,-0.0309084,0.00622668,0.0424416,0.0777048,0.111989,0.145269,0.177525,0.208739,0.238897,0.267987,0.296002,0.322934,0.348779,0.373536,0.397206,0.41979,0.441294,0.461725,0.481091,0.499404,0.516679,0.53293,0.548178,0.562442,0.575748,0.58812,0.599588,0.610181,0.619933,0.628875,0.637044,0.644475,0.651203,0.657266,0.662698,0.667534,0.671806,0.675548,0.678787,0.68155,0.683861,0.68574,0.687203,0.688263,0.688928,0.689201,0.68908,0.688558,0.68762,0.686247,0.684412,0.68208,0.679209,0.675746,0.671631,0.666793,0.661147,0.654601,0.647047,0.638364,0.628417,0.617057,0.604119,0.589426,0.572784,0.553989,0.532825,0.509068,0.482493,0.452874,0.419998,0.383664,0.343704,0.299983,0.252417,0.200981,0.145722,0.0867606,0.0242991,-0.0413903,-0.10997,-0.181067,-0.254291,-0.329273,-0.405689,-0.483277,-0.561846,-0.641263,-0.721432,-0.802252,-0.883621,-0.965425,-1.04757,-1.12998,-1.21257,-1.29533,-1.37819,-1.46108,-1.54404,-1.62698,-1.70992,-1.79279,-1.87568,-1.95845,-2.05513,-2.13602,-2.21691,-2.2978,-2.37871,-2.45962,-2.54054,-2.62147,-2.7024,-2.78334,-2.86428,-2.94522,-3.02617,-3.10712,-3.18808,-3.26904,-3.35,-3.43096,-3.51193,-3.5929,-3.67387,-3.75484,-3.83582,-3.91679,-3.99777,-4.07875,-4.15973,-4.24071,-4.3217,-4.40268,-4.48366,-4.56465,-4.64564,-4.72662,-4.80761}
,{-2.67311,-2.63207,-2.59097,-2.54984,-2.50866,-2.46742,-2.42613,-2.38478,-2.34337,-2.30189,-2.26034,-2.21872,-2.17701,-2.13522,-2.09334,-2.05136,-2.00928,-1.9671,-1.9248,-1.88239,-1.83985,-1.79719,-1.75439,-1.71144,-1.66836,-1.62512,-1.58172,-1.53817,-1.49445,-1.45056,-1.4065,-1.36227,-1.31787,-1.27329,-1.22854,-1.18363,-1.13856,-1.09333,-1.04795,-1.00245,-0.956832,-0.911117,-0.865329,-0.819492,-0.773638,-0.727799,-0.682012,-0.636318,-0.590763,-0.545394,-0.500262,-0.45542,-0.410924,-0.366831,-0.323197,-0.28008,-0.237538,-0.195626,-0.154399,-0.113909,-0.0742033,-0.0353295,0.00267049,0.0397576,0.0758968,0.111057,0.145209,0.178331,0.2104,0.2414,0.271317,0.300139,0.327857,0.354465,0.37996,0.404341,0.427609,0.449768,0.470823,0.490784,0.509661,0.527468,0.544221,0.559939,0.574644,0.588359,0.601113,0.612932,0.62385,0.633898,0.643112,0.651527,0.659179,0.666107,0.672346,0.677934,0.682905,0.687294,0.691133,0.694451,0.697277,0.699633,0.70154,0.703016,0.704071,0.704715,0.704949,0.704771,0.704173,0.703139,0.701649,0.699673,0.697175,0.694111,0.690425,0.686054,0.680924,0.674947,0.668027,0.660051,0.650894,0.640419,0.628471,0.614882,0.599469,0.582037,0.562378,0.540275,0.515504,0.487841,0.457066,0.42297,0.385362,0.344085,0.299022,0.250107,0.197334,0.140776,0.0805763,0.0169594,-0.0497833,-0.119301,-0.191214,-0.265137,-0.34071,-0.417628,-0.49565,-0.574602,-0.654365,-0.734846,-0.815946,-0.897558,-0.979574,-1.06191,-1.14447,-1.2272,-1.31008,-1.39304,-1.47604,-1.55908,-1.64207,-1.7251,-1.80801,-1.89092,-1.97378,-2.07075,-2.15163,-2.23252,-2.31342,-2.39433,-2.47524,-2.55616,-2.63709,-2.71802,-2.79895,-2.87989,-2.96084,-3.04179,-3.12274,-3.2037,-3.28465,-3.36562,-3.44658,-3.52755,-3.60852,-3.68949,-3.77046,-3.85143,-3.93241,-4.01339,-4.09437,-4.17535,-4.25633,-4.33731,-4.4183,-4.49928,-4.58027,-4.66125,-4.74224,-4.82323}
,{-2.69211,-2.65106,-2.60996,-2.56882,-2.52763,-2.48639,-2.44509,-2.40373,-2.36231,-2.32082,-2.27926,-2.23762,-2.1959,-2.15409,-2.11219,-2.07019,-2.02809,-1.98588,-1.94356,-1.90111,-1.85854,-1.81583,-1.77299,-1.73,-1.68686,-1.64356,-1.6001,-1.55648,-1.51268,-1.4687,-1.42455,-1.38021,-1.33569,-1.29098,-1.2461,-1.20103,-1.15578,-1.11037,-1.06479,-1.01906,-0.973198,-0.927217,-0.881137,-0.834984,-0.788785,-0.742573,-0.696383,-0.650254,-0.604231,-0.55836,-0.512692,-0.467279,-0.422177,-0.377444,-0.333137,-0.289316,-0.246039,-0.203365,-0.16135,-0.120049,-0.0795138,-0.0397939,-0.00093533,0.0370193,0.0740313,0.110065,0.14509,0.179079,0.212006,0.243852,0.2746,0.304235,0.332746,0.360125,0.386366,0.411467,0.435428,0.458251,0.47994,0.500505,0.519955,0.538305,0.555569,0.571768,0.586923,0.601059,0.614202,0.626384,0.637636,0.647991,0.657486,0.666158,0.674043,0.681181,0.68761,0.693366,0.698487,0.703007,0.70696,0.710377,0.713285,0.715709,0.717671,0.719188,0.720271,0.72093,0.721168,0.720981,0.720361,0.719294,0.717757,0.715722,0.713151,0.709998,0.706208,0.701718,0.69645,0.690317,0.683221,0.675048,0.665672,0.654953,0.642737,0.628854,0.61312,0.59534,0.575305,0.552799,0.5276,0.499484,0.468234,0.433644,0.395528,0.353733,0.308148,0.258714,0.205433,0.148383,0.0877153,0.0236596,-0.0434879,-0.113374,-0.185618,-0.259837,-0.335675,-0.41283,-0.491067,-0.570217,-0.650165,-0.730815,-0.812075,-0.893833,-0.975986,-1.05844,-1.14113,-1.22397,-1.30695,-1.39,-1.47309,-1.55622,-1.63928,-1.72238,-1.80536,-1.88833,-1.97124,-2.06893,-2.14981,-2.2307,-2.3116,-2.3925,-2.47342,-2.55434,-2.63526,-2.71619,-2.79713,-2.87807,-2.95902,-3.03996,-3.12092,-3.20187,-3.28283,-3.36379,-3.44476,-3.52572,-3.60669,-3.68766,-3.76864,-3.84961,-3.93059,-4.01157,-4.09254,-4.17352,-4.25451,-4.33549,-4.41647,-4.49746,-4.57844,-4.65943,-4.74042,-4.8214}
,{-2.71076,-2.6697,-2.6286,-2.58745,-2.54626,-2.50501,-2.4637,-2.42234,-2.3809,-2.3394,-2.29783,-2.25618,-2.21444,-2.17262,-2.1307,-2.08868,-2.04656,-2.00432,-1.96197,-1.9195,-1.87689,-1.83415,-1.79126,-1.74823,-1.70504,-1.66168,-1.61816,-1.57447,-1.53059,-1.48653,-1.44229,-1.39785,-1.35322,-1.30839,-1.26336,-1.21815,-1.17274,-1.12714,-1.08137,-1.03543,-0.989329,-0.943091,-0.896732,-0.850274,-0.803744,-0.757172,-0.710592,-0.664044,-0.617568,-0.571211,-0.525022,-0.479055,-0.433364,-0.388007,-0.343044,-0.298533,-0.254537,-0.211114,-0.168324,-0.126224,-0.0848687,-0.0443118,-0.00460222,0.0342139,0.0720941,0.108999,0.144895,0.17975,0.213536,0.24623,0.277812,0.308263,0.337572,0.365727,0.39272,0.418548,0.443207,0.4667,0.489031,0.510206,0.530236,0.549133,0.566915,0.583599,0.599209,0.613768,0.627306,0.639852,0.651439,0.662103,0.671879,0.680806,0.688922,0.696267,0.702879,0.708798,0.714061,0.718703,0.722759,0.726261,0.729236,0.73171,0.733705,0.735238,0.736322,0.736964,0.737168,0.73693,0.73624,0.735084,0.733437,0.73127,0.728544,0.72521,0.721212,0.716483,0.710943,0.704502,0.697059,0.688496,0.678685,0.667482,0.654729,0.640253,0.623869,0.605377,0.584568,0.561226,0.535129,0.506055,0.473791,0.438138,0.398921,0.355995,0.309265,0.258687,0.204282,0.146147,0.084453,0.0194461,-0.0485634,-0.119213,-0.192121,-0.266908,-0.34323,-0.4208,-0.4994,-0.578877,-0.65912,-0.74004,-0.82154,-0.903509,-0.985846,-1.06847,-1.15129,-1.23427,-1.31736,-1.40051,-1.48369,-1.56688,-1.65004,-1.73316,-1.81623,-1.89921,-1.98221,-2.08026,-2.16114,-2.24203,-2.32293,-2.40384,-2.48475,-2.56567,-2.6466,-2.72753,-2.80846,-2.8894,-2.97035,-3.0513,-3.13225,-3.21321,-3.29416,-3.37513,-3.45609,-3.53706,-3.61803,-3.699,-3.77997,-3.86094,-3.94192,-4.0229,-4.10388,-4.18486,-4.26584,-4.34682,-4.42781,-4.50879,-4.58978,-4.67076,-4.75175,-4.83274}
,{-2.72907,-2.68801,-2.6469,-2.60575,-2.56455,-2.52329,-2.48198,-2.4406,-2.39916,-2.35765,-2.31606,-2.2744,-2.23265,-2.19081,-2.14888,-2.10684,-2.0647,-2.02244,-1.98006,-1.93756,-1.89492,-1.85214,-1.80922,-1.76614,-1.7229,-1.67949,-1.63591,-1.59215,-1.54821,-1.50407,-1.45973,-1.4152,-1.37046,-1.32551,-1.28036,-1.235,-1.18943,-1.14366,-1.0977,-1.05155,-1.00523,-0.958746,-0.912117,-0.865365,-0.818516,-0.771596,-0.724641,-0.677685,-0.630771,-0.583943,-0.537249,-0.490743,-0.444478,-0.398513,-0.352908,-0.307723,-0.263021,-0.218862,-0.175309,-0.132421,-0.0902567,-0.0488712,-0.00831766,0.0313543,0.0700986,0.107873,0.144638,0.180359,0.215006,0.24855,0.28097,0.312243,0.342355,0.371293,0.399045,0.425606,0.450973,0.475144,0.498124,0.519919,0.540537,0.559991,0.578298,0.595476,0.611548,0.62654,0.640479,0.653397,0.665327,0.676306,0.686371,0.69556,0.703914,0.711472,0.718276,0.724365,0.729776,0.734548,0.738716,0.74231,0.745362,0.747896,0.749936,0.751497,0.752595,0.753236,0.753423,0.753153,0.752416,0.751196,0.749469,0.747203,0.744359,0.740887,0.736729,0.731816,0.726067,0.71939,0.711681,0.702821,0.69268,0.68111,0.667952,0.653032,0.636161,0.617141,0.595762,0.571806,0.545054,0.515287,0.482294,0.445882,0.405882,0.362159,0.314626,0.263251,0.208067,0.149183,0.0867813,0.0211197,-0.0474844,-0.118664,-0.192037,-0.267228,-0.343902,-0.42178,-0.500655,-0.580381,-0.660854,-0.741984,-0.823675,-0.905816,-0.988307,-1.07107,-1.15402,-1.23711,-1.32031,-1.40355,-1.48681,-1.57009,-1.65332,-1.73651,-1.81963,-1.90268,-2.00346,-2.08433,-2.16521,-2.2461,-2.327,-2.40791,-2.48882,-2.56974,-2.65066,-2.73159,-2.81253,-2.89347,-2.97442,-3.05537,-3.13632,-3.21727,-3.29823,-3.37919,-3.46016,-3.54112,-3.62209,-3.70306,-3.78404,-3.86501,-3.94599,-4.02697,-4.10795,-4.18893,-4.26991,-4.35089,-4.43187,-4.51286,-4.59384,-4.67483,-4.75582,-4.8368}
,{-2.74705,-2.70598,-2.66487,-2.62372,-2.58251,-2.54124,-2.49992,-2.45854,-2.41709,-2.37557,-2.33398,-2.2923,-2.25054,-2.20869,-2.16674,-2.12468,-2.08252,-2.04024,-1.99784,-1.95531,-1.91264,-1.86983,-1.82687,-1.78375,-1.74046,-1.697,-1.65337,-1.60954,-1.56553,-1.52131,-1.47689,-1.43227,-1.38742,-1.34236,-1.29709,-1.25159,-1.20587,-1.15994,-1.1138,-1.06745,-1.02091,-0.974187,-0.927299,-0.880264,-0.833105,-0.785851,-0.738532,-0.691183,-0.643844,-0.596559,-0.549376,-0.502345,-0.455522,-0.408964,-0.362732,-0.316888,-0.271493,-0.226613,-0.182309,-0.138645,-0.0956813,-0.0534764,-0.0120866,0.0284349,0.0680383,0.106677,0.14431,0.180897,0.216404,0.250801,0.284061,0.31616,0.34708,0.376805,0.405322,0.432623,0.458703,0.48356,0.507196,0.529617,0.550829,0.570847,0.589686,0.607364,0.623904,0.639332,0.653678,0.666971,0.679248,0.690545,0.700899,0.710352,0.718943,0.726715,0.733708,0.739964,0.745521,0.750417,0.754689,0.75837,0.761488,0.764072,0.766143,0.767718,0.768812,0.769432,0.76958,0.769252,0.768437,0.76712,0.765273,0.762865,0.759853,0.756187,0.751805,0.746637,0.740598,0.733595,0.725519,0.716249,0.70565,0.693573,0.679855,0.664319,0.646774,0.62702,0.604845,0.580034,0.552367,0.521628,0.487614,0.450138,0.409039,0.364197,0.315537,0.263043,0.20677,0.146842,0.0834608,0.0168993,-0.0525124,-0.124404,-0.198392,-0.274109,-0.351231,-0.429496,-0.508713,-0.588747,-0.6695,-0.750886,-0.832802,-0.915144,-0.997813,-1.08072,-1.16381,-1.24702,-1.33033,-1.41367,-1.49702,-1.58036,-1.66366,-1.74691,-1.8301,-1.91316,-2.01437,-2.09524,-2.17612,-2.25701,-2.33791,-2.41882,-2.49973,-2.58065,-2.66157,-2.7425,-2.82344,-2.90438,-2.98533,-3.06628,-3.14723,-3.22818,-3.30914,-3.3901,-3.47107,-3.55203,-3.633,-3.71397,-3.79495,-3.87592,-3.9569,-4.03788,-4.11886,-4.19984,-4.28082,-4.3618,-4.44278,-4.52377,-4.60475,-4.68574,-4.76673,-4.84772}
,{-2.76471,-2.72364,-2.68253,-2.64137,-2.60015,-2.55889,-2.51756,-2.47617,-2.43471,-2.39318,-2.35158,-2.30989,-2.26812,-2.22625,-2.18429,-2.14222,-2.10003,-2.05773,-2.01531,-1.97275,-1.93006,-1.88721,-1.84422,-1.80106,-1.75773,-1.71422,-1.67053,-1.62665,-1.58257,-1.53828,-1.49378,-1.44906,-1.40412,-1.35896,-1.31356,-1.26793,-1.22207,-1.17598,-1.12966,-1.08312,-1.03637,-0.98942,-0.94228,-0.894972,-0.847516,-0.799938,-0.752267,-0.704537,-0.656787,-0.609059,-0.561399,-0.513858,-0.466491,-0.419355,-0.372511,-0.326021,-0.279948,-0.234358,-0.189316,-0.144887,-0.101133,-0.0581178,-0.0158991,0.0254659,0.0659238,0.105425,0.143923,0.181375,0.217744,0.252996,0.287099,0.320028,0.351761,0.38228,0.411568,0.439617,0.466418,0.491969,0.51627,0.539324,0.561141,0.581731,0.601109,0.619296,0.636312,0.652186,0.666945,0.680622,0.693253,0.704875,0.715527,0.72525,0.734087,0.742079,0.749269,0.755699,0.761409,0.766438,0.770823,0.774599,0.777794,0.780438,0.782552,0.784154,0.785259,0.785874,0.786001,0.785636,0.784768,0.783379,0.781444,0.778928,0.775788,0.771973,0.767419,0.762054,0.755793,0.748538,0.74018,0.730596,0.719649,0.707187,0.693046,0.677046,0.658998,0.638698,0.615936,0.590497,0.562162,0.530721,0.495971,0.457733,0.415854,0.370221,0.32077,0.267496,0.210466,0.149815,0.0857567,0.0185727,-0.0514003,-0.12379,-0.198213,-0.274308,-0.35176,-0.430317,-0.509795,-0.590069,-0.671043,-0.75263,-0.83473,-0.917237,-1.00005,-1.0831,-1.16631,-1.24963,-1.33304,-1.41646,-1.49991,-1.58332,-1.66669,-1.75,-1.83325,-1.91636,-2.01817,-2.09905,-2.17993,-2.26082,-2.34172,-2.42262,-2.50354,-2.58446,-2.66538,-2.74631,-2.82725,-2.90819,-2.98913,-3.07008,-3.15104,-3.23199,-3.31295,-3.39391,-3.47488,-3.55584,-3.63681,-3.71778,-3.79876,-3.87973,-3.96071,-4.04169,-4.12266,-4.20364,-4.28463,-4.36561,-4.44659,-4.52758,-4.60856,-4.68955,-4.77054,-4.85152}
,{-2.78207,-2.741,-2.69988,-2.65872,-2.6175,-2.57622,-2.53489,-2.4935,-2.45203,-2.4105,-2.36888,-2.32718,-2.2854,-2.24352,-2.20154,-2.15945,-2.11725,-2.07493,-2.03249,-1.98991,-1.94718,-1.90431,-1.86128,-1.81808,-1.77471,-1.73116,-1.68742,-1.64348,-1.59934,-1.55498,-1.5104,-1.4656,-1.42057,-1.37529,-1.32978,-1.28403,-1.23803,-1.19178,-1.1453,-1.09858,-1.05162,-1.00445,-0.957069,-0.909496,-0.861752,-0.813861,-0.765849,-0.717751,-0.669602,-0.621443,-0.573321,-0.525284,-0.477387,-0.429687,-0.382244,-0.335122,-0.288384,-0.242098,-0.19633,-0.151146,-0.106614,-0.0627963,-0.0197566,0.0224455,0.0637529,0.104112,0.143473,0.18179,0.219021,0.255129,0.290078,0.323841,0.356392,0.387709,0.417776,0.446578,0.474108,0.50036,0.525333,0.549029,0.571457,0.592627,0.612553,0.631255,0.648756,0.665081,0.680261,0.694328,0.707319,0.719271,0.730226,0.740224,0.74931,0.757526,0.764916,0.771524,0.77739,0.782555,0.787055,0.790927,0.794202,0.796906,0.799065,0.800695,0.801812,0.802423,0.80253,0.802128,0.801207,0.799748,0.797725,0.795102,0.791836,0.787872,0.783148,0.777589,0.771107,0.763605,0.75497,0.745077,0.733788,0.72095,0.706396,0.689946,0.671407,0.650579,0.627249,0.601204,0.572228,0.540112,0.504659,0.465696,0.423075,0.376692,0.326493,0.272485,0.214743,0.153415,0.0887232,0.0209581,-0.0495386,-0.122392,-0.197222,-0.273673,-0.351436,-0.430268,-0.509996,-0.590498,-0.671683,-0.753464,-0.835741,-0.918408,-1.00137,-1.08455,-1.16787,-1.2513,-1.33482,-1.41833,-1.50186,-1.58534,-1.66879,-1.75215,-1.83547,-1.91863,-2.02107,-2.10194,-2.18282,-2.26371,-2.34461,-2.42552,-2.50643,-2.58735,-2.66828,-2.74921,-2.83014,-2.91108,-2.99203,-3.07298,-3.15393,-3.23489,-3.31584,-3.39681,-3.47777,-3.55874,-3.63971,-3.72068,-3.80165,-3.88262,-3.9636,-4.04458,-4.12556,-4.20654,-4.28752,-4.3685,-4.44949,-4.53047,-4.61146,-4.69244,-4.77343,-4.85442}
,{-2.79914,-2.75806,-2.71694,-2.67577,-2.63455,-2.59327,-2.55193,-2.51053,-2.46906,-2.42751,-2.38589,-2.34418,-2.30239,-2.2605,-2.2185,-2.1764,-2.13419,-2.09185,-2.04938,-2.00678,-1.96403,-1.92113,-1.87807,-1.83484,-1.79143,-1.74783,-1.70404,-1.66005,-1.61584,-1.57142,-1.52677,-1.48188,-1.43676,-1.39139,-1.34577,-1.29989,-1.25376,-1.20736,-1.16072,-1.11382,-1.06667,-1.01928,-0.971668,-0.92384,-0.875818,-0.827623,-0.779283,-0.730827,-0.682291,-0.633714,-0.585142,-0.536623,-0.48821,-0.439959,-0.391932,-0.34419,-0.296801,-0.249831,-0.203348,-0.157422,-0.11212,-0.0675099,-0.023657,0.0193755,0.0615271,0.102741,0.142962,0.182143,0.220236,0.2572,0.292999,0.327599,0.360972,0.393093,0.423943,0.453506,0.481771,0.508731,0.534384,0.558731,0.581777,0.603534,0.624016,0.643241,0.661233,0.678017,0.693624,0.708087,0.721444,0.733732,0.744994,0.755273,0.764612,0.773057,0.780651,0.787439,0.793464,0.798767,0.803386,0.807357,0.810712,0.813479,0.815684,0.817344,0.818474,0.819082,0.81917,0.818733,0.817761,0.816233,0.814123,0.811395,0.808004,0.803896,0.799005,0.793254,0.786557,0.778813,0.769908,0.759715,0.748094,0.734891,0.719937,0.703052,0.684043,0.662707,0.638834,0.61221,0.582623,0.549867,0.513749,0.4741,0.430781,0.383696,0.332798,0.278104,0.2197,0.157744,0.092465,0.0241618,-0.0468197,-0.120104,-0.195312,-0.272094,-0.350149,-0.429243,-0.509207,-0.589927,-0.671314,-0.753282,-0.835727,-0.918547,-1.00165,-1.08496,-1.1684,-1.25194,-1.33555,-1.41916,-1.50277,-1.58633,-1.66985,-1.75327,-1.83666,-1.91989,-2.02295,-2.10382,-2.1847,-2.26559,-2.34649,-2.4274,-2.50831,-2.58923,-2.67015,-2.75109,-2.83202,-2.91296,-2.99391,-3.07486,-3.15581,-3.23676,-3.31772,-3.39868,-3.47965,-3.56062,-3.64158,-3.72256,-3.80353,-3.8845,-3.96548,-4.04646,-4.12744,-4.20842,-4.2894,-4.37038,-4.45137,-4.53235,-4.61334,-4.69432,-4.77531,-4.8563}
,{-2.81592,-2.77484,-2.73371,-2.69254,-2.65131,-2.61003,-2.56869,-2.52728,-2.4858,-2.44425,-2.40262,-2.36091,-2.3191,-2.2772,-2.23519,-2.19308,-2.15085,-2.10849,-2.066,-2.02338,-1.98061,-1.93768,-1.89459,-1.85132,-1.80787,-1.76424,-1.7204,-1.67636,-1.63209,-1.58761,-1.54289,-1.49792,-1.45271,-1.40724,-1.36152,-1.31552,-1.26926,-1.22273,-1.17592,-1.12885,-1.08152,-1.03392,-0.986084,-0.93801,-0.889719,-0.841231,-0.792571,-0.743768,-0.694857,-0.645875,-0.596866,-0.547877,-0.49896,-0.450173,-0.401574,-0.353227,-0.305199,-0.257558,-0.210373,-0.163715,-0.117655,-0.0722611,-0.0276033,0.0162524,0.0592423,0.101306,0.142385,0.182426,0.221381,0.259203,0.295852,0.331292,0.36549,0.39842,0.430058,0.460387,0.489394,0.517069,0.543407,0.56841,0.592083,0.614433,0.635477,0.655231,0.673719,0.690967,0.707005,0.721868,0.735594,0.748221,0.759793,0.770352,0.779945,0.788617,0.796414,0.803381,0.80956,0.814996,0.819726,0.823788,0.827214,0.830034,0.832271,0.833946,0.835071,0.835656,0.835703,0.835205,0.834151,0.83252,0.830286,0.82741,0.823845,0.819537,0.814417,0.808407,0.801416,0.793343,0.784071,0.77347,0.761398,0.747698,0.732199,0.714719,0.695065,0.673032,0.648411,0.62099,0.590558,0.556915,0.519873,0.479271,0.434979,0.386913,0.335041,0.279392,0.220068,0.157242,0.0911561,0.0221202,-0.0495135,-0.123368,-0.199068,-0.276272,-0.354692,-0.434107,-0.51436,-0.595343,-0.676971,-0.759159,-0.8418,-0.924793,-1.00805,-1.09149,-1.17505,-1.2587,-1.34242,-1.42611,-1.50981,-1.59343,-1.67702,-1.7605,-1.84395,-1.92721,-2.03074,-2.11161,-2.19249,-2.27338,-2.35428,-2.43519,-2.5161,-2.59702,-2.67795,-2.75888,-2.83981,-2.92075,-3.0017,-3.08265,-3.1636,-3.24455,-3.32551,-3.40648,-3.48744,-3.56841,-3.64938,-3.73035,-3.81132,-3.89229,-3.97327,-4.05425,-4.13523,-4.21621,-4.29719,-4.37817,-4.45916,-4.54014,-4.62113,-4.70211,-4.7831,-4.86409}
,{-2.83242,-2.79134,-2.75021,-2.70904,-2.66781,-2.62652,-2.58517,-2.54376,-2.50227,-2.46072,-2.41908,-2.37735,-2.33554,-2.29363,-2.25161,-2.20948,-2.16724,-2.12486,-2.08236,-2.03971,-1.99692,-1.95396,-1.91084,-1.86755,-1.82407,-1.78039,-1.73651,-1.69241,-1.6481,-1.60355,-1.55876,-1.51372,-1.46843,-1.42287,-1.37704,-1.33093,-1.28455,-1.23788,-1.19093,-1.14369,-1.09617,-1.04838,-1.00032,-0.952009,-0.903457,-0.854685,-0.805715,-0.756577,-0.707301,-0.657925,-0.60849,-0.559044,-0.509637,-0.460325,-0.411167,-0.362228,-0.313574,-0.265273,-0.217397,-0.170018,-0.123209,-0.0770412,-0.0315864,0.0130861,0.056909,0.0998178,0.141752,0.182653,0.222469,0.26115,0.298651,0.334934,0.369962,0.403706,0.436139,0.467241,0.496996,0.525394,0.552427,0.578094,0.602401,0.625354,0.646968,0.667259,0.686252,0.703972,0.72045,0.735722,0.749824,0.762798,0.774687,0.785535,0.79539,0.804297,0.812304,0.819456,0.825799,0.831376,0.836227,0.840389,0.843897,0.84678,0.849063,0.850765,0.851902,0.852481,0.852505,0.851967,0.850856,0.849151,0.846823,0.843834,0.840137,0.835674,0.830377,0.824166,0.816949,0.808622,0.799067,0.788154,0.775738,0.761661,0.745751,0.727826,0.707689,0.68514,0.659969,0.631964,0.60092,0.566636,0.528933,0.487653,0.442674,0.39392,0.341367,0.285055,0.225093,0.161664,0.0950198,0.025474,-0.0466178,-0.120878,-0.196934,-0.274452,-0.35315,-0.432814,-0.513294,-0.594488,-0.676311,-0.758678,-0.841484,-0.924626,-1.00802,-1.09158,-1.17526,-1.25902,-1.34283,-1.42661,-1.51039,-1.59409,-1.67775,-1.76129,-1.8448,-1.92812,-2.03229,-2.11316,-2.19404,-2.27493,-2.35583,-2.43674,-2.51765,-2.59857,-2.6795,-2.76043,-2.84136,-2.9223,-3.00325,-3.0842,-3.16515,-3.24611,-3.32707,-3.40803,-3.48899,-3.56996,-3.65093,-3.7319,-3.81287,-3.89385,-3.97482,-4.0558,-4.13678,-4.21776,-4.29874,-4.37972,-4.46071,-4.54169,-4.62268,-4.70366,-4.78465,-4.86564}
,{-2.84866,-2.80758,-2.76645,-2.72527,-2.68403,-2.64274,-2.60139,-2.55997,-2.51848,-2.47692,-2.43527,-2.39354,-2.35172,-2.3098,-2.26777,-2.22563,-2.18337,-2.14098,-2.09846,-2.05579,-2.01298,-1.97,-1.92685,-1.88352,-1.84001,-1.79629,-1.75237,-1.70823,-1.66386,-1.61926,-1.5744,-1.52929,-1.48392,-1.43827,-1.39234,-1.34613,-1.29963,-1.25283,-1.20573,-1.15833,-1.11064,-1.06266,-1.01439,-0.965843,-0.917039,-0.867991,-0.818722,-0.769258,-0.719628,-0.669869,-0.620021,-0.570129,-0.520244,-0.47042,-0.420717,-0.371198,-0.32193,-0.272983,-0.224428,-0.17634,-0.128792,-0.0818599,-0.0356167,0.00986474,0.054514,0.0982631,0.141047,0.182806,0.223481,0.26302,0.301375,0.338503,0.374363,0.408924,0.442156,0.474035,0.504544,0.533668,0.561401,0.587739,0.612685,0.636246,0.658434,0.679268,0.698769,0.716965,0.733885,0.749567,0.764047,0.777367,0.789572,0.800707,0.810819,0.819956,0.828167,0.835497,0.841994,0.8477,0.852657,0.856904,0.860474,0.863398,0.8657,0.867402,0.868516,0.869052,0.869009,0.868382,0.867159,0.865315,0.862823,0.859641,0.85572,0.851001,0.845412,0.838871,0.831283,0.822541,0.812525,0.8011,0.788119,0.77342,0.756831,0.738165,0.717226,0.693812,0.667714,0.638724,0.606637,0.571262,0.532425,0.489979,0.443815,0.393871,0.34014,0.28268,0.221621,0.157163,0.0895715,0.019175,-0.053665,-0.128572,-0.205179,-0.283165,-0.362266,-0.442283,-0.523082,-0.604565,-0.686652,-0.769255,-0.852268,-0.93559,-1.01914,-1.10284,-1.18664,-1.27052,-1.35441,-1.43827,-1.52212,-1.60589,-1.68962,-1.77318,-1.85673,-1.94013,-2.04459,-2.12546,-2.20634,-2.28723,-2.36813,-2.44904,-2.52995,-2.61087,-2.6918,-2.77273,-2.85366,-2.9346,-3.01555,-3.0965,-3.17745,-3.25841,-3.33936,-3.42033,-3.50129,-3.58226,-3.66323,-3.7442,-3.82517,-3.90615,-3.98712,-4.0681,-4.14908,-4.23006,-4.31104,-4.39202,-4.47301,-4.55399,-4.63498,-4.71596,-4.79695,-4.87794}
,{-2.86464,-2.82356,-2.78242,-2.74124,-2.7,-2.65871,-2.61735,-2.57593,-2.53444,-2.49287,-2.45121,-2.40948,-2.36764,-2.32571,-2.28367,-2.24152,-2.19925,-2.15685,-2.11431,-2.07163,-2.02879,-1.98579,-1.94262,-1.89926,-1.85571,-1.81196,-1.768,-1.72381,-1.6794,-1.63473,-1.58982,-1.54464,-1.49919,-1.45346,-1.40744,-1.36112,-1.3145,-1.26757,-1.22034,-1.17279,-1.12492,-1.07675,-1.02828,-0.979515,-0.930466,-0.881152,-0.831592,-0.781811,-0.731837,-0.681706,-0.631455,-0.581129,-0.530777,-0.480454,-0.430217,-0.38013,-0.33026,-0.280678,-0.231455,-0.182668,-0.134391,-0.0867033,-0.0396797,0.00660406,0.0520742,0.0966594,0.140291,0.182905,0.224439,0.264838,0.304048,0.342023,0.37872,0.414103,0.44814,0.480803,0.512073,0.541933,0.570374,0.597391,0.622985,0.647162,0.669935,0.69132,0.711339,0.73002,0.747392,0.763493,0.77836,0.792036,0.804566,0.815997,0.826377,0.835754,0.844178,0.851697,0.858358,0.864206,0.869283,0.873627,0.877275,0.880257,0.882598,0.884319,0.885434,0.885952,0.885873,0.885191,0.883892,0.881953,0.879344,0.876024,0.871941,0.867035,0.861234,0.854453,0.846596,0.837553,0.827203,0.81541,0.802024,0.786883,0.769812,0.750625,0.729126,0.705112,0.678376,0.648712,0.615918,0.579808,0.540213,0.496993,0.450047,0.399324,0.344827,0.286624,0.224857,0.159733,0.0915323,0.0205824,-0.0527485,-0.128086,-0.205068,-0.283381,-0.362771,-0.443048,-0.524084,-0.605786,-0.688076,-0.770864,-0.854045,-0.937518,-1.0212,-1.10503,-1.18894,-1.27292,-1.35691,-1.44086,-1.52479,-1.60862,-1.69242,-1.77606,-1.85965,-1.9431,-2.04813,-2.129,-2.20988,-2.29077,-2.37167,-2.45258,-2.53349,-2.61441,-2.69533,-2.77626,-2.8572,-2.93814,-3.01909,-3.10003,-3.18099,-3.26194,-3.3429,-3.42386,-3.50483,-3.58579,-3.66676,-3.74773,-3.82871,-3.90968,-3.99066,-4.07164,-4.15262,-4.2336,-4.31458,-4.39556,-4.47654,-4.55753,-4.63851,-4.7195,-4.80049,-4.88147}
,{-2.88037,-2.83929,-2.79815,-2.75696,-2.71572,-2.67443,-2.63307,-2.59164,-2.55014,-2.50857,-2.46691,-2.42516,-2.38332,-2.34138,-2.29934,-2.25717,-2.21489,-2.17247,-2.12992,-2.08722,-2.04436,-2.00134,-1.95814,-1.91476,-1.87118,-1.8274,-1.7834,-1.73917,-1.6947,-1.64999,-1.60501,-1.55977,-1.51425,-1.46843,-1.42232,-1.37591,-1.32918,-1.28213,-1.23476,-1.18706,-1.13903,-1.09068,-1.04201,-0.99303,-0.943745,-0.894173,-0.844331,-0.794242,-0.743935,-0.693441,-0.642798,-0.59205,-0.541243,-0.490432,-0.439673,-0.389031,-0.338571,-0.288365,-0.238486,-0.189011,-0.140016,-0.0915823,-0.043787,0.00329122,0.0495755,0.0949911,0.139466,0.182932,0.225323,0.26658,0.306646,0.34547,0.383006,0.419214,0.454059,0.487511,0.519546,0.550147,0.579302,0.607003,0.633251,0.65805,0.681413,0.703354,0.723895,0.743064,0.760892,0.777414,0.79267,0.806702,0.819558,0.831283,0.841928,0.851542,0.860175,0.867876,0.874694,0.880673,0.885858,0.890287,0.893997,0.897018,0.899377,0.901093,0.902182,0.90265,0.902498,0.90172,0.9003,0.898214,0.89543,0.891905,0.887587,0.882412,0.876305,0.86918,0.860938,0.851466,0.84064,0.82832,0.814355,0.79858,0.780818,0.760882,0.738574,0.713692,0.686031,0.655386,0.621563,0.584378,0.543674,0.49932,0.451229,0.399363,0.343743,0.284455,0.221656,0.155573,0.0864976,0.0147672,-0.0592459,-0.135169,-0.212653,-0.291392,-0.371152,-0.451757,-0.53309,-0.615064,-0.697604,-0.780611,-0.863985,-0.947624,-1.03145,-1.11541,-1.19944,-1.28352,-1.3676,-1.45164,-1.53563,-1.61953,-1.70336,-1.78706,-1.87068,-1.9542,-2.05952,-2.1404,-2.22128,-2.30217,-2.38307,-2.46397,-2.54489,-2.62581,-2.70673,-2.78766,-2.8686,-2.94954,-3.03048,-3.11143,-3.19238,-3.27334,-3.3543,-3.43526,-3.51623,-3.59719,-3.67816,-3.75913,-3.84011,-3.92108,-4.00206,-4.08303,-4.16401,-4.24499,-4.32598,-4.40696,-4.48794,-4.56893,-4.64991,-4.7309,-4.81188,-4.89287}
,{-2.89586,-2.85477,-2.81363,-2.77245,-2.7312,-2.6899,-2.64854,-2.60711,-2.56561,-2.52403,-2.48236,-2.44061,-2.39876,-2.35682,-2.31476,-2.27259,-2.23029,-2.18786,-2.1453,-2.10258,-2.05971,-2.01666,-1.97344,-1.93003,-1.88643,-1.84261,-1.79857,-1.75431,-1.70979,-1.66503,-1.62,-1.57469,-1.5291,-1.48321,-1.43701,-1.3905,-1.34366,-1.29649,-1.24899,-1.20115,-1.15297,-1.10445,-1.05558,-1.00639,-0.956879,-0.907055,-0.856939,-0.806552,-0.75592,-0.705074,-0.654049,-0.602888,-0.551638,-0.500349,-0.44908,-0.397893,-0.346855,-0.296037,-0.245512,-0.195359,-0.145656,-0.0964849,-0.0479258,-6.00096e-05,0.0470327,0.0932741,0.138589,0.182904,0.226152,0.268267,0.30919,0.348866,0.387245,0.424283,0.459942,0.494189,0.526997,0.558347,0.588223,0.616617,0.643528,0.668959,0.692919,0.715426,0.736499,0.756166,0.774458,0.79141,0.807064,0.821463,0.834653,0.846682,0.857602,0.867462,0.876314,0.884208,0.891194,0.897317,0.902622,0.90715,0.910936,0.914013,0.916407,0.918139,0.919224,0.919668,0.919473,0.91863,0.917125,0.914934,0.912021,0.908345,0.90385,0.898473,0.892137,0.884754,0.876222,0.86643,0.855248,0.842538,0.828146,0.811906,0.79364,0.77316,0.750269,0.724767,0.696448,0.665112,0.630567,0.592635,0.551164,0.506033,0.457161,0.404522,0.348145,0.288128,0.224639,0.157914,0.0882508,0.0159931,-0.0584862,-0.134817,-0.212656,-0.291707,-0.371742,-0.452598,-0.534161,-0.616348,-0.699084,-0.78227,-0.865806,-0.94959,-1.03355,-1.11763,-1.20177,-1.28595,-1.37012,-1.45424,-1.53832,-1.62228,-1.70618,-1.78993,-1.8736,-1.95719,-2.06305,-2.14393,-2.22481,-2.3057,-2.3866,-2.4675,-2.54842,-2.62934,-2.71026,-2.79119,-2.87213,-2.95307,-3.03402,-3.11496,-3.19592,-3.27687,-3.35783,-3.43879,-3.51976,-3.60072,-3.68169,-3.76266,-3.84364,-3.92461,-4.00559,-4.08657,-4.16755,-4.24853,-4.32951,-4.41049,-4.49147,-4.57246,-4.65344,-4.73443,-4.81542,-4.8964}
,{-2.91112,-2.87002,-2.82889,-2.78769,-2.74645,-2.70515,-2.66378,-2.62235,-2.58084,-2.53925,-2.49759,-2.45583,-2.41398,-2.37202,-2.32996,-2.28777,-2.24547,-2.20303,-2.16045,-2.11772,-2.07482,-2.03176,-1.98852,-1.94509,-1.90145,-1.85761,-1.81353,-1.76923,-1.72467,-1.67986,-1.63478,-1.58941,-1.54375,-1.49778,-1.4515,-1.4049,-1.35796,-1.31068,-1.26305,-1.21507,-1.16674,-1.11805,-1.069,-1.01961,-0.969871,-0.919804,-0.869423,-0.818746,-0.767798,-0.716609,-0.665213,-0.61365,-0.561966,-0.510212,-0.458444,-0.406724,-0.355119,-0.303699,-0.25254,-0.20172,-0.151319,-0.10142,-0.0521054,-0.00345973,0.0444346,0.0914962,0.137646,0.182808,0.22691,0.269883,0.311663,0.352192,0.391416,0.429287,0.465763,0.50081,0.534396,0.566499,0.597103,0.626196,0.653776,0.679844,0.704409,0.727487,0.749097,0.769267,0.788028,0.805415,0.821471,0.836238,0.849764,0.862099,0.873294,0.8834,0.892469,0.900554,0.907703,0.913966,0.919386,0.924004,0.927859,0.930981,0.933399,0.935133,0.936197,0.936599,0.936339,0.935409,0.933792,0.931464,0.928389,0.924523,0.91981,0.914184,0.907566,0.899866,0.890981,0.880795,0.86918,0.855993,0.841078,0.824269,0.805387,0.784241,0.760637,0.734373,0.705248,0.673063,0.637631,0.598781,0.556368,0.510281,0.46045,0.40686,0.349557,0.288649,0.22432,0.156817,0.0864489,0.0135634,-0.0614648,-0.13827,-0.216516,-0.29592,-0.376266,-0.457403,-0.539222,-0.621647,-0.704596,-0.787976,-0.871679,-0.955618,-1.03972,-1.12392,-1.20816,-1.29245,-1.3767,-1.4609,-1.54504,-1.62907,-1.71304,-1.79684,-1.88055,-1.96417,-2.07047,-2.15134,-2.23222,-2.31311,-2.39401,-2.47492,-2.55583,-2.63675,-2.71768,-2.79861,-2.87955,-2.96049,-3.04143,-3.12238,-3.20333,-3.28429,-3.36525,-3.44621,-3.52717,-3.60814,-3.68911,-3.77008,-3.85105,-3.93203,-4.013,-4.09398,-4.17496,-4.25594,-4.33692,-4.4179,-4.49889,-4.57987,-4.66086,-4.74184,-4.82283,-4.90382}
,{-2.92614,-2.88505,-2.84391,-2.80272,-2.76147,-2.72016,-2.67879,-2.63736,-2.59585,-2.55426,-2.51258,-2.47082,-2.42896,-2.387,-2.34493,-2.30274,-2.26042,-2.21797,-2.17538,-2.13263,-2.08972,-2.04664,-2.00338,-1.95993,-1.91627,-1.87239,-1.82829,-1.78394,-1.73935,-1.69449,-1.64935,-1.60393,-1.5582,-1.51217,-1.46581,-1.41911,-1.37208,-1.32469,-1.27694,-1.22883,-1.18035,-1.13149,-1.08227,-1.03268,-0.982726,-0.932424,-0.881784,-0.830825,-0.77957,-0.728047,-0.676289,-0.624334,-0.572227,-0.520018,-0.467762,-0.41552,-0.363359,-0.31135,-0.259567,-0.208089,-0.157,-0.106381,-0.0563203,-0.00690214,0.0417874,0.0896639,0.136645,0.182651,0.227605,0.271434,0.314073,0.355456,0.395527,0.434235,0.471534,0.507385,0.541756,0.57462,0.605958,0.635757,0.664013,0.690726,0.715904,0.73956,0.761715,0.782396,0.801632,0.819462,0.835926,0.851068,0.864937,0.877583,0.889058,0.899415,0.908708,0.916988,0.924306,0.930712,0.936251,0.940965,0.944892,0.948065,0.950511,0.952252,0.953301,0.953667,0.953349,0.952339,0.95062,0.948166,0.94494,0.940897,0.93598,0.930121,0.92324,0.915246,0.906033,0.895483,0.883467,0.86984,0.854446,0.837116,0.81767,0.79592,0.771668,0.744717,0.714865,0.681919,0.645695,0.606028,0.562782,0.51585,0.465176,0.410754,0.352642,0.290959,0.225901,0.157725,0.0867462,0.0133166,-0.0621888,-0.139408,-0.218014,-0.297733,-0.378358,-0.459747,-0.541803,-0.624445,-0.707592,-0.791152,-0.875016,-0.959098,-1.04333,-1.12764,-1.212,-1.29638,-1.38072,-1.465,-1.54921,-1.63331,-1.71733,-1.80121,-1.88495,-1.96862,-2.07542,-2.15629,-2.23717,-2.31806,-2.39896,-2.47987,-2.56078,-2.6417,-2.72263,-2.80356,-2.88449,-2.96543,-3.04638,-3.12733,-3.20828,-3.28924,-3.37019,-3.45116,-3.53212,-3.61309,-3.69406,-3.77503,-3.856,-3.93697,-4.01795,-4.09893,-4.17991,-4.26089,-4.34187,-4.42285,-4.50384,-4.58482,-4.66581,-4.74679,-4.82778,-4.90877}
,{-2.94095,-2.89985,-2.85871,-2.81752,-2.77627,-2.73496,-2.69359,-2.65215,-2.61063,-2.56904,-2.52737,-2.4856,-2.44373,-2.40176,-2.35969,-2.31749,-2.27516,-2.2327,-2.1901,-2.14734,-2.10441,-2.06132,-2.01804,-1.97456,-1.93087,-1.88697,-1.84284,-1.79846,-1.75382,-1.70892,-1.66374,-1.61826,-1.57247,-1.52637,-1.47993,-1.43315,-1.38602,-1.33853,-1.29066,-1.24242,-1.1938,-1.14479,-1.09539,-1.04561,-0.995449,-0.944917,-0.894027,-0.842794,-0.791241,-0.739393,-0.687282,-0.634945,-0.582425,-0.529771,-0.477037,-0.424285,-0.371578,-0.318989,-0.266592,-0.214468,-0.1627,-0.111372,-0.0605725,-0.0103895,0.0390887,0.0877745,0.135582,0.182428,0.228232,0.272918,0.316414,0.358653,0.399574,0.439122,0.477247,0.513908,0.549068,0.582698,0.614777,0.64529,0.674229,0.701594,0.727391,0.751634,0.77434,0.795538,0.815257,0.833535,0.850412,0.865935,0.880151,0.893113,0.904872,0.915484,0.925002,0.93348,0.940969,0.94752,0.953179,0.957989,0.961989,0.965211,0.967685,0.969431,0.970464,0.970792,0.970413,0.96932,0.967494,0.96491,0.961529,0.957304,0.952179,0.946082,0.938933,0.930639,0.921092,0.910174,0.897752,0.88368,0.867802,0.849947,0.829935,0.807577,0.782679,0.75504,0.724465,0.690762,0.653752,0.613277,0.569206,0.521444,0.469941,0.414704,0.3558,0.293364,0.227598,0.15877,0.0872002,0.0132456,-0.0627198,-0.140339,-0.219292,-0.299315,-0.380213,-0.461851,-0.544136,-0.62699,-0.710332,-0.794067,-0.878088,-0.962311,-1.04667,-1.1311,-1.21557,-1.30004,-1.38447,-1.46883,-1.55311,-1.63729,-1.72135,-1.80529,-1.88907,-1.97281,-2.08009,-2.16096,-2.24185,-2.32274,-2.40364,-2.48454,-2.56546,-2.64637,-2.7273,-2.80823,-2.88917,-2.97011,-3.05105,-3.132,-3.21295,-3.29391,-3.37487,-3.45583,-3.53679,-3.61776,-3.69873,-3.7797,-3.86067,-3.94165,-4.02263,-4.1036,-4.18458,-4.26556,-4.34654,-4.42753,-4.50851,-4.5895,-4.67048,-4.75147,-4.83245,-4.91344}
,{-2.95554,-2.91445,-2.8733,-2.83211,-2.79085,-2.74954,-2.70817,-2.66673,-2.62521,-2.58361,-2.54193,-2.50016,-2.45829,-2.41632,-2.37423,-2.33203,-2.28969,-2.24722,-2.20461,-2.16184,-2.1189,-2.07579,-2.03249,-1.98899,-1.94528,-1.90135,-1.85719,-1.81278,-1.76811,-1.72316,-1.67793,-1.6324,-1.58656,-1.54039,-1.49388,-1.44702,-1.39979,-1.3522,-1.30422,-1.25586,-1.2071,-1.15793,-1.10837,-1.05841,-1.00804,-0.957288,-0.906154,-0.854656,-0.802812,-0.750647,-0.698192,-0.645483,-0.59256,-0.539471,-0.486271,-0.433017,-0.379776,-0.326617,-0.273618,-0.220857,-0.168419,-0.116391,-0.0648613,-0.0139209,0.0363392,0.0858286,0.134458,0.182141,0.228793,0.274333,0.318687,0.361783,0.403556,0.443947,0.482903,0.520378,0.556333,0.590736,0.623562,0.654795,0.684425,0.71245,0.738873,0.763709,0.786975,0.808696,0.828905,0.847637,0.864935,0.880844,0.895413,0.908696,0.920745,0.931615,0.941363,0.950042,0.957706,0.964405,0.970187,0.975096,0.979171,0.982446,0.98495,0.986703,0.987722,0.988014,0.987578,0.986405,0.984476,0.981765,0.978233,0.973833,0.968505,0.962178,0.95477,0.946186,0.936317,0.925044,0.912232,0.897735,0.881394,0.863039,0.842489,0.819556,0.794045,0.765759,0.734504,0.700092,0.66235,0.621123,0.576288,0.527757,0.475491,0.419505,0.359877,0.296751,0.230339,0.160916,0.088808,0.0143747,-0.0620113,-0.139998,-0.219272,-0.299579,-0.380733,-0.462605,-0.545107,-0.628163,-0.71169,-0.795593,-0.879766,-0.964125,-1.04861,-1.13316,-1.21773,-1.3023,-1.38681,-1.47125,-1.55561,-1.63985,-1.72397,-1.80797,-1.89181,-1.9756,-2.08341,-2.16429,-2.24517,-2.32606,-2.40696,-2.48786,-2.56878,-2.6497,-2.73062,-2.81155,-2.89249,-2.97343,-3.05437,-3.13532,-3.21628,-3.29723,-3.37819,-3.45915,-3.54012,-3.62108,-3.70205,-3.78302,-3.864,-3.94497,-4.02595,-4.10692,-4.1879,-4.26888,-4.34987,-4.43085,-4.51183,-4.59282,-4.6738,-4.75479,-4.83578,-4.91676}
,{-2.96992,-2.92883,-2.88768,-2.84649,-2.80523,-2.76392,-2.72254,-2.6811,-2.63958,-2.59798,-2.5563,-2.51452,-2.47265,-2.43067,-2.38858,-2.34636,-2.30402,-2.26154,-2.21892,-2.17613,-2.13318,-2.09006,-2.04674,-2.00322,-1.9595,-1.91554,-1.87135,-1.82691,-1.7822,-1.73722,-1.69194,-1.64636,-1.60046,-1.55423,-1.50765,-1.46071,-1.4134,-1.36571,-1.31763,-1.26914,-1.22025,-1.17094,-1.12121,-1.07107,-1.02051,-0.969542,-0.918172,-0.866414,-0.814288,-0.761816,-0.709026,-0.655953,-0.602637,-0.549124,-0.495466,-0.441722,-0.387957,-0.33424,-0.280648,-0.227261,-0.174164,-0.121444,-0.0691935,-0.017504,0.0335308,0.0838174,0.133263,0.181779,0.229275,0.275668,0.320879,0.364832,0.407458,0.448693,0.488483,0.526775,0.563529,0.598709,0.632288,0.664246,0.694572,0.723261,0.750317,0.77575,0.79958,0.82183,0.842531,0.861721,0.879441,0.895738,0.910662,0.924265,0.936602,0.94773,0.957704,0.96658,0.974412,0.981251,0.987147,0.992144,0.996282,0.999594,1.00211,1.00385,1.00484,1.00507,1.00454,1.00326,1.00119,0.998314,0.994586,0.98996,0.984373,0.977754,0.970018,0.961067,0.950793,0.939072,0.925769,0.910735,0.89381,0.874823,0.853593,0.829931,0.803644,0.774537,0.742418,0.707104,0.668427,0.62624,0.58043,0.530918,0.477677,0.420737,0.360187,0.296187,0.22896,0.158793,0.0860185,0.0109999,-0.0658947,-0.144317,-0.223967,-0.304603,-0.386049,-0.468187,-0.550934,-0.634215,-0.717947,-0.802032,-0.886364,-0.970869,-1.05548,-1.14014,-1.22481,-1.30947,-1.39406,-1.47859,-1.563,-1.6473,-1.73148,-1.81553,-1.8994,-2.01056,-2.09142,-2.17229,-2.25317,-2.33406,-2.41496,-2.49587,-2.57678,-2.6577,-2.73863,-2.81956,-2.90049,-2.98143,-3.06238,-3.14333,-3.22428,-3.30524,-3.38619,-3.46716,-3.54812,-3.62909,-3.71006,-3.79103,-3.872,-3.95298,-4.03395,-4.11493,-4.19591,-4.27689,-4.35787,-4.43885,-4.51984,-4.60082,-4.68181,-4.76279,-4.84378,-4.92477}
,{-2.98411,-2.94301,-2.90186,-2.86066,-2.81941,-2.7781,-2.73672,-2.69527,-2.65375,-2.61215,-2.57046,-2.52868,-2.4868,-2.44482,-2.40272,-2.3605,-2.31815,-2.27567,-2.23303,-2.19024,-2.14728,-2.10414,-2.0608,-2.01727,-1.97352,-1.92954,-1.88533,-1.84086,-1.79612,-1.7511,-1.70578,-1.66015,-1.6142,-1.5679,-1.52126,-1.47424,-1.42685,-1.37907,-1.33088,-1.28228,-1.23326,-1.18381,-1.13392,-1.08361,-1.03286,-0.98168,-0.930081,-0.878072,-0.825671,-0.772898,-0.719782,-0.666354,-0.612654,-0.558726,-0.504621,-0.450397,-0.396117,-0.341852,-0.287678,-0.233674,-0.179926,-0.126525,-0.0735608,-0.0211295,0.0306733,0.0817516,0.13201,0.181354,0.229692,0.276937,0.323004,0.367815,0.411296,0.45338,0.494007,0.533122,0.570681,0.606644,0.640983,0.673674,0.704703,0.734065,0.761761,0.787801,0.812203,0.834989,0.856192,0.875848,0.893999,0.910692,0.925977,0.939909,0.952542,0.963935,0.974143,0.983224,0.991232,0.998221,1.00424,1.00933,1.01354,1.0169,1.01945,1.02119,1.02215,1.02234,1.02175,1.02037,1.01819,1.01517,1.01127,1.00645,1.00064,0.993774,0.985756,0.976493,0.965872,0.95377,0.94005,0.924562,0.907146,0.88763,0.865833,0.841567,0.814639,0.784857,0.752031,0.715984,0.676551,0.633592,0.587001,0.536708,0.482694,0.424999,0.363724,0.299037,0.231171,0.160418,0.0871178,0.0116335,-0.0656689,-0.144447,-0.224408,-0.30532,-0.387017,-0.469386,-0.552347,-0.635826,-0.719739,-0.803986,-0.888469,-0.973108,-1.05784,-1.14261,-1.22739,-1.31214,-1.39682,-1.48142,-1.5659,-1.65027,-1.7345,-1.81861,-1.90252,-2.01425,-2.09511,-2.17598,-2.25686,-2.33775,-2.41865,-2.49956,-2.58047,-2.66139,-2.74232,-2.82325,-2.90419,-2.98513,-3.06607,-3.14702,-3.22797,-3.30893,-3.38989,-3.47085,-3.55181,-3.63278,-3.71375,-3.79472,-3.87569,-3.95667,-4.03764,-4.11862,-4.1996,-4.28058,-4.36156,-4.44254,-4.52353,-4.60451,-4.6855,-4.76648,-4.84747,-4.92846}
,{-2.99809,-2.95699,-2.91584,-2.87465,-2.83339,-2.79208,-2.7507,-2.70925,-2.66772,-2.62612,-2.58443,-2.54265,-2.50077,-2.45878,-2.41667,-2.37445,-2.3321,-2.2896,-2.24696,-2.20415,-2.16118,-2.11803,-2.07468,-2.03113,-1.98736,-1.94336,-1.89912,-1.85462,-1.80985,-1.7648,-1.71944,-1.67377,-1.62776,-1.58141,-1.5347,-1.48762,-1.44014,-1.39227,-1.34398,-1.29527,-1.24613,-1.19654,-1.14651,-1.09602,-1.04509,-0.993708,-0.941886,-0.889633,-0.836964,-0.7839,-0.730466,-0.676693,-0.622617,-0.568283,-0.513741,-0.459046,-0.404263,-0.34946,-0.294713,-0.240103,-0.185715,-0.13164,-0.0779719,-0.024807,0.0277565,0.0796199,0.130684,0.180853,0.23003,0.278124,0.325046,0.370715,0.415051,0.457985,0.499452,0.539393,0.577761,0.614512,0.649615,0.683044,0.714782,0.744823,0.773164,0.799817,0.824795,0.848123,0.869832,0.889958,0.908543,0.925634,0.941283,0.955544,0.968474,0.98013,0.990571,0.999854,1.00804,1.01517,1.0213,1.02649,1.03076,1.03416,1.03671,1.03844,1.03937,1.03949,1.03881,1.03732,1.03499,1.0318,1.02771,1.02266,1.01659,1.00942,1.00107,0.991444,0.980418,0.967871,0.953664,0.937646,0.919657,0.899523,0.877063,0.85209,0.824413,0.793841,0.76019,0.723284,0.682967,0.639105,0.5916,0.540393,0.485477,0.426903,0.364784,0.299301,0.230698,0.159275,0.0853767,0.00936784,-0.0683885,-0.147559,-0.22786,-0.309072,-0.391039,-0.473657,-0.556847,-0.640538,-0.724642,-0.809059,-0.893694,-0.978468,-1.06332,-1.1482,-1.23308,-1.31792,-1.40267,-1.48735,-1.57189,-1.65633,-1.7406,-1.82477,-1.90871,-2.02089,-2.10176,-2.18263,-2.26351,-2.3444,-2.4253,-2.5062,-2.58712,-2.66804,-2.74896,-2.82989,-2.91083,-2.99177,-3.07272,-3.15366,-3.23462,-3.31557,-3.39653,-3.47749,-3.55846,-3.63942,-3.72039,-3.80136,-3.88234,-3.96331,-4.04429,-4.12527,-4.20625,-4.28723,-4.36821,-4.44919,-4.53017,-4.61116,-4.69214,-4.77313,-4.85412,-4.9351}
,{-3.01188,-2.97078,-2.92964,-2.88844,-2.84718,-2.80587,-2.76448,-2.72303,-2.68151,-2.6399,-2.59821,-2.55642,-2.51454,-2.47255,-2.43044,-2.38821,-2.34585,-2.30335,-2.2607,-2.21789,-2.1749,-2.13174,-2.08838,-2.04481,-2.00103,-1.95701,-1.91274,-1.86822,-1.82342,-1.77833,-1.73293,-1.68722,-1.64116,-1.59476,-1.54799,-1.50083,-1.45329,-1.40533,-1.35694,-1.30812,-1.25886,-1.20914,-1.15896,-1.10832,-1.05721,-1.00563,-0.95359,-0.9011,-0.848171,-0.794823,-0.741079,-0.686968,-0.632526,-0.577796,-0.522826,-0.467671,-0.412393,-0.357062,-0.301752,-0.246544,-0.191526,-0.136787,-0.0824226,-0.0285318,0.0247855,0.0774278,0.129294,0.180282,0.230295,0.279236,0.327013,0.373539,0.418733,0.462519,0.504829,0.545601,0.584782,0.622327,0.6582,0.692374,0.724829,0.755554,0.784549,0.811821,0.837384,0.861261,0.883483,0.904085,0.923111,0.940608,0.956627,0.971224,0.984455,0.996381,1.00706,1.01655,1.02491,1.03219,1.03845,1.04372,1.04806,1.05151,1.05408,1.0558,1.05669,1.05675,1.05599,1.05439,1.05193,1.04858,1.0443,1.03903,1.03272,1.02527,1.01662,1.00664,0.995235,0.982271,0.96761,0.9511,0.932579,0.911873,0.888803,0.863181,0.834819,0.803528,0.769127,0.731444,0.690329,0.645656,0.597333,0.545311,0.489593,0.43024,0.367375,0.30119,0.231938,0.159925,0.0854998,0.0090274,-0.0691328,-0.148655,-0.229264,-0.31075,-0.392966,-0.475814,-0.559218,-0.643106,-0.727391,-0.811969,-0.896748,-0.981654,-1.06663,-1.15162,-1.23659,-1.32153,-1.40636,-1.49111,-1.57572,-1.66022,-1.74455,-1.82877,-1.91279,-2.02545,-2.10631,-2.18719,-2.26807,-2.34896,-2.42986,-2.51076,-2.59168,-2.6726,-2.75352,-2.83445,-2.91539,-2.99633,-3.07727,-3.15822,-3.23918,-3.32013,-3.40109,-3.48205,-3.56302,-3.64398,-3.72495,-3.80592,-3.8869,-3.96787,-4.04885,-4.12982,-4.2108,-4.29178,-4.37277,-4.45375,-4.53473,-4.61572,-4.6967,-4.77769,-4.85868,-4.93966}
,{-3.02549,-2.98439,-2.94324,-2.90204,-2.86079,-2.81947,-2.77809,-2.73664,-2.69511,-2.6535,-2.61181,-2.57002,-2.52813,-2.48614,-2.44403,-2.40179,-2.35943,-2.31692,-2.27426,-2.23144,-2.18845,-2.14527,-2.1019,-2.05832,-2.01452,-1.97048,-1.92619,-1.88164,-1.83682,-1.79169,-1.74626,-1.70051,-1.65441,-1.60795,-1.56112,-1.5139,-1.46628,-1.41824,-1.36976,-1.32084,-1.27146,-1.22162,-1.1713,-1.1205,-1.06921,-1.01745,-0.965197,-0.912476,-0.859295,-0.80567,-0.751624,-0.697184,-0.642385,-0.587268,-0.531879,-0.476273,-0.420511,-0.364661,-0.308798,-0.253003,-0.197363,-0.141969,-0.0869177,-0.032309,0.0217547,0.0751695,0.127831,0.179635,0.23048,0.280265,0.328895,0.376279,0.422331,0.46697,0.510125,0.551731,0.59173,0.630074,0.666723,0.701646,0.734823,0.76624,0.795895,0.823792,0.849945,0.874378,0.897118,0.918202,0.937673,0.955579,0.971972,0.986907,1.00044,1.01264,1.02356,1.03325,1.04179,1.04922,1.0556,1.06096,1.06537,1.06885,1.07143,1.07314,1.07399,1.07399,1.07314,1.07142,1.06881,1.06529,1.06081,1.05531,1.04873,1.04099,1.032,1.02166,1.00985,0.99645,0.98131,0.964281,0.9452,0.923894,0.900183,0.873882,0.844802,0.812759,0.777574,0.739082,0.697136,0.65162,0.602448,0.549582,0.493035,0.432879,0.369247,0.302343,0.232428,0.159814,0.0848546,0.00791379,-0.0706541,-0.150528,-0.231446,-0.313208,-0.395675,-0.478755,-0.562374,-0.64646,-0.730925,-0.815664,-0.900587,-0.985623,-1.07071,-1.15581,-1.24088,-1.3259,-1.41082,-1.49564,-1.58031,-1.66487,-1.74925,-1.83354,-1.91759,-2.03074,-2.1116,-2.19247,-2.27335,-2.35424,-2.43514,-2.51605,-2.59696,-2.67788,-2.75881,-2.83974,-2.92067,-3.00162,-3.08256,-3.16351,-3.24446,-3.32542,-3.40638,-3.48734,-3.5683,-3.64927,-3.73024,-3.81121,-3.89218,-3.97316,-4.05413,-4.13511,-4.21609,-4.29707,-4.37805,-4.45903,-4.54002,-4.621,-4.70199,-4.78297,-4.86396,-4.94495}
,{-3.03892,-2.99782,-2.95667,-2.91547,-2.87421,-2.83289,-2.79151,-2.75006,-2.70853,-2.66692,-2.62523,-2.58344,-2.54155,-2.49955,-2.45743,-2.41519,-2.37282,-2.33031,-2.28765,-2.24482,-2.20182,-2.15863,-2.11525,-2.07165,-2.02784,-1.98378,-1.93948,-1.89491,-1.85005,-1.8049,-1.75944,-1.71364,-1.6675,-1.62099,-1.57411,-1.52683,-1.47913,-1.43101,-1.38245,-1.33343,-1.28394,-1.23398,-1.18352,-1.13257,-1.08112,-1.02916,-0.976711,-0.923766,-0.870339,-0.816445,-0.762105,-0.707344,-0.652196,-0.5967,-0.540901,-0.484854,-0.428617,-0.372258,-0.315852,-0.259479,-0.203227,-0.147187,-0.0914567,-0.0361381,0.0186648,0.0728456,0.126297,0.178912,0.230585,0.281213,0.330695,0.378935,0.425845,0.47134,0.515344,0.557786,0.598607,0.637754,0.675185,0.710865,0.74477,0.776885,0.807206,0.835735,0.862486,0.88748,0.910745,0.932318,0.95224,0.970561,0.987333,1.00261,1.01646,1.02893,1.04009,1.05,1.05871,1.06629,1.07279,1.07825,1.08272,1.08624,1.08884,1.09053,1.09135,1.09128,1.09034,1.0885,1.08576,1.08206,1.07738,1.07165,1.06481,1.05678,1.04747,1.03677,1.02457,1.01074,0.995133,0.9776,0.957978,0.936092,0.911764,0.884809,0.855042,0.82228,0.786349,0.747087,0.704355,0.658041,0.608069,0.55441,0.497086,0.436179,0.371833,0.30426,0.233728,0.160556,0.0851013,0.00772505,-0.0712222,-0.151427,-0.232636,-0.31466,-0.397367,-0.480669,-0.564495,-0.648772,-0.733409,-0.818305,-0.903368,-0.988532,-1.07374,-1.15894,-1.24411,-1.32922,-1.41421,-1.49911,-1.58385,-1.66847,-1.7529,-1.83723,-1.92133,-2.035,-2.11586,-2.19674,-2.27762,-2.35851,-2.43941,-2.52031,-2.60123,-2.68215,-2.76307,-2.844,-2.92494,-3.00588,-3.08682,-3.16777,-3.24873,-3.32968,-3.41064,-3.4916,-3.57257,-3.65353,-3.7345,-3.81547,-3.89645,-3.97742,-4.0584,-4.13937,-4.22035,-4.30133,-4.38232,-4.4633,-4.54428,-4.62527,-4.70625,-4.78724,-4.86823,-4.94921}
,{-3.05217,-3.01107,-2.96992,-2.92872,-2.88746,-2.84614,-2.80476,-2.76331,-2.72178,-2.68017,-2.63847,-2.59668,-2.55479,-2.51279,-2.47067,-2.42843,-2.38605,-2.34353,-2.30086,-2.25803,-2.21502,-2.17182,-2.12843,-2.08483,-2.04099,-1.99692,-1.9526,-1.90801,-1.86313,-1.81795,-1.77245,-1.72662,-1.68044,-1.63389,-1.58695,-1.53961,-1.49185,-1.44365,-1.39501,-1.34589,-1.2963,-1.24621,-1.19563,-1.14453,-1.09291,-1.04078,-0.988135,-0.934973,-0.881307,-0.827152,-0.772525,-0.717452,-0.661963,-0.606097,-0.549899,-0.493419,-0.436717,-0.379859,-0.322919,-0.265978,-0.209123,-0.152446,-0.0960468,-0.0400268,0.0155074,0.0704471,0.124682,0.178103,0.2306,0.282066,0.332397,0.381493,0.429261,0.475612,0.520465,0.563747,0.605392,0.645346,0.683562,0.720003,0.754641,0.787459,0.818451,0.847617,0.87497,0.90053,0.924323,0.946387,0.966764,0.985502,1.00265,1.01828,1.03243,1.04518,1.05657,1.06669,1.07558,1.0833,1.08991,1.09546,1.09999,1.10353,1.10613,1.1078,1.10855,1.1084,1.10734,1.10537,1.10245,1.09855,1.09363,1.08764,1.08049,1.07213,1.06244,1.05133,1.03867,1.02434,1.00819,0.990079,0.96983,0.947274,0.922232,0.894521,0.863958,0.830364,0.793568,0.753415,0.709771,0.662535,0.611638,0.557062,0.498841,0.437069,0.371903,0.303565,0.232333,0.158534,0.0825225,0.00466393,-0.0746994,-0.155263,-0.236787,-0.319091,-0.402054,-0.485593,-0.569639,-0.654116,-0.738933,-0.823989,-0.909194,-0.994482,-1.0798,-1.16511,-1.25037,-1.33556,-1.42063,-1.50559,-1.59039,-1.67508,-1.75954,-1.84391,-1.92808,-2.04213,-2.12299,-2.20386,-2.28474,-2.36563,-2.44653,-2.52744,-2.60835,-2.68927,-2.7702,-2.85113,-2.93206,-3.013,-3.09395,-3.1749,-3.25585,-3.33681,-3.41777,-3.49873,-3.57969,-3.66066,-3.74163,-3.8226,-3.90357,-3.98455,-4.06552,-4.1465,-4.22748,-4.30846,-4.38944,-4.47042,-4.55141,-4.63239,-4.71338,-4.79436,-4.87535,-4.95634}
,{-3.06524,-3.02414,-2.983,-2.9418,-2.90054,-2.85922,-2.81784,-2.77638,-2.73485,-2.69324,-2.65154,-2.60975,-2.56786,-2.52586,-2.48374,-2.44149,-2.39911,-2.35659,-2.31392,-2.27108,-2.22806,-2.18486,-2.14145,-2.09784,-2.05399,-2.00991,-1.96557,-1.92095,-1.87605,-1.83085,-1.78532,-1.73946,-1.69324,-1.64664,-1.59965,-1.55226,-1.50443,-1.45616,-1.40744,-1.35823,-1.30854,-1.25834,-1.20762,-1.15638,-1.10462,-1.05231,-0.999471,-0.946099,-0.892201,-0.837791,-0.782885,-0.727507,-0.671686,-0.615459,-0.558869,-0.501966,-0.444808,-0.38746,-0.329996,-0.272496,-0.215047,-0.157743,-0.100681,-0.0439678,0.0122906,0.0679829,0.122996,0.177218,0.230535,0.282837,0.334016,0.383968,0.432594,0.479803,0.525508,0.569633,0.612108,0.652875,0.691882,0.72909,0.764468,0.797997,0.829668,0.85948,0.887443,0.913576,0.937907,0.960471,0.98131,1.00047,1.01801,1.03399,1.04846,1.06148,1.07313,1.08346,1.09254,1.10041,1.10715,1.11279,1.11738,1.12096,1.12357,1.12522,1.12593,1.12572,1.12456,1.12246,1.1194,1.11532,1.1102,1.10397,1.09656,1.0879,1.07788,1.06641,1.05335,1.0386,1.02198,1.00337,0.982581,0.959453,0.933806,0.905456,0.874224,0.839934,0.802418,0.761527,0.717132,0.669138,0.617485,0.562163,0.503215,0.440744,0.374915,0.305959,0.234161,0.159852,0.0833875,0.00513101,-0.0745802,-0.155449,-0.237244,-0.319795,-0.402985,-0.486736,-0.570978,-0.655638,-0.740621,-0.825826,-0.911166,-0.996578,-1.08201,-1.16742,-1.25278,-1.33805,-1.4232,-1.50824,-1.5931,-1.67785,-1.76237,-1.84679,-1.93101,-2.04559,-2.12645,-2.20732,-2.28821,-2.3691,-2.45,-2.5309,-2.61182,-2.69274,-2.77366,-2.85459,-2.93553,-3.01647,-3.09741,-3.17836,-3.25931,-3.34027,-3.42123,-3.50219,-3.58315,-3.66412,-3.74509,-3.82606,-3.90703,-3.98801,-4.06899,-4.14996,-4.23094,-4.31192,-4.3929,-4.47389,-4.55487,-4.63586,-4.71684,-4.79783,-4.87881,-4.9598}
,{-3.07816,-3.03706,-2.99591,-2.95471,-2.91345,-2.87213,-2.83075,-2.78929,-2.74777,-2.70615,-2.66445,-2.62266,-2.58077,-2.53876,-2.49664,-2.45439,-2.41201,-2.36949,-2.32681,-2.28396,-2.24094,-2.19773,-2.15432,-2.11069,-2.06684,-2.02274,-1.97838,-1.93375,-1.88883,-1.8436,-1.79804,-1.75215,-1.70589,-1.65925,-1.61222,-1.56477,-1.51688,-1.46855,-1.41974,-1.37045,-1.32066,-1.27035,-1.21952,-1.16814,-1.11622,-1.06375,-1.01073,-0.957148,-0.903026,-0.848368,-0.793191,-0.737516,-0.681371,-0.624792,-0.567818,-0.510501,-0.452896,-0.395068,-0.33709,-0.279041,-0.221007,-0.163084,-0.10537,-0.0479713,0.00900339,0.0654409,0.121226,0.176243,0.230376,0.28351,0.335534,0.386339,0.435824,0.48389,0.530449,0.575419,0.618727,0.660309,0.700112,0.738091,0.774215,0.80846,0.840814,0.871277,0.899855,0.926567,0.951439,0.974507,0.995812,1.0154,1.03333,1.04966,1.06445,1.07776,1.08965,1.1002,1.10945,1.11748,1.12433,1.13006,1.13471,1.13833,1.14093,1.14256,1.14322,1.14292,1.14166,1.13942,1.13618,1.13191,1.12656,1.12007,1.11237,1.10338,1.09301,1.08114,1.06766,1.05243,1.03531,1.01615,0.99478,0.97103,0.944724,0.915681,0.883724,0.848678,0.810382,0.76869,0.723482,0.674668,0.622198,0.56607,0.506338,0.443115,0.376576,0.30696,0.23456,0.159711,0.0827697,0.00409703,-0.0759759,-0.157162,-0.239236,-0.32204,-0.405464,-0.489432,-0.573878,-0.658724,-0.743872,-0.829228,-0.914703,-1.00024,-1.08578,-1.17129,-1.25675,-1.3421,-1.42732,-1.51243,-1.59736,-1.68216,-1.76675,-1.8512,-1.93547,-2.05052,-2.13138,-2.21225,-2.29313,-2.37402,-2.45492,-2.53583,-2.61674,-2.69766,-2.77859,-2.85952,-2.94045,-3.02139,-3.10234,-3.18329,-3.26424,-3.34519,-3.42615,-3.50712,-3.58808,-3.66905,-3.75002,-3.83099,-3.91196,-3.99293,-4.07391,-4.15489,-4.23587,-4.31685,-4.39783,-4.47881,-4.5598,-4.64078,-4.72177,-4.80275,-4.88374,-4.96473}
,{-3.0909,-3.0498,-3.00866,-2.96746,-2.9262,-2.88488,-2.8435,-2.80205,-2.76052,-2.7189,-2.6772,-2.63541,-2.59351,-2.55151,-2.50939,-2.46714,-2.42475,-2.38222,-2.33954,-2.29669,-2.25366,-2.21045,-2.16703,-2.12339,-2.07953,-2.03542,-1.99105,-1.9464,-1.90146,-1.85621,-1.81063,-1.7647,-1.71841,-1.67173,-1.62465,-1.57715,-1.52921,-1.48081,-1.43193,-1.38256,-1.33267,-1.28226,-1.23131,-1.1798,-1.12774,-1.0751,-1.0219,-0.968124,-0.913783,-0.858885,-0.803443,-0.747479,-0.691019,-0.634095,-0.576748,-0.519025,-0.460983,-0.402684,-0.3442,-0.285611,-0.227002,-0.168469,-0.110111,-0.0520352,0.00564827,0.0628242,0.119375,0.175182,0.230127,0.28409,0.336956,0.388614,0.438956,0.487881,0.535296,0.581114,0.625258,0.66766,0.708263,0.74702,0.783895,0.818862,0.851908,0.883027,0.912227,0.939525,0.964946,0.988525,1.0103,1.03033,1.04866,1.06534,1.08045,1.09405,1.1062,1.11696,1.1264,1.13458,1.14156,1.14738,1.15209,1.15574,1.15836,1.15996,1.16058,1.1602,1.15884,1.15647,1.15307,1.14862,1.14305,1.13631,1.12834,1.11904,1.10833,1.09609,1.0822,1.06653,1.04894,1.02927,1.00736,0.983032,0.956118,0.926437,0.893813,0.858077,0.81907,0.776651,0.730706,0.681152,0.627947,0.571096,0.510662,0.446768,0.379595,0.309392,0.236455,0.161123,0.0837549,0.00470713,-0.0756944,-0.15717,-0.239503,-0.322545,-0.406189,-0.490362,-0.574999,-0.660021,-0.745331,-0.830832,-0.916438,-1.00209,-1.08775,-1.17336,-1.25891,-1.34435,-1.42965,-1.51483,-1.59982,-1.68467,-1.76933,-1.85383,-1.93815,-2.05373,-2.13459,-2.21546,-2.29634,-2.37723,-2.45813,-2.53904,-2.61995,-2.70087,-2.7818,-2.86273,-2.94366,-3.02461,-3.10555,-3.1865,-3.26745,-3.34841,-3.42937,-3.51033,-3.59129,-3.67226,-3.75323,-3.8342,-3.91517,-3.99615,-4.07712,-4.1581,-4.23908,-4.32006,-4.40104,-4.48202,-4.56301,-4.64399,-4.72498,-4.80596,-4.88695,-4.96794}
,{-3.10349,-3.06239,-3.02125,-2.98005,-2.93879,-2.89747,-2.85609,-2.81464,-2.77311,-2.7315,-2.6898,-2.648,-2.60611,-2.5641,-2.52198,-2.47973,-2.43734,-2.39481,-2.35212,-2.30927,-2.26624,-2.22302,-2.17959,-2.13595,-2.09207,-2.04795,-2.00357,-1.9589,-1.91395,-1.86867,-1.82307,-1.77712,-1.73079,-1.68408,-1.63696,-1.58941,-1.54142,-1.49295,-1.444,-1.39455,-1.34458,-1.29406,-1.243,-1.19137,-1.13916,-1.08637,-1.033,-0.979031,-0.924478,-0.869346,-0.813649,-0.757403,-0.700635,-0.643376,-0.585663,-0.527545,-0.469074,-0.410314,-0.351334,-0.292214,-0.233041,-0.173907,-0.114914,-0.0561702,0.00221359,0.0601201,0.11743,0.174021,0.22977,0.284558,0.338263,0.390771,0.441969,0.491752,0.540023,0.586689,0.631671,0.674895,0.716302,0.75584,0.79347,0.829163,0.862903,0.894683,0.92451,0.952397,0.978369,1.00246,1.02471,1.04517,1.0639,1.08095,1.09638,1.11026,1.12265,1.13363,1.14325,1.15158,1.15867,1.16457,1.16934,1.17301,1.17561,1.17718,1.17772,1.17725,1.17576,1.17323,1.16964,1.16496,1.15914,1.15212,1.14382,1.13417,1.12306,1.11039,1.09603,1.07985,1.06171,1.04145,1.01891,0.993914,0.966294,0.935871,0.902472,0.865931,0.826095,0.782829,0.736024,0.685608,0.631544,0.573852,0.512602,0.447928,0.380023,0.309143,0.235593,0.159715,0.081867,0.00240277,-0.0783591,-0.160149,-0.242763,-0.326057,-0.409936,-0.494329,-0.579167,-0.664374,-0.749848,-0.835496,-0.921233,-1.00701,-1.09277,-1.17848,-1.26412,-1.34964,-1.43501,-1.52025,-1.6053,-1.69021,-1.7749,-1.85944,-1.94383,-2.0598,-2.14067,-2.22154,-2.30242,-2.38331,-2.46421,-2.54511,-2.62603,-2.70695,-2.78787,-2.8688,-2.94974,-3.03068,-3.11163,-3.19257,-3.27353,-3.35448,-3.43544,-3.5164,-3.59737,-3.67833,-3.7593,-3.84027,-3.92125,-4.00222,-4.0832,-4.16418,-4.24516,-4.32614,-4.40712,-4.4881,-4.56908,-4.65007,-4.73105,-4.81204,-4.89303,-4.97401}
,{-3.11593,-3.07483,-3.03368,-2.99248,-2.95123,-2.90991,-2.86853,-2.82708,-2.78555,-2.74394,-2.70224,-2.66044,-2.61855,-2.57654,-2.53442,-2.49216,-2.44978,-2.40725,-2.36456,-2.3217,-2.27867,-2.23544,-2.19201,-2.14836,-2.10447,-2.06034,-2.01595,-1.97127,-1.9263,-1.88101,-1.83538,-1.7894,-1.74305,-1.6963,-1.64914,-1.60155,-1.5535,-1.50498,-1.45596,-1.40644,-1.35638,-1.30577,-1.2546,-1.20285,-1.15051,-1.09757,-1.04402,-0.989871,-0.935113,-0.879756,-0.823809,-0.76729,-0.710222,-0.652635,-0.594566,-0.536061,-0.477171,-0.417958,-0.358493,-0.298852,-0.239122,-0.179398,-0.119779,-0.0603754,-0.00129949,0.05733,0.115391,0.17276,0.22931,0.284918,0.339459,0.392814,0.444866,0.495507,0.544634,0.592151,0.637972,0.682022,0.724236,0.764559,0.802948,0.839372,0.873812,0.906259,0.936716,0.965197,0.991726,1.01634,1.03907,1.05997,1.07909,1.0965,1.11226,1.12642,1.13907,1.15026,1.16006,1.16853,1.17573,1.18172,1.18653,1.19022,1.19281,1.19433,1.1948,1.19422,1.19259,1.1899,1.18612,1.1812,1.17512,1.1678,1.15917,1.14915,1.13763,1.12451,1.10967,1.09297,1.07427,1.05341,1.03022,1.00455,0.976214,0.945038,0.910855,0.873502,0.83283,0.78871,0.741042,0.68976,0.634838,0.576304,0.514241,0.448792,0.380162,0.308615,0.23446,0.158046,0.0797285,-0.000142928,-0.0812572,-0.163356,-0.246244,-0.329788,-0.4139,-0.498509,-0.583549,-0.668935,-0.754572,-0.840362,-0.92623,-1.01212,-1.09799,-1.18379,-1.26952,-1.35511,-1.44056,-1.52587,-1.61097,-1.69593,-1.78067,-1.86525,-1.94967,-2.06605,-2.14691,-2.22778,-2.30866,-2.38955,-2.47045,-2.55136,-2.63227,-2.71319,-2.79412,-2.87505,-2.95598,-3.03693,-3.11787,-3.19882,-3.27977,-3.36073,-3.44169,-3.52265,-3.60361,-3.68458,-3.76555,-3.84652,-3.92749,-4.00847,-4.08944,-4.17042,-4.2514,-4.33238,-4.41336,-4.49434,-4.57533,-4.65631,-4.7373,-4.81828,-4.89927,-4.98026}
,{-3.12821,-3.08711,-3.04597,-3.00477,-2.96352,-2.9222,-2.88082,-2.83937,-2.79784,-2.75623,-2.71453,-2.67273,-2.63084,-2.58883,-2.54671,-2.50446,-2.46207,-2.41954,-2.37684,-2.33399,-2.29095,-2.24772,-2.20428,-2.16063,-2.11674,-2.0726,-2.02819,-1.9835,-1.93851,-1.8932,-1.84756,-1.80156,-1.75518,-1.7084,-1.6612,-1.61357,-1.56547,-1.5169,-1.46782,-1.41822,-1.36808,-1.31738,-1.2661,-1.21424,-1.16177,-1.10868,-1.05498,-1.00065,-0.945692,-0.890115,-0.833926,-0.777141,-0.719781,-0.661875,-0.603459,-0.544575,-0.485275,-0.425619,-0.365677,-0.305524,-0.245248,-0.184941,-0.124706,-0.0646511,-0.00489103,0.0544541,0.11326,0.1714,0.228746,0.28517,0.340543,0.394743,0.44765,0.499148,0.549132,0.597501,0.644165,0.689044,0.73207,0.773182,0.812337,0.849498,0.884643,0.917763,0.948858,0.97794,1.00503,1.03017,1.05338,1.07473,1.09426,1.11204,1.12812,1.14258,1.15548,1.16689,1.17687,1.18549,1.19281,1.19888,1.20375,1.20746,1.21004,1.21152,1.21192,1.21124,1.20949,1.20663,1.20266,1.19753,1.1912,1.18359,1.17465,1.16427,1.15237,1.13884,1.12354,1.10635,1.08712,1.06569,1.04191,1.01561,0.986603,0.954733,0.919827,0.881727,0.84029,0.795391,0.746937,0.694869,0.639171,0.579879,0.517084,0.450939,0.381659,0.309513,0.234817,0.157921,0.0791802,-0.0010602,-0.0824967,-0.16488,-0.248024,-0.331803,-0.416134,-0.500948,-0.586177,-0.671737,-0.75753,-0.84346,-0.929455,-1.01546,-1.10144,-1.18734,-1.27315,-1.35882,-1.44434,-1.5297,-1.61487,-1.6999,-1.7847,-1.8693,-1.95376,-2.07061,-2.15147,-2.23234,-2.31323,-2.39412,-2.47502,-2.55592,-2.63684,-2.71775,-2.79868,-2.87961,-2.96055,-3.04149,-3.12243,-3.20338,-3.28433,-3.36529,-3.44625,-3.52721,-3.60817,-3.68914,-3.77011,-3.85108,-3.93205,-4.01303,-4.09401,-4.17498,-4.25596,-4.33694,-4.41792,-4.49891,-4.57989,-4.66088,-4.74186,-4.82285,-4.90383,-4.98482}
,{-3.14035,-3.09925,-3.05811,-3.01691,-2.97566,-2.93434,-2.89296,-2.85151,-2.80998,-2.76837,-2.72667,-2.68488,-2.64299,-2.60098,-2.55886,-2.51661,-2.47422,-2.43168,-2.38899,-2.34613,-2.30309,-2.25986,-2.21642,-2.17276,-2.12886,-2.08472,-2.0403,-1.9956,-1.9506,-1.90528,-1.85961,-1.81359,-1.76718,-1.72038,-1.67315,-1.62547,-1.57733,-1.5287,-1.47957,-1.4299,-1.37968,-1.32889,-1.27752,-1.22555,-1.17295,-1.11973,-1.06587,-1.01137,-0.956217,-0.900427,-0.844004,-0.786961,-0.729317,-0.6711,-0.612344,-0.55309,-0.493389,-0.4333,-0.37289,-0.312235,-0.251421,-0.190542,-0.129698,-0.0690008,-0.0085647,0.0514885,0.111033,0.169938,0.228074,0.285309,0.341512,0.396555,0.450314,0.50267,0.553511,0.602734,0.650243,0.695955,0.739796,0.781704,0.821628,0.859532,0.89539,0.929189,0.960928,0.990618,1.01828,1.04394,1.06765,1.08945,1.10939,1.12754,1.14396,1.15872,1.17188,1.18351,1.19369,1.20246,1.2099,1.21606,1.22099,1.22472,1.2273,1.22875,1.22909,1.22832,1.22645,1.22345,1.2193,1.21396,1.20738,1.19951,1.19027,1.17957,1.16731,1.15338,1.13766,1.12001,1.10029,1.07834,1.05401,1.02712,0.997513,0.965008,0.929445,0.890668,0.848539,0.802939,0.753779,0.701008,0.644616,0.584647,0.521202,0.454439,0.384581,0.311903,0.236726,0.1594,0.0802794,-0.000295477,-0.0820263,-0.164672,-0.248054,-0.332054,-0.416591,-0.5016,-0.587011,-0.672736,-0.758681,-0.844747,-0.930867,-1.01699,-1.10307,-1.18907,-1.27497,-1.36072,-1.44632,-1.53175,-1.61699,-1.70207,-1.78692,-1.87157,-1.95608,-2.07346,-2.15432,-2.2352,-2.31608,-2.39697,-2.47787,-2.55877,-2.63969,-2.72061,-2.80153,-2.88246,-2.9634,-3.04434,-3.12528,-3.20623,-3.28719,-3.36814,-3.4491,-3.53006,-3.61103,-3.69199,-3.77296,-3.85393,-3.93491,-4.01588,-4.09686,-4.17783,-4.25881,-4.33979,-4.42078,-4.50176,-4.58274,-4.66373,-4.74471,-4.8257,-4.90669,-4.98767}
,{-3.15234,-3.11125,-3.0701,-3.02891,-2.98765,-2.94634,-2.90496,-2.86351,-2.82198,-2.78038,-2.73868,-2.69689,-2.65499,-2.61299,-2.57086,-2.52861,-2.48623,-2.44369,-2.401,-2.35814,-2.3151,-2.27186,-2.22842,-2.18476,-2.14086,-2.0967,-2.05228,-2.00757,-1.96256,-1.91722,-1.87154,-1.8255,-1.77907,-1.73224,-1.68498,-1.63727,-1.58908,-1.54041,-1.49121,-1.44148,-1.39119,-1.34032,-1.28886,-1.23677,-1.18406,-1.13071,-1.0767,-1.02203,-0.966692,-0.910697,-0.854046,-0.796751,-0.738832,-0.680312,-0.621225,-0.56161,-0.501517,-0.441003,-0.380134,-0.318986,-0.257644,-0.1962,-0.134758,-0.0734262,-0.012322,0.0484317,0.108707,0.168372,0.227293,0.285336,0.342364,0.398248,0.452858,0.506071,0.557771,0.607849,0.656207,0.702756,0.747417,0.790124,0.830825,0.869479,0.906056,0.940542,0.972933,1.00324,1.03148,1.05768,1.08189,1.10415,1.12451,1.14304,1.15981,1.17487,1.1883,1.20017,1.21054,1.21948,1.22705,1.23331,1.2383,1.24208,1.24467,1.2461,1.24639,1.24555,1.24357,1.24045,1.23614,1.23063,1.22385,1.21574,1.20624,1.19525,1.18268,1.16841,1.15232,1.13428,1.11414,1.09175,1.06695,1.03957,1.00945,0.976415,0.940305,0.900968,0.85827,0.812095,0.762359,0.709016,0.652063,0.591548,0.527577,0.460316,0.389991,0.316881,0.24131,0.163628,0.0841891,0.00332923,-0.0786575,-0.161536,-0.245133,-0.329333,-0.414059,-0.499247,-0.584826,-0.670708,-0.756798,-0.842998,-0.929243,-1.01548,-1.10167,-1.18777,-1.27377,-1.35961,-1.44529,-1.53079,-1.61611,-1.70125,-1.78616,-1.87087,-1.95543,-2.07347,-2.15433,-2.2352,-2.31608,-2.39697,-2.47787,-2.55878,-2.63969,-2.72061,-2.80154,-2.88247,-2.9634,-3.04434,-3.12529,-3.20624,-3.28719,-3.36814,-3.4491,-3.53006,-3.61103,-3.692,-3.77297,-3.85394,-3.93491,-4.01588,-4.09686,-4.17784,-4.25882,-4.3398,-4.42078,-4.50176,-4.58275,-4.66373,-4.74472,-4.8257,-4.90669,-4.98768}
,{-3.16419,-3.1231,-3.08196,-3.04076,-2.99951,-2.9582,-2.91682,-2.87537,-2.83385,-2.79224,-2.75055,-2.70876,-2.66686,-2.62486,-2.58274,-2.54049,-2.4981,-2.45557,-2.41288,-2.37002,-2.32697,-2.28374,-2.24029,-2.19663,-2.15272,-2.10856,-2.06413,-2.01942,-1.9744,-1.92905,-1.88335,-1.83729,-1.79084,-1.74398,-1.69669,-1.64895,-1.60073,-1.55201,-1.50276,-1.45297,-1.40261,-1.35167,-1.30011,-1.24793,-1.1951,-1.14162,-1.08746,-1.03263,-0.977122,-0.920928,-0.864056,-0.806519,-0.748331,-0.689517,-0.630108,-0.570141,-0.509665,-0.448736,-0.387418,-0.325787,-0.263926,-0.201929,-0.139897,-0.0779406,-0.0161774,0.0452683,0.106267,0.166684,0.226384,0.285227,0.343077,0.399797,0.455255,0.509323,0.56188,0.612814,0.662021,0.709407,0.75489,0.798401,0.839881,0.879287,0.916587,0.951763,0.98481,1.01573,1.04455,1.0713,1.09601,1.11873,1.13952,1.15843,1.17554,1.19091,1.2046,1.2167,1.22726,1.23636,1.24406,1.25041,1.25547,1.25927,1.26186,1.26327,1.2635,1.26257,1.26048,1.25721,1.25273,1.24701,1.24,1.23164,1.22185,1.21054,1.19762,1.18298,1.16649,1.14801,1.12741,1.10453,1.07921,1.0513,1.02061,0.986984,0.950268,0.910311,0.86698,0.820166,0.769791,0.715813,0.658234,0.597112,0.532558,0.464744,0.393904,0.320319,0.244317,0.166249,0.0864676,0.00530423,-0.0769527,-0.160075,-0.243895,-0.328304,-0.413227,-0.4986,-0.584351,-0.670393,-0.756629,-0.842964,-0.929333,-1.01569,-1.10198,-1.18818,-1.27427,-1.36019,-1.44595,-1.53153,-1.6169,-1.7021,-1.78708,-1.87184,-1.95645,-2.07506,-2.15593,-2.2368,-2.31768,-2.39857,-2.47947,-2.56038,-2.64129,-2.72221,-2.80313,-2.88407,-2.965,-3.04594,-3.12689,-3.20784,-3.28879,-3.36974,-3.4507,-3.53166,-3.61263,-3.6936,-3.77456,-3.85554,-3.93651,-4.01748,-4.09846,-4.17944,-4.26042,-4.3414,-4.42238,-4.50336,-4.58434,-4.66533,-4.74631,-4.8273,-4.90829,-4.98928}
,{-3.17591,-3.13482,-3.09368,-3.05248,-3.01123,-2.96992,-2.92855,-2.8871,-2.84558,-2.80397,-2.76228,-2.72049,-2.6786,-2.6366,-2.59448,-2.55223,-2.50984,-2.46731,-2.42462,-2.38176,-2.33872,-2.29548,-2.25204,-2.20837,-2.16446,-2.1203,-2.07587,-2.03114,-1.98611,-1.94075,-1.89505,-1.84897,-1.8025,-1.75562,-1.70831,-1.66053,-1.61228,-1.56351,-1.51422,-1.46437,-1.41395,-1.36293,-1.31129,-1.25901,-1.20608,-1.15247,-1.09818,-1.0432,-0.987515,-0.93113,-0.874047,-0.816276,-0.757829,-0.698731,-0.639009,-0.578702,-0.517854,-0.456521,-0.394767,-0.332665,-0.270298,-0.207759,-0.145151,-0.0825829,-0.0201737,0.0419512,0.10366,0.164818,0.225284,0.284917,0.343577,0.401123,0.457419,0.512332,0.565738,0.617519,0.667566,0.715781,0.762078,0.806383,0.848634,0.888783,0.926795,0.96265,0.99634,1.02787,1.05725,1.08452,1.10972,1.13288,1.15406,1.17333,1.19074,1.20638,1.2203,1.23258,1.24328,1.25248,1.26024,1.26661,1.27164,1.27538,1.27787,1.27913,1.27918,1.27802,1.27566,1.27207,1.26723,1.2611,1.25364,1.24476,1.23441,1.22249,1.20889,1.19352,1.17623,1.1569,1.13539,1.11153,1.08517,1.05615,1.0243,0.989466,0.951486,0.910221,0.865548,0.817368,0.765615,0.710263,0.651331,0.588895,0.523085,0.454092,0.382165,0.307603,0.230739,0.15193,0.0715195,-0.0101702,-0.0928707,-0.176373,-0.260529,-0.345243,-0.430446,-0.516075,-0.602054,-0.688291,-0.774687,-0.861159,-0.947644,-1.03409,-1.12047,-1.20673,-1.29287,-1.37884,-1.46464,-1.55023,-1.63564,-1.72083,-1.80585,-1.89058,-2.01278,-2.09364,-2.1745,-2.25537,-2.33625,-2.41714,-2.49804,-2.57895,-2.65986,-2.74078,-2.82171,-2.90264,-2.98357,-3.06451,-3.14546,-3.22641,-3.30736,-3.38831,-3.46927,-3.55024,-3.6312,-3.71217,-3.79314,-3.87411,-3.95508,-4.03605,-4.11703,-4.19801,-4.27899,-4.35997,-4.44095,-4.52193,-4.60292,-4.6839,-4.76489,-4.84587,-4.92686,-5.00785}
,{-3.18749,-3.1464,-3.10526,-3.06407,-3.02282,-2.98151,-2.94014,-2.89869,-2.85717,-2.81557,-2.77388,-2.73209,-2.6902,-2.6482,-2.60608,-2.56384,-2.52145,-2.47892,-2.43624,-2.39338,-2.35034,-2.3071,-2.26365,-2.21999,-2.17608,-2.13191,-2.08748,-2.04275,-1.99771,-1.95234,-1.90663,-1.86054,-1.81405,-1.76715,-1.71982,-1.67201,-1.62372,-1.57492,-1.52558,-1.47568,-1.4252,-1.37411,-1.32239,-1.27002,-1.21699,-1.16326,-1.10884,-1.05371,-0.997864,-0.941294,-0.884006,-0.826007,-0.767309,-0.707933,-0.647907,-0.587266,-0.526054,-0.464324,-0.402141,-0.339575,-0.27671,-0.213637,-0.150459,-0.087285,-0.0242352,0.0385641,0.10098,0.162874,0.224105,0.284528,0.343998,0.402372,0.459509,0.515273,0.569534,0.622169,0.673066,0.722121,0.769245,0.814357,0.857394,0.898302,0.937046,0.9736,1.00795,1.04011,1.07008,1.0979,1.12361,1.14723,1.16885,1.1885,1.20626,1.22221,1.2364,1.24891,1.25981,1.26916,1.27704,1.2835,1.28859,1.29236,1.29484,1.29606,1.29604,1.29479,1.2923,1.28856,1.28354,1.2772,1.26949,1.26035,1.2497,1.23745,1.2235,1.20774,1.19004,1.17027,1.14829,1.12394,1.09707,1.0675,1.03509,0.999673,0.961095,0.919219,0.873927,0.825124,0.77275,0.716782,0.65725,0.594231,0.527865,0.458348,0.385935,0.310927,0.233661,0.154491,0.0737619,-0.00821154,-0.0911664,-0.1749,-0.259271,-0.344186,-0.42958,-0.515388,-0.601533,-0.687924,-0.774461,-0.861063,-0.947668,-1.03423,-1.1207,-1.20707,-1.2933,-1.37934,-1.46522,-1.55088,-1.63636,-1.72161,-1.80666,-1.89146,-2.01429,-2.09514,-2.176,-2.25687,-2.33775,-2.41864,-2.49954,-2.58045,-2.66136,-2.74228,-2.82321,-2.90414,-2.98507,-3.06601,-3.14696,-3.22791,-3.30886,-3.38982,-3.47077,-3.55174,-3.6327,-3.71367,-3.79464,-3.87561,-3.95658,-4.03755,-4.11853,-4.19951,-4.28049,-4.36147,-4.44245,-4.52343,-4.60442,-4.6854,-4.76639,-4.84737,-4.92836,-5.00935}
,{-3.19894,-3.15785,-3.11672,-3.07553,-3.03428,-2.99297,-2.9516,-2.91016,-2.86864,-2.82704,-2.78535,-2.74357,-2.70168,-2.65968,-2.61757,-2.57532,-2.53294,-2.49041,-2.44773,-2.40487,-2.36183,-2.3186,-2.27515,-2.23148,-2.18757,-2.14341,-2.09897,-2.05424,-2.0092,-1.96382,-1.91809,-1.87199,-1.8255,-1.77858,-1.73122,-1.68339,-1.63507,-1.58624,-1.53686,-1.48691,-1.43637,-1.38522,-1.33342,-1.28097,-1.22784,-1.174,-1.11946,-1.06419,-1.00818,-0.951432,-0.893946,-0.835727,-0.776786,-0.717142,-0.65682,-0.595855,-0.534288,-0.472173,-0.409571,-0.346552,-0.283199,-0.219602,-0.155864,-0.0920956,-0.0284155,0.0350483,0.0981613,0.160784,0.22277,0.283975,0.344249,0.403445,0.461419,0.518029,0.573141,0.626628,0.678372,0.728267,0.776216,0.822136,0.865959,0.907629,0.947104,0.984357,1.01938,1.05216,1.08273,1.11109,1.1373,1.1614,1.18344,1.20348,1.22158,1.23783,1.25228,1.26501,1.2761,1.2856,1.29359,1.30013,1.30526,1.30903,1.31149,1.31265,1.31254,1.31116,1.30851,1.30458,1.29934,1.29275,1.28475,1.27529,1.26429,1.25166,1.23729,1.22108,1.2029,1.18262,1.16009,1.13516,1.10768,1.07747,1.0444,1.00829,0.969001,0.926399,0.880369,0.830821,0.777703,0.721,0.660748,0.597034,0.530005,0.459866,0.386878,0.311349,0.233616,0.154035,0.0729454,-0.00934413,-0.0925763,-0.17656,-0.261162,-0.346293,-0.431889,-0.517886,-0.604205,-0.690753,-0.777433,-0.864162,-0.950884,-1.03755,-1.12412,-1.21058,-1.29689,-1.383,-1.46895,-1.55467,-1.6402,-1.72549,-1.81061,-1.89545,-2.01875,-2.0996,-2.18046,-2.26133,-2.34221,-2.4231,-2.504,-2.58491,-2.66582,-2.74674,-2.82767,-2.9086,-2.98953,-3.07048,-3.15142,-3.23237,-3.31332,-3.39428,-3.47524,-3.5562,-3.63716,-3.71813,-3.7991,-3.88007,-3.96104,-4.04202,-4.12299,-4.20397,-4.28495,-4.36593,-4.44691,-4.52789,-4.60888,-4.68986,-4.77085,-4.85183,-4.93282,-5.01381}
,{-3.21027,-3.16918,-3.12804,-3.08686,-3.04561,-3.00431,-2.96294,-2.9215,-2.87998,-2.83838,-2.7967,-2.75491,-2.71303,-2.67104,-2.62892,-2.58668,-2.54431,-2.50178,-2.4591,-2.41624,-2.37321,-2.32997,-2.28653,-2.24286,-2.19895,-2.15479,-2.11035,-2.06562,-2.02057,-1.97519,-1.92946,-1.88335,-1.83684,-1.78991,-1.74253,-1.69468,-1.64634,-1.59747,-1.54805,-1.49806,-1.44747,-1.39625,-1.34439,-1.29185,-1.23863,-1.18469,-1.13003,-1.07462,-1.01846,-0.961544,-0.903869,-0.845438,-0.786261,-0.726357,-0.665748,-0.604468,-0.542556,-0.480065,-0.417053,-0.353591,-0.289759,-0.225649,-0.161362,-0.097007,-0.0327056,0.0314141,0.0952163,0.158559,0.221295,0.283276,0.344349,0.404363,0.46317,0.520624,0.576587,0.630926,0.68352,0.734255,0.783033,0.829766,0.87438,0.916815,0.957028,0.994988,1.03068,1.0641,1.09526,1.12419,1.15092,1.17549,1.19796,1.21839,1.23685,1.25341,1.26813,1.2811,1.29238,1.30204,1.31015,1.31678,1.32196,1.32576,1.3282,1.32932,1.32914,1.32766,1.32488,1.32078,1.31535,1.30854,1.3003,1.29057,1.27926,1.2663,1.25157,1.23498,1.21638,1.19566,1.17266,1.14724,1.11925,1.08851,1.05488,1.0182,0.97832,0.93512,0.888484,0.838329,0.784605,0.727306,0.66647,0.602194,0.534629,0.463986,0.390531,0.314575,0.236457,0.156533,0.0751376,-0.00742409,-0.0909013,-0.17511,-0.25992,-0.345248,-0.431031,-0.517204,-0.603686,-0.690386,-0.777203,-0.864059,-0.9509,-1.03768,-1.12435,-1.2109,-1.2973,-1.38349,-1.46951,-1.55531,-1.64091,-1.72626,-1.81143,-1.89631,-2.02022,-2.10107,-2.18194,-2.26281,-2.34369,-2.42458,-2.50548,-2.58639,-2.6673,-2.74822,-2.82914,-2.91007,-2.99101,-3.07195,-3.1529,-3.23384,-3.3148,-3.39575,-3.47671,-3.55767,-3.63864,-3.7196,-3.80057,-3.88154,-3.96252,-4.04349,-4.12447,-4.20545,-4.28643,-4.36741,-4.44839,-4.52937,-4.61035,-4.69134,-4.77232,-4.85331,-4.9343,-5.01528}
,{-3.22147,-3.18038,-3.13925,-3.09806,-3.05682,-3.01552,-2.97415,-2.93271,-2.8912,-2.8496,-2.80792,-2.76614,-2.72426,-2.68227,-2.64016,-2.59792,-2.55555,-2.51303,-2.47035,-2.4275,-2.38446,-2.34123,-2.29779,-2.25413,-2.21022,-2.16606,-2.12162,-2.07688,-2.03184,-1.98645,-1.94072,-1.8946,-1.84808,-1.80114,-1.75375,-1.70588,-1.65751,-1.60861,-1.55916,-1.50913,-1.45849,-1.40722,-1.35529,-1.30268,-1.24937,-1.19533,-1.14055,-1.08502,-1.02872,-0.971638,-0.913781,-0.855147,-0.795744,-0.735589,-0.674703,-0.613118,-0.550872,-0.488015,-0.424605,-0.360711,-0.296413,-0.231801,-0.166975,-0.102047,-0.0371358,0.0276282,0.0921083,0.156161,0.219636,0.282383,0.344245,0.405069,0.464702,0.522993,0.5798,0.634986,0.688424,0.739997,0.7896,0.837141,0.882543,0.925742,0.96669,1.00535,1.04171,1.07576,1.10752,1.137,1.16424,1.18928,1.21218,1.23299,1.25179,1.26864,1.28362,1.2968,1.30826,1.31806,1.32626,1.33294,1.33815,1.34193,1.34432,1.34535,1.34505,1.34341,1.34044,1.33612,1.33043,1.32332,1.31475,1.30464,1.29293,1.27953,1.26433,1.24721,1.22807,1.20675,1.18313,1.15705,1.12835,1.09688,1.06249,1.02502,0.984331,0.940299,0.892819,0.841813,0.78724,0.729102,0.667448,0.602382,0.53407,0.462728,0.388633,0.312101,0.233474,0.153103,0.0713238,-0.0115711,-0.0953402,-0.179811,-0.264862,-0.350415,-0.436408,-0.522775,-0.609434,-0.696292,-0.783247,-0.870225,-0.957177,-1.04405,-1.13082,-1.21745,-1.30392,-1.39018,-1.47626,-1.5621,-1.64775,-1.73314,-1.81835,-1.90329,-2.0275,-2.10835,-2.18921,-2.27008,-2.35097,-2.43186,-2.51275,-2.59366,-2.67457,-2.75549,-2.83642,-2.91735,-2.99829,-3.07923,-3.16017,-3.24112,-3.32207,-3.40303,-3.48399,-3.56495,-3.64591,-3.72688,-3.80785,-3.88882,-3.96979,-4.05077,-4.13174,-4.21272,-4.2937,-4.37468,-4.45566,-4.53665,-4.61763,-4.69861,-4.7796,-4.86059,-4.94157,-5.02256}
,{-3.23254,-3.19146,-3.15033,-3.10914,-3.0679,-3.0266,-2.98524,-2.9438,-2.90229,-2.8607,-2.81902,-2.77725,-2.73537,-2.69338,-2.65128,-2.60904,-2.56667,-2.52416,-2.48148,-2.43863,-2.3956,-2.35238,-2.30894,-2.26528,-2.22138,-2.17722,-2.13278,-2.08805,-2.043,-1.99761,-1.95187,-1.90575,-1.85923,-1.81227,-1.76487,-1.71698,-1.66859,-1.61967,-1.57019,-1.52012,-1.46944,-1.41812,-1.36613,-1.31345,-1.26006,-1.20593,-1.15104,-1.09539,-1.03895,-0.981713,-0.92368,-0.864851,-0.80523,-0.744832,-0.683678,-0.621796,-0.559224,-0.49601,-0.432211,-0.367895,-0.303139,-0.238034,-0.172679,-0.107185,-0.0416729,0.0237279,0.0888791,0.153635,0.217845,0.281353,0.344002,0.405634,0.466091,0.52522,0.582873,0.638909,0.693195,0.745611,0.796046,0.844404,0.890603,0.934576,0.97627,1.01565,1.05269,1.08739,1.11975,1.1498,1.17757,1.2031,1.22644,1.24766,1.26683,1.284,1.29927,1.31269,1.32435,1.33432,1.34267,1.34945,1.35472,1.35854,1.36093,1.36194,1.36158,1.35987,1.35679,1.35234,1.34648,1.33919,1.33041,1.32007,1.30811,1.29442,1.27892,1.26148,1.242,1.22032,1.19632,1.16984,1.14073,1.10883,1.074,1.03608,0.994932,0.950436,0.90249,0.851018,0.795985,0.737393,0.675298,0.609808,0.54109,0.469367,0.394915,0.318053,0.239125,0.15848,0.0764503,-0.00667313,-0.0906533,-0.175322,-0.26056,-0.346291,-0.432455,-0.518984,-0.605795,-0.692797,-0.779887,-0.866993,-0.954064,-1.04105,-1.12793,-1.21465,-1.30122,-1.38756,-1.47372,-1.55964,-1.64536,-1.73082,-1.8161,-1.9011,-2.02606,-2.10691,-2.18777,-2.26864,-2.34952,-2.43041,-2.51131,-2.59222,-2.67313,-2.75405,-2.83498,-2.91591,-2.99684,-3.07778,-3.15873,-3.23968,-3.32063,-3.40159,-3.48255,-3.56351,-3.64447,-3.72544,-3.80641,-3.88738,-3.96835,-4.04933,-4.1303,-4.21128,-4.29226,-4.37324,-4.45422,-4.5352,-4.61619,-4.69717,-4.77816,-4.85914,-4.94013,-5.02112}
,{-3.2435,-3.20242,-3.16129,-3.12011,-3.07887,-3.03757,-2.99621,-2.95478,-2.91327,-2.87168,-2.83001,-2.78824,-2.74636,-2.70438,-2.66228,-2.62005,-2.57769,-2.53517,-2.4925,-2.44966,-2.40663,-2.36341,-2.31998,-2.27633,-2.23243,-2.18827,-2.14383,-2.0991,-2.05406,-2.00867,-1.96293,-1.91681,-1.87028,-1.82332,-1.7759,-1.728,-1.6796,-1.63065,-1.58114,-1.53104,-1.48032,-1.42895,-1.37691,-1.32417,-1.2707,-1.21648,-1.1615,-1.10573,-1.04916,-0.991779,-0.933581,-0.874565,-0.814736,-0.754105,-0.692693,-0.630526,-0.567641,-0.504082,-0.439907,-0.375181,-0.309981,-0.244397,-0.178527,-0.112481,-0.0463817,0.0196418,0.0854499,0.150896,0.215826,0.280082,0.343505,0.405931,0.467201,0.527156,0.585644,0.642519,0.697644,0.750893,0.80215,0.851315,0.898302,0.943038,0.985468,1.02555,1.06326,1.0986,1.13155,1.16216,1.19043,1.21643,1.2402,1.2618,1.2813,1.29876,1.31428,1.32791,1.33973,1.34982,1.35825,1.36507,1.37034,1.37412,1.37644,1.37734,1.37683,1.37492,1.37162,1.3669,1.36075,1.35311,1.34395,1.3332,1.32077,1.30659,1.29055,1.27254,1.25243,1.23009,1.20539,1.17817,1.14828,1.11556,1.07988,1.04108,0.999026,0.953603,0.904715,0.852295,0.796317,0.736794,0.673792,0.607431,0.537891,0.465404,0.390258,0.312776,0.233304,0.152189,0.0697577,-0.0137115,-0.0979941,-0.182932,-0.26842,-0.354383,-0.440763,-0.527489,-0.614478,-0.701632,-0.788857,-0.87608,-0.963255,-1.05034,-1.13729,-1.22409,-1.31071,-1.39712,-1.48333,-1.56928,-1.65505,-1.74053,-1.82584,-1.91086,-2.036,-2.11685,-2.19771,-2.27858,-2.35946,-2.44035,-2.52125,-2.60216,-2.68307,-2.76399,-2.84492,-2.92585,-3.00678,-3.08772,-3.16867,-3.24962,-3.33057,-3.41153,-3.49248,-3.57345,-3.65441,-3.73538,-3.81635,-3.89732,-3.97829,-4.05927,-4.14024,-4.22122,-4.3022,-4.38318,-4.46416,-4.54514,-4.62613,-4.70711,-4.7881,-4.86908,-4.95007,-5.03106}
,{-3.25434,-3.21326,-3.17214,-3.13096,-3.08972,-3.04843,-3.00707,-2.96564,-2.92414,-2.88255,-2.84088,-2.79911,-2.75724,-2.71527,-2.67317,-2.63095,-2.58859,-2.54608,-2.50341,-2.46058,-2.41756,-2.37434,-2.33092,-2.28726,-2.24337,-2.19922,-2.15479,-2.11006,-2.06502,-2.01963,-1.97389,-1.92777,-1.88124,-1.83427,-1.78685,-1.73894,-1.69052,-1.64156,-1.59203,-1.5419,-1.49114,-1.43973,-1.38764,-1.33484,-1.2813,-1.227,-1.17192,-1.11605,-1.05935,-1.00183,-0.943476,-0.884281,-0.824251,-0.763397,-0.701735,-0.639292,-0.576101,-0.512207,-0.447664,-0.382538,-0.316903,-0.250848,-0.184471,-0.117883,-0.0512037,0.0154352,0.0818936,0.148023,0.213669,0.27867,0.342863,0.406083,0.468166,0.528948,0.588274,0.645992,0.701961,0.756049,0.808138,0.85812,0.905906,0.951419,0.9946,1.0354,1.0738,1.10979,1.14336,1.17454,1.20335,1.22984,1.25406,1.27607,1.29594,1.31373,1.32953,1.34341,1.35544,1.3657,1.37426,1.38118,1.38653,1.39034,1.39266,1.39353,1.39297,1.39098,1.38756,1.38271,1.37639,1.36857,1.3592,1.34821,1.33553,1.32107,1.30473,1.2864,1.26595,1.24326,1.21818,1.19057,1.16028,1.12715,1.09104,1.0518,1.0093,0.963428,0.914088,0.861218,0.804795,0.744835,0.681408,0.614638,0.544709,0.471855,0.396367,0.318569,0.238809,0.157431,0.0747587,-0.00893112,-0.0934187,-0.17855,-0.26422,-0.350359,-0.436906,-0.523792,-0.610932,-0.698228,-0.785586,-0.872933,-0.960227,-1.04742,-1.13448,-1.22138,-1.30809,-1.39458,-1.48088,-1.5669,-1.65274,-1.73829,-1.82366,-1.90874,-2.03462,-2.11547,-2.19633,-2.2772,-2.35809,-2.43898,-2.51988,-2.60078,-2.68169,-2.76261,-2.84354,-2.92447,-3.00541,-3.08635,-3.16729,-3.24824,-3.32919,-3.41015,-3.49111,-3.57207,-3.65303,-3.734,-3.81497,-3.89594,-3.97691,-4.05789,-4.13886,-4.21984,-4.30082,-4.3818,-4.46278,-4.54377,-4.62475,-4.70573,-4.78672,-4.86771,-4.94869,-5.02968}
,{-3.26507,-3.22399,-3.18287,-3.14169,-3.10046,-3.05917,-3.01781,-2.97639,-2.93489,-2.89331,-2.85164,-2.80988,-2.76801,-2.72604,-2.68395,-2.64173,-2.59938,-2.55687,-2.51421,-2.47138,-2.42837,-2.38516,-2.34174,-2.2981,-2.25421,-2.21006,-2.16564,-2.12092,-2.07588,-2.0305,-1.98476,-1.93864,-1.89211,-1.84514,-1.79771,-1.7498,-1.70136,-1.65239,-1.60284,-1.55268,-1.5019,-1.45045,-1.39831,-1.34546,-1.29186,-1.23749,-1.18232,-1.12635,-1.06954,-1.01189,-0.95338,-0.894016,-0.833796,-0.772728,-0.710828,-0.64812,-0.584636,-0.52042,-0.455523,-0.390009,-0.323954,-0.257443,-0.190574,-0.123458,-0.0562146,0.0110243,0.0781177,0.144916,0.211262,0.276993,0.341942,0.405942,0.468823,0.53042,0.59057,0.649119,0.70592,0.760836,0.813744,0.864532,0.913106,0.959383,1.0033,1.04481,1.08389,1.12051,1.15468,1.18642,1.21574,1.24271,1.26735,1.28974,1.30995,1.32804,1.34408,1.35817,1.37036,1.38074,1.38938,1.39634,1.40168,1.40545,1.4077,1.40845,1.40773,1.40555,1.4019,1.39678,1.39016,1.38199,1.37224,1.36083,1.3477,1.33274,1.31586,1.29696,1.2759,1.25255,1.22678,1.19844,1.16738,1.13345,1.09651,1.05641,1.01303,0.966253,0.915998,0.86221,0.804874,0.744015,0.679717,0.612114,0.5414,0.467821,0.391675,0.313292,0.233021,0.151202,0.0681528,-0.015863,-0.100638,-0.186027,-0.271938,-0.358302,-0.445058,-0.532134,-0.619444,-0.706886,-0.794373,-0.881835,-0.969226,-1.05651,-1.14364,-1.23062,-1.31738,-1.40393,-1.49026,-1.57634,-1.66222,-1.74779,-1.83317,-1.9183,-2.04434,-2.12519,-2.20605,-2.28693,-2.36781,-2.4487,-2.5296,-2.6105,-2.69142,-2.77234,-2.85326,-2.93419,-3.01513,-3.09607,-3.17701,-3.25796,-3.33892,-3.41987,-3.50083,-3.58179,-3.66276,-3.74372,-3.82469,-3.90566,-3.98664,-4.06761,-4.14859,-4.22957,-4.31054,-4.39152,-4.47251,-4.55349,-4.63447,-4.71546,-4.79644,-4.87743,-4.95842,-5.0394}
,{-3.27568,-3.23461,-3.19349,-3.15231,-3.11109,-3.0698,-3.02845,-2.98703,-2.94553,-2.90395,-2.86229,-2.82053,-2.77867,-2.73671,-2.69462,-2.65241,-2.61006,-2.56756,-2.52491,-2.48209,-2.43908,-2.39588,-2.35247,-2.30883,-2.26495,-2.22081,-2.17639,-2.13168,-2.08665,-2.04127,-1.99554,-1.94942,-1.90289,-1.85592,-1.80849,-1.76057,-1.71214,-1.66315,-1.61358,-1.56341,-1.5126,-1.46112,-1.40894,-1.35604,-1.30238,-1.24794,-1.1927,-1.13663,-1.07971,-1.02193,-0.963287,-0.903762,-0.843359,-0.782087,-0.719958,-0.656994,-0.593227,-0.528697,-0.463456,-0.397565,-0.331098,-0.26414,-0.196789,-0.129154,-0.0613547,0.00647626,0.0741974,0.141658,0.208698,0.275154,0.340857,0.405633,0.469313,0.531724,0.592701,0.652084,0.709722,0.765473,0.819208,0.870812,0.920185,0.96724,1.01191,1.05415,1.09391,1.13119,1.16598,1.1983,1.22817,1.25563,1.28073,1.30354,1.32411,1.34253,1.35887,1.3732,1.3856,1.39616,1.40493,1.41199,1.4174,1.4212,1.42345,1.42417,1.4234,1.42113,1.41737,1.41212,1.40533,1.39699,1.38703,1.37539,1.362,1.34677,1.3296,1.31039,1.289,1.26531,1.23918,1.21046,1.17901,1.14468,1.10733,1.06681,1.023,0.975796,0.92511,0.870893,0.813131,0.751856,0.687152,0.619159,0.548074,0.474146,0.397675,0.318992,0.238445,0.156375,0.0730949,-0.0111336,-0.0961074,-0.181685,-0.267775,-0.354311,-0.441232,-0.528465,-0.615922,-0.703505,-0.791122,-0.878708,-0.966215,-1.05361,-1.14085,-1.22792,-1.31477,-1.4014,-1.48782,-1.57397,-1.65992,-1.74555,-1.831,-1.9162,-2.04297,-2.12382,-2.20468,-2.28555,-2.36644,-2.44733,-2.52823,-2.60913,-2.69004,-2.77096,-2.85189,-2.93282,-3.01376,-3.0947,-3.17564,-3.25659,-3.33754,-3.4185,-3.49946,-3.58042,-3.66138,-3.74235,-3.82332,-3.90429,-3.98526,-4.06624,-4.14721,-4.22819,-4.30917,-4.39015,-4.47113,-4.55212,-4.6331,-4.71408,-4.79507,-4.87606,-4.95704,-5.03803}
,{-3.28619,-3.24512,-3.204,-3.16283,-3.1216,-3.08032,-3.03897,-2.99756,-2.95606,-2.91449,-2.87283,-2.83108,-2.78923,-2.74726,-2.70518,-2.66298,-2.62064,-2.57815,-2.5355,-2.49269,-2.44969,-2.4065,-2.36309,-2.31946,-2.27559,-2.23146,-2.18705,-2.14235,-2.09732,-2.05196,-2.00623,-1.96012,-1.91359,-1.86663,-1.8192,-1.77128,-1.72283,-1.67384,-1.62426,-1.57407,-1.52324,-1.47174,-1.41952,-1.36658,-1.31287,-1.25837,-1.20305,-1.1469,-1.08988,-1.03199,-0.973209,-0.913533,-0.852959,-0.791492,-0.729145,-0.665938,-0.601899,-0.537069,-0.471497,-0.405242,-0.338378,-0.270988,-0.203169,-0.135029,-0.0666896,0.00171842,0.0700522,0.13816,0.205881,0.273048,0.339489,0.405029,0.469494,0.532707,0.594499,0.654706,0.71317,0.769746,0.824299,0.87671,0.926872,0.974697,1.02011,1.06306,1.10351,1.14144,1.17684,1.20972,1.24012,1.26806,1.2936,1.31681,1.33773,1.35646,1.37306,1.38762,1.4002,1.4109,1.41977,1.42689,1.43232,1.43611,1.43831,1.43895,1.43805,1.43563,1.43169,1.42622,1.41918,1.41055,1.40028,1.3883,1.37453,1.3589,1.3413,1.32161,1.29972,1.27551,1.24882,1.21952,1.18746,1.1525,1.11449,1.07329,1.02879,0.980883,0.929485,0.874555,0.816086,0.754117,0.688741,0.620106,0.548415,0.473928,0.396947,0.317808,0.236859,0.154437,0.0708489,-0.0136514,-0.09887,-0.184672,-0.270976,-0.357712,-0.444821,-0.532227,-0.619843,-0.707564,-0.795308,-0.883007,-0.970621,-1.05811,-1.14543,-1.23258,-1.31951,-1.4062,-1.49268,-1.57889,-1.66487,-1.75057,-1.83604,-1.92127,-2.04842,-2.12927,-2.21013,-2.29101,-2.37189,-2.45278,-2.53368,-2.61458,-2.6955,-2.77642,-2.85734,-2.93827,-3.01921,-3.10015,-3.1811,-3.26204,-3.343,-3.42395,-3.50491,-3.58587,-3.66684,-3.7478,-3.82877,-3.90974,-3.99072,-4.07169,-4.15267,-4.23365,-4.31462,-4.39561,-4.47659,-4.55757,-4.63855,-4.71954,-4.80052,-4.88151,-4.9625,-5.04348}
,{-3.29659,-3.25552,-3.2144,-3.17324,-3.13202,-3.09074,-3.04939,-3.00798,-2.96649,-2.92492,-2.88327,-2.84152,-2.79968,-2.75772,-2.71565,-2.67345,-2.63111,-2.58863,-2.54599,-2.50319,-2.4602,-2.41701,-2.37362,-2.33,-2.28614,-2.24202,-2.19762,-2.15292,-2.10791,-2.06255,-2.01683,-1.97073,-1.92421,-1.87725,-1.82983,-1.78191,-1.73347,-1.68447,-1.63488,-1.58468,-1.53383,-1.48231,-1.43007,-1.37708,-1.32333,-1.26877,-1.21339,-1.15716,-1.10005,-1.04205,-0.983147,-0.923328,-0.862591,-0.80094,-0.738385,-0.674945,-0.610646,-0.545526,-0.479634,-0.413027,-0.345777,-0.277966,-0.209691,-0.141059,-0.0721895,-0.0032153,0.0657208,0.134466,0.202857,0.270727,0.3379,0.404197,0.469441,0.533453,0.596057,0.657085,0.716375,0.773777,0.82915,0.882371,0.933327,0.981927,1.02809,1.07177,1.11291,1.15149,1.18751,1.22098,1.25191,1.28036,1.30636,1.32997,1.35127,1.37033,1.38721,1.40202,1.41481,1.42567,1.43467,1.44189,1.44738,1.45119,1.45339,1.45399,1.45303,1.45051,1.44645,1.44082,1.43361,1.42479,1.41429,1.40206,1.38803,1.37211,1.35419,1.33418,1.31194,1.28736,1.26029,1.23059,1.19811,1.16272,1.12427,1.08262,1.03766,0.989282,0.937417,0.882019,0.823088,0.760666,0.694849,0.625791,0.553699,0.478836,0.401507,0.322049,0.240811,0.158127,0.0743018,-0.0104165,-0.0958379,-0.181832,-0.268318,-0.35523,-0.442506,-0.53007,-0.617833,-0.705693,-0.793564,-0.881384,-0.969111,-1.0567,-1.14413,-1.23137,-1.31838,-1.40515,-1.49171,-1.57799,-1.66404,-1.7498,-1.83533,-1.92061,-2.04842,-2.12927,-2.21013,-2.29101,-2.37189,-2.45278,-2.53368,-2.61458,-2.6955,-2.77642,-2.85734,-2.93827,-3.01921,-3.10015,-3.1811,-3.26204,-3.343,-3.42395,-3.50491,-3.58587,-3.66684,-3.7478,-3.82877,-3.90974,-3.99072,-4.07169,-4.15267,-4.23365,-4.31462,-4.39561,-4.47659,-4.55757,-4.63855,-4.71954,-4.80052,-4.88151,-4.9625,-5.04348}
,{-3.30688,-3.26582,-3.2247,-3.18354,-3.14232,-3.10105,-3.05971,-3.0183,-2.97682,-2.93525,-2.89361,-2.85186,-2.81002,-2.76807,-2.72601,-2.68382,-2.64149,-2.59902,-2.55639,-2.51359,-2.47061,-2.42744,-2.38405,-2.34044,-2.29659,-2.25248,-2.20809,-2.16341,-2.11841,-2.07306,-2.02735,-1.98126,-1.93475,-1.8878,-1.84038,-1.79247,-1.74403,-1.69503,-1.64544,-1.59524,-1.54438,-1.49283,-1.44057,-1.38756,-1.33376,-1.27916,-1.22372,-1.16741,-1.11022,-1.05213,-0.993108,-0.933157,-0.872268,-0.810444,-0.747693,-0.684032,-0.619485,-0.554089,-0.487891,-0.420946,-0.353325,-0.285109,-0.216393,-0.147283,-0.0779004,-0.00837585,0.0611467,0.130513,0.19956,0.268117,0.336006,0.403047,0.469057,0.533853,0.597257,0.659095,0.7192,0.777416,0.8336,0.88762,0.939362,0.988728,1.03564,1.08003,1.12185,1.16108,1.19771,1.23175,1.26321,1.29214,1.31859,1.3426,1.36426,1.38362,1.40078,1.4158,1.42878,1.43978,1.44888,1.45616,1.46167,1.46548,1.46762,1.46814,1.46706,1.4644,1.46015,1.45431,1.44686,1.43776,1.42695,1.41439,1.39999,1.38367,1.36533,1.34487,1.32215,1.29706,1.26945,1.23919,1.20612,1.17012,1.13103,1.08874,1.04311,0.994053,0.941503,0.88542,0.825809,0.762721,0.696259,0.626586,0.553916,0.478519,0.400706,0.320815,0.239195,0.156178,0.0720591,-0.0129193,-0.0985767,-0.18479,-0.271482,-0.35859,-0.446049,-0.533782,-0.621697,-0.709694,-0.797688,-0.885619,-0.973447,-1.06113,-1.14864,-1.23596,-1.32304,-1.40988,-1.49649,-1.58282,-1.6689,-1.75471,-1.84028,-1.9256,-2.05379,-2.13464,-2.2155,-2.29637,-2.37726,-2.45815,-2.53904,-2.61995,-2.70086,-2.78178,-2.86271,-2.94364,-3.02458,-3.10552,-3.18646,-3.26741,-3.34836,-3.42932,-3.51028,-3.59124,-3.6722,-3.75317,-3.83414,-3.91511,-3.99608,-4.07706,-4.15803,-4.23901,-4.31999,-4.40097,-4.48195,-4.56294,-4.64392,-4.7249,-4.80589,-4.88688,-4.96786,-5.04885}
,{-3.31707,-3.27601,-3.2349,-3.19374,-3.15253,-3.11126,-3.06992,-3.02852,-2.98704,-2.94548,-2.90384,-2.86211,-2.82027,-2.77833,-2.73627,-2.69409,-2.65177,-2.6093,-2.56668,-2.5239,-2.48093,-2.43776,-2.39439,-2.35079,-2.30696,-2.26286,-2.21848,-2.17381,-2.12882,-2.08349,-2.0378,-1.99171,-1.94522,-1.89828,-1.85087,-1.80296,-1.75453,-1.70554,-1.65595,-1.60574,-1.55487,-1.50332,-1.45103,-1.398,-1.34417,-1.28953,-1.23404,-1.17767,-1.1204,-1.06222,-1.00309,-0.94302,-0.88199,-0.820003,-0.757067,-0.693196,-0.628413,-0.562754,-0.496261,-0.428991,-0.361012,-0.292403,-0.223259,-0.153685,-0.0838016,-0.0137395,0.0563572,0.126334,0.196025,0.265258,0.333854,0.401629,0.468397,0.533971,0.598169,0.660812,0.721729,0.780758,0.837751,0.892573,0.945102,0.995238,1.04289,1.088,1.13051,1.1704,1.20765,1.24227,1.27427,1.3037,1.3306,1.35503,1.37705,1.39675,1.41419,1.42945,1.44263,1.4538,1.46303,1.47039,1.47596,1.47978,1.48191,1.48239,1.48123,1.47846,1.47409,1.46809,1.46045,1.45114,1.4401,1.42728,1.4126,1.39598,1.37732,1.3565,1.33342,1.30794,1.27993,1.24925,1.21575,1.17929,1.13973,1.09695,1.05084,1.00129,0.948235,0.891651,0.831545,0.76797,0.701037,0.630911,0.557814,0.482019,0.40384,0.323617,0.241697,0.158411,0.0740496,-0.0111502,-0.0970131,-0.183421,-0.270298,-0.357584,-0.445211,-0.533104,-0.621163,-0.709295,-0.797414,-0.885461,-0.973397,-1.06119,-1.14879,-1.23619,-1.32336,-1.41027,-1.49695,-1.58334,-1.66949,-1.75535,-1.84097,-1.92635,-2.05512,-2.13597,-2.21683,-2.2977,-2.37858,-2.45948,-2.54037,-2.62128,-2.70219,-2.78311,-2.86404,-2.94497,-3.02591,-3.10685,-3.18779,-3.26874,-3.34969,-3.43065,-3.51161,-3.59257,-3.67353,-3.7545,-3.83547,-3.91644,-3.99741,-4.07839,-4.15936,-4.24034,-4.32132,-4.4023,-4.48328,-4.56427,-4.64525,-4.72623,-4.80722,-4.88821,-4.96919,-5.05018}
,{-3.32716,-3.2861,-3.245,-3.20384,-3.16263,-3.12137,-3.08003,-3.03864,-2.99716,-2.95561,-2.91398,-2.87225,-2.83042,-2.78849,-2.74644,-2.70426,-2.66195,-2.6195,-2.57689,-2.53411,-2.49115,-2.448,-2.40464,-2.36105,-2.31723,-2.27315,-2.22879,-2.18413,-2.13915,-2.09384,-2.04816,-2.00209,-1.95561,-1.90868,-1.86129,-1.81339,-1.76497,-1.71598,-1.6664,-1.61619,-1.56533,-1.51376,-1.46147,-1.40841,-1.35456,-1.29989,-1.24435,-1.18793,-1.1306,-1.07233,-1.01311,-0.952926,-0.891766,-0.829629,-0.76652,-0.702452,-0.637447,-0.571538,-0.504766,-0.437186,-0.368865,-0.29988,-0.230325,-0.160304,-0.0899363,-0.0193538,0.0512995,0.121868,0.192186,0.26208,0.331366,0.399859,0.467368,0.533706,0.598683,0.662117,0.723831,0.783661,0.841452,0.897062,0.950368,1.00126,1.04965,1.09547,1.13866,1.17919,1.21705,1.25224,1.28477,1.31469,1.34203,1.36685,1.38923,1.40923,1.42693,1.44242,1.45577,1.46708,1.4764,1.48383,1.48941,1.49322,1.49529,1.49567,1.49439,1.49147,1.4869,1.48068,1.47279,1.46319,1.45184,1.43867,1.42362,1.40659,1.38749,1.36621,1.34263,1.31663,1.28807,1.2568,1.2227,1.18561,1.1454,1.10194,1.05513,1.00488,0.951115,0.89382,0.833008,0.768743,0.701143,0.630384,0.556693,0.480353,0.401681,0.32102,0.238718,0.155098,0.0704452,-0.0150134,-0.101112,-0.187739,-0.274823,-0.362304,-0.450114,-0.538172,-0.626381,-0.714644,-0.802879,-0.891033,-0.979067,-1.06694,-1.15462,-1.24209,-1.32932,-1.4163,-1.50302,-1.58946,-1.67565,-1.76155,-1.8472,-1.93263,-2.06168,-2.14253,-2.22339,-2.30426,-2.38515,-2.46604,-2.54694,-2.62784,-2.70876,-2.78968,-2.8706,-2.95153,-3.03247,-3.11341,-3.19435,-3.2753,-3.35625,-3.43721,-3.51817,-3.59913,-3.6801,-3.76106,-3.84203,-3.923,-4.00397,-4.08495,-4.16593,-4.2469,-4.32788,-4.40886,-4.48984,-4.57083,-4.65181,-4.7328,-4.81378,-4.89477,-4.97575,-5.05674}
,{-3.33716,-3.2961,-3.255,-3.21385,-3.17264,-3.13138,-3.09005,-3.04866,-3.00719,-2.96565,-2.92402,-2.8823,-2.84048,-2.79855,-2.75651,-2.71434,-2.67204,-2.6296,-2.587,-2.54423,-2.50129,-2.45815,-2.4148,-2.37123,-2.32742,-2.28335,-2.239,-2.19436,-2.1494,-2.1041,-2.05844,-2.01239,-1.96593,-1.91902,-1.87164,-1.82376,-1.77535,-1.72637,-1.6768,-1.6266,-1.57574,-1.52417,-1.47187,-1.41881,-1.36494,-1.31023,-1.25466,-1.1982,-1.14081,-1.08247,-1.02316,-0.962877,-0.901597,-0.83932,-0.77605,-0.711797,-0.646583,-0.580437,-0.513399,-0.445523,-0.376872,-0.307525,-0.237572,-0.167118,-0.0962803,-0.0251909,0.0460061,0.117155,0.188088,0.258629,0.328595,0.397796,0.46604,0.533132,0.598883,0.663103,0.725613,0.786241,0.844828,0.901229,0.955313,1.00697,1.0561,1.10263,1.14651,1.1877,1.22618,1.26194,1.29502,1.32543,1.35323,1.37847,1.40122,1.42155,1.43954,1.45528,1.46884,1.48031,1.48976,1.49728,1.50292,1.50675,1.50882,1.50917,1.50782,1.5048,1.50011,1.49374,1.48568,1.47588,1.46431,1.45091,1.43559,1.41828,1.39888,1.37728,1.35336,1.32699,1.29805,1.26639,1.23187,1.19436,1.15371,1.1098,1.06253,1.0118,0.957568,0.899799,0.838517,0.773791,0.705744,0.634556,0.56046,0.483743,0.404725,0.323749,0.241163,0.157287,0.0724029,-0.0132685,-0.0995658,-0.186382,-0.273647,-0.361303,-0.449277,-0.537489,-0.625841,-0.714236,-0.802594,-0.890863,-0.979004,-1.06698,-1.15475,-1.24231,-1.32962,-1.41667,-1.50346,-1.58996,-1.67622,-1.76217,-1.84786,-1.93335,-2.06298,-2.14383,-2.22469,-2.30556,-2.38644,-2.46734,-2.54823,-2.62914,-2.71005,-2.79097,-2.8719,-2.95283,-3.03377,-3.11471,-3.19565,-3.2766,-3.35755,-3.43851,-3.51947,-3.60043,-3.68139,-3.76236,-3.84333,-3.9243,-4.00527,-4.08625,-4.16722,-4.2482,-4.32918,-4.41016,-4.49114,-4.57213,-4.65311,-4.73409,-4.81508,-4.89607,-4.97705,-5.05804}
,{-3.34705,-3.306,-3.2649,-3.22375,-3.18255,-3.14129,-3.09997,-3.05858,-3.01712,-2.97559,-2.93396,-2.89225,-2.85044,-2.80852,-2.76648,-2.72433,-2.68204,-2.6396,-2.59702,-2.55426,-2.51133,-2.4682,-2.42487,-2.38132,-2.33752,-2.29347,-2.24914,-2.20452,-2.15958,-2.1143,-2.06865,-2.02262,-1.97618,-1.92929,-1.88193,-1.83407,-1.78567,-1.73672,-1.68716,-1.63697,-1.58611,-1.53455,-1.48225,-1.42918,-1.3753,-1.32058,-1.26498,-1.20848,-1.15104,-1.09264,-1.03326,-0.97288,-0.911491,-0.849087,-0.785668,-0.721244,-0.655834,-0.589465,-0.522176,-0.454018,-0.385054,-0.315361,-0.245026,-0.174155,-0.102864,-0.0312844,0.0404398,0.112152,0.183684,0.254858,0.325489,0.395384,0.464347,0.532183,0.598694,0.66369,0.726985,0.788403,0.847779,0.904964,0.959821,1.01223,1.0621,1.10935,1.15391,1.19575,1.23485,1.2712,1.30481,1.33573,1.36399,1.38964,1.41276,1.43343,1.45171,1.46769,1.48146,1.4931,1.50269,1.5103,1.51601,1.51987,1.52194,1.52225,1.52084,1.51773,1.51293,1.50642,1.4982,1.48822,1.47644,1.4628,1.44723,1.42965,1.40996,1.38805,1.3638,1.33709,1.30779,1.27575,1.24083,1.20291,1.16183,1.11749,1.06977,1.01859,0.963891,0.905662,0.843922,0.778747,0.710263,0.638657,0.564167,0.487081,0.407725,0.326442,0.243578,0.159452,0.0743412,-0.0115396,-0.0980334,-0.185037,-0.272481,-0.360309,-0.448447,-0.536812,-0.625305,-0.713832,-0.802311,-0.890693,-0.97894,-1.06701,-1.15487,-1.24252,-1.32991,-1.41704,-1.5039,-1.59046,-1.67678,-1.76278,-1.84853,-1.93405,-2.06427,-2.14512,-2.22598,-2.30686,-2.38774,-2.46863,-2.54953,-2.63043,-2.71135,-2.79227,-2.87319,-2.95412,-3.03506,-3.116,-3.19694,-3.27789,-3.35885,-3.4398,-3.52076,-3.60172,-3.68269,-3.76365,-3.84462,-3.92559,-4.00657,-4.08754,-4.16852,-4.24949,-4.33047,-4.41145,-4.49244,-4.57342,-4.6544,-4.73539,-4.81637,-4.89736,-4.97835,-5.05933}
,{-3.35685,-3.3158,-3.27471,-3.23357,-3.19237,-3.15112,-3.1098,-3.06842,-3.02696,-2.98543,-2.94382,-2.90211,-2.86031,-2.8184,-2.77637,-2.73422,-2.69195,-2.64952,-2.60695,-2.56421,-2.52129,-2.47818,-2.43486,-2.39132,-2.34754,-2.30351,-2.2592,-2.21459,-2.16967,-2.12441,-2.07879,-2.03278,-1.98636,-1.93949,-1.89216,-1.84432,-1.79594,-1.74701,-1.69747,-1.64729,-1.59645,-1.5449,-1.49261,-1.43954,-1.38565,-1.33092,-1.2753,-1.21877,-1.16129,-1.10284,-1.0434,-0.98294,-0.921455,-0.858936,-0.795382,-0.730801,-0.665209,-0.598633,-0.531109,-0.462686,-0.393426,-0.323403,-0.252706,-0.181436,-0.10971,-0.0376585,0.034574,0.106831,0.178943,0.250732,0.322009,0.39258,0.462247,0.530809,0.598067,0.663823,0.727889,0.790084,0.850237,0.908194,0.963814,1.01697,1.06757,1.11552,1.16076,1.20325,1.24295,1.27988,1.31403,1.34543,1.37414,1.40021,1.4237,1.44468,1.46325,1.47947,1.49344,1.50524,1.51495,1.52264,1.5284,1.53227,1.53432,1.53458,1.5331,1.52988,1.52493,1.51826,1.50984,1.49965,1.48763,1.47372,1.45787,1.43997,1.41994,1.39767,1.37305,1.34593,1.3162,1.28371,1.24832,1.2099,1.16832,1.12345,1.07519,1.02347,0.968215,0.909429,0.847137,0.781421,0.712414,0.640309,0.56535,0.487832,0.408083,0.326449,0.243273,0.158871,0.0735132,-0.0125921,-0.0992944,-0.186495,-0.274128,-0.362134,-0.450441,-0.538962,-0.627596,-0.71625,-0.804846,-0.893335,-0.981682,-1.06984,-1.15779,-1.24552,-1.33297,-1.42016,-1.50708,-1.5937,-1.68007,-1.76612,-1.8519,-1.93744,-2.06812,-2.14897,-2.22983,-2.3107,-2.39159,-2.47248,-2.55338,-2.63428,-2.7152,-2.79611,-2.87704,-2.95797,-3.03891,-3.11985,-3.20079,-3.28174,-3.36269,-3.44365,-3.52461,-3.60557,-3.68653,-3.7675,-3.84847,-3.92944,-4.01041,-4.09139,-4.17237,-4.25334,-4.33432,-4.4153,-4.49628,-4.57727,-4.65825,-4.73924,-4.82022,-4.90121,-4.98219,-5.06318}
,{-3.36656,-3.32552,-3.28443,-3.24329,-3.2021,-3.16085,-3.11954,-3.07816,-3.03671,-2.99519,-2.95358,-2.91188,-2.87008,-2.82818,-2.78617,-2.74403,-2.70177,-2.65936,-2.61679,-2.57407,-2.53116,-2.48807,-2.44476,-2.40124,-2.35748,-2.31347,-2.26918,-2.2246,-2.1797,-2.13446,-2.08886,-2.04288,-1.99648,-1.94964,-1.90233,-1.85451,-1.80616,-1.75725,-1.70773,-1.65758,-1.60676,-1.55522,-1.50294,-1.44988,-1.396,-1.34126,-1.28563,-1.22908,-1.17158,-1.11309,-1.05359,-0.993061,-0.931492,-0.868871,-0.805195,-0.74047,-0.674711,-0.607941,-0.540197,-0.471525,-0.401984,-0.331648,-0.260603,-0.18895,-0.116805,-0.0442979,0.0284276,0.101214,0.173892,0.246281,0.318192,0.389427,0.459786,0.529065,0.59706,0.66357,0.728401,0.791368,0.852296,0.911023,0.967406,1.02132,1.07265,1.12131,1.16723,1.21037,1.2507,1.28821,1.32291,1.35482,1.384,1.4105,1.43437,1.45571,1.47458,1.49107,1.50527,1.51726,1.52713,1.53495,1.54079,1.54473,1.54681,1.54708,1.54558,1.54232,1.53731,1.53056,1.52204,1.51172,1.49956,1.4855,1.46947,1.45139,1.43117,1.40869,1.38383,1.35648,1.3265,1.29374,1.25809,1.21938,1.17751,1.13234,1.08377,1.03172,0.976147,0.917036,0.85442,0.788383,0.719061,0.646651,0.5714,0.493605,0.413597,0.33172,0.248321,0.16371,0.0781576,-0.00813202,-0.0950109,-0.182383,-0.270181,-0.358347,-0.446809,-0.535476,-0.624248,-0.713034,-0.801753,-0.89036,-0.978818,-1.06709,-1.15513,-1.24295,-1.33049,-1.41777,-1.50477,-1.59145,-1.67789,-1.76402,-1.84985,-1.93545,-2.06684,-2.14769,-2.22856,-2.30943,-2.39031,-2.4712,-2.5521,-2.63301,-2.71392,-2.79484,-2.87576,-2.9567,-3.03763,-3.11857,-3.19952,-3.28047,-3.36142,-3.44237,-3.52333,-3.60429,-3.68526,-3.76623,-3.84719,-3.92817,-4.00914,-4.09011,-4.17109,-4.25207,-4.33305,-4.41403,-4.49501,-4.57599,-4.65698,-4.73796,-4.81895,-4.89993,-4.98092,-5.06191}
,{-3.37618,-3.33514,-3.29405,-3.25292,-3.21173,-3.17049,-3.12918,-3.08781,-3.04637,-3.00485,-2.96325,-2.92156,-2.87978,-2.83788,-2.79588,-2.75376,-2.7115,-2.6691,-2.62655,-2.58384,-2.54095,-2.49787,-2.45459,-2.41108,-2.36734,-2.32335,-2.27908,-2.23452,-2.18965,-2.14444,-2.09886,-2.05291,-2.00653,-1.95972,-1.91244,-1.86465,-1.81633,-1.76745,-1.71796,-1.66783,-1.61703,-1.56552,-1.51326,-1.46022,-1.40635,-1.35161,-1.29598,-1.23942,-1.18189,-1.12337,-1.06383,-1.00325,-0.941611,-0.878901,-0.815117,-0.750264,-0.684353,-0.617407,-0.54946,-0.480556,-0.410753,-0.340122,-0.268749,-0.196734,-0.12419,-0.051248,0.0219496,0.0952448,0.168468,0.241437,0.313961,0.385841,0.456872,0.526849,0.595563,0.662809,0.72839,0.792114,0.853801,0.913287,0.97042,1.02507,1.07712,1.12648,1.17308,1.21686,1.25781,1.29589,1.33113,1.36355,1.39319,1.42011,1.44436,1.46604,1.4852,1.50195,1.51637,1.52855,1.53856,1.5465,1.55243,1.55641,1.55851,1.55878,1.55724,1.55392,1.54883,1.54197,1.53332,1.52285,1.51052,1.49628,1.48004,1.46174,1.44127,1.41853,1.3934,1.36575,1.33546,1.30238,1.26637,1.22731,1.18506,1.1395,1.09053,1.03807,0.982081,0.92255,0.859515,0.793065,0.723341,0.650544,0.574928,0.496792,0.416469,0.334307,0.250649,0.165804,0.0800363,-0.0064529,-0.0935207,-0.181073,-0.269047,-0.35738,-0.446001,-0.534816,-0.623727,-0.71264,-0.801479,-0.890197,-0.978759,-1.06712,-1.15526,-1.24316,-1.33078,-1.41813,-1.50519,-1.59195,-1.67845,-1.76462,-1.85051,-1.93615,-2.06812,-2.14898,-2.22984,-2.31071,-2.39159,-2.47248,-2.55338,-2.63429,-2.7152,-2.79612,-2.87705,-2.95798,-3.03891,-3.11985,-3.2008,-3.28175,-3.3627,-3.44365,-3.52461,-3.60558,-3.68654,-3.76751,-3.84848,-3.92945,-4.01042,-4.09139,-4.17237,-4.25335,-4.33433,-4.41531,-4.49629,-4.57727,-4.65826,-4.73924,-4.82023,-4.90121,-4.9822,-5.06319}
,{-3.38571,-3.34467,-3.30359,-3.26246,-3.22128,-3.18004,-3.13874,-3.09738,-3.05594,-3.01443,-2.97284,-2.93116,-2.88938,-2.8475,-2.80551,-2.76339,-2.72115,-2.67877,-2.63623,-2.59353,-2.55066,-2.5076,-2.46433,-2.42085,-2.37713,-2.33316,-2.28891,-2.24438,-2.19953,-2.15434,-2.1088,-2.06287,-2.01653,-1.96975,-1.92249,-1.87474,-1.82646,-1.7776,-1.72815,-1.67805,-1.62728,-1.5758,-1.52357,-1.47054,-1.41669,-1.36197,-1.30635,-1.24978,-1.19225,-1.13371,-1.07414,-1.01351,-0.951816,-0.889032,-0.825155,-0.760189,-0.694144,-0.627039,-0.558907,-0.48979,-0.419745,-0.348841,-0.277161,-0.204804,-0.131884,-0.058529,0.015118,0.0888992,0.162644,0.23617,0.309285,0.381787,0.453469,0.524122,0.593534,0.661497,0.727807,0.792269,0.854699,0.914925,0.972793,1.02817,1.08092,1.13097,1.17823,1.22265,1.26419,1.30284,1.33861,1.37152,1.40161,1.42893,1.45355,1.47555,1.495,1.512,1.52662,1.53896,1.54911,1.55714,1.56312,1.56713,1.56923,1.56946,1.56785,1.56444,1.55923,1.55222,1.5434,1.53274,1.52019,1.5057,1.4892,1.47061,1.44983,1.42674,1.40125,1.37321,1.34251,1.30899,1.27253,1.23298,1.19023,1.14414,1.09463,1.04162,0.985062,0.924965,0.861366,0.794363,0.724104,0.6508,0.574708,0.496135,0.415419,0.332905,0.248938,0.16382,0.0778093,-0.00890163,-0.0961764,-0.183926,-0.272087,-0.360598,-0.449384,-0.538351,-0.627397,-0.716433,-0.805382,-0.894202,-0.982857,-1.07131,-1.15952,-1.24749,-1.33518,-1.42258,-1.50969,-1.59651,-1.68304,-1.76926,-1.85517,-1.94086,-2.07318,-2.15403,-2.2349,-2.31577,-2.39665,-2.47754,-2.55844,-2.63935,-2.72026,-2.80118,-2.8821,-2.96303,-3.04397,-3.12491,-3.20586,-3.28681,-3.36776,-3.44871,-3.52967,-3.61063,-3.6916,-3.77256,-3.85353,-3.9345,-4.01548,-4.09645,-4.17743,-4.25841,-4.33939,-4.42037,-4.50135,-4.58233,-4.66331,-4.7443,-4.82528,-4.90627,-4.98726,-5.06825}
,{-3.39515,-3.35411,-3.31304,-3.27191,-3.23074,-3.1895,-3.14821,-3.10686,-3.06543,-3.02393,-2.98234,-2.94067,-2.8989,-2.85703,-2.81505,-2.77295,-2.73072,-2.68835,-2.64583,-2.60315,-2.56029,-2.51725,-2.474,-2.43054,-2.38684,-2.34289,-2.29867,-2.25416,-2.20934,-2.16418,-2.11867,-2.07277,-2.02647,-1.97972,-1.9325,-1.88478,-1.83654,-1.78772,-1.7383,-1.68824,-1.63751,-1.58606,-1.53386,-1.48087,-1.42704,-1.37234,-1.31673,-1.26018,-1.20265,-1.1441,-1.08451,-1.02386,-0.962114,-0.899269,-0.835315,-0.770251,-0.704086,-0.636838,-0.568538,-0.499225,-0.428955,-0.357794,-0.285825,-0.213145,-0.139866,-0.0661154,0.00796369,0.0822141,0.156465,0.230533,0.304223,0.377334,0.449655,0.520973,0.591074,0.659746,0.72678,0.791977,0.855147,0.916114,0.974719,1.03082,1.08429,1.13503,1.18296,1.22803,1.27019,1.30942,1.34574,1.37916,1.40973,1.43749,1.46252,1.48488,1.50465,1.52194,1.53682,1.54938,1.55971,1.56789,1.57401,1.57812,1.58029,1.58057,1.579,1.5756,1.57038,1.56335,1.55449,1.54378,1.53117,1.5166,1.50001,1.48132,1.46042,1.43722,1.41159,1.38342,1.35256,1.31889,1.28225,1.24253,1.19958,1.15329,1.10357,1.05034,0.993563,0.933235,0.869403,0.802163,0.731669,0.658131,0.581812,0.50302,0.422093,0.339379,0.255222,0.169922,0.0837373,-0.0031418,-0.0905801,-0.17849,-0.266807,-0.355472,-0.444405,-0.533514,-0.622697,-0.711863,-0.800937,-0.889875,-0.978644,-1.0672,-1.15552,-1.24359,-1.33136,-1.41885,-1.50605,-1.59293,-1.67954,-1.76584,-1.85181,-1.93755,-2.07067,-2.15152,-2.23239,-2.31326,-2.39414,-2.47503,-2.55593,-2.63683,-2.71775,-2.79867,-2.87959,-2.96052,-3.04146,-3.1224,-3.20335,-3.28429,-3.36525,-3.4462,-3.52716,-3.60812,-3.68909,-3.77005,-3.85102,-3.93199,-4.01297,-4.09394,-4.17492,-4.2559,-4.33688,-4.41786,-4.49884,-4.57982,-4.6608,-4.74179,-4.82277,-4.90376,-4.98475,-5.06573}
,{-3.4045,-3.36347,-3.3224,-3.28128,-3.24011,-3.19888,-3.1576,-3.11625,-3.07483,-3.03333,-2.99176,-2.9501,-2.90834,-2.86648,-2.82451,-2.78242,-2.7402,-2.69785,-2.65534,-2.61268,-2.56984,-2.52681,-2.48359,-2.44015,-2.39647,-2.35255,-2.30836,-2.26388,-2.21908,-2.17396,-2.12848,-2.08261,-2.03634,-1.98963,-1.94245,-1.89478,-1.84657,-1.79779,-1.74842,-1.6984,-1.64771,-1.5963,-1.54414,-1.49118,-1.43739,-1.38273,-1.32714,-1.27061,-1.21309,-1.15455,-1.09495,-1.03428,-0.972509,-0.90962,-0.845604,-0.78046,-0.714195,-0.646825,-0.578377,-0.50889,-0.438418,-0.367025,-0.294792,-0.221814,-0.148202,-0.074084,0.000399209,0.0750901,0.149818,0.224397,0.298634,0.372323,0.445253,0.517207,0.587968,0.657319,0.725048,0.79095,0.854832,0.916512,0.975826,1.03263,1.08678,1.13819,1.18677,1.23246,1.2752,1.315,1.35184,1.38574,1.41676,1.44493,1.47032,1.493,1.51307,1.5306,1.54569,1.55842,1.56889,1.57718,1.58336,1.58751,1.58969,1.58995,1.58832,1.58484,1.57952,1.57237,1.56335,1.55246,1.53964,1.52485,1.50801,1.48903,1.46784,1.4443,1.41832,1.38977,1.3585,1.32439,1.28729,1.24707,1.20361,1.15678,1.1065,1.0527,0.995334,0.934416,0.869996,0.80218,0.731129,0.657064,0.580253,0.501012,0.419682,0.336611,0.252141,0.166567,0.0801361,-0.00696358,-0.0946098,-0.182717,-0.271223,-0.360065,-0.449163,-0.53842,-0.627734,-0.717018,-0.806197,-0.895232,-0.984089,-1.07272,-1.16112,-1.24924,-1.33708,-1.42462,-1.51186,-1.5988,-1.68542,-1.77177,-1.85776,-1.94355,-2.07693,-2.15779,-2.23865,-2.31952,-2.4004,-2.48129,-2.56219,-2.6431,-2.72401,-2.80493,-2.88586,-2.96679,-3.04772,-3.12866,-3.20961,-3.29056,-3.37151,-3.45246,-3.53342,-3.61439,-3.69535,-3.77632,-3.85729,-3.93826,-4.01923,-4.1002,-4.18118,-4.26216,-4.34314,-4.42412,-4.5051,-4.58608,-4.66707,-4.74805,-4.82904,-4.91002,-4.99101,-5.072}
};
static const double lsx_a[108][200]={{0.999182,0.999099,0.999009,0.998911,0.998804,0.998688,0.998561,0.998424,0.998275,0.998113,0.997937,0.997746,0.997538,0.997312,0.997067,0.996802,0.996513,0.9962,0.99586,0.995491,0.995092,0.994658,0.994187,0.993677,0.993125,0.992526,0.991876,0.991173,0.990411,0.989586,0.988693,0.987727,0.986681,0.98555,0.984327,0.983005,0.981577,0.980034,0.978369,0.976571,0.974632,0.972542,0.97029,0.967865,0.965255,0.962449,0.959433,0.956195,0.952722,0.948999,0.945012,0.940748,0.936192,0.93133,0.926149,0.920635,0.914775,0.908558,0.901974,0.895012,0.887666,0.87993,0.871802,0.86328,0.854369,0.845074,0.835406,0.825378,0.815009,0.80432,0.79334,0.782099,0.770633,0.758982,0.747189,0.735302,0.72337,0.711444,0.699577,0.687824,0.676236,0.664866,0.653762,0.642971,0.632536,0.622494,0.612878,0.603714,0.595025,0.586824,0.579123,0.571923,0.565225,0.55902,0.553298,0.548044,0.54324,0.538865,0.534896,0.531309,0.528078,0.525178,0.522584,0.52027,0.518211,0.516386,0.51477,0.513343,0.512086,0.51098,0.510008,0.509155,0.508406,0.507748,0.50717,0.50666,0.50621,0.505809,0.505451,0.505127,0.504831,0.504555,0.504295,0.504043,0.503794,0.503542,0.503281,0.503005,0.502706,0.502377,0.502011,0.501597,0.501126,0.500584,0.49996,0.499237,0.498397,0.497419,0.496279,0.494949,0.493396,0.491584,0.489469,0.487002,0.484126,0.480776,0.476881,0.472358,0.467118,0.461054,0.454063,0.446025,0.436827,0.426331,0.414438,0.401023,0.386004,0.369337,0.350991,0.33106,0.309654,0.287039,0.26352,0.239535,0.215577,0.192201,0.169949,0.149255,0.130423,0.113578,0.0986664,0.0855366,0.0739774,0.0638143,0.0549195,0.047223,0.0405315,0.0347511,0.0297793,0.0254633,0.0218185,0.0185929,0.0159823,0.0136131,0.0120651,0.0437761,0.0440744,0.0490788,0.0293036,0,0,0,0,0,0,0,0,0,0,0}
,{0.999599,0.999523,0.99944,0.99935,0.999251,0.999143,0.999025,0.998897,0.998757,0.998604,0.998438,0.998258,0.998061,0.997847,0.997613,0.99736,0.997084,0.996784,0.996459,0.996104,0.99572,0.995302,0.994848,0.994355,0.99382,0.993239,0.992609,0.991926,0.991185,0.990382,0.989512,0.988569,0.987548,0.986442,0.985246,0.983951,0.982551,0.981038,0.979403,0.977638,0.975732,0.973676,0.971459,0.969071,0.966499,0.963732,0.960757,0.957561,0.954131,0.950453,0.946512,0.942296,0.937789,0.932977,0.927848,0.922387,0.916582,0.91042,0.903892,0.896989,0.889702,0.882026,0.873959,0.8655,0.856652,0.847421,0.837816,0.827853,0.817548,0.806924,0.796008,0.784832,0.77343,0.761842,0.750112,0.738286,0.726414,0.714547,0.702737,0.691039,0.679505,0.668187,0.657133,0.646389,0.635999,0.625999,0.616423,0.607297,0.598642,0.590474,0.582803,0.575631,0.568957,0.562775,0.557074,0.551838,0.54705,0.542688,0.538731,0.535153,0.531929,0.529035,0.526444,0.524131,0.522071,0.520242,0.518621,0.517186,0.515917,0.514797,0.513807,0.512931,0.512155,0.511466,0.51085,0.510295,0.509792,0.509329,0.508897,0.508487,0.508089,0.507695,0.507296,0.506881,0.506442,0.505967,0.505444,0.504862,0.504204,0.503456,0.502599,0.501612,0.500469,0.499144,0.497605,0.495814,0.49373,0.491303,0.488479,0.485195,0.481378,0.476949,0.47182,0.465889,0.45905,0.451188,0.442186,0.431914,0.420259,0.407106,0.392364,0.375975,0.357915,0.338238,0.317055,0.294587,0.271129,0.247103,0.222979,0.199307,0.176628,0.155412,0.136001,0.118564,0.103095,0.089448,0.077432,0.0668554,0.0575906,0.049531,0.042556,0.0365099,0.0312993,0.0267903,0.0229297,0.01959,0.0167675,0.0143002,0.0122902,0.0469836,0.0451951,0.0405494,0.0284276,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00017,1.0001,1.00003,0.999947,0.999857,0.999759,0.999651,0.999532,0.999402,0.99926,0.999104,0.998934,0.998749,0.998546,0.998325,0.998083,0.99782,0.997534,0.997222,0.996882,0.996512,0.996109,0.995671,0.995195,0.994678,0.994115,0.993504,0.99284,0.99212,0.991338,0.99049,0.98957,0.988573,0.987492,0.986321,0.985054,0.983682,0.982198,0.980593,0.978859,0.976985,0.974963,0.972781,0.970429,0.967895,0.965167,0.962232,0.959077,0.95569,0.952055,0.94816,0.943991,0.939532,0.93477,0.929692,0.924283,0.918531,0.912425,0.905953,0.899107,0.891878,0.884262,0.876255,0.867857,0.859071,0.849902,0.840361,0.830461,0.820219,0.809659,0.798807,0.787694,0.776354,0.764829,0.75316,0.741394,0.729581,0.717772,0.706019,0.694375,0.682894,0.671625,0.66062,0.649923,0.639577,0.629619,0.620082,0.610992,0.602372,0.594236,0.586594,0.579449,0.5728,0.566641,0.56096,0.555742,0.55097,0.546622,0.542676,0.539108,0.535893,0.533005,0.530418,0.528108,0.526049,0.524218,0.522593,0.521153,0.519876,0.518745,0.517741,0.516849,0.516052,0.515338,0.514692,0.514102,0.513557,0.513046,0.512556,0.512078,0.511601,0.511114,0.510606,0.510064,0.509475,0.508825,0.508098,0.507277,0.50634,0.505266,0.504029,0.502598,0.500938,0.499012,0.496774,0.494172,0.491148,0.487635,0.483559,0.478836,0.473372,0.467065,0.459804,0.451471,0.441948,0.431107,0.418837,0.405027,0.389599,0.372508,0.353752,0.333408,0.311622,0.288646,0.264811,0.240572,0.216418,0.192906,0.170559,0.149811,0.13095,0.114088,0.0991542,0.0859948,0.0744016,0.0642067,0.0552884,0.0475495,0.0408391,0.0350344,0.0300281,0.0256998,0.0220017,0.0187951,0.0160855,0.0137134,0.0117437,0.0421983,0.0415957,0.0431725,0.0385513,0.0484754,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00086,1.0008,1.00074,1.00068,1.0006,1.00051,1.00042,1.00031,1.0002,1.00007,0.999924,0.999767,0.999594,0.999405,0.999197,0.998969,0.99872,0.998447,0.998149,0.997824,0.997469,0.997082,0.996661,0.996201,0.995701,0.995157,0.994564,0.99392,0.99322,0.992459,0.991632,0.990735,0.989761,0.988705,0.98756,0.986318,0.984974,0.983518,0.981943,0.980239,0.978398,0.976409,0.974261,0.971945,0.969447,0.966757,0.963861,0.960747,0.957402,0.953811,0.949961,0.945837,0.941426,0.936713,0.931685,0.926327,0.920628,0.914576,0.908159,0.901369,0.894198,0.88664,0.878693,0.870355,0.86163,0.852522,0.843043,0.833205,0.823026,0.812529,0.801739,0.790687,0.77941,0.767945,0.756336,0.74463,0.732875,0.721122,0.709424,0.697834,0.686404,0.675185,0.664227,0.653575,0.643272,0.633355,0.623857,0.614803,0.606217,0.598112,0.590499,0.583381,0.576757,0.57062,0.564959,0.559759,0.555003,0.55067,0.546737,0.543179,0.539973,0.537092,0.534511,0.532205,0.530149,0.528319,0.526693,0.52525,0.523969,0.522832,0.52182,0.520917,0.520107,0.519376,0.51871,0.518097,0.517524,0.516979,0.516451,0.515927,0.515396,0.514846,0.514263,0.513634,0.512943,0.512175,0.511309,0.510326,0.509201,0.507906,0.506412,0.504683,0.502677,0.500349,0.497645,0.494506,0.490861,0.486636,0.481744,0.47609,0.469569,0.462069,0.453474,0.443657,0.432499,0.419886,0.405714,0.389907,0.372431,0.353291,0.33258,0.310457,0.287189,0.263129,0.23873,0.214507,0.191008,0.168748,0.148142,0.129456,0.112772,0.0980115,0.0849998,0.0735348,0.063455,0.0546417,0.0469966,0.0403673,0.0346314,0.0296824,0.0254103,0.0217568,0.0185886,0.0159083,0.0135794,0.0116424,0.0411534,0.0396316,0.0383016,0.0373077,0.0341722,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00162,1.00159,1.00155,1.0015,1.00145,1.00138,1.0013,1.00121,1.00111,1.001,1.00088,1.00074,1.00058,1.00041,1.00022,1,0.999771,0.999515,0.999233,0.998925,0.998587,0.998217,0.997813,0.997371,0.996889,0.996363,0.99579,0.995165,0.994486,0.993746,0.992941,0.992066,0.991116,0.990084,0.988964,0.987748,0.986431,0.985003,0.983457,0.981784,0.979973,0.978017,0.975903,0.973621,0.97116,0.968507,0.96565,0.962576,0.959272,0.955724,0.951917,0.947839,0.943474,0.938809,0.93383,0.928523,0.922876,0.916877,0.910515,0.90378,0.896665,0.889165,0.881276,0.872997,0.864331,0.855284,0.845866,0.836089,0.825971,0.815535,0.804806,0.793816,0.782598,0.771193,0.759643,0.747995,0.736296,0.724599,0.712955,0.701417,0.690037,0.678867,0.667955,0.657348,0.647087,0.63721,0.627749,0.618731,0.610177,0.602104,0.594519,0.587427,0.580827,0.574711,0.56907,0.563888,0.559148,0.554829,0.550908,0.547361,0.544164,0.54129,0.538715,0.536413,0.53436,0.532532,0.530906,0.529461,0.528177,0.527034,0.526015,0.525103,0.524281,0.523536,0.522854,0.52222,0.521622,0.521048,0.520485,0.519921,0.519343,0.518737,0.518089,0.517384,0.516605,0.515732,0.514745,0.513621,0.512331,0.510845,0.509129,0.507141,0.504835,0.50216,0.499056,0.495455,0.491281,0.48645,0.480867,0.474429,0.467025,0.458537,0.448843,0.437819,0.425352,0.411334,0.395687,0.378367,0.359375,0.338787,0.316752,0.293518,0.269422,0.244909,0.220477,0.196676,0.174031,0.15298,0.133818,0.116662,0.101459,0.0880502,0.0762307,0.0658274,0.0567194,0.0488028,0.0419422,0.0359985,0.0308689,0.026435,0.0226377,0.0193527,0.0165611,0.0141383,0.0121203,0.0416394,0.03972,0.0361,0.0301981,0.0358606,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00243,1.00242,1.00241,1.00239,1.00236,1.00232,1.00227,1.0022,1.00213,1.00204,1.00194,1.00182,1.00168,1.00153,1.00136,1.00117,1.00096,1.00072,1.00046,1.00017,0.999853,0.999503,0.999118,0.998697,0.998235,0.997729,0.997177,0.996573,0.995915,0.995197,0.994415,0.993563,0.992636,0.991629,0.990534,0.989345,0.988054,0.986655,0.985138,0.983494,0.981715,0.97979,0.97771,0.975462,0.973036,0.97042,0.967601,0.964567,0.961303,0.957797,0.954034,0.95,0.945681,0.941063,0.936132,0.930875,0.925279,0.919332,0.913023,0.906342,0.899283,0.891839,0.884007,0.875786,0.867179,0.858191,0.848832,0.839115,0.829057,0.818681,0.808012,0.797081,0.785923,0.774577,0.763084,0.751492,0.739849,0.728206,0.716614,0.705127,0.693797,0.682674,0.671808,0.661244,0.651024,0.641186,0.631761,0.622778,0.614257,0.606213,0.598656,0.591589,0.585013,0.578919,0.573297,0.568133,0.563408,0.559103,0.555194,0.551658,0.54847,0.545605,0.543036,0.540739,0.53869,0.536864,0.535239,0.533794,0.532508,0.531363,0.530339,0.52942,0.528591,0.527836,0.527141,0.526492,0.525876,0.525281,0.524693,0.524099,0.523485,0.522838,0.522142,0.521381,0.520536,0.519587,0.518511,0.517282,0.515871,0.514244,0.512364,0.510187,0.507663,0.504735,0.50134,0.497404,0.492848,0.487581,0.481503,0.474507,0.466477,0.457293,0.446831,0.43497,0.421604,0.406635,0.390002,0.371687,0.351721,0.330225,0.307393,0.283526,0.259011,0.234328,0.210007,0.186589,0.164568,0.144315,0.126039,0.10977,0.0953903,0.0827114,0.071536,0.0617156,0.0531454,0.0457131,0.0392717,0.0336962,0.0288824,0.0247361,0.0211787,0.0181037,0.0154884,0.013245,0.0112979,0.037072,0.035307,0.0367658,0.0323422,0.0253031,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00324,1.00327,1.00329,1.00331,1.00331,1.0033,1.00328,1.00325,1.0032,1.00314,1.00307,1.00298,1.00288,1.00275,1.00261,1.00245,1.00226,1.00205,1.00181,1.00155,1.00125,1.00093,1.00057,1.00017,0.999729,0.999246,0.998717,0.998137,0.997502,0.996808,0.996049,0.995222,0.994321,0.993338,0.99227,0.991107,0.989844,0.988473,0.986985,0.985371,0.983623,0.98173,0.979683,0.977469,0.975079,0.972499,0.969718,0.966722,0.963498,0.960033,0.956312,0.952322,0.948048,0.943477,0.938593,0.933385,0.927839,0.921943,0.915686,0.909059,0.902053,0.894665,0.886888,0.878724,0.870175,0.861245,0.851944,0.842286,0.832287,0.82197,0.81136,0.800487,0.789386,0.778097,0.766661,0.755124,0.743535,0.731944,0.720404,0.708966,0.697684,0.686607,0.675785,0.665263,0.655083,0.645283,0.635894,0.626944,0.618454,0.610439,0.602908,0.595867,0.589312,0.583239,0.577635,0.572488,0.567778,0.563486,0.559588,0.556062,0.552882,0.550023,0.547459,0.545166,0.543118,0.541293,0.539668,0.53822,0.536929,0.535777,0.534745,0.533816,0.532973,0.532202,0.531487,0.530815,0.530172,0.529544,0.528918,0.528279,0.527613,0.526904,0.526136,0.525291,0.524348,0.523284,0.522075,0.520691,0.519101,0.517265,0.515143,0.512685,0.509837,0.506536,0.502711,0.498284,0.493167,0.487261,0.480462,0.472655,0.46372,0.453536,0.441978,0.428937,0.41431,0.398027,0.380056,0.360415,0.339199,0.316579,0.292826,0.268302,0.243469,0.218839,0.194962,0.172349,0.151413,0.132417,0.115443,0.100411,0.0871488,0.0754538,0.0651607,0.0561533,0.0483264,0.0415402,0.0356632,0.0305869,0.0262044,0.0224453,0.0192005,0.0164372,0.0140362,0.012006,0.0380237,0.0377017,0.0352816,0.0344639,0.0298581,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00405,1.00412,1.00418,1.00423,1.00427,1.0043,1.00432,1.00432,1.00432,1.0043,1.00426,1.00421,1.00414,1.00405,1.00394,1.00381,1.00365,1.00347,1.00327,1.00303,1.00277,1.00247,1.00214,1.00177,1.00136,1.0009,1.0004,0.999846,0.999238,0.99857,0.997839,0.997038,0.996163,0.995208,0.994167,0.993033,0.991799,0.990456,0.988998,0.987415,0.985698,0.983838,0.981823,0.979644,0.977288,0.974745,0.972001,0.969043,0.965859,0.962435,0.958756,0.954809,0.950579,0.946053,0.941217,0.936056,0.930559,0.924713,0.918507,0.911933,0.904981,0.897646,0.889925,0.881816,0.873323,0.86445,0.855206,0.845605,0.835664,0.825404,0.814851,0.804035,0.792991,0.781757,0.770376,0.758893,0.747357,0.735817,0.724327,0.712938,0.701702,0.69067,0.679891,0.66941,0.659269,0.649505,0.640151,0.631233,0.622773,0.614786,0.607282,0.600264,0.593731,0.587677,0.582092,0.57696,0.572265,0.567985,0.564099,0.560582,0.557409,0.554556,0.551997,0.549707,0.547661,0.545836,0.544209,0.542758,0.541463,0.540304,0.539264,0.538323,0.537467,0.536679,0.535945,0.535249,0.534578,0.533917,0.533252,0.532568,0.531848,0.531078,0.530237,0.529307,0.528265,0.527086,0.525743,0.524204,0.522432,0.520388,0.518023,0.515285,0.512115,0.508443,0.504193,0.49928,0.49361,0.487079,0.479576,0.470982,0.461176,0.450034,0.437438,0.423287,0.407494,0.390013,0.370846,0.350052,0.327779,0.304258,0.279824,0.254896,0.229975,0.205604,0.182314,0.160563,0.140677,0.122809,0.106938,0.0929184,0.080551,0.0696495,0.0600802,0.0517417,0.0445077,0.0382374,0.0328145,0.0281314,0.0240996,0.0206353,0.0176563,0.0151021,0.0129241,0.0390052,0.0354851,0.0331878,0.0313677,0.0284068,0.0354932,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00483,1.00494,1.00505,1.00514,1.00522,1.0053,1.00536,1.00541,1.00545,1.00547,1.00548,1.00547,1.00544,1.00539,1.00532,1.00523,1.00512,1.00498,1.00481,1.00461,1.00438,1.00412,1.00382,1.00349,1.00311,1.00268,1.00221,1.00169,1.00111,1.00048,0.999774,0.999003,0.998158,0.997233,0.996222,0.995117,0.993913,0.992602,0.991175,0.989623,0.987939,0.986111,0.98413,0.981986,0.979666,0.977158,0.974451,0.971532,0.968388,0.965003,0.961366,0.957462,0.953276,0.948795,0.944005,0.938891,0.933442,0.927646,0.92149,0.914967,0.908067,0.900785,0.893118,0.885064,0.876626,0.867808,0.85862,0.849076,0.83919,0.828986,0.818489,0.807729,0.79674,0.78556,0.774233,0.762802,0.751317,0.739828,0.728386,0.717044,0.705853,0.694865,0.684127,0.673686,0.663582,0.653854,0.644533,0.635646,0.627215,0.619255,0.611776,0.60478,0.598269,0.592234,0.586665,0.581548,0.576866,0.572598,0.568721,0.565212,0.562046,0.559197,0.556641,0.554352,0.552306,0.550479,0.548848,0.547391,0.546087,0.544918,0.543863,0.542907,0.54203,0.541219,0.540456,0.539727,0.539017,0.538309,0.53759,0.536842,0.536049,0.535192,0.53425,0.533202,0.532024,0.530686,0.529157,0.527403,0.525382,0.523049,0.520351,0.517229,0.513616,0.509437,0.504607,0.499035,0.492616,0.485242,0.476795,0.467153,0.456193,0.443795,0.429854,0.41428,0.397018,0.37806,0.357453,0.335326,0.311892,0.287466,0.262449,0.23733,0.212642,0.188927,0.166664,0.146213,0.127768,0.111345,0.0968222,0.0840042,0.0726996,0.0627591,0.0540771,0.0465408,0.0400066,0.0343447,0.0294578,0.0252434,0.0216268,0.0185049,0.0158444,0.0135476,0.0115786,0.0344791,0.0333817,0.0326965,0.0326593,0.0277869,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00559,1.00574,1.00589,1.00603,1.00616,1.00628,1.00639,1.00649,1.00658,1.00665,1.00671,1.00675,1.00677,1.00677,1.00675,1.0067,1.00663,1.00654,1.00642,1.00626,1.00608,1.00586,1.0056,1.0053,1.00496,1.00458,1.00414,1.00366,1.00311,1.00251,1.00185,1.00111,1.0003,0.999405,0.998426,0.997355,0.996184,0.994905,0.993511,0.991993,0.990343,0.988549,0.986603,0.984494,0.98221,0.97974,0.977071,0.97419,0.971085,0.967741,0.964145,0.960283,0.956141,0.951705,0.94696,0.941893,0.936491,0.930743,0.924638,0.918164,0.911316,0.904086,0.896472,0.888471,0.880087,0.871324,0.862191,0.852701,0.842871,0.832722,0.822279,0.811573,0.800638,0.789511,0.778236,0.766856,0.755421,0.743981,0.732586,0.72129,0.710144,0.699198,0.6885,0.678098,0.668031,0.658337,0.649048,0.640192,0.63179,0.623856,0.616401,0.609429,0.602937,0.596921,0.591369,0.586268,0.581599,0.577343,0.573477,0.569977,0.566818,0.563976,0.561425,0.55914,0.557096,0.55527,0.553639,0.55218,0.550874,0.5497,0.54864,0.547675,0.546789,0.545965,0.545188,0.544441,0.54371,0.542979,0.542231,0.541449,0.540617,0.539713,0.538718,0.537608,0.536356,0.534934,0.533308,0.53144,0.529289,0.526804,0.523932,0.52061,0.516767,0.512325,0.507197,0.501285,0.494485,0.486683,0.477759,0.467592,0.456057,0.443039,0.428438,0.412175,0.394208,0.374549,0.353268,0.330525,0.306565,0.281736,0.256467,0.231266,0.206679,0.183231,0.161371,0.14141,0.123486,0.107567,0.0934979,0.0810809,0.0701309,0.0605167,0.0521358,0.0448628,0.0385566,0.0331,0.0283876,0.0243281,0.0208386,0.0178384,0.0152698,0.0130679,0.0361403,0.0334641,0.0306373,0.0297952,0.0284682,0.0285374,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0063,1.0065,1.0067,1.00688,1.00707,1.00724,1.0074,1.00756,1.0077,1.00782,1.00793,1.00802,1.0081,1.00815,1.00819,1.0082,1.00818,1.00814,1.00807,1.00797,1.00783,1.00766,1.00745,1.0072,1.00691,1.00657,1.00617,1.00573,1.00523,1.00467,1.00404,1.00334,1.00257,1.00171,1.00077,0.999739,0.998604,0.997361,0.996003,0.994521,0.992906,0.991149,0.98924,0.987167,0.98492,0.982488,0.979857,0.977016,0.97395,0.970648,0.967093,0.963274,0.959175,0.954782,0.950083,0.945062,0.939708,0.934007,0.92795,0.921527,0.914729,0.907551,0.899988,0.89204,0.883708,0.874998,0.865919,0.856483,0.846706,0.83661,0.826221,0.815568,0.804685,0.79361,0.782385,0.771055,0.759669,0.748276,0.736927,0.725675,0.714572,0.703667,0.693009,0.682643,0.672611,0.662951,0.653694,0.644867,0.636492,0.628583,0.621151,0.6142,0.607728,0.601729,0.596193,0.591105,0.586449,0.582203,0.578345,0.574853,0.5717,0.568862,0.566313,0.564029,0.561984,0.560156,0.55852,0.557055,0.55574,0.554556,0.553482,0.552501,0.551595,0.550747,0.549942,0.549162,0.548392,0.547615,0.546814,0.54597,0.545064,0.544076,0.542982,0.541757,0.540372,0.538795,0.536989,0.534913,0.532521,0.529758,0.526566,0.522876,0.518613,0.513691,0.508017,0.501488,0.493993,0.485414,0.475629,0.464516,0.451953,0.437836,0.422074,0.404613,0.385444,0.364612,0.342246,0.318555,0.293849,0.268527,0.243077,0.218027,0.193923,0.171248,0.150376,0.131515,0.114697,0.0998088,0.0866608,0.0750558,0.0648413,0.0559054,0.0481402,0.0414039,0.0355661,0.0305218,0.0261675,0.0224278,0.0192017,0.0164459,0.0140665,0.012042,0.0329909,0.0320722,0.0316612,0.0302219,0.0269043,0.032475,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00697,1.00722,1.00747,1.00771,1.00794,1.00817,1.00838,1.00859,1.00879,1.00897,1.00914,1.00929,1.00943,1.00954,1.00964,1.00971,1.00975,1.00977,1.00975,1.00971,1.00963,1.00952,1.00936,1.00916,1.00892,1.00863,1.00829,1.0079,1.00745,1.00693,1.00635,1.0057,1.00497,1.00415,1.00325,1.00226,1.00117,0.999963,0.998644,0.997201,0.995625,0.993907,0.992036,0.990002,0.987795,0.985401,0.982811,0.980009,0.976985,0.973723,0.970211,0.966434,0.962379,0.958031,0.953376,0.948401,0.943094,0.937441,0.931432,0.925058,0.91831,0.911182,0.90367,0.895773,0.887493,0.878836,0.869809,0.860425,0.850701,0.840658,0.83032,0.819719,0.808887,0.797862,0.786687,0.775406,0.764066,0.752719,0.741415,0.730207,0.719144,0.708279,0.697659,0.68733,0.677333,0.667704,0.658478,0.64968,0.641331,0.633447,0.626038,0.619107,0.612654,0.606673,0.601152,0.596079,0.591434,0.587199,0.583351,0.579866,0.57672,0.573888,0.571343,0.569061,0.567018,0.56519,0.563553,0.562085,0.560766,0.559576,0.558494,0.557503,0.556585,0.555724,0.554901,0.554101,0.553307,0.552501,0.551667,0.550784,0.549833,0.548792,0.547637,0.54634,0.544872,0.543199,0.541282,0.539078,0.536537,0.533604,0.530217,0.526303,0.521784,0.516571,0.510568,0.503668,0.495757,0.486716,0.476423,0.464752,0.45159,0.436834,0.420405,0.402261,0.382411,0.360923,0.337954,0.313743,0.288631,0.263045,0.23749,0.212507,0.188627,0.16631,0.145882,0.127501,0.111151,0.0966886,0.083914,0.072642,0.0627302,0.0540741,0.0465585,0.0400391,0.0343879,0.0295088,0.0253006,0.0216869,0.0185686,0.0159072,0.0136128,0.0116452,0.0311728,0.0298938,0.0292992,0.0292999,0.0287138,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00761,1.0079,1.0082,1.00849,1.00877,1.00906,1.00933,1.0096,1.00985,1.0101,1.01033,1.01054,1.01074,1.01092,1.01108,1.01121,1.01132,1.0114,1.01146,1.01148,1.01146,1.01141,1.01132,1.01118,1.011,1.01077,1.01049,1.01015,1.00975,1.00929,1.00876,1.00816,1.00747,1.00671,1.00586,1.00491,1.00386,1.0027,1.00143,1.00003,0.998493,0.996817,0.994988,0.992996,0.990829,0.988478,0.985928,0.983169,0.980186,0.976967,0.973498,0.969764,0.965753,0.961449,0.95684,0.951911,0.94665,0.941045,0.935084,0.928758,0.922059,0.91498,0.907519,0.899673,0.891444,0.882837,0.873862,0.864529,0.854856,0.844864,0.834578,0.824026,0.813244,0.802268,0.791141,0.779907,0.768614,0.757311,0.74605,0.734883,0.723861,0.713035,0.702451,0.692157,0.682192,0.672595,0.663398,0.654627,0.646303,0.638443,0.631055,0.624144,0.617709,0.611744,0.606238,0.601177,0.596543,0.592318,0.588478,0.584999,0.581858,0.579028,0.576486,0.574204,0.57216,0.570328,0.568686,0.567212,0.565884,0.564682,0.563586,0.562578,0.56164,0.560754,0.559903,0.559069,0.558235,0.557383,0.556494,0.555549,0.554524,0.553397,0.552142,0.55073,0.549128,0.547299,0.545203,0.542791,0.540011,0.536804,0.5331,0.528825,0.523894,0.518214,0.511682,0.504187,0.495613,0.485837,0.474735,0.462187,0.448084,0.432334,0.414878,0.395697,0.374832,0.352396,0.328586,0.303693,0.27811,0.252302,0.226798,0.202145,0.178844,0.157295,0.137742,0.120256,0.104751,0.091047,0.0789416,0.0682687,0.0589118,0.0507627,0.0436922,0.0375571,0.03225,0.0276668,0.0237248,0.0203279,0.017415,0.0149067,0.0127781,0.03169,0.0298706,0.0273161,0.0245627,0.0248059,0.0177412,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0082,1.00855,1.00889,1.00923,1.00957,1.00991,1.01024,1.01057,1.01088,1.01119,1.01149,1.01177,1.01203,1.01228,1.01251,1.01271,1.01289,1.01304,1.01316,1.01325,1.01331,1.01333,1.0133,1.01324,1.01312,1.01296,1.01274,1.01246,1.01213,1.01173,1.01126,1.01071,1.01009,1.00938,1.00858,1.00768,1.00668,1.00557,1.00435,1.00299,1.00151,0.999875,0.998091,0.996143,0.994021,0.991714,0.989208,0.986492,0.983553,0.980378,0.976953,0.973264,0.969298,0.965039,0.960476,0.955593,0.950379,0.94482,0.938907,0.93263,0.925979,0.91895,0.911538,0.903742,0.895563,0.887007,0.878082,0.8688,0.859177,0.849235,0.838998,0.828496,0.817762,0.806834,0.795754,0.784565,0.773317,0.762058,0.750839,0.739712,0.728729,0.71794,0.707392,0.697132,0.687199,0.677632,0.668463,0.659719,0.65142,0.643582,0.636216,0.629324,0.622906,0.616957,0.611465,0.606417,0.601795,0.597579,0.593748,0.590276,0.587141,0.584316,0.581777,0.579498,0.577454,0.575622,0.573978,0.572501,0.571168,0.56996,0.568856,0.567839,0.566888,0.565988,0.565119,0.564265,0.563407,0.562527,0.561605,0.56062,0.55955,0.558371,0.557056,0.555573,0.553889,0.551966,0.54976,0.547223,0.544299,0.540926,0.537033,0.532543,0.527367,0.521409,0.514565,0.506721,0.497758,0.487553,0.475983,0.462929,0.448286,0.43197,0.413931,0.394166,0.372731,0.349761,0.325478,0.300199,0.274333,0.248371,0.222848,0.198305,0.175226,0.153979,0.134768,0.117626,0.102438,0.0890117,0.0771515,0.0667018,0.0575504,0.0495869,0.0426788,0.036685,0.031501,0.0270257,0.0231767,0.0198581,0.0170171,0.0145676,0.0124881,0.0299675,0.0286661,0.0269923,0.024536,0.0228625,0.00688477,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00876,1.00915,1.00954,1.00993,1.01033,1.01072,1.01111,1.01149,1.01187,1.01225,1.01261,1.01296,1.01329,1.01361,1.01391,1.01419,1.01444,1.01467,1.01487,1.01503,1.01516,1.01526,1.01531,1.01532,1.01528,1.01518,1.01504,1.01483,1.01457,1.01423,1.01383,1.01335,1.01279,1.01214,1.0114,1.01056,1.00962,1.00856,1.00739,1.00609,1.00465,1.00307,1.00134,0.99944,0.997366,0.995105,0.992646,0.989977,0.987084,0.983955,0.980576,0.976933,0.973012,0.9688,0.964283,0.959447,0.95428,0.948769,0.942903,0.936674,0.930072,0.923092,0.915729,0.907982,0.899852,0.891346,0.88247,0.873237,0.863664,0.85377,0.843582,0.833128,0.822441,0.811559,0.800524,0.78938,0.778175,0.766958,0.75578,0.744692,0.733747,0.722993,0.71248,0.702252,0.69235,0.682812,0.67367,0.66495,0.656675,0.648859,0.641512,0.634638,0.628237,0.622302,0.616823,0.611786,0.607174,0.602966,0.599141,0.595675,0.592543,0.58972,0.587182,0.584901,0.582855,0.581019,0.579369,0.577883,0.576539,0.575317,0.574198,0.57316,0.572187,0.571259,0.570358,0.569465,0.568563,0.567631,0.566648,0.565593,0.564441,0.563167,0.561741,0.56013,0.558298,0.556204,0.5538,0.551036,0.54785,0.544177,0.539941,0.535059,0.529439,0.522979,0.51557,0.507095,0.497433,0.486459,0.474051,0.460097,0.444502,0.427196,0.408152,0.387396,0.36502,0.341203,0.316212,0.290413,0.264255,0.238257,0.212964,0.188896,0.166491,0.146043,0.127677,0.111349,0.0969002,0.0841271,0.0728501,0.0629334,0.054273,0.046751,0.0402224,0.0345614,0.0296721,0.0254543,0.0218299,0.0187033,0.0160316,0.0137303,0.0117562,0.0275705,0.0264368,0.0259224,0.0257596,0.0239073,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00928,1.00971,1.01015,1.01059,1.01104,1.01149,1.01194,1.01238,1.01283,1.01326,1.01369,1.01411,1.01452,1.01491,1.01529,1.01564,1.01597,1.01628,1.01656,1.01681,1.01702,1.01719,1.01732,1.01741,1.01745,1.01744,1.01737,1.01725,1.01706,1.0168,1.01647,1.01606,1.01557,1.01499,1.01431,1.01354,1.01266,1.01167,1.01056,1.00931,1.00793,1.00641,1.00473,1.00288,1.00086,0.998649,0.99624,0.99362,0.990776,0.987695,0.984364,0.980769,0.976896,0.972732,0.968262,0.963474,0.958354,0.952891,0.947074,0.940893,0.93434,0.927408,0.920094,0.912396,0.904315,0.895857,0.88703,0.877846,0.868321,0.858476,0.848335,0.837927,0.827286,0.81645,0.805459,0.794359,0.783195,0.772019,0.76088,0.749831,0.738922,0.728203,0.717723,0.707526,0.697654,0.688144,0.679028,0.670333,0.66208,0.654285,0.646958,0.640102,0.633716,0.627796,0.62233,0.617304,0.612702,0.608504,0.604686,0.601226,0.598099,0.59528,0.592744,0.590465,0.588419,0.586581,0.584928,0.583438,0.582089,0.58086,0.579731,0.578682,0.577695,0.576751,0.57583,0.574915,0.573986,0.573023,0.572004,0.570906,0.569706,0.568374,0.566882,0.565195,0.563274,0.561078,0.558558,0.555659,0.552319,0.548469,0.544033,0.538922,0.533044,0.526294,0.51856,0.509723,0.499661,0.48825,0.475369,0.460908,0.44478,0.426923,0.40732,0.386015,0.363116,0.338825,0.313431,0.287323,0.260966,0.23489,0.209641,0.185726,0.163556,0.143393,0.125324,0.109278,0.0950791,0.0825261,0.0714447,0.0617085,0.0532156,0.0458389,0.0394349,0.0338876,0.0290936,0.0249619,0.0214057,0.0183474,0.0157232,0.0134734,0.0115377,0.0260028,0.0244529,0.0233201,0.0236687,0.0210071,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00976,1.01024,1.01073,1.01122,1.01172,1.01222,1.01273,1.01323,1.01374,1.01424,1.01474,1.01523,1.01571,1.01618,1.01663,1.01707,1.01748,1.01787,1.01823,1.01856,1.01886,1.01912,1.01934,1.01951,1.01964,1.01972,1.01973,1.01969,1.01958,1.01941,1.01916,1.01883,1.01841,1.01791,1.01731,1.01661,1.0158,1.01488,1.01383,1.01265,1.01134,1.00987,1.00825,1.00646,1.00449,1.00234,0.999985,0.997418,0.994626,0.991596,0.988316,0.984771,0.980947,0.976832,0.972412,0.967672,0.962602,0.957188,0.951419,0.945287,0.938782,0.931899,0.924633,0.916984,0.908952,0.900542,0.891763,0.882627,0.873149,0.863351,0.853256,0.842894,0.832298,0.821506,0.810558,0.799499,0.788377,0.77724,0.766139,0.755126,0.744252,0.733567,0.723118,0.712951,0.703108,0.693624,0.684533,0.675861,0.667629,0.659854,0.652544,0.645704,0.639333,0.633425,0.627971,0.622955,0.618361,0.614169,0.610356,0.6069,0.603775,0.600957,0.59842,0.596138,0.594087,0.592242,0.590581,0.58908,0.587717,0.586471,0.585322,0.58425,0.583235,0.582257,0.581298,0.580338,0.579356,0.578331,0.57724,0.576059,0.574762,0.573319,0.571696,0.569859,0.567765,0.565369,0.562619,0.559455,0.555811,0.551615,0.546783,0.541224,0.534839,0.527518,0.519146,0.509601,0.498759,0.486497,0.4727,0.457268,0.440123,0.421229,0.400596,0.378299,0.354495,0.329428,0.303438,0.276954,0.25048,0.224557,0.199723,0.176444,0.155066,0.135767,0.118554,0.103298,0.0898006,0.0778687,0.0673516,0.058139,0.0501194,0.0431578,0.0371142,0.0318861,0.0273711,0.0234856,0.0201352,0.0172656,0.0147913,0.0126861,0.0261321,0.025004,0.0239427,0.0224285,0.0203055,0.0123128,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01022,1.01073,1.01127,1.01181,1.01236,1.01291,1.01348,1.01404,1.01461,1.01518,1.01575,1.01631,1.01686,1.01741,1.01794,1.01846,1.01895,1.01943,1.01988,1.0203,1.02068,1.02104,1.02135,1.02161,1.02183,1.022,1.02211,1.02216,1.02214,1.02206,1.02189,1.02165,1.02132,1.0209,1.02038,1.01976,1.01903,1.01818,1.01721,1.0161,1.01485,1.01345,1.0119,1.01017,1.00827,1.00617,1.00388,1.00137,0.99863,0.995655,0.992428,0.988936,0.985165,0.981101,0.976732,0.972043,0.967022,0.961658,0.955939,0.949856,0.9434,0.936566,0.929349,0.921748,0.913765,0.905403,0.896671,0.887582,0.878151,0.868399,0.858349,0.848032,0.83748,0.82673,0.815824,0.804806,0.793723,0.782624,0.77156,0.760582,0.749742,0.739089,0.72867,0.718532,0.708716,0.699257,0.69019,0.681539,0.673328,0.665571,0.658277,0.651452,0.645095,0.639199,0.633754,0.628747,0.62416,0.619973,0.616164,0.61271,0.609586,0.606766,0.604225,0.601939,0.59988,0.598027,0.596353,0.594837,0.593456,0.592189,0.591014,0.589912,0.588861,0.587841,0.586833,0.585816,0.584768,0.583666,0.582485,0.581201,0.579783,0.5782,0.576416,0.574392,0.572083,0.569438,0.566402,0.562911,0.558893,0.55427,0.548952,0.542843,0.535837,0.527821,0.518674,0.508274,0.496496,0.48322,0.46834,0.451768,0.433449,0.413373,0.391588,0.368213,0.343458,0.317621,0.291098,0.264362,0.237946,0.212394,0.188212,0.165806,0.145429,0.127166,0.110938,0.0965702,0.083859,0.072633,0.0627635,0.0541468,0.046661,0.0401603,0.0345239,0.0296517,0.0254508,0.0218368,0.01872,0.0160521,0.0137608,0.0117916,0.0237639,0.0227478,0.0230937,0.022206,0.0237685,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01064,1.0112,1.01177,1.01236,1.01296,1.01357,1.01419,1.01481,1.01544,1.01608,1.01671,1.01735,1.01798,1.0186,1.01921,1.01981,1.02039,1.02095,1.02149,1.02201,1.02249,1.02293,1.02334,1.0237,1.02402,1.02428,1.02449,1.02464,1.02472,1.02473,1.02466,1.02451,1.02428,1.02395,1.02352,1.02298,1.02234,1.02157,1.02067,1.01965,1.01847,1.01715,1.01567,1.01401,1.01217,1.01014,1.00791,1.00546,1.00279,0.999869,0.9967,0.993264,0.989548,0.985539,0.981223,0.976587,0.971618,0.966305,0.960637,0.954604,0.948199,0.941414,0.934246,0.926694,0.918759,0.910445,0.901761,0.892719,0.883334,0.873627,0.863622,0.853349,0.84284,0.832133,0.821268,0.81029,0.799245,0.788183,0.777155,0.766212,0.755404,0.744783,0.734394,0.724284,0.714494,0.705061,0.696017,0.687388,0.679197,0.671458,0.664182,0.657373,0.65103,0.645147,0.639714,0.634717,0.630139,0.625961,0.622159,0.618711,0.615592,0.612777,0.61024,0.607956,0.6059,0.604047,0.602374,0.600858,0.599475,0.598206,0.597028,0.595921,0.594865,0.59384,0.592824,0.591798,0.590739,0.589624,0.588429,0.587128,0.58569,0.584085,0.582276,0.580222,0.57788,0.575197,0.572118,0.568578,0.564505,0.559819,0.554432,0.548245,0.541153,0.533041,0.52379,0.513274,0.501371,0.48796,0.472934,0.456208,0.437725,0.417477,0.395513,0.371953,0.347007,0.320974,0.29425,0.267309,0.240684,0.21492,0.190525,0.167907,0.147325,0.128865,0.112456,0.0979232,0.0850621,0.0736985,0.0637032,0.0549715,0.0473825,0.0407907,0.035073,0.0301312,0.0258669,0.0221996,0.0190359,0.0163291,0.0139992,0.0119984,0.0227934,0.0219563,0.021616,0.0222789,0.0196939,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01103,1.01163,1.01224,1.01288,1.01352,1.01419,1.01486,1.01554,1.01624,1.01694,1.01764,1.01834,1.01905,1.01975,1.02044,1.02112,1.02179,1.02245,1.02308,1.02368,1.02426,1.02481,1.02531,1.02578,1.0262,1.02656,1.02688,1.02713,1.02731,1.02742,1.02746,1.02741,1.02727,1.02704,1.02671,1.02627,1.02571,1.02503,1.02423,1.02329,1.0222,1.02095,1.01955,1.01797,1.0162,1.01424,1.01208,1.0097,1.00709,1.00423,1.00113,0.997751,0.994093,0.990141,0.985881,0.9813,0.976386,0.971126,0.96551,0.959529,0.953175,0.94644,0.939322,0.931819,0.923933,0.915667,0.90703,0.898034,0.888695,0.879033,0.869073,0.858843,0.848376,0.837709,0.826884,0.815945,0.804938,0.793912,0.782919,0.772008,0.761232,0.750641,0.740281,0.730198,0.720433,0.711023,0.702001,0.693393,0.68522,0.677499,0.670239,0.663444,0.657113,0.651242,0.645819,0.640832,0.636262,0.63209,0.628294,0.62485,0.621734,0.61892,0.616384,0.614099,0.612041,0.610185,0.608508,0.606985,0.605595,0.604316,0.603126,0.602005,0.600932,0.599887,0.598848,0.597795,0.596704,0.595552,0.594315,0.592964,0.59147,0.589798,0.587913,0.585772,0.583329,0.580531,0.577319,0.573628,0.569384,0.564503,0.558895,0.552459,0.545089,0.536667,0.527072,0.516179,0.503865,0.490012,0.474515,0.457296,0.438306,0.417547,0.395083,0.37105,0.345675,0.319277,0.292268,0.265137,0.238423,0.212669,0.188371,0.165914,0.145529,0.127276,0.11106,0.0966968,0.0839832,0.0727528,0.0628803,0.0542616,0.0467724,0.0402664,0.0346245,0.029747,0.0255408,0.0219213,0.0187994,0.0161268,0.0138324,0.0118591,0.0213351,0.0204918,0.0205111,0.0199591,0.0212863,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01139,1.01203,1.01269,1.01336,1.01406,1.01477,1.0155,1.01624,1.01699,1.01775,1.01853,1.0193,1.02008,1.02086,1.02163,1.0224,1.02316,1.0239,1.02463,1.02533,1.026,1.02665,1.02726,1.02783,1.02836,1.02883,1.02925,1.02961,1.0299,1.03012,1.03027,1.03033,1.0303,1.03017,1.02994,1.0296,1.02915,1.02857,1.02786,1.02701,1.02601,1.02485,1.02353,1.02203,1.02035,1.01847,1.01638,1.01407,1.01153,1.00874,1.0057,1.00239,0.998797,0.994905,0.990705,0.986181,0.981324,0.976119,0.970558,0.96463,0.958328,0.951645,0.944577,0.937124,0.929286,0.921068,0.912478,0.903529,0.894235,0.884617,0.8747,0.864513,0.854087,0.843461,0.832675,0.821772,0.810801,0.79981,0.78885,0.777972,0.767226,0.756662,0.746329,0.736272,0.72653,0.717142,0.70814,0.699551,0.691396,0.68369,0.676443,0.669661,0.663341,0.657479,0.652064,0.647082,0.642517,0.638348,0.634554,0.63111,0.627992,0.625175,0.622633,0.620341,0.618273,0.616404,0.614712,0.613171,0.611759,0.610454,0.609233,0.608076,0.606962,0.605867,0.604771,0.603651,0.602484,0.601243,0.599902,0.598431,0.596798,0.594966,0.592895,0.590541,0.587853,0.584774,0.581239,0.577179,0.572514,0.567155,0.561007,0.553963,0.54591,0.536729,0.526295,0.514483,0.501174,0.486254,0.469634,0.451251,0.431084,0.409169,0.385609,0.360592,0.334398,0.307398,0.28005,0.252877,0.226425,0.201222,0.177708,0.156192,0.136809,0.119533,0.104212,0.0906433,0.078637,0.068051,0.0587766,0.0507004,0.0436842,0.0375896,0.0323146,0.0277571,0.0238337,0.0204494,0.0175484,0.0150481,0.0129164,0.0210892,0.0203886,0.0196003,0.0189838,0.0165172,0.0137883,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01173,1.01241,1.0131,1.01382,1.01456,1.01532,1.0161,1.0169,1.01771,1.01853,1.01937,1.02022,1.02107,1.02193,1.02278,1.02363,1.02448,1.02532,1.02614,1.02694,1.02771,1.02846,1.02918,1.02986,1.03049,1.03108,1.03161,1.03209,1.03249,1.03283,1.03309,1.03326,1.03334,1.03333,1.03321,1.03298,1.03264,1.03216,1.03156,1.03081,1.0299,1.02884,1.02762,1.02621,1.02461,1.02281,1.0208,1.01857,1.01611,1.0134,1.01043,1.00719,1.00366,0.999831,0.995693,0.991231,0.986433,0.981287,0.975782,0.969909,0.963661,0.957031,0.950015,0.942612,0.934824,0.926654,0.918112,0.909209,0.899961,0.890387,0.880513,0.870367,0.859983,0.849396,0.838648,0.827782,0.816846,0.805889,0.794961,0.784113,0.773397,0.762861,0.752554,0.742521,0.732802,0.723435,0.714453,0.705882,0.697743,0.690052,0.682819,0.676048,0.669739,0.663887,0.65848,0.653505,0.648944,0.644779,0.640987,0.637544,0.634426,0.631608,0.629062,0.626765,0.62469,0.622813,0.621109,0.619555,0.618127,0.616803,0.61556,0.614376,0.61323,0.612099,0.610961,0.609791,0.608566,0.607259,0.605841,0.604281,0.602545,0.600595,0.598388,0.595877,0.593008,0.589723,0.585953,0.581624,0.576654,0.570949,0.564411,0.55693,0.548389,0.538668,0.52764,0.515181,0.501173,0.485511,0.468115,0.448933,0.427965,0.405271,0.38098,0.355315,0.328585,0.301198,0.273633,0.246431,0.220136,0.195255,0.17219,0.151196,0.132354,0.115592,0.100731,0.0875676,0.0759257,0.0656757,0.0567108,0.0489123,0.0421343,0.0362516,0.0311626,0.0267675,0.0229848,0.0197219,0.0169277,0.0145198,0.0124609,0.0193259,0.0189999,0.0186224,0.0187482,0.0182028,0.0166536,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01205,1.01276,1.01349,1.01425,1.01503,1.01584,1.01667,1.01752,1.01839,1.01928,1.02018,1.0211,1.02202,1.02295,1.02389,1.02483,1.02576,1.02669,1.02761,1.02851,1.02939,1.03024,1.03107,1.03186,1.03261,1.03331,1.03396,1.03455,1.03508,1.03553,1.03591,1.03621,1.03641,1.03651,1.03651,1.0364,1.03617,1.03581,1.03531,1.03467,1.03388,1.03292,1.03179,1.03048,1.02898,1.02727,1.02535,1.02321,1.02082,1.01819,1.0153,1.01213,1.00867,1.00491,1.00084,0.996447,0.991711,0.986626,0.981181,0.975366,0.969173,0.962598,0.955635,0.948284,0.940546,0.932426,0.923932,0.915075,0.905872,0.896343,0.886512,0.876408,0.866063,0.855515,0.844804,0.833975,0.823073,0.812149,0.801252,0.790434,0.779746,0.769237,0.758954,0.748944,0.739247,0.729901,0.720937,0.712383,0.704259,0.696583,0.689362,0.682603,0.676304,0.670459,0.665059,0.66009,0.655534,0.651372,0.647582,0.64414,0.64102,0.638199,0.635649,0.633346,0.631264,0.629377,0.627661,0.626092,0.624646,0.623301,0.622033,0.62082,0.61964,0.61847,0.617286,0.616064,0.614777,0.613398,0.611898,0.610243,0.608397,0.606321,0.603968,0.60129,0.59823,0.594726,0.590706,0.586093,0.5808,0.574731,0.567783,0.559844,0.550793,0.540508,0.528862,0.515734,0.501008,0.484586,0.466399,0.446413,0.424645,0.40118,0.376179,0.349897,0.322675,0.294951,0.267229,0.240056,0.213971,0.189453,0.166862,0.146397,0.128088,0.111819,0.0973974,0.0846222,0.0733327,0.0634077,0.0547415,0.0472074,0.0406587,0.0349777,0.030065,0.025827,0.0221783,0.0190314,0.0163355,0.01402,0.0120297,0.0177881,0.0171715,0.0176752,0.0172102,0.0192742,0.000950725,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01235,1.01309,1.01386,1.01465,1.01548,1.01633,1.01721,1.01811,1.01904,1.01999,1.02095,1.02194,1.02293,1.02394,1.02496,1.02598,1.02701,1.02803,1.02904,1.03004,1.03102,1.03199,1.03292,1.03382,1.03469,1.03551,1.03628,1.037,1.03765,1.03823,1.03873,1.03915,1.03948,1.03971,1.03984,1.03985,1.03974,1.0395,1.03912,1.0386,1.03792,1.03707,1.03605,1.03484,1.03344,1.03183,1.03001,1.02796,1.02566,1.02312,1.02031,1.01722,1.01384,1.01015,1.00616,1.00183,0.997159,0.992138,0.986755,0.981,0.974866,0.968347,0.96144,0.954142,0.946456,0.938386,0.92994,0.921131,0.911974,0.902489,0.892701,0.882638,0.872333,0.861824,0.85115,0.840355,0.829488,0.818596,0.80773,0.796941,0.786279,0.775796,0.765538,0.75555,0.745875,0.736548,0.727602,0.719064,0.710956,0.703293,0.696085,0.689336,0.683047,0.677211,0.671818,0.666855,0.662305,0.658147,0.654359,0.650918,0.6478,0.644977,0.642426,0.64012,0.638033,0.63614,0.634416,0.632837,0.63138,0.630021,0.628737,0.627505,0.626303,0.625106,0.623891,0.622634,0.621306,0.61988,0.618325,0.616607,0.614688,0.612528,0.61008,0.607293,0.604108,0.60046,0.596279,0.591482,0.585981,0.579678,0.572468,0.564236,0.554861,0.544219,0.532184,0.518635,0.503459,0.486562,0.467882,0.447391,0.425121,0.40117,0.375713,0.349022,0.321458,0.29347,0.265574,0.238319,0.212242,0.187804,0.165345,0.145039,0.12689,0.110768,0.0964732,0.0838098,0.0726207,0.0627898,0.0542113,0.0467512,0.0402658,0.0346423,0.0297798,0.0255852,0.0219708,0.0188605,0.0161901,0.0138991,0.0119278,0.0165393,0.0158353,0.0157199,0.0159246,0.0154392,0.0237611,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01262,1.01339,1.0142,1.01503,1.0159,1.01679,1.01772,1.01867,1.01965,1.02066,1.02169,1.02274,1.02381,1.02489,1.02599,1.02709,1.02821,1.02932,1.03043,1.03153,1.03262,1.03369,1.03474,1.03576,1.03674,1.03768,1.03858,1.03942,1.0402,1.04091,1.04154,1.0421,1.04256,1.04292,1.04318,1.04332,1.04334,1.04323,1.04298,1.04258,1.04202,1.04129,1.04039,1.03929,1.038,1.0365,1.03478,1.03282,1.03063,1.02817,1.02545,1.02245,1.01915,1.01555,1.01162,1.00737,1.00277,0.997818,0.992501,0.98681,0.980737,0.974277,0.967427,0.960184,0.952551,0.944533,0.936137,0.927376,0.918265,0.908824,0.899079,0.889057,0.878792,0.86832,0.857683,0.846923,0.836089,0.825228,0.814391,0.80363,0.792995,0.782536,0.772301,0.762335,0.752679,0.74337,0.734441,0.725919,0.717824,0.710173,0.702976,0.696237,0.689956,0.684127,0.67874,0.673782,0.669234,0.665078,0.661291,0.657849,0.654728,0.651903,0.649346,0.647032,0.644936,0.643032,0.641295,0.6397,0.638224,0.636842,0.635531,0.634269,0.63303,0.631792,0.630529,0.629215,0.627822,0.626321,0.624679,0.622861,0.620828,0.618536,0.615937,0.612975,0.609592,0.605718,0.601278,0.596189,0.590357,0.583683,0.576055,0.567359,0.55747,0.546263,0.533613,0.519401,0.503519,0.485883,0.46644,0.445182,0.422159,0.397496,0.371398,0.344165,0.316187,0.28794,0.259954,0.23278,0.206941,0.182866,0.16085,0.141016,0.123323,0.107615,0.0936852,0.0813477,0.0704568,0.0609033,0.052576,0.0453346,0.0390399,0.0335858,0.0288708,0.0248058,0.0213039,0.0182909,0.015702,0.0134886,0.0162875,0.0154827,0.0147405,0.0143439,0.0139769,0.0152941,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01288,1.01368,1.01452,1.01539,1.01629,1.01723,1.0182,1.0192,1.02024,1.0213,1.02239,1.0235,1.02464,1.0258,1.02698,1.02817,1.02937,1.03057,1.03178,1.03298,1.03417,1.03536,1.03652,1.03765,1.03876,1.03982,1.04085,1.04182,1.04273,1.04357,1.04434,1.04503,1.04563,1.04613,1.04653,1.04681,1.04697,1.04699,1.04687,1.0466,1.04617,1.04557,1.04479,1.04382,1.04265,1.04126,1.03965,1.0378,1.03571,1.03335,1.03073,1.02782,1.02461,1.02109,1.01725,1.01307,1.00855,1.00367,0.998421,0.992796,0.986788,0.98039,0.973599,0.966414,0.958836,0.950871,0.942526,0.933813,0.924749,0.915354,0.905652,0.895672,0.885447,0.875013,0.864411,0.853686,0.842884,0.832054,0.821246,0.810512,0.799903,0.789468,0.779255,0.76931,0.759673,0.750382,0.741469,0.732961,0.72488,0.717241,0.710054,0.703325,0.697052,0.691231,0.68585,0.680896,0.676352,0.672199,0.668414,0.664973,0.661851,0.659024,0.656464,0.654146,0.652045,0.650133,0.648387,0.646782,0.645293,0.643896,0.642567,0.641284,0.640021,0.638755,0.637459,0.636107,0.63467,0.633119,0.631419,0.629535,0.627425,0.625045,0.622345,0.619269,0.615755,0.611732,0.607124,0.601844,0.595798,0.588883,0.580987,0.571992,0.561775,0.550208,0.537167,0.522535,0.506207,0.488103,0.468178,0.446433,0.422931,0.397806,0.371282,0.343674,0.315385,0.286905,0.258768,0.231527,0.205695,0.181688,0.159777,0.140063,0.122488,0.106883,0.0930435,0.0807831,0.0699642,0.0604795,0.0522129,0.045024,0.0387739,0.0333598,0.0286798,0.0246466,0.0211675,0.0181804,0.0156076,0.0134135,0.0149135,0.0144363,0.0137285,0.0128796,0.0133576,0.0121143,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01312,1.01395,1.01482,1.01572,1.01666,1.01764,1.01865,1.0197,1.02079,1.02191,1.02306,1.02424,1.02544,1.02668,1.02793,1.0292,1.03049,1.03178,1.03308,1.03439,1.03569,1.03698,1.03825,1.03951,1.04074,1.04193,1.04308,1.04418,1.04523,1.04621,1.04713,1.04796,1.0487,1.04935,1.04988,1.05031,1.05061,1.05078,1.0508,1.05067,1.05038,1.04991,1.04926,1.04842,1.04737,1.04611,1.04461,1.04288,1.0409,1.03865,1.03613,1.03331,1.0302,1.02677,1.02302,1.01893,1.01449,1.00968,1.00451,0.998957,0.993016,0.986683,0.979955,0.972829,0.965308,0.957397,0.949105,0.940443,0.931427,0.922077,0.912419,0.902481,0.892295,0.881898,0.871333,0.860641,0.849871,0.839071,0.828291,0.817584,0.806999,0.796587,0.786396,0.77647,0.766851,0.757576,0.748678,0.740183,0.732114,0.724485,0.717308,0.710587,0.704321,0.698504,0.693128,0.688177,0.683635,0.679482,0.675696,0.672252,0.669127,0.666295,0.663728,0.661401,0.659289,0.657364,0.655603,0.653978,0.652467,0.651045,0.649687,0.648369,0.647066,0.645752,0.644402,0.642988,0.64148,0.639845,0.63805,0.636055,0.633818,0.631293,0.628427,0.625161,0.62143,0.617161,0.612273,0.606676,0.600273,0.592958,0.584615,0.575125,0.564361,0.552197,0.538511,0.523187,0.506128,0.487266,0.466567,0.444052,0.419807,0.393992,0.366861,0.338758,0.310116,0.28144,0.25328,0.22618,0.200633,0.177017,0.155554,0.136299,0.119155,0.103936,0.090435,0.0784807,0.0679458,0.0587234,0.0506913,0.0437053,0.0376345,0.0323786,0.0278361,0.0239235,0.0205468,0.0176521,0.0151578,0.0130288,0.0134329,0.0131658,0.0131364,0.0127378,0.0137516,0.0171036,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01335,1.0142,1.0151,1.01603,1.01701,1.01802,1.01908,1.02018,1.02131,1.02248,1.02369,1.02493,1.02621,1.02751,1.02884,1.03019,1.03157,1.03295,1.03435,1.03576,1.03716,1.03856,1.03995,1.04133,1.04268,1.044,1.04528,1.04652,1.04771,1.04883,1.04989,1.05086,1.05175,1.05255,1.05324,1.05381,1.05426,1.05458,1.05475,1.05477,1.05462,1.0543,1.05379,1.05308,1.05217,1.05104,1.04967,1.04806,1.0462,1.04406,1.04165,1.03894,1.03593,1.0326,1.02894,1.02494,1.02059,1.01587,1.01077,1.00529,0.999424,0.99316,0.986496,0.979433,0.971972,0.964118,0.95588,0.94727,0.938303,0.929001,0.919387,0.909491,0.899345,0.888987,0.878457,0.867799,0.857061,0.84629,0.835539,0.824858,0.814297,0.803908,0.793737,0.78383,0.774229,0.76497,0.756087,0.747605,0.739548,0.73193,0.724763,0.71805,0.711791,0.705981,0.700609,0.695663,0.691124,0.686974,0.683189,0.679746,0.676621,0.673787,0.671218,0.668888,0.666771,0.664841,0.663072,0.661439,0.659918,0.658483,0.657111,0.655776,0.654453,0.653118,0.651742,0.650297,0.648755,0.647081,0.64524,0.643193,0.640898,0.638305,0.635362,0.632008,0.628178,0.623796,0.618782,0.613043,0.606481,0.598987,0.590448,0.58074,0.569737,0.557314,0.543346,0.527722,0.510346,0.49115,0.470108,0.447245,0.422652,0.396498,0.369044,0.340641,0.31173,0.28282,0.254464,0.227206,0.201533,0.177819,0.156277,0.136954,0.119748,0.104468,0.0909112,0.0789048,0.0683229,0.0590582,0.0509875,0.0439675,0.037866,0.0325825,0.0280167,0.0240818,0.0206865,0.017775,0.0152649,0.0131243,0.0122423,0.0120589,0.0119995,0.011874,0.0125335,0.0125372,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01356,1.01444,1.01536,1.01633,1.01734,1.01839,1.01949,1.02063,1.02181,1.02303,1.0243,1.0256,1.02694,1.02831,1.02972,1.03115,1.03261,1.03408,1.03558,1.03708,1.03859,1.0401,1.04161,1.0431,1.04458,1.04603,1.04745,1.04882,1.05015,1.05142,1.05262,1.05375,1.05479,1.05574,1.05659,1.05732,1.05792,1.0584,1.05872,1.0589,1.0589,1.05873,1.05837,1.05781,1.05704,1.05604,1.05481,1.05333,1.05159,1.04958,1.04729,1.0447,1.04179,1.03857,1.03501,1.0311,1.02684,1.02221,1.0172,1.0118,1.00601,0.999813,0.993219,0.986221,0.978823,0.971028,0.962846,0.954289,0.945373,0.936118,0.92655,0.916697,0.906591,0.896271,0.885776,0.875152,0.864445,0.853703,0.842979,0.832323,0.821785,0.811417,0.801266,0.791376,0.781791,0.772546,0.763676,0.755206,0.747158,0.739549,0.732388,0.725681,0.719427,0.71362,0.70825,0.703304,0.698764,0.694611,0.690823,0.687374,0.684242,0.681398,0.678818,0.676474,0.674341,0.672391,0.670599,0.66894,0.667388,0.665917,0.664502,0.663119,0.66174,0.660339,0.658888,0.657357,0.655715,0.653926,0.651953,0.649754,0.647284,0.644492,0.64132,0.637706,0.633578,0.628859,0.623461,0.617291,0.610243,0.602207,0.593064,0.582689,0.570954,0.557735,0.542912,0.526377,0.508048,0.487873,0.465846,0.442018,0.416516,0.389544,0.361403,0.332483,0.303258,0.274259,0.246043,0.219138,0.193994,0.170925,0.150078,0.131437,0.114857,0.100135,0.0870739,0.0755206,0.0653587,0.0564791,0.0487503,0.042025,0.0361851,0.0311337,0.0267703,0.0230121,0.0197697,0.0169906,0.0145987,0.0125438,0.0107172,0.0106873,0.0110193,0.0120617,0.011596,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01375,1.01466,1.01561,1.0166,1.01764,1.01873,1.01987,1.02105,1.02228,1.02356,1.02487,1.02624,1.02764,1.02908,1.03056,1.03207,1.03361,1.03517,1.03676,1.03836,1.03998,1.0416,1.04322,1.04484,1.04644,1.04802,1.04957,1.05109,1.05256,1.05398,1.05533,1.05661,1.05781,1.05892,1.05992,1.06082,1.06159,1.06222,1.06271,1.06304,1.06321,1.0632,1.06299,1.06259,1.06196,1.06112,1.06003,1.05869,1.05709,1.05521,1.05304,1.05057,1.04778,1.04467,1.04122,1.03742,1.03325,1.02871,1.02379,1.01848,1.01276,1.00665,1.00013,0.993199,0.985866,0.978133,0.97001,0.961508,0.952645,0.94344,0.933918,0.924109,0.914044,0.903762,0.893304,0.882713,0.872038,0.861325,0.850628,0.839996,0.829482,0.819135,0.809002,0.79913,0.789561,0.78033,0.771472,0.763014,0.754976,0.747375,0.740222,0.733521,0.727271,0.721468,0.716101,0.711157,0.706617,0.702464,0.698673,0.695222,0.692085,0.689236,0.686648,0.684296,0.682152,0.680189,0.678382,0.676705,0.675132,0.673637,0.672194,0.670778,0.669362,0.667918,0.666417,0.664829,0.66312,0.661255,0.659195,0.656896,0.654312,0.651389,0.648069,0.644285,0.639965,0.635029,0.629386,0.62294,0.615584,0.607204,0.597679,0.586884,0.574692,0.560976,0.54562,0.528521,0.509603,0.488823,0.466187,0.441762,0.415692,0.3882,0.359609,0.330326,0.300843,0.271699,0.243451,0.216619,0.191628,0.168764,0.148145,0.129726,0.113347,0.0987997,0.085894,0.0744832,0.0644549,0.0556971,0.0480753,0.0414425,0.0356852,0.0307046,0.0264051,0.0226992,0.0195029,0.0167626,0.0144085,0.0123841,0.00942763,0.00954613,0.00995402,0.0107575,0.0124059,0.000443226,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01393,1.01486,1.01584,1.01686,1.01793,1.01906,1.02023,1.02145,1.02273,1.02405,1.02542,1.02684,1.0283,1.02981,1.03136,1.03295,1.03457,1.03622,1.03791,1.03961,1.04133,1.04306,1.0448,1.04653,1.04826,1.04997,1.05166,1.05332,1.05493,1.0565,1.05801,1.05945,1.06081,1.06208,1.06325,1.06431,1.06524,1.06605,1.06671,1.06721,1.06754,1.0677,1.06766,1.06741,1.06695,1.06626,1.06532,1.06413,1.06267,1.06093,1.0589,1.05656,1.0539,1.0509,1.04757,1.04387,1.03981,1.03537,1.03054,1.02532,1.0197,1.01366,1.00722,1.00036,0.993098,0.98543,0.977368,0.968925,0.960116,0.950962,0.941488,0.931723,0.921701,0.911458,0.901036,0.890479,0.879834,0.869151,0.85848,0.847873,0.837381,0.827053,0.816939,0.807084,0.797529,0.788311,0.779464,0.771015,0.762986,0.755392,0.748245,0.741548,0.735302,0.7295,0.724134,0.719189,0.714648,0.71049,0.706695,0.703237,0.700092,0.697233,0.694633,0.692266,0.690104,0.688122,0.686291,0.684586,0.682981,0.681449,0.679964,0.678498,0.677025,0.675515,0.673938,0.672262,0.670453,0.668473,0.66628,0.66383,0.661072,0.657951,0.654404,0.650362,0.64575,0.640482,0.634466,0.627599,0.619773,0.61087,0.600767,0.589336,0.57645,0.561986,0.545832,0.527893,0.508104,0.486439,0.462926,0.437657,0.410805,0.382631,0.353487,0.323812,0.294122,0.264966,0.236896,0.210407,0.185885,0.163559,0.143493,0.125596,0.109687,0.0955544,0.0830232,0.0719583,0.0622513,0.0537849,0.0464145,0.0400022,0.0344427,0.0296344,0.0254856,0.0219091,0.0188312,0.0161844,0.0139198,0.00863967,0.00850591,0.00842568,0.00842191,0.0089171,0.00890162,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0141,1.01505,1.01605,1.0171,1.01821,1.01936,1.02057,1.02183,1.02315,1.02452,1.02594,1.02742,1.02894,1.03051,1.03213,1.0338,1.0355,1.03724,1.03901,1.04081,1.04263,1.04447,1.04633,1.04818,1.05004,1.05188,1.05371,1.05551,1.05727,1.05899,1.06065,1.06225,1.06378,1.06521,1.06655,1.06778,1.0689,1.06987,1.07071,1.07139,1.07189,1.07222,1.07235,1.07228,1.07198,1.07145,1.07068,1.06965,1.06834,1.06675,1.06486,1.06265,1.06013,1.05726,1.05405,1.05047,1.04652,1.04219,1.03746,1.03234,1.0268,1.02085,1.01449,1.00771,1.00052,0.992923,0.984926,0.976542,0.96779,0.95869,0.949265,0.939547,0.929568,0.919365,0.90898,0.898458,0.887845,0.87719,0.866546,0.855963,0.845492,0.835185,0.825089,0.815249,0.805708,0.796504,0.787668,0.779228,0.771207,0.76362,0.756478,0.749785,0.743542,0.737742,0.732377,0.727431,0.722888,0.718728,0.714928,0.711465,0.708312,0.705444,0.702834,0.700454,0.698277,0.696276,0.694425,0.692696,0.691063,0.689499,0.687976,0.686468,0.684945,0.683378,0.681735,0.679984,0.678089,0.676009,0.673703,0.671123,0.668216,0.664925,0.661185,0.656925,0.652065,0.646517,0.640186,0.632966,0.624747,0.615407,0.604822,0.592864,0.579405,0.564325,0.547516,0.52889,0.508392,0.48601,0.461787,0.435839,0.408359,0.379634,0.350041,0.320042,0.290163,0.260964,0.232986,0.206704,0.18247,0.160477,0.140747,0.123164,0.107532,0.0936459,0.081336,0.0704782,0.0609639,0.052669,0.045448,0.0391657,0.0337231,0.0290164,0.0249578,0.0214546,0.0184473,0.015855,0.0136397,0.00725292,0.00753314,0.00775755,0.00799199,0.00804948,0.00822942,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01426,1.01523,1.01625,1.01733,1.01846,1.01965,1.02089,1.02219,1.02355,1.02497,1.02644,1.02797,1.02955,1.03118,1.03287,1.03461,1.03639,1.03821,1.04008,1.04197,1.0439,1.04585,1.04781,1.04979,1.05177,1.05375,1.05571,1.05765,1.05957,1.06144,1.06326,1.06502,1.06672,1.06832,1.06984,1.07125,1.07254,1.07369,1.07471,1.07557,1.07626,1.07677,1.07708,1.07718,1.07706,1.07671,1.0761,1.07523,1.07409,1.07265,1.07091,1.06886,1.06647,1.06374,1.06066,1.05721,1.05338,1.04916,1.04454,1.03952,1.03408,1.02822,1.02195,1.01525,1.00814,1.00061,0.992682,0.984362,0.97567,0.966625,0.957252,0.947582,0.937647,0.927486,0.917139,0.906651,0.89607,0.885445,0.874827,0.864268,0.85382,0.843532,0.833453,0.823629,0.814102,0.80491,0.796084,0.787654,0.77964,0.772059,0.764922,0.758233,0.751993,0.746194,0.740829,0.735883,0.731338,0.727175,0.72337,0.719901,0.716742,0.713865,0.711244,0.708851,0.70666,0.704642,0.702771,0.701019,0.699359,0.697764,0.696206,0.694656,0.693086,0.691465,0.68976,0.687937,0.685959,0.683786,0.681372,0.678669,0.675623,0.672172,0.668252,0.663786,0.658694,0.652885,0.64626,0.638713,0.630128,0.620384,0.609355,0.596911,0.582927,0.567284,0.549878,0.530628,0.509488,0.486458,0.461596,0.435037,0.406995,0.377776,0.34778,0.317483,0.287425,0.258166,0.23024,0.204103,0.180078,0.158324,0.138834,0.121472,0.106034,0.0923181,0.0801644,0.0694529,0.0600743,0.0518995,0.0447815,0.0385918,0.03323,0.0285937,0.0245967,0.0211464,0.018186,0.015635,0.0134546,0.00605273,0.00635071,0.00681966,0.00707914,0.00768009,0.0087597,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01441,1.0154,1.01644,1.01754,1.0187,1.01992,1.0212,1.02253,1.02393,1.02539,1.02691,1.02849,1.03013,1.03183,1.03358,1.03539,1.03725,1.03915,1.04111,1.0431,1.04512,1.04718,1.04926,1.05136,1.05346,1.05557,1.05767,1.05976,1.06182,1.06385,1.06583,1.06776,1.06962,1.07141,1.0731,1.07469,1.07616,1.0775,1.07871,1.07976,1.08063,1.08133,1.08183,1.08212,1.08218,1.08201,1.08158,1.08089,1.07991,1.07864,1.07706,1.07516,1.07293,1.07034,1.0674,1.06408,1.06038,1.05628,1.05178,1.04686,1.04153,1.03577,1.02959,1.02298,1.01594,1.00849,1.00064,0.992383,0.983753,0.974765,0.965447,0.955826,0.945938,0.935819,0.925511,0.915059,0.90451,0.893915,0.883323,0.872789,0.862362,0.852093,0.842031,0.832222,0.822708,0.813526,0.804711,0.796288,0.788281,0.780705,0.773571,0.766885,0.760645,0.754847,0.74948,0.744531,0.739982,0.735813,0.732002,0.728525,0.725354,0.722465,0.71983,0.71742,0.715209,0.713168,0.71127,0.709487,0.707791,0.706155,0.704549,0.702944,0.701311,0.699618,0.69783,0.695912,0.693825,0.691526,0.68897,0.686103,0.682871,0.679209,0.675047,0.670309,0.664909,0.658753,0.651739,0.643757,0.634689,0.624411,0.612795,0.599713,0.58504,0.568661,0.550478,0.530422,0.508459,0.484608,0.45895,0.431644,0.402933,0.373154,0.342732,0.312168,0.282011,0.252823,0.22512,0.199325,0.175718,0.15441,0.135354,0.118384,0.103294,0.0898889,0.0780211,0.0675771,0.0584422,0.0504836,0.0435519,0.0375288,0.0323153,0.0278072,0.0239213,0.020569,0.0176923,0.0152127,0.0130914,0.00467559,0.00516183,0.0061596,0.0068429,0.00822887,0.0107857,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01455,1.01556,1.01662,1.01774,1.01893,1.02017,1.02148,1.02285,1.02429,1.02579,1.02736,1.02899,1.03068,1.03244,1.03426,1.03613,1.03807,1.04006,1.0421,1.04418,1.04631,1.04847,1.05066,1.05288,1.05511,1.05735,1.05959,1.06182,1.06404,1.06622,1.06837,1.07046,1.0725,1.07446,1.07633,1.0781,1.07977,1.0813,1.0827,1.08394,1.08501,1.0859,1.0866,1.08708,1.08734,1.08735,1.08711,1.0866,1.08581,1.08471,1.0833,1.08157,1.07949,1.07706,1.07426,1.07108,1.06752,1.06355,1.05917,1.05437,1.04914,1.04349,1.03741,1.03089,1.02394,1.01657,1.00879,1.00061,0.992046,0.98312,0.973858,0.96429,0.954449,0.944374,0.934107,0.923691,0.913176,0.902611,0.892047,0.881537,0.871132,0.860883,0.850838,0.841044,0.831543,0.822373,0.813567,0.805153,0.797152,0.789582,0.782453,0.775769,0.769531,0.763734,0.758367,0.753417,0.748865,0.744693,0.740878,0.737395,0.734218,0.73132,0.728675,0.726254,0.724029,0.721972,0.720056,0.718252,0.716532,0.714868,0.71323,0.711589,0.709914,0.708172,0.706329,0.704348,0.702189,0.699808,0.697158,0.694185,0.690831,0.687032,0.682715,0.677802,0.672204,0.665827,0.658567,0.650309,0.640937,0.630324,0.618342,0.604862,0.58976,0.572924,0.55426,0.533702,0.511227,0.48686,0.460695,0.432902,0.40374,0.373559,0.342795,0.311962,0.281613,0.252308,0.224556,0.198767,0.175202,0.153952,0.134954,0.118036,0.102987,0.0896175,0.0777839,0.0673735,0.0582696,0.0503377,0.0434283,0.0374248,0.0322278,0.027736,0.0238634,0.0205219,0.0176555,0.0151866,0.0130705,0.00350645,0.00400443,0.00494438,0.00571334,0.00768432,0.00876751,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01467,1.0157,1.01679,1.01793,1.01914,1.02041,1.02175,1.02316,1.02463,1.02617,1.02778,1.02946,1.03121,1.03302,1.0349,1.03685,1.03886,1.04093,1.04305,1.04523,1.04746,1.04972,1.05203,1.05436,1.05672,1.05909,1.06147,1.06385,1.06621,1.06855,1.07086,1.07313,1.07534,1.07748,1.07953,1.0815,1.08335,1.08508,1.08668,1.08812,1.08939,1.09049,1.09138,1.09206,1.09252,1.09273,1.09269,1.09237,1.09176,1.09085,1.08962,1.08806,1.08615,1.08388,1.08124,1.07822,1.07479,1.07096,1.06671,1.06203,1.05693,1.05138,1.0454,1.03898,1.03213,1.02485,1.01715,1.00904,1.00054,0.991681,0.982479,0.972965,0.963175,0.953146,0.94292,0.932542,0.922061,0.911527,0.900991,0.890505,0.880122,0.869892,0.859864,0.850084,0.840595,0.831436,0.822638,0.81423,0.806235,0.798669,0.791542,0.78486,0.778622,0.772823,0.767453,0.762498,0.757942,0.753763,0.749939,0.746446,0.743257,0.740345,0.737684,0.735243,0.732997,0.730915,0.728969,0.727131,0.725373,0.723664,0.721975,0.720275,0.718532,0.716713,0.714781,0.712699,0.710424,0.70791,0.705108,0.701963,0.698413,0.694391,0.689822,0.684623,0.678704,0.671967,0.664303,0.655597,0.645728,0.634568,0.621989,0.607861,0.592065,0.574492,0.555057,0.533704,0.510424,0.485264,0.458337,0.429841,0.40006,0.369374,0.338242,0.307194,0.276791,0.247586,0.220069,0.194611,0.171432,0.15058,0.131959,0.115377,0.100626,0.0875253,0.0759412,0.0657624,0.0568714,0.0491234,0.0423748,0.0365165,0.0314456,0.0270651,0.023287,0.0200303,0.017232,0.0148291,0.0127624,0.00243918,0.00290212,0.00385328,0.00454977,0.00684736,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01479,1.01584,1.01694,1.01811,1.01934,1.02064,1.022,1.02344,1.02495,1.02653,1.02818,1.02991,1.03171,1.03358,1.03552,1.03754,1.03962,1.04176,1.04397,1.04624,1.04856,1.05093,1.05335,1.0558,1.05828,1.06078,1.0633,1.06582,1.06834,1.07084,1.07332,1.07575,1.07814,1.08046,1.0827,1.08486,1.08691,1.08884,1.09064,1.09229,1.09377,1.09507,1.09617,1.09707,1.09773,1.09815,1.09831,1.09819,1.09778,1.09706,1.09602,1.09464,1.09291,1.09082,1.08834,1.08547,1.0822,1.07851,1.0744,1.06986,1.06488,1.05945,1.05358,1.04727,1.04051,1.03332,1.0257,1.01767,1.00925,1.00046,0.991318,0.981862,0.972124,0.962143,0.951961,0.941623,0.931178,0.920675,0.910168,0.899707,0.889346,0.879136,0.869125,0.85936,0.849884,0.840734,0.831946,0.823545,0.815555,0.807993,0.800869,0.794188,0.787951,0.782151,0.776779,0.771822,0.767261,0.763077,0.759246,0.755745,0.752546,0.749623,0.746949,0.744493,0.742229,0.740127,0.738158,0.736293,0.734504,0.73276,0.731031,0.729285,0.727489,0.72561,0.723609,0.721447,0.719082,0.716466,0.713548,0.71027,0.706569,0.702377,0.697615,0.6922,0.686038,0.679029,0.671061,0.662019,0.651779,0.640212,0.62719,0.612583,0.596274,0.578158,0.558154,0.536216,0.512344,0.486595,0.459099,0.430071,0.39981,0.368712,0.337252,0.30597,0.275429,0.246177,0.21869,0.19332,0.170262,0.14954,0.13104,0.114564,0.099904,0.0868863,0.0753806,0.0652762,0.0564523,0.0487613,0.0420637,0.0362503,0.0312193,0.0268724,0.0231224,0.0198939,0.017117,0.0147355,0.0126825,0.00142492,0.00189595,0.00266518,0.0040109,0.00243862,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01491,1.01596,1.01709,1.01827,1.01953,1.02085,1.02224,1.02371,1.02525,1.02687,1.02856,1.03034,1.03219,1.03411,1.03611,1.03819,1.04034,1.04257,1.04486,1.04721,1.04963,1.0521,1.05463,1.0572,1.0598,1.06243,1.06509,1.06776,1.07042,1.07308,1.07573,1.07833,1.0809,1.08341,1.08584,1.08819,1.09044,1.09258,1.09458,1.09644,1.09814,1.09965,1.10097,1.10208,1.10296,1.10359,1.10396,1.10406,1.10385,1.10334,1.10249,1.10131,1.09977,1.09785,1.09555,1.09285,1.08974,1.08621,1.08224,1.07784,1.07299,1.06769,1.06194,1.05573,1.04908,1.04199,1.03446,1.02652,1.01817,1.00945,1.00037,0.990979,0.981297,0.971366,0.961229,0.950932,0.940524,0.930054,0.919576,0.909142,0.898803,0.888612,0.878619,0.868869,0.859405,0.850266,0.841485,0.833091,0.825106,0.817547,0.810425,0.803745,0.797507,0.791706,0.786331,0.78137,0.776804,0.772613,0.768775,0.765264,0.762054,0.759118,0.756428,0.753956,0.751671,0.749546,0.747551,0.745656,0.743832,0.742049,0.740274,0.738476,0.736621,0.734673,0.732595,0.730345,0.727879,0.725148,0.722098,0.718672,0.714803,0.71042,0.705443,0.699786,0.693353,0.68604,0.677735,0.668319,0.657666,0.645649,0.632135,0.617,0.600126,0.581415,0.560789,0.538214,0.5137,0.487319,0.459217,0.429627,0.398869,0.367355,0.335576,0.304082,0.273437,0.244182,0.216776,0.191547,0.16866,0.148115,0.129777,0.113444,0.0989083,0.0860048,0.0746072,0.0646038,0.0558707,0.0482582,0.0416289,0.0358772,0.0308991,0.0266001,0.0228905,0.0196977,0.0169515,0.0145968,0,0.000339026,0.00087455,0.00164084,0.00257596,0.00333203,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01501,1.01608,1.01722,1.01843,1.0197,1.02105,1.02247,1.02397,1.02554,1.02719,1.02893,1.03074,1.03264,1.03462,1.03668,1.03882,1.04104,1.04334,1.04571,1.04815,1.05066,1.05324,1.05587,1.05855,1.06128,1.06404,1.06683,1.06965,1.07247,1.07529,1.07809,1.08087,1.08362,1.08631,1.08894,1.09149,1.09395,1.09629,1.09851,1.10058,1.10249,1.10423,1.10577,1.10711,1.10821,1.10906,1.10965,1.10996,1.10997,1.10967,1.10904,1.10805,1.10671,1.10498,1.10287,1.10034,1.0974,1.09403,1.09023,1.08597,1.08126,1.07609,1.07047,1.06438,1.05784,1.05085,1.04342,1.03556,1.0273,1.01866,1.00965,1.00032,0.990696,0.980818,0.970729,0.960475,0.950106,0.939671,0.929223,0.918815,0.9085,0.89833,0.888354,0.878618,0.869167,0.860038,0.851266,0.842879,0.834899,0.827343,0.820223,0.813544,0.807305,0.801502,0.796125,0.791159,0.786588,0.782391,0.778545,0.775025,0.771805,0.768857,0.766153,0.763663,0.76136,0.759214,0.757194,0.755271,0.753415,0.751594,0.749777,0.747931,0.746021,0.74401,0.74186,0.739529,0.73697,0.734133,0.730963,0.727401,0.723378,0.718822,0.71365,0.707773,0.701095,0.693508,0.684899,0.675147,0.664125,0.651704,0.637752,0.622146,0.604771,0.58553,0.564355,0.541215,0.516132,0.489189,0.460548,0.430453,0.399242,0.367341,0.335251,0.303529,0.272741,0.243421,0.216015,0.190832,0.168015,0.147545,0.129276,0.113,0.0985136,0.0856555,0.074302,0.0643416,0.0556464,0.0480662,0.0414649,0.0357384,0.0307824,0.0265022,0.0228098,0.0196306,0.0168953,0.0145526,0,0,0,0.000705405,0.00171773,0.00318344,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0151,1.01619,1.01735,1.01857,1.01987,1.02123,1.02268,1.0242,1.02581,1.0275,1.02927,1.03113,1.03307,1.0351,1.03722,1.03942,1.04171,1.04408,1.04653,1.04906,1.05166,1.05433,1.05707,1.05987,1.06271,1.06561,1.06853,1.07149,1.07446,1.07744,1.08042,1.08337,1.0863,1.08918,1.092,1.09475,1.09742,1.09997,1.1024,1.1047,1.10684,1.1088,1.11057,1.11213,1.11347,1.11455,1.11537,1.11591,1.11614,1.11606,1.11564,1.11487,1.11373,1.11221,1.11028,1.10795,1.10519,1.10199,1.09835,1.09425,1.08969,1.08467,1.07917,1.07321,1.06679,1.05991,1.05258,1.04482,1.03664,1.02808,1.01915,1.00988,1.00032,0.990499,0.98046,0.970252,0.959923,0.949523,0.939107,0.928727,0.918436,0.908287,0.898328,0.888608,0.879169,0.87005,0.861286,0.852904,0.844929,0.837376,0.830257,0.823578,0.817337,0.811531,0.80615,0.801179,0.796601,0.792396,0.78854,0.785009,0.781775,0.778812,0.77609,0.773581,0.771255,0.769082,0.767033,0.765076,0.76318,0.761314,0.759446,0.757542,0.755565,0.753478,0.751241,0.748811,0.746139,0.743174,0.739859,0.736132,0.731923,0.727156,0.721748,0.715606,0.70863,0.700711,0.691734,0.681576,0.670109,0.657201,0.642724,0.626553,0.608577,0.588706,0.566878,0.543073,0.517326,0.489734,0.460478,0.429822,0.398121,0.365819,0.333434,0.301525,0.270662,0.241366,0.214064,0.189037,0.166401,0.146109,0.128003,0.111868,0.0975073,0.0847644,0.0735205,0.0636631,0.0550588,0.0475576,0.0410251,0.0353616,0.0304596,0.026228,0.0225741,0.0194335,0.0167268,0.01441,0,0,0,0,0.0012134,0.00185146,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01519,1.01629,1.01746,1.0187,1.02002,1.02141,1.02288,1.02443,1.02607,1.02779,1.0296,1.03149,1.03348,1.03556,1.03773,1.03999,1.04235,1.04479,1.04731,1.04993,1.05262,1.05539,1.05823,1.06114,1.06411,1.06713,1.07019,1.07329,1.07641,1.07955,1.08269,1.08582,1.08893,1.09201,1.09503,1.09798,1.10085,1.10362,1.10628,1.1088,1.11116,1.11336,1.11537,1.11716,1.11873,1.12005,1.12111,1.12188,1.12235,1.1225,1.12231,1.12176,1.12084,1.11952,1.1178,1.11567,1.1131,1.11008,1.10661,1.10268,1.09828,1.09341,1.08805,1.08222,1.07592,1.06916,1.06194,1.05428,1.0462,1.03772,1.02887,1.01967,1.01018,1.00041,0.990429,0.980268,0.969981,0.95962,0.949237,0.938886,0.92862,0.918492,0.908552,0.898847,0.889421,0.880312,0.871556,0.863181,0.855209,0.847659,0.840541,0.833861,0.82762,0.821811,0.816425,0.811448,0.806864,0.80265,0.798785,0.795242,0.791996,0.789018,0.786279,0.78375,0.781402,0.779203,0.777124,0.775134,0.7732,0.771291,0.769374,0.767412,0.765371,0.763211,0.760891,0.758365,0.755585,0.752498,0.749044,0.74516,0.740774,0.735807,0.730174,0.72378,0.716523,0.708292,0.69897,0.68843,0.676545,0.663183,0.648214,0.631518,0.612985,0.59253,0.570098,0.545679,0.519318,0.491128,0.461304,0.430125,0.397965,0.365283,0.332605,0.300499,0.269531,0.240213,0.212954,0.188013,0.165481,0.145295,0.127282,0.111227,0.0969357,0.0842585,0.0730789,0.0632815,0.0547297,0.0472739,0.0407812,0.0351537,0.030283,0.0260787,0.0224479,0.0193286,0.0166385,0.0143375,0,0,0,0,0.000311913,0.000997204,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01527,1.01639,1.01757,1.01883,1.02016,1.02157,1.02307,1.02464,1.02631,1.02806,1.0299,1.03184,1.03387,1.036,1.03822,1.04054,1.04296,1.04547,1.04807,1.05076,1.05354,1.05641,1.05935,1.06237,1.06546,1.0686,1.0718,1.07504,1.07832,1.08162,1.08493,1.08823,1.09152,1.09479,1.09801,1.10117,1.10425,1.10724,1.11012,1.11287,1.11547,1.1179,1.12015,1.12219,1.124,1.12557,1.12687,1.12789,1.1286,1.12898,1.12903,1.12871,1.12801,1.12692,1.12542,1.12349,1.12112,1.1183,1.11501,1.11126,1.10702,1.1023,1.0971,1.09141,1.08525,1.0786,1.0715,1.06395,1.05596,1.04758,1.03881,1.02969,1.02026,1.01056,1.00063,0.990522,0.98028,0.969958,0.95961,0.949289,0.93905,0.928944,0.919023,0.909333,0.89992,0.890821,0.882073,0.873703,0.865735,0.858187,0.851069,0.844388,0.838143,0.83233,0.826938,0.821954,0.817361,0.813137,0.809259,0.805702,0.80244,0.799443,0.796683,0.79413,0.791754,0.789523,0.787408,0.785376,0.783395,0.781433,0.779453,0.777422,0.775301,0.77305,0.770626,0.767982,0.765068,0.761829,0.758203,0.754123,0.749517,0.744302,0.73839,0.731684,0.724079,0.715461,0.705709,0.694699,0.682298,0.668375,0.652803,0.635462,0.616248,0.595083,0.571921,0.546766,0.519677,0.490786,0.460309,0.428547,0.395895,0.362831,0.329893,0.297656,0.266679,0.237459,0.210379,0.185664,0.163375,0.143421,0.125615,0.109742,0.0956143,0.0830908,0.072056,0.0623921,0.0539579,0.0466027,0.040203,0.0346561,0.0298554,0.0257126,0.0221351,0.0190631,0.0164144,0.0141488,0,0,0,0,0.000524161,0.00170358,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01535,1.01647,1.01767,1.01895,1.02029,1.02173,1.02324,1.02484,1.02653,1.02832,1.03019,1.03217,1.03424,1.03641,1.03869,1.04106,1.04354,1.04612,1.04879,1.05157,1.05443,1.05739,1.06044,1.06357,1.06677,1.07004,1.07337,1.07675,1.08018,1.08364,1.08711,1.09059,1.09407,1.09753,1.10095,1.10431,1.10761,1.11082,1.11393,1.11691,1.11975,1.12243,1.12492,1.12721,1.12927,1.13109,1.13265,1.13392,1.13488,1.13551,1.1358,1.13572,1.13526,1.1344,1.13312,1.13141,1.12925,1.12663,1.12354,1.11997,1.11592,1.11137,1.10632,1.10078,1.09476,1.08825,1.08126,1.07382,1.06595,1.05765,1.04897,1.03994,1.03058,1.02095,1.01108,1.00102,0.990828,0.980548,0.970237,0.959948,0.949736,0.939654,0.929753,0.92008,0.91068,0.901592,0.892852,0.884488,0.876524,0.868978,0.86186,0.855178,0.84893,0.843113,0.837716,0.832725,0.828123,0.823889,0.82,0.81643,0.813151,0.810137,0.807357,0.804781,0.802379,0.800119,0.797969,0.795899,0.793874,0.791861,0.789825,0.787729,0.785534,0.783198,0.780679,0.777927,0.77489,0.771511,0.767727,0.76347,0.758663,0.753223,0.747058,0.74007,0.73215,0.723184,0.713048,0.701616,0.688754,0.674332,0.658224,0.640311,0.620495,0.598702,0.574896,0.549091,0.52136,0.49185,0.460792,0.428506,0.395404,0.361977,0.328774,0.296371,0.265325,0.236118,0.209111,0.184507,0.16234,0.142502,0.124798,0.109013,0.094965,0.0825171,0.0715558,0.0619589,0.0535836,0.046279,0.0399246,0.0344184,0.0296534,0.0255413,0.02199,0.0189401,0.0163122,0.014059,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01542,1.01655,1.01777,1.01905,1.02042,1.02187,1.0234,1.02503,1.02674,1.02856,1.03047,1.03248,1.03459,1.03681,1.03913,1.04156,1.0441,1.04674,1.04949,1.05234,1.05529,1.05834,1.06149,1.06472,1.06804,1.07143,1.0749,1.07842,1.08199,1.08561,1.08925,1.09291,1.09657,1.10022,1.10384,1.10742,1.11093,1.11437,1.1177,1.12092,1.124,1.12693,1.12967,1.13222,1.13454,1.13662,1.13843,1.13996,1.14118,1.14208,1.14262,1.14279,1.14258,1.14196,1.14092,1.13943,1.13749,1.13509,1.1322,1.12883,1.12496,1.12058,1.11571,1.11033,1.10445,1.09808,1.09123,1.08391,1.07614,1.06795,1.05936,1.05041,1.04114,1.03157,1.02177,1.01177,1.00162,0.991387,0.981114,0.970859,0.960677,0.950619,0.940738,0.931083,0.921696,0.912619,0.903887,0.895529,0.887569,0.880024,0.872906,0.866221,0.85997,0.854147,0.848742,0.843743,0.839131,0.834884,0.830981,0.827395,0.824098,0.821062,0.818258,0.815654,0.813221,0.810925,0.808735,0.806618,0.80454,0.802467,0.800362,0.798187,0.795903,0.793467,0.790832,0.78795,0.784765,0.781218,0.777245,0.772773,0.767725,0.762014,0.755546,0.748219,0.739923,0.730539,0.719943,0.708006,0.694594,0.679578,0.662832,0.644242,0.623716,0.601186,0.57663,0.550073,0.521607,0.491396,0.459695,0.426845,0.393277,0.359499,0.326072,0.293574,0.262551,0.233465,0.20665,0.182274,0.160342,0.140724,0.123213,0.107599,0.0937075,0.0814076,0.070586,0.0611154,0.0528512,0.0456431,0.0393754,0.0339454,0.0292481,0.0251938,0.0216948,0.0186891,0.0160976,0.0138792,0,0,0,0,0,0.00145677,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01548,1.01663,1.01785,1.01915,1.02053,1.022,1.02356,1.0252,1.02694,1.02878,1.03073,1.03277,1.03492,1.03718,1.03955,1.04204,1.04463,1.04733,1.05015,1.05308,1.05611,1.05926,1.0625,1.06584,1.06927,1.07278,1.07638,1.08004,1.08376,1.08753,1.09134,1.09518,1.09902,1.10286,1.10669,1.11047,1.11421,1.11787,1.12144,1.1249,1.12823,1.13141,1.13441,1.13721,1.1398,1.14215,1.14423,1.14603,1.14752,1.14867,1.14948,1.14992,1.14996,1.14959,1.14879,1.14755,1.14584,1.14366,1.14099,1.13782,1.13415,1.12996,1.12526,1.12005,1.11433,1.1081,1.10139,1.0942,1.08655,1.07847,1.06998,1.06113,1.05193,1.04244,1.0327,1.02276,1.01267,1.00249,0.992254,0.982035,0.971883,0.961852,0.951993,0.942356,0.932984,0.923919,0.915196,0.906844,0.898888,0.891345,0.884227,0.877541,0.871286,0.865458,0.860048,0.85504,0.850418,0.846161,0.842244,0.838643,0.835329,0.832274,0.829447,0.826818,0.824355,0.822027,0.8198,0.81764,0.815514,0.813386,0.811219,0.808974,0.806609,0.804082,0.801344,0.798344,0.795026,0.79133,0.787187,0.782525,0.777263,0.771312,0.764576,0.756951,0.748323,0.738574,0.727575,0.715198,0.701308,0.685777,0.668479,0.649304,0.628164,0.605,0.579797,0.552592,0.523489,0.49267,0.460403,0.427048,0.39305,0.35893,0.325257,0.292607,0.26152,0.232443,0.205687,0.1814,0.159563,0.140032,0.122596,0.107047,0.0932148,0.0809737,0.0702079,0.0607893,0.0525693,0.0454,0.0391671,0.0337686,0.0290976,0.0250673,0.0215884,0.0186004,0.0160279,0.0138164,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01554,1.01669,1.01793,1.01924,1.02064,1.02212,1.0237,1.02537,1.02713,1.029,1.03097,1.03305,1.03524,1.03754,1.03995,1.04249,1.04514,1.0479,1.05079,1.05379,1.05691,1.06013,1.06347,1.06691,1.07046,1.07409,1.07782,1.08162,1.08549,1.08941,1.09339,1.0974,1.10143,1.10546,1.10949,1.11349,1.11744,1.12133,1.12514,1.12884,1.13242,1.13586,1.13912,1.14219,1.14505,1.14767,1.15003,1.1521,1.15387,1.1553,1.15638,1.15708,1.15739,1.15729,1.15674,1.15575,1.15429,1.15234,1.14989,1.14694,1.14348,1.13949,1.13498,1.12994,1.12439,1.11832,1.11175,1.1047,1.09717,1.08921,1.08083,1.07207,1.06296,1.05355,1.04389,1.03401,1.02398,1.01384,1.00365,0.993469,0.98335,0.973347,0.963511,0.953893,0.944536,0.935483,0.926769,0.918423,0.91047,0.902928,0.89581,0.889121,0.882861,0.877027,0.871608,0.86659,0.861956,0.857684,0.853751,0.850131,0.846795,0.843716,0.840861,0.8382,0.835701,0.833331,0.831057,0.828845,0.826658,0.824461,0.822216,0.819882,0.817416,0.814774,0.811905,0.808758,0.805273,0.801388,0.797032,0.79213,0.786599,0.780346,0.773272,0.765271,0.756227,0.746017,0.734513,0.721584,0.707096,0.69092,0.672935,0.653034,0.631137,0.607194,0.581203,0.553216,0.523357,0.491827,0.458919,0.425012,0.390574,0.356139,0.322284,0.289584,0.258564,0.229648,0.203115,0.179077,0.157487,0.138181,0.120944,0.105572,0.091905,0.0798195,0.0691993,0.0599118,0.0518069,0.0447379,0.0385971,0.0332775,0.0286773,0.0247059,0.0212792,0.0183357,0.0158052,0.0136283,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01559,1.01676,1.018,1.01933,1.02074,1.02224,1.02383,1.02552,1.02731,1.0292,1.0312,1.03331,1.03553,1.03787,1.04033,1.04292,1.04562,1.04845,1.0514,1.05447,1.05766,1.06098,1.06441,1.06795,1.07161,1.07536,1.07921,1.08315,1.08716,1.09125,1.09539,1.09957,1.10379,1.10801,1.11224,1.11646,1.12063,1.12475,1.1288,1.13275,1.13658,1.14028,1.14381,1.14715,1.15029,1.15319,1.15583,1.15818,1.16023,1.16195,1.16331,1.1643,1.16489,1.16505,1.16478,1.16404,1.16283,1.16113,1.15892,1.1562,1.15295,1.14917,1.14486,1.14001,1.13463,1.12873,1.12232,1.1154,1.10802,1.10017,1.09191,1.08325,1.07424,1.06491,1.05532,1.04552,1.03554,1.02546,1.01532,1.00518,0.995094,0.985121,0.97531,0.965713,0.956373,0.947334,0.938629,0.930291,0.922343,0.914803,0.907685,0.900994,0.894731,0.888892,0.883465,0.878439,0.873794,0.869511,0.865563,0.861927,0.858573,0.855472,0.852593,0.849905,0.847375,0.84497,0.842656,0.840398,0.838161,0.835905,0.833594,0.831185,0.828635,0.825896,0.822919,0.819648,0.816025,0.811983,0.807452,0.802352,0.796599,0.790099,0.78275,0.774444,0.765061,0.75448,0.742568,0.729195,0.714228,0.697536,0.679002,0.658522,0.636022,0.611457,0.584836,0.556221,0.525748,0.493634,0.460186,0.425798,0.390951,0.356188,0.322092,0.289234,0.258132,0.229195,0.202682,0.178685,0.15714,0.137873,0.120667,0.105321,0.0916796,0.0796216,0.0690291,0.0597675,0.0516823,0.0446315,0.0385076,0.0332032,0.0286153,0.0246537,0.0212412,0.018303,0.0157808,0.0136086,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01563,1.01681,1.01807,1.0194,1.02083,1.02234,1.02395,1.02566,1.02747,1.02938,1.03141,1.03355,1.03581,1.03819,1.04069,1.04332,1.04608,1.04896,1.05198,1.05512,1.05839,1.06179,1.06531,1.06896,1.07272,1.07659,1.08056,1.08464,1.0888,1.09303,1.09734,1.10169,1.10609,1.11052,1.11495,1.11938,1.12377,1.12813,1.13242,1.13662,1.14071,1.14467,1.14847,1.15209,1.15551,1.15869,1.16162,1.16427,1.16661,1.16862,1.17028,1.17155,1.17242,1.17287,1.17287,1.17241,1.17146,1.17002,1.16806,1.16558,1.16256,1.159,1.15489,1.15024,1.14505,1.13932,1.13307,1.12631,1.11907,1.11136,1.10321,1.09466,1.08575,1.07652,1.06701,1.05727,1.04736,1.03734,1.02725,1.01715,1.0071,0.997159,0.987375,0.977799,0.968477,0.95945,0.950756,0.942424,0.934479,0.926941,0.919821,0.913126,0.906857,0.901009,0.895573,0.890534,0.885875,0.881573,0.877606,0.873947,0.870566,0.867436,0.864523,0.861796,0.859223,0.856768,0.854397,0.852075,0.849764,0.847426,0.84502,0.842504,0.839832,0.836956,0.833823,0.830376,0.826553,0.822286,0.817501,0.812117,0.806044,0.799187,0.79144,0.782691,0.77282,0.7617,0.749201,0.735187,0.719528,0.702096,0.682776,0.661472,0.638117,0.612682,0.585188,0.555718,0.52443,0.491566,0.457456,0.422522,0.387263,0.352237,0.318032,0.285211,0.254272,0.225592,0.199392,0.175724,0.154493,0.13551,0.118555,0.103436,0.0900075,0.0781504,0.0677443,0.0586486,0.0507075,0.0437858,0.0377775,0.0325732,0.0280743,0.02419,0.0208446,0.0179635,0.0154952,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01567,1.01686,1.01813,1.01947,1.02091,1.02244,1.02406,1.02579,1.02762,1.02956,1.03161,1.03378,1.03608,1.03849,1.04104,1.04371,1.04652,1.04946,1.05253,1.05574,1.05909,1.06257,1.06618,1.06992,1.07379,1.07778,1.08187,1.08608,1.09038,1.09477,1.09924,1.10377,1.10835,1.11297,1.11761,1.12225,1.12687,1.13146,1.13599,1.14044,1.14479,1.14902,1.1531,1.157,1.1607,1.16418,1.16741,1.17036,1.173,1.17531,1.17727,1.17884,1.18001,1.18075,1.18104,1.18086,1.18019,1.17901,1.17731,1.17508,1.1723,1.16897,1.16509,1.16064,1.15565,1.15011,1.14403,1.13743,1.13034,1.12277,1.11475,1.10632,1.09751,1.08837,1.07895,1.0693,1.05946,1.04949,1.03945,1.0294,1.01939,1.00949,0.999731,0.990178,0.980875,0.971864,0.963181,0.954857,0.946918,0.939382,0.932262,0.925565,0.919291,0.913437,0.907991,0.902942,0.898269,0.893953,0.889968,0.886289,0.882885,0.879728,0.876786,0.874025,0.871413,0.868915,0.866495,0.864117,0.861743,0.859333,0.856846,0.854237,0.851461,0.848466,0.8452,0.841602,0.837609,0.833151,0.828151,0.822526,0.816184,0.809027,0.800947,0.791829,0.781552,0.769985,0.756999,0.742457,0.726229,0.708189,0.688226,0.666247,0.642195,0.616048,0.58784,0.557668,0.525706,0.492213,0.457538,0.422119,0.38647,0.351158,0.31677,0.283867,0.252931,0.224318,0.198222,0.174672,0.153554,0.134671,0.117802,0.102761,0.0894077,0.0776237,0.0672866,0.0582513,0.050363,0.0434879,0.0375227,0.032355,0.0278881,0.024033,0.0207121,0.0178517,0.0154022,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01571,1.0169,1.01818,1.01954,1.02099,1.02253,1.02417,1.02591,1.02776,1.02972,1.0318,1.034,1.03632,1.03877,1.04136,1.04408,1.04693,1.04993,1.05306,1.05634,1.05976,1.06332,1.06702,1.07085,1.07482,1.07892,1.08314,1.08748,1.09192,1.09646,1.10109,1.1058,1.11056,1.11537,1.12021,1.12507,1.12992,1.13474,1.13951,1.14422,1.14884,1.15334,1.15769,1.16188,1.16588,1.16966,1.17318,1.17644,1.17939,1.18201,1.18428,1.18616,1.18764,1.18868,1.18927,1.18938,1.189,1.1881,1.18667,1.1847,1.18218,1.17909,1.17543,1.17121,1.16642,1.16108,1.15518,1.14876,1.14182,1.1344,1.12651,1.11821,1.10951,1.10048,1.09115,1.08158,1.07181,1.06191,1.05193,1.04193,1.03196,1.02209,1.01237,1.00284,0.993557,0.984561,0.97589,0.967575,0.95964,0.952106,0.944986,0.938285,0.932006,0.926143,0.920687,0.915624,0.910936,0.906601,0.902596,0.898892,0.895461,0.892272,0.889294,0.886493,0.883835,0.881285,0.878805,0.87636,0.87391,0.871413,0.868828,0.866108,0.863206,0.860069,0.856642,0.852863,0.848665,0.843977,0.838719,0.832804,0.826139,0.818622,0.810141,0.800581,0.789816,0.777716,0.764147,0.748976,0.732071,0.713309,0.692585,0.669813,0.644943,0.617968,0.588936,0.557963,0.525244,0.491059,0.45578,0.419865,0.383845,0.348296,0.313807,0.280927,0.250117,0.221701,0.195841,0.172534,0.151644,0.132962,0.116271,0.101395,0.0881966,0.0765609,0.06636,0.0574439,0.0496609,0.0428789,0.0369979,0.0319039,0.0275024,0.0237001,0.0204311,0.017611,0.0151966,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01574,1.01694,1.01823,1.01959,1.02105,1.02261,1.02426,1.02602,1.02789,1.02987,1.03198,1.0342,1.03655,1.03904,1.04166,1.04442,1.04732,1.05037,1.05356,1.05691,1.0604,1.06403,1.06782,1.07175,1.07582,1.08003,1.08437,1.08884,1.09342,1.09811,1.1029,1.10777,1.11272,1.11772,1.12277,1.12784,1.13291,1.13797,1.14299,1.14796,1.15284,1.15761,1.16225,1.16674,1.17103,1.17511,1.17895,1.18251,1.18578,1.18872,1.19131,1.19351,1.1953,1.19666,1.19756,1.19798,1.19789,1.19728,1.19614,1.19444,1.19218,1.18934,1.18593,1.18194,1.17737,1.17223,1.16653,1.16029,1.15352,1.14625,1.13851,1.13034,1.12177,1.11284,1.10361,1.09413,1.08444,1.07461,1.06469,1.05474,1.04482,1.03499,1.0253,1.0158,1.00654,0.99756,0.988902,0.980596,0.972668,0.965137,0.958016,0.951313,0.945028,0.939157,0.933691,0.928616,0.923913,0.91956,0.915534,0.911806,0.908348,0.905129,0.902115,0.899274,0.896571,0.893969,0.891432,0.888921,0.886395,0.883814,0.881133,0.878305,0.875281,0.872006,0.868422,0.864467,0.860072,0.855162,0.849655,0.843462,0.836487,0.828624,0.819761,0.809779,0.798551,0.785944,0.771825,0.756059,0.738516,0.719077,0.697639,0.674125,0.648493,0.620747,0.590949,0.559233,0.52581,0.490981,0.455137,0.418752,0.382372,0.346581,0.311964,0.279061,0.248313,0.220019,0.194311,0.171161,0.150416,0.131862,0.115283,0.100511,0.087414,0.075875,0.0657626,0.0569247,0.049208,0.0424897,0.0366628,0.0316157,0.0272562,0.0234904,0.0202535,0.0174625,0.0150719,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01577,1.01698,1.01827,1.01964,1.02111,1.02268,1.02435,1.02612,1.02801,1.03001,1.03214,1.03439,1.03677,1.03929,1.04195,1.04475,1.04769,1.05079,1.05404,1.05745,1.06101,1.06472,1.06859,1.07261,1.07678,1.0811,1.08556,1.09015,1.09487,1.09971,1.10466,1.1097,1.11483,1.12002,1.12527,1.13055,1.13585,1.14115,1.14642,1.15164,1.15679,1.16185,1.16677,1.17155,1.17615,1.18054,1.18469,1.18858,1.19217,1.19543,1.19835,1.20088,1.20299,1.20468,1.2059,1.20663,1.20686,1.20655,1.2057,1.20429,1.2023,1.19973,1.19658,1.19283,1.18849,1.18357,1.17807,1.17202,1.16543,1.15832,1.15074,1.1427,1.13426,1.12545,1.11633,1.10693,1.09733,1.08757,1.07772,1.06783,1.05796,1.04817,1.03851,1.02904,1.0198,1.01084,1.0022,0.993902,0.98598,0.97845,0.971328,0.96462,0.958328,0.952446,0.946966,0.941874,0.937151,0.932776,0.928722,0.924964,0.921471,0.918211,0.915152,0.912259,0.909497,0.906828,0.904215,0.901618,0.898995,0.896304,0.893498,0.890528,0.887344,0.883888,0.880101,0.875916,0.871262,0.866061,0.860228,0.853671,0.846289,0.837975,0.828613,0.81808,0.806246,0.792979,0.778144,0.761605,0.743238,0.722925,0.700571,0.676111,0.649514,0.620801,0.590057,0.557436,0.523179,0.487612,0.451154,0.414303,0.377619,0.341695,0.307109,0.274383,0.243923,0.215987,0.190665,0.167891,0.147491,0.129242,0.11294,0.0984238,0.08557,0.0742588,0.0643512,0.0556942,0.0481364,0.041561,0.0358616,0.0309251,0.0266619,0.0229819,0.0198172,0.0170897,0.0147509,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01579,1.017,1.0183,1.01969,1.02117,1.02275,1.02443,1.02622,1.02812,1.03014,1.03229,1.03456,1.03697,1.03952,1.04221,1.04505,1.04805,1.05119,1.0545,1.05796,1.06159,1.06537,1.06932,1.07343,1.0777,1.08213,1.0867,1.09142,1.09628,1.10126,1.10636,1.11158,1.11688,1.12227,1.12772,1.13322,1.13875,1.14428,1.1498,1.15528,1.16071,1.16604,1.17126,1.17633,1.18124,1.18594,1.19042,1.19463,1.19855,1.20215,1.2054,1.20827,1.21072,1.21274,1.21429,1.21535,1.2159,1.21591,1.21537,1.21426,1.21256,1.21027,1.20738,1.20388,1.19979,1.19509,1.18981,1.18396,1.17756,1.17064,1.16321,1.15533,1.14702,1.13834,1.12932,1.12003,1.11052,1.10084,1.09106,1.08123,1.07142,1.06167,1.05206,1.04262,1.03341,1.02447,1.01585,1.00756,0.999651,0.992128,0.985009,0.978302,0.972007,0.966122,0.960635,0.955534,0.9508,0.946411,0.942342,0.938565,0.935051,0.931767,0.92868,0.925757,0.922959,0.920251,0.917593,0.914945,0.912265,0.90951,0.906631,0.90358,0.900304,0.896745,0.892843,0.888528,0.88373,0.878368,0.872355,0.865599,0.857997,0.849439,0.839808,0.828981,0.816826,0.80321,0.787997,0.771054,0.752253,0.731482,0.708648,0.683685,0.656571,0.627332,0.596057,0.56291,0.528137,0.492075,0.455149,0.417865,0.380788,0.344512,0.309618,0.276624,0.24593,0.21779,0.192284,0.169343,0.148788,0.130395,0.113961,0.0993252,0.0863641,0.074957,0.0649639,0.0562306,0.0486053,0.0419702,0.0362183,0.0312361,0.0269327,0.0232178,0.0200225,0.017269,0.0149073,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0158,1.01703,1.01833,1.01973,1.02122,1.0228,1.0245,1.0263,1.02822,1.03026,1.03243,1.03472,1.03716,1.03974,1.04246,1.04534,1.04838,1.05157,1.05493,1.05845,1.06214,1.066,1.07003,1.07423,1.07859,1.08312,1.0878,1.09265,1.09764,1.10277,1.10802,1.1134,1.11889,1.12447,1.13012,1.13583,1.14159,1.14736,1.15313,1.15887,1.16457,1.17018,1.17569,1.18107,1.18629,1.19132,1.19612,1.20066,1.20492,1.20887,1.21246,1.21567,1.21847,1.22084,1.22273,1.22413,1.22501,1.22535,1.22513,1.22432,1.22293,1.22093,1.21831,1.21509,1.21124,1.20679,1.20174,1.1961,1.1899,1.18316,1.17591,1.16818,1.16002,1.15146,1.14257,1.13339,1.12397,1.11438,1.10467,1.09491,1.08515,1.07546,1.06588,1.05648,1.0473,1.03838,1.02977,1.0215,1.0136,1.00608,0.998962,0.992252,0.985951,0.980056,0.974557,0.96944,0.964686,0.960274,0.956179,0.952371,0.948822,0.945498,0.942367,0.939391,0.936535,0.933761,0.931027,0.928295,0.925519,0.922654,0.919652,0.916463,0.91303,0.909295,0.905193,0.900655,0.895606,0.889964,0.883638,0.876532,0.868542,0.859554,0.84945,0.838101,0.825377,0.811142,0.79526,0.777599,0.758035,0.736459,0.712784,0.686956,0.658964,0.628848,0.596717,0.562756,0.527231,0.490504,0.453019,0.415302,0.377928,0.341497,0.30658,0.273675,0.243158,0.215245,0.189986,0.167281,0.14694,0.128736,0.112473,0.0979993,0.0851938,0.0739314,0.0640693,0.0554506,0.0479268,0.0413831,0.0357117,0.0308003,0.0265599,0.0228985,0.0197512,0.0170408,0.0147098,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01582,1.01705,1.01836,1.01976,1.02126,1.02286,1.02456,1.02638,1.02831,1.03037,1.03255,1.03487,1.03733,1.03994,1.0427,1.04561,1.04869,1.05193,1.05533,1.05891,1.06267,1.06659,1.0707,1.07498,1.07944,1.08407,1.08887,1.09383,1.09895,1.10422,1.10964,1.11518,1.12084,1.12661,1.13246,1.13839,1.14437,1.15038,1.1564,1.16241,1.16838,1.17428,1.18009,1.18577,1.19131,1.19666,1.20179,1.20668,1.21128,1.21558,1.21952,1.22309,1.22625,1.22897,1.23121,1.23296,1.23419,1.23487,1.23498,1.2345,1.23341,1.23172,1.2294,1.22645,1.22287,1.21867,1.21386,1.20845,1.20246,1.19591,1.18884,1.18128,1.17327,1.16486,1.1561,1.14703,1.13772,1.12822,1.11859,1.1089,1.0992,1.08956,1.08003,1.07067,1.06152,1.05263,1.04404,1.03579,1.02789,1.02038,1.01326,1.00655,1.00025,0.994348,0.988839,0.98371,0.97894,0.97451,0.970392,0.966559,0.96298,0.959623,0.956453,0.953434,0.950528,0.947697,0.944901,0.942097,0.93924,0.936284,0.93318,0.929874,0.926311,0.92243,0.918164,0.913443,0.908188,0.902316,0.895734,0.888345,0.88004,0.870706,0.86022,0.848453,0.835274,0.820545,0.804131,0.785901,0.765732,0.743518,0.719179,0.692666,0.663976,0.633162,0.600343,0.565716,0.529565,0.492265,0.454274,0.416129,0.378412,0.341725,0.306633,0.273626,0.243062,0.215138,0.189884,0.167189,0.146852,0.12865,0.112388,0.0979188,0.0851214,0.0738694,0.0640167,0.0554058,0.0478891,0.0413521,0.0356872,0.030781,0.0265459,0.0228886,0.0197444,0.0170385,0.0147109,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01583,1.01706,1.01838,1.01979,1.02129,1.0229,1.02461,1.02644,1.02839,1.03046,1.03267,1.03501,1.03749,1.04013,1.04292,1.04586,1.04898,1.05226,1.05572,1.05935,1.06316,1.06716,1.07134,1.07571,1.08025,1.08498,1.08989,1.09497,1.10022,1.10563,1.1112,1.11691,1.12274,1.1287,1.13475,1.14089,1.1471,1.15335,1.15962,1.16589,1.17213,1.17832,1.18443,1.19043,1.19628,1.20196,1.20743,1.21267,1.21762,1.22227,1.22658,1.23051,1.23404,1.23712,1.23973,1.24184,1.24342,1.24445,1.24491,1.24476,1.24401,1.24263,1.24061,1.23795,1.23466,1.23072,1.22616,1.22099,1.21522,1.20888,1.202,1.19462,1.18677,1.17851,1.16988,1.16094,1.15173,1.14233,1.13279,1.12318,1.11355,1.10396,1.09448,1.08516,1.07604,1.06718,1.05861,1.05037,1.04249,1.03498,1.02787,1.02116,1.01485,1.00893,1.00341,0.998265,0.993476,0.98902,0.984873,0.981007,0.977389,0.973988,0.970767,0.967691,0.964721,0.961817,0.958938,0.956039,0.953076,0.950001,0.946761,0.943304,0.939569,0.935495,0.931012,0.926048,0.920521,0.914345,0.907426,0.89966,0.890939,0.881145,0.870154,0.857835,0.844053,0.828672,0.811556,0.792575,0.771612,0.748566,0.723363,0.695966,0.666385,0.634687,0.601013,0.565579,0.528692,0.490749,0.452228,0.413682,0.375701,0.338887,0.303795,0.270892,0.240506,0.212801,0.187777,0.165297,0.145153,0.127122,0.111017,0.0966988,0.0840459,0.0729277,0.0631958,0.0546882,0.0472654,0.0408149,0.0352236,0.0303836,0.026202,0.0225984,0.0194937,0.0168277,0.0145307,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01583,1.01707,1.01839,1.01981,1.02132,1.02294,1.02466,1.0265,1.02846,1.03055,1.03277,1.03513,1.03764,1.0403,1.04312,1.0461,1.04925,1.05257,1.05608,1.05976,1.06364,1.0677,1.07195,1.0764,1.08103,1.08586,1.09087,1.09607,1.10145,1.107,1.11271,1.11858,1.12459,1.13073,1.13699,1.14334,1.14977,1.15626,1.16278,1.16932,1.17584,1.18232,1.18873,1.19504,1.20121,1.20723,1.21304,1.21863,1.22394,1.22896,1.23363,1.23794,1.24184,1.2453,1.24828,1.25077,1.25272,1.25411,1.25492,1.25513,1.25471,1.25366,1.25196,1.24961,1.24661,1.24295,1.23866,1.23373,1.2282,1.22208,1.2154,1.20821,1.20054,1.19243,1.18395,1.17513,1.16605,1.15675,1.1473,1.13777,1.12821,1.11869,1.10926,1.09998,1.09091,1.08207,1.07353,1.06531,1.05744,1.04995,1.04284,1.03613,1.02981,1.02389,1.01836,1.0132,1.0084,1.00392,0.999749,0.995854,0.992204,0.988765,0.985502,0.982378,0.979353,0.976386,0.973437,0.970459,0.967407,0.96423,0.960878,0.957292,0.953414,0.949179,0.944517,0.939352,0.933601,0.927176,0.919979,0.911907,0.902847,0.89268,0.88128,0.868515,0.854249,0.838345,0.820668,0.80109,0.779494,0.755785,0.729894,0.701792,0.671497,0.639088,0.604718,0.568617,0.531106,0.492597,0.45358,0.414618,0.376306,0.339247,0.303989,0.270986,0.24055,0.212825,0.187793,0.165309,0.145156,0.127114,0.111002,0.0966804,0.0840291,0.0729142,0.063185,0.0546794,0.0472588,0.0408114,0.0352228,0.0303847,0.0262055,0.0226038,0.0195007,0.0168367,0.01454,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01583,1.01707,1.0184,1.01982,1.02134,1.02297,1.0247,1.02655,1.02853,1.03063,1.03287,1.03525,1.03777,1.04046,1.0433,1.04632,1.0495,1.05287,1.05642,1.06015,1.06408,1.06821,1.07253,1.07705,1.08178,1.0867,1.09182,1.09713,1.10263,1.10832,1.11418,1.12021,1.12639,1.13271,1.13917,1.14573,1.15238,1.15911,1.16588,1.17268,1.17948,1.18626,1.19297,1.1996,1.2061,1.21245,1.21862,1.22456,1.23024,1.23563,1.24068,1.24537,1.24965,1.25349,1.25687,1.25973,1.26207,1.26383,1.26501,1.26558,1.26552,1.26481,1.26345,1.26142,1.25872,1.25536,1.25134,1.24667,1.24138,1.2355,1.22904,1.22204,1.21456,1.20662,1.19829,1.18961,1.18065,1.17147,1.16212,1.15268,1.1432,1.13374,1.12437,1.11514,1.1061,1.09731,1.08879,1.08059,1.07274,1.06525,1.05815,1.05144,1.04513,1.0392,1.03366,1.02849,1.02367,1.01917,1.01497,1.01105,1.00737,1.00389,1.00059,0.997411,0.99433,0.991301,0.98828,0.985221,0.982078,0.978799,0.975331,0.971617,0.967594,0.963197,0.958353,0.952985,0.947008,0.940332,0.932857,0.924477,0.915078,0.904539,0.892731,0.879523,0.864776,0.848353,0.83012,0.809951,0.787731,0.763369,0.736801,0.708006,0.677011,0.643904,0.608851,0.572095,0.533971,0.494902,0.455393,0.416012,0.377362,0.340043,0.304597,0.271468,0.240949,0.213171,0.1881,0.165579,0.14539,0.127313,0.111169,0.096824,0.0841548,0.0730254,0.0632831,0.0547655,0.0473348,0.0408795,0.0352838,0.0304393,0.0262548,0.0226487,0.0195418,0.0168746,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01583,1.01707,1.01841,1.01983,1.02136,1.02299,1.02473,1.02659,1.02858,1.0307,1.03295,1.03535,1.0379,1.0406,1.04347,1.04652,1.04974,1.05314,1.05673,1.06052,1.0645,1.06869,1.07308,1.07768,1.08248,1.0875,1.09272,1.09814,1.10377,1.10959,1.1156,1.12178,1.12813,1.13464,1.14129,1.14806,1.15494,1.1619,1.16893,1.17599,1.18307,1.19014,1.19716,1.2041,1.21094,1.21763,1.22415,1.23046,1.23651,1.24227,1.24771,1.25279,1.25747,1.26171,1.26547,1.26874,1.27146,1.27362,1.27518,1.27613,1.27643,1.27608,1.27506,1.27336,1.27099,1.26793,1.2642,1.25981,1.25478,1.24914,1.24291,1.23612,1.22883,1.22107,1.2129,1.20438,1.19555,1.18649,1.17725,1.1679,1.1585,1.14912,1.13981,1.13063,1.12164,1.11288,1.1044,1.09622,1.08839,1.08092,1.07382,1.06711,1.0608,1.05487,1.04932,1.04414,1.0393,1.03478,1.03056,1.02661,1.02289,1.01938,1.01603,1.0128,1.00966,1.00657,1.00348,1.00034,0.997102,0.99372,0.990136,0.986292,0.982123,0.977562,0.972536,0.966965,0.960763,0.953836,0.946083,0.937397,0.927661,0.916752,0.904541,0.890893,0.875671,0.858737,0.839957,0.819207,0.796375,0.771373,0.744143,0.714671,0.68299,0.649202,0.613481,0.576083,0.537356,0.497733,0.457731,0.417927,0.378925,0.341326,0.305667,0.272378,0.241743,0.213875,0.188727,0.166137,0.14588,0.127739,0.11154,0.0971469,0.0844381,0.0732745,0.0635016,0.0549566,0.0475021,0.0410264,0.0354119,0.0305531,0.0263553,0.0227376,0.0196209,0.0169451,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01582,1.01707,1.01841,1.01984,1.02137,1.02301,1.02476,1.02663,1.02863,1.03075,1.03302,1.03544,1.038,1.04073,1.04363,1.0467,1.04995,1.05339,1.05703,1.06086,1.0649,1.06914,1.0736,1.07827,1.08316,1.08826,1.09358,1.09912,1.10486,1.11081,1.11696,1.1233,1.12982,1.13651,1.14335,1.15033,1.15743,1.16463,1.17191,1.17924,1.1866,1.19396,1.20129,1.20855,1.21573,1.22277,1.22964,1.23631,1.24274,1.24889,1.25472,1.2602,1.26528,1.26992,1.2741,1.27777,1.2809,1.28346,1.28541,1.28675,1.28743,1.28745,1.28679,1.28544,1.2834,1.28066,1.27724,1.27314,1.26838,1.26299,1.257,1.25044,1.24335,1.23578,1.22778,1.21941,1.21073,1.20179,1.19267,1.18342,1.17411,1.1648,1.15556,1.14644,1.1375,1.12878,1.12033,1.11218,1.10436,1.0969,1.08981,1.08311,1.07679,1.07085,1.06529,1.06009,1.05523,1.05069,1.04643,1.04245,1.03869,1.03512,1.03172,1.02843,1.02522,1.02204,1.01886,1.01561,1.01226,1.00874,1.00501,1.001,0.996641,0.99187,0.986608,0.980775,0.97428,0.967028,0.958916,0.949833,0.93966,0.928272,0.915537,0.901321,0.885483,0.867889,0.848403,0.826905,0.803287,0.777467,0.749397,0.71907,0.686537,0.651911,0.615384,0.577233,0.537822,0.497604,0.45711,0.416927,0.377666,0.33992,0.304215,0.27096,0.240412,0.212657,0.187626,0.165142,0.144979,0.126922,0.110802,0.0964889,0.0838573,0.072767,0.0630583,0.0545697,0.0471663,0.0407372,0.035163,0.0303401,0.0261742,0.0225833,0.0194897,0.0168362,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01581,1.01706,1.0184,1.01984,1.02138,1.02302,1.02478,1.02666,1.02866,1.0308,1.03308,1.03551,1.0381,1.04085,1.04377,1.04687,1.05015,1.05363,1.0573,1.06118,1.06527,1.06957,1.07409,1.07883,1.0838,1.08899,1.09441,1.10005,1.10591,1.11199,1.11828,1.12477,1.13146,1.13833,1.14536,1.15255,1.15987,1.1673,1.17483,1.18243,1.19007,1.19772,1.20536,1.21295,1.22046,1.22785,1.23508,1.24213,1.24894,1.25549,1.26172,1.2676,1.27309,1.27815,1.28274,1.28683,1.29038,1.29335,1.29571,1.29745,1.29853,1.29894,1.29865,1.29766,1.29597,1.29356,1.29046,1.28666,1.28219,1.27707,1.27133,1.265,1.25813,1.25077,1.24295,1.23475,1.22622,1.21742,1.20842,1.19927,1.19006,1.18084,1.17167,1.16261,1.15372,1.14505,1.13663,1.12851,1.12072,1.11327,1.1062,1.0995,1.09318,1.08724,1.08167,1.07646,1.07158,1.06702,1.06274,1.05872,1.05492,1.05132,1.04786,1.04452,1.04125,1.038,1.03474,1.0314,1.02795,1.02432,1.02046,1.01631,1.01179,1.00684,1.00138,0.99533,0.988592,0.981071,0.972661,0.963251,0.952718,0.940937,0.927775,0.913095,0.896758,0.878627,0.858571,0.836468,0.812216,0.785736,0.756985,0.725965,0.692733,0.657415,0.620214,0.581415,0.541399,0.500628,0.459643,0.419037,0.379425,0.341397,0.305472,0.272049,0.241371,0.21351,0.188387,0.165817,0.145571,0.127439,0.111253,0.0968827,0.0842028,0.0730702,0.0633236,0.0548015,0.0473689,0.0409147,0.0353185,0.0304764,0.0262941,0.0226895,0.0195826,0.0169189,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0158,1.01705,1.0184,1.01984,1.02138,1.02303,1.02479,1.02668,1.02869,1.03084,1.03314,1.03558,1.03818,1.04095,1.04389,1.04702,1.05033,1.05384,1.05755,1.06147,1.06561,1.06997,1.07455,1.07936,1.0844,1.08968,1.09519,1.10094,1.10692,1.11312,1.11955,1.12619,1.13304,1.14008,1.14731,1.1547,1.16224,1.16991,1.17769,1.18555,1.19347,1.20142,1.20937,1.21728,1.22513,1.23287,1.24048,1.2479,1.2551,1.26204,1.26868,1.27498,1.28089,1.28637,1.29139,1.29591,1.29988,1.30328,1.30607,1.30822,1.3097,1.31051,1.31061,1.31,1.30867,1.30661,1.30384,1.30036,1.29619,1.29135,1.28587,1.2798,1.27315,1.266,1.25838,1.25035,1.24198,1.23332,1.22445,1.21542,1.20631,1.19718,1.18808,1.17909,1.17026,1.16163,1.15325,1.14516,1.13738,1.12996,1.12289,1.11619,1.10987,1.10392,1.09833,1.0931,1.08819,1.08359,1.07928,1.07521,1.07136,1.06769,1.06417,1.06075,1.05738,1.05403,1.05065,1.04718,1.04358,1.03978,1.03574,1.03137,1.02662,1.02141,1.01565,1.00927,1.00217,0.994243,0.985386,0.975482,0.964408,0.952034,0.938227,0.922847,0.905756,0.886818,0.865903,0.842894,0.817695,0.790237,0.760487,0.728463,0.694238,0.657959,0.619851,0.580223,0.53948,0.498105,0.456656,0.415739,0.375968,0.337925,0.302106,0.26888,0.238452,0.210861,0.185999,0.163665,0.143631,0.125691,0.109688,0.0954943,0.0829815,0.0720011,0.0623876,0.0539849,0.0466588,0.0403014,0.0347888,0.0300218,0.0259018,0.022356,0.0192966,0.0166742,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01578,1.01703,1.01838,1.01983,1.02137,1.02303,1.0248,1.02669,1.02871,1.03087,1.03318,1.03564,1.03825,1.04104,1.04401,1.04715,1.0505,1.05404,1.05778,1.06175,1.06593,1.07034,1.07498,1.07986,1.08498,1.09034,1.09594,1.10179,1.10788,1.11421,1.12077,1.12756,1.13457,1.14179,1.1492,1.15679,1.16455,1.17246,1.18048,1.18861,1.19681,1.20506,1.21332,1.22156,1.22975,1.23785,1.24582,1.25362,1.26122,1.26856,1.27562,1.28233,1.28868,1.29459,1.30005,1.30501,1.30942,1.31325,1.31648,1.31906,1.32097,1.32219,1.32269,1.32247,1.32152,1.31983,1.3174,1.31426,1.3104,1.30586,1.30066,1.29484,1.28844,1.28151,1.2741,1.26626,1.25806,1.24956,1.24082,1.23192,1.22291,1.21388,1.20487,1.19595,1.18718,1.1786,1.17026,1.16221,1.15446,1.14705,1.14,1.13331,1.12699,1.12103,1.11544,1.11019,1.10526,1.10064,1.09629,1.09219,1.0883,1.08458,1.081,1.07751,1.07407,1.07063,1.06716,1.06358,1.05986,1.05593,1.05173,1.04719,1.04225,1.03683,1.03084,1.0242,1.01681,1.00856,0.999354,0.989065,0.977569,0.964735,0.950428,0.934509,0.916839,0.897281,0.875709,0.852009,0.826087,0.797881,0.767366,0.734568,0.699573,0.662538,0.623702,0.58339,0.542019,0.500087,0.458161,0.416852,0.376777,0.338511,0.302541,0.269218,0.238732,0.211101,0.186207,0.163841,0.143775,0.125805,0.10978,0.0955715,0.0830485,0.0720598,0.0624392,0.0540296,0.0466997,0.0403377,0.0348219,0.0300523,0.02593,0.022383,0.0193214,0.0166988,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01575,1.01701,1.01836,1.01981,1.02136,1.02302,1.02479,1.02669,1.02872,1.03089,1.03321,1.03568,1.03831,1.04112,1.0441,1.04727,1.05064,1.05421,1.05799,1.062,1.06622,1.07068,1.07538,1.08033,1.08552,1.09096,1.09665,1.1026,1.10879,1.11524,1.12194,1.12887,1.13604,1.14343,1.15103,1.15882,1.1668,1.17494,1.18321,1.1916,1.20008,1.20862,1.2172,1.22576,1.2343,1.24275,1.2511,1.25929,1.26728,1.27504,1.28251,1.28966,1.29644,1.3028,1.30871,1.31411,1.31898,1.32326,1.32693,1.32995,1.3323,1.33395,1.33487,1.33506,1.3345,1.33318,1.33112,1.32832,1.3248,1.32057,1.31566,1.31011,1.30397,1.29727,1.29007,1.28243,1.27441,1.26608,1.25749,1.24871,1.23983,1.23089,1.22197,1.21313,1.20442,1.1959,1.18761,1.17958,1.17186,1.16447,1.15743,1.15075,1.14442,1.13846,1.13285,1.12758,1.12262,1.11796,1.11357,1.10942,1.10547,1.10168,1.09802,1.09445,1.09091,1.08736,1.08376,1.08004,1.07616,1.07204,1.06764,1.06288,1.05768,1.05197,1.04567,1.03868,1.0309,1.02222,1.01254,1.00173,0.989661,0.976206,0.961225,0.944579,0.926127,0.905736,0.883283,0.858657,0.831773,0.802578,0.77106,0.737259,0.701279,0.663297,0.623576,0.582462,0.540396,0.497893,0.455537,0.413947,0.373736,0.335466,0.299602,0.266462,0.236201,0.208807,0.184136,0.161971,0.142084,0.124281,0.108416,0.0943625,0.0819858,0.0711285,0.0616242,0.053317,0.0460826,0.0398047,0.0343619,0.0296566,0.0255906,0.0220937,0.0190762,0.0164876,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01573,1.01699,1.01834,1.01979,1.02134,1.02301,1.02479,1.02669,1.02873,1.03091,1.03323,1.03571,1.03836,1.04118,1.04418,1.04738,1.05077,1.05437,1.05818,1.06222,1.06649,1.071,1.07576,1.08076,1.08602,1.09154,1.09732,1.10336,1.10967,1.11623,1.12306,1.13013,1.13746,1.14502,1.1528,1.16079,1.16898,1.17735,1.18587,1.19452,1.20328,1.21212,1.22101,1.22991,1.23878,1.2476,1.25632,1.2649,1.2733,1.28148,1.28938,1.29696,1.30419,1.311,1.31737,1.32323,1.32856,1.33331,1.33744,1.34092,1.34372,1.3458,1.34716,1.34777,1.34762,1.3467,1.34502,1.34258,1.3394,1.3355,1.3309,1.32564,1.31976,1.31332,1.30635,1.29892,1.29109,1.28293,1.2745,1.26587,1.2571,1.24828,1.23946,1.2307,1.22206,1.2136,1.20536,1.19738,1.18969,1.18233,1.1753,1.16862,1.1623,1.15634,1.15072,1.14543,1.14046,1.13577,1.13135,1.12715,1.12315,1.11931,1.11559,1.11194,1.10832,1.10468,1.10096,1.09713,1.09311,1.08884,1.08427,1.07932,1.07392,1.06798,1.06141,1.05413,1.04604,1.03701,1.02695,1.01572,1.0032,0.989247,0.97373,0.956506,0.937436,0.916389,0.893241,0.867887,0.840246,0.810272,0.777962,0.743363,0.706594,0.667844,0.627388,0.585589,0.542899,0.499848,0.457028,0.415061,0.37456,0.336081,0.300074,0.266843,0.236523,0.209085,0.184375,0.162172,0.142248,0.124414,0.108525,0.0944548,0.082066,0.0711982,0.0616845,0.0533694,0.0461292,0.0398469,0.0343996,0.0296918,0.0256223,0.0221217,0.0191041,0.0165127,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0157,1.01696,1.01832,1.01977,1.02132,1.02299,1.02477,1.02668,1.02873,1.03091,1.03325,1.03574,1.0384,1.04123,1.04425,1.04747,1.05088,1.05451,1.05835,1.06243,1.06674,1.0713,1.0761,1.08117,1.08649,1.09209,1.09795,1.10409,1.11049,1.11718,1.12413,1.13134,1.13882,1.14654,1.15451,1.1627,1.1711,1.17969,1.18846,1.19738,1.20642,1.21555,1.22475,1.23398,1.2432,1.25238,1.26148,1.27046,1.27927,1.28786,1.2962,1.30423,1.3119,1.31918,1.32601,1.33235,1.33815,1.34338,1.34798,1.35193,1.35519,1.35774,1.35954,1.36059,1.36086,1.36036,1.35907,1.35701,1.35419,1.35063,1.34635,1.3414,1.3358,1.32962,1.32289,1.31568,1.30806,1.30008,1.29182,1.28333,1.27471,1.266,1.25728,1.24861,1.24005,1.23165,1.22346,1.21553,1.20788,1.20054,1.19353,1.18686,1.18054,1.17457,1.16894,1.16363,1.15863,1.15391,1.14945,1.1452,1.14115,1.13724,1.13344,1.1297,1.12598,1.12223,1.11839,1.11441,1.11023,1.10579,1.10102,1.09584,1.09019,1.08397,1.0771,1.06948,1.061,1.05157,1.04105,1.02932,1.01626,1.00172,0.985565,0.967657,0.947857,0.926033,0.902067,0.875859,0.847333,0.816452,0.783224,0.74771,0.710044,0.670431,0.629166,0.58663,0.543292,0.499697,0.456449,0.414172,0.373476,0.334906,0.298891,0.26571,0.235472,0.208126,0.183502,0.161374,0.141515,0.123745,0.107922,0.0939199,0.0815954,0.0707852,0.0613225,0.0530533,0.0458557,0.0396112,0.034197,0.0295176,0.0254764,0.0219974,0.0189989,0.016425,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01567,1.01693,1.01828,1.01974,1.02129,1.02296,1.02475,1.02667,1.02871,1.03091,1.03325,1.03575,1.03842,1.04127,1.04431,1.04754,1.05098,1.05463,1.0585,1.06261,1.06696,1.07156,1.07642,1.08154,1.08693,1.0926,1.09854,1.10477,1.11128,1.11807,1.12515,1.1325,1.14012,1.14801,1.15616,1.16454,1.17315,1.18197,1.19098,1.20016,1.20948,1.2189,1.22842,1.23798,1.24755,1.2571,1.26658,1.27595,1.28517,1.2942,1.30297,1.31145,1.31959,1.32734,1.33465,1.34147,1.34776,1.35347,1.35856,1.36299,1.36673,1.36975,1.37202,1.37352,1.37423,1.37415,1.37328,1.37161,1.36917,1.36597,1.36203,1.35739,1.35209,1.34619,1.33972,1.33275,1.32534,1.31755,1.30947,1.30114,1.29266,1.28408,1.27547,1.2669,1.25842,1.25009,1.24196,1.23408,1.22646,1.21915,1.21216,1.20551,1.1992,1.19323,1.18758,1.18226,1.17723,1.17248,1.16798,1.16369,1.15958,1.1556,1.15173,1.14791,1.14409,1.14022,1.13626,1.13214,1.12781,1.12319,1.11822,1.11283,1.10694,1.10045,1.09328,1.08533,1.0765,1.06666,1.05571,1.04351,1.02993,1.01483,0.99807,0.979515,0.959024,0.936469,0.911733,0.884721,0.855365,0.823633,0.789545,0.753174,0.714664,0.67424,0.632209,0.588968,0.545002,0.500869,0.45718,0.414561,0.373622,0.334894,0.298792,0.265574,0.235327,0.207982,0.18336,0.16123,0.141369,0.123601,0.107785,0.0937954,0.081485,0.0706874,0.0612362,0.0529777,0.0457909,0.0395556,0.0341509,0.0294801,0.0254456,0.0219737,0.018983,0.0164115,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01563,1.01689,1.01825,1.0197,1.02126,1.02293,1.02472,1.02664,1.0287,1.03089,1.03324,1.03575,1.03844,1.0413,1.04435,1.0476,1.05105,1.05473,1.05863,1.06277,1.06716,1.0718,1.07671,1.08188,1.08734,1.09307,1.09909,1.10541,1.11202,1.11892,1.12612,1.1336,1.14137,1.14942,1.15774,1.16632,1.17514,1.18418,1.19343,1.20287,1.21246,1.22218,1.23201,1.2419,1.25182,1.26174,1.27161,1.28138,1.29102,1.30047,1.30969,1.31863,1.32724,1.33547,1.34326,1.35058,1.35736,1.36357,1.36916,1.3741,1.37833,1.38184,1.38459,1.38655,1.38773,1.38809,1.38764,1.38639,1.38434,1.38151,1.37792,1.37362,1.36864,1.36302,1.35682,1.3501,1.34292,1.33534,1.32744,1.31929,1.31096,1.30251,1.29402,1.28555,1.27717,1.26891,1.26085,1.25302,1.24545,1.23817,1.2312,1.22457,1.21826,1.21228,1.20663,1.20129,1.19624,1.19146,1.18691,1.18257,1.1784,1.17436,1.17041,1.1665,1.16258,1.1586,1.15451,1.15025,1.14575,1.14095,1.13578,1.13016,1.12402,1.11725,1.10978,1.10149,1.09228,1.08204,1.07064,1.05795,1.04383,1.02816,1.01079,0.991573,0.97038,0.947082,0.921565,0.89374,0.863544,0.830956,0.796003,0.758771,0.719417,0.678181,0.635386,0.591444,0.546855,0.502187,0.458059,0.415102,0.373918,0.335029,0.298833,0.265567,0.235299,0.207944,0.183312,0.161169,0.141297,0.123522,0.107707,0.0937225,0.081419,0.0706287,0.0611836,0.0529318,0.0457522,0.0395234,0.034124,0.0294592,0.0254295,0.0219623,0.0189755,0.0164057,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01559,1.01685,1.01821,1.01966,1.02122,1.0229,1.02469,1.02661,1.02867,1.03087,1.03323,1.03575,1.03844,1.04131,1.04437,1.04764,1.05112,1.05481,1.05874,1.06291,1.06734,1.07202,1.07697,1.0822,1.08771,1.09351,1.09961,1.10601,1.11271,1.11972,1.12703,1.13465,1.14257,1.15077,1.15926,1.16803,1.17705,1.18632,1.19581,1.2055,1.21537,1.22539,1.23553,1.24575,1.25602,1.26631,1.27656,1.28674,1.2968,1.30669,1.31636,1.32576,1.33485,1.34356,1.35186,1.35967,1.36697,1.37369,1.37979,1.38524,1.38998,1.39399,1.39724,1.39969,1.40133,1.40216,1.40216,1.40133,1.39969,1.39725,1.39404,1.39009,1.38543,1.38012,1.3742,1.36775,1.36081,1.35345,1.34575,1.33778,1.32961,1.32131,1.31295,1.30459,1.2963,1.28813,1.28014,1.27236,1.26484,1.2576,1.25066,1.24404,1.23774,1.23177,1.22611,1.22075,1.21568,1.21086,1.20628,1.20189,1.19766,1.19356,1.18952,1.18552,1.1815,1.17741,1.17319,1.16878,1.16412,1.15914,1.15377,1.14792,1.14153,1.13449,1.1267,1.11808,1.1085,1.09785,1.08601,1.07284,1.0582,1.04197,1.02399,1.00413,0.982246,0.958223,0.931946,0.903331,0.87232,0.8389,0.803109,0.765041,0.724869,0.682844,0.639304,0.594674,0.549467,0.504263,0.459686,0.416368,0.374908,0.335819,0.299481,0.266118,0.235777,0.208361,0.183671,0.161473,0.14155,0.123733,0.107885,0.0938763,0.0815524,0.0707442,0.0612833,0.0530185,0.0458283,0.0395906,0.0341832,0.0295125,0.0254771,0.022004,0.0190152,0.0164427,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01555,1.01681,1.01816,1.01962,1.02118,1.02285,1.02465,1.02657,1.02863,1.03084,1.0332,1.03573,1.03843,1.04131,1.04439,1.04767,1.05116,1.05488,1.05883,1.06303,1.06749,1.07221,1.0772,1.08248,1.08805,1.09391,1.10008,1.10657,1.11336,1.12047,1.1279,1.13564,1.1437,1.15206,1.16072,1.16967,1.1789,1.18838,1.19811,1.20806,1.2182,1.22851,1.23896,1.24951,1.26014,1.27079,1.28143,1.29202,1.3025,1.31283,1.32296,1.33284,1.34241,1.35162,1.36041,1.36875,1.37656,1.3838,1.39043,1.3964,1.40167,1.4062,1.40995,1.41291,1.41504,1.41635,1.41681,1.41643,1.41521,1.41318,1.41035,1.40677,1.40245,1.39746,1.39185,1.38566,1.37898,1.37186,1.36437,1.35659,1.34859,1.34044,1.33221,1.32397,1.31578,1.3077,1.29978,1.29207,1.28459,1.27739,1.27048,1.26387,1.25758,1.25161,1.24594,1.24056,1.23545,1.2306,1.22596,1.22152,1.21722,1.21303,1.2089,1.20479,1.20065,1.19642,1.19204,1.18745,1.18259,1.17739,1.17177,1.16565,1.15895,1.15157,1.14342,1.13439,1.12436,1.11322,1.10083,1.08708,1.07181,1.05489,1.03618,1.01554,0.992827,0.967929,0.940739,0.911177,0.879196,0.844792,0.808015,0.768977,0.727866,0.684952,0.640592,0.595232,0.5494,0.503688,0.458728,0.415153,0.373553,0.334421,0.298117,0.264834,0.234595,0.207281,0.182683,0.160566,0.140718,0.122976,0.107207,0.0932754,0.0810231,0.0702799,0.0608751,0.0526622,0.0455215,0.0393249,0.0339564,0.0293162,0.0253096,0.0218614,0.0188955,0.016342,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0155,1.01676,1.01812,1.01957,1.02113,1.02281,1.0246,1.02653,1.02859,1.0308,1.03317,1.0357,1.03841,1.0413,1.04439,1.04768,1.05119,1.05493,1.0589,1.06313,1.06761,1.07237,1.0774,1.08273,1.08835,1.09428,1.10052,1.10708,1.11397,1.12118,1.12872,1.13658,1.14478,1.15329,1.16212,1.17125,1.18067,1.19037,1.20033,1.21053,1.22095,1.23155,1.24231,1.2532,1.26417,1.2752,1.28623,1.29722,1.30813,1.31891,1.3295,1.33985,1.34992,1.35963,1.36894,1.3778,1.38614,1.39392,1.40109,1.4076,1.4134,1.41846,1.42275,1.42622,1.42886,1.43066,1.4316,1.43168,1.43091,1.42931,1.42689,1.42368,1.41973,1.41508,1.40978,1.40389,1.39747,1.3906,1.38333,1.37576,1.36794,1.35995,1.35187,1.34376,1.33568,1.3277,1.31986,1.31221,1.30479,1.29763,1.29075,1.28417,1.27789,1.27192,1.26624,1.26085,1.25572,1.25083,1.24615,1.24165,1.23728,1.23302,1.2288,1.22459,1.22034,1.21597,1.21145,1.2067,1.20166,1.19625,1.19041,1.18404,1.17706,1.16938,1.16088,1.15148,1.14104,1.12946,1.11659,1.10231,1.08648,1.06895,1.04959,1.02825,1.0048,0.979131,0.951134,0.920737,0.887898,0.852623,0.814973,0.775071,0.733117,0.689397,0.644282,0.598233,0.551788,0.50555,0.460157,0.416241,0.374385,0.335073,0.298645,0.265278,0.234976,0.207609,0.18296,0.160793,0.140902,0.123126,0.107331,0.0933812,0.0811139,0.0703576,0.0609407,0.05272,0.0455725,0.0393704,0.0339968,0.0293517,0.025346,0.0218923,0.0189258,0.0163682,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01545,1.01671,1.01806,1.01952,1.02108,1.02275,1.02455,1.02648,1.02854,1.03076,1.03313,1.03566,1.03837,1.04127,1.04437,1.04768,1.0512,1.05496,1.05895,1.0632,1.06772,1.07251,1.07758,1.08295,1.08862,1.09461,1.10092,1.10756,1.11453,1.12184,1.12948,1.13747,1.1458,1.15446,1.16345,1.17276,1.18237,1.19229,1.20248,1.21293,1.22362,1.23451,1.24558,1.2568,1.26812,1.27952,1.29094,1.30235,1.31369,1.32491,1.33597,1.3468,1.35736,1.36759,1.37742,1.38681,1.3957,1.40403,1.41175,1.41881,1.42516,1.43077,1.4356,1.43961,1.44277,1.44508,1.44652,1.44708,1.44678,1.44562,1.44362,1.44081,1.43724,1.43294,1.42797,1.42238,1.41625,1.40963,1.40261,1.39525,1.38762,1.37981,1.37188,1.3639,1.35594,1.34806,1.34031,1.33273,1.32537,1.31826,1.31141,1.30485,1.29859,1.29261,1.28693,1.28151,1.27635,1.27142,1.26669,1.26212,1.25769,1.25333,1.24902,1.24469,1.2403,1.23579,1.2311,1.22616,1.22091,1.21527,1.20917,1.20251,1.19521,1.18717,1.17829,1.16846,1.15756,1.14546,1.13204,1.11716,1.10068,1.08246,1.06235,1.04022,1.01594,0.989394,0.960485,0.929145,0.895344,0.859097,0.820478,0.779624,0.736754,0.692168,0.646257,0.599497,0.552443,0.505707,0.459933,0.415751,0.373733,0.334346,0.297909,0.264572,0.234317,0.206998,0.182391,0.160261,0.140405,0.122669,0.106919,0.0930148,0.08079,0.0700718,0.0606894,0.0525006,0.0453833,0.0392062,0.0338567,0.0292327,0.0252453,0.0218078,0.0188551,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01539,1.01665,1.01801,1.01946,1.02102,1.02269,1.02449,1.02642,1.02849,1.0307,1.03307,1.03561,1.03833,1.04124,1.04434,1.04766,1.0512,1.05497,1.05898,1.06326,1.0678,1.07262,1.07773,1.08314,1.08886,1.09491,1.10128,1.10799,1.11504,1.12244,1.13019,1.1383,1.14675,1.15556,1.16471,1.17419,1.184,1.19413,1.20455,1.21525,1.2262,1.23738,1.24876,1.2603,1.27198,1.28375,1.29556,1.30738,1.31916,1.33083,1.34236,1.35369,1.36475,1.37549,1.38586,1.39579,1.40523,1.41412,1.4224,1.43003,1.43695,1.44312,1.44851,1.45307,1.45678,1.45962,1.46157,1.46264,1.46281,1.46211,1.46055,1.45817,1.45499,1.45106,1.44644,1.44117,1.43534,1.429,1.42222,1.41509,1.40767,1.40004,1.39228,1.38445,1.37661,1.36884,1.36118,1.35369,1.34639,1.33933,1.33252,1.32599,1.31973,1.31376,1.30807,1.30264,1.29745,1.29248,1.2877,1.28307,1.27856,1.27412,1.26971,1.26527,1.26075,1.25609,1.25123,1.24611,1.24065,1.23478,1.22842,1.22148,1.21387,1.20549,1.19623,1.18598,1.17463,1.16204,1.14808,1.13262,1.11552,1.09662,1.0758,1.05292,1.02784,1.00046,0.970677,0.938442,0.903726,0.866556,0.827016,0.785258,0.741512,0.696098,0.649418,0.601965,0.554306,0.507063,0.460882,0.416391,0.374155,0.334625,0.2981,0.264711,0.234423,0.207075,0.182439,0.160281,0.140403,0.122652,0.106897,0.0929919,0.0807673,0.0700496,0.0606683,0.052482,0.0453679,0.0391938,0.0338472,0.0292264,0.0252415,0.0218069,0.0188571,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01533,1.01659,1.01795,1.0194,1.02096,1.02263,1.02443,1.02635,1.02842,1.03064,1.03301,1.03555,1.03828,1.04119,1.0443,1.04763,1.05118,1.05496,1.059,1.06329,1.06785,1.0727,1.07785,1.0833,1.08907,1.09517,1.1016,1.10838,1.11551,1.123,1.13085,1.13907,1.14765,1.1566,1.1659,1.17556,1.18556,1.19589,1.20654,1.21748,1.2287,1.24016,1.25185,1.26372,1.27575,1.28788,1.30009,1.31233,1.32454,1.33667,1.34867,1.36049,1.37206,1.38333,1.39424,1.40472,1.41473,1.42418,1.43304,1.44125,1.44876,1.45551,1.46147,1.4666,1.47087,1.47425,1.47674,1.47832,1.479,1.47878,1.47768,1.47573,1.47296,1.46943,1.46517,1.46024,1.45472,1.44867,1.44216,1.43527,1.42807,1.42063,1.41304,1.40537,1.39767,1.39001,1.38246,1.37504,1.36781,1.36081,1.35404,1.34754,1.3413,1.33534,1.32963,1.32418,1.31897,1.31395,1.30912,1.30443,1.29984,1.2953,1.29078,1.28622,1.28156,1.27674,1.27171,1.26639,1.26071,1.25459,1.24796,1.24071,1.23277,1.22402,1.21436,1.20367,1.19183,1.17872,1.16419,1.14812,1.13035,1.11075,1.08918,1.0655,1.03958,1.01132,0.980636,0.947466,0.911799,0.873671,0.833179,0.790489,0.745847,0.699588,0.652131,0.603984,0.555727,0.507989,0.461421,0.416646,0.37422,0.334576,0.297994,0.264582,0.234285,0.206931,0.182287,0.160121,0.140239,0.122493,0.106748,0.0928557,0.0806463,0.0699412,0.060572,0.0523979,0.0452957,0.0391319,0.0337954,0.0291834,0.0252059,0.0217776,0.0188351,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01527,1.01653,1.01788,1.01933,1.02089,1.02256,1.02435,1.02628,1.02835,1.03056,1.03294,1.03549,1.03821,1.04113,1.04425,1.04758,1.05114,1.05494,1.05899,1.0633,1.06789,1.07276,1.07794,1.08343,1.08924,1.09539,1.10188,1.10873,1.11594,1.12351,1.13146,1.13979,1.14849,1.15757,1.16703,1.17686,1.18704,1.19757,1.20844,1.21962,1.2311,1.24285,1.25484,1.26704,1.27942,1.29193,1.30453,1.31718,1.32982,1.34242,1.3549,1.36721,1.3793,1.39111,1.40256,1.41361,1.42418,1.43422,1.44367,1.45247,1.46057,1.46792,1.47447,1.48019,1.48503,1.48899,1.49203,1.49415,1.49534,1.49562,1.495,1.49351,1.49117,1.48804,1.48416,1.4796,1.47441,1.46866,1.46243,1.45579,1.44882,1.4416,1.43419,1.42668,1.41913,1.4116,1.40415,1.39682,1.38967,1.38272,1.37601,1.36953,1.36332,1.35736,1.35165,1.34619,1.34094,1.33589,1.331,1.32624,1.32157,1.31694,1.31231,1.30762,1.30282,1.29784,1.29263,1.28711,1.2812,1.27483,1.26792,1.26037,1.25209,1.24297,1.2329,1.22177,1.20945,1.19581,1.18071,1.16403,1.14561,1.12531,1.10299,1.07852,1.05177,1.02265,0.991063,0.956974,0.920372,0.881305,0.839879,0.796275,0.750754,0.703665,0.655443,0.60661,0.557755,0.509517,0.462548,0.417469,0.374824,0.335032,0.298353,0.264875,0.234529,0.20713,0.182442,0.160235,0.140321,0.122552,0.106793,0.0928912,0.0806744,0.0699631,0.0605896,0.0524128,0.0453101,0.0391446,0.0338083,0.0291959,0.0252193,0.0217897,0.0188482,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01521,1.01646,1.01781,1.01926,1.02081,1.02248,1.02428,1.0262,1.02827,1.03048,1.03286,1.03541,1.03813,1.04105,1.04418,1.04752,1.05109,1.0549,1.05896,1.06329,1.0679,1.0728,1.078,1.08353,1.08938,1.09558,1.10212,1.10903,1.11631,1.12397,1.13201,1.14045,1.14927,1.15848,1.16809,1.17808,1.18844,1.19918,1.21026,1.22168,1.23342,1.24545,1.25774,1.27026,1.28299,1.29587,1.30886,1.32193,1.33501,1.34807,1.36103,1.37385,1.38646,1.3988,1.41081,1.42243,1.43358,1.44422,1.45427,1.46368,1.47239,1.48034,1.4875,1.49382,1.49926,1.5038,1.50741,1.51008,1.51182,1.51262,1.51249,1.51147,1.50959,1.50688,1.5034,1.49921,1.49437,1.48894,1.483,1.47663,1.46991,1.4629,1.45569,1.44835,1.44095,1.43356,1.42622,1.41899,1.41192,1.40503,1.39836,1.39192,1.38573,1.37977,1.37406,1.36857,1.36328,1.35818,1.35323,1.34839,1.34363,1.33889,1.33414,1.32931,1.32434,1.31918,1.31376,1.30801,1.30184,1.29519,1.28796,1.28006,1.2714,1.26185,1.25132,1.23968,1.22681,1.21258,1.19684,1.17946,1.16029,1.1392,1.11604,1.09068,1.063,1.0329,1.00032,0.965206,0.927567,0.887462,0.845013,0.800418,0.753954,0.705989,0.656975,0.607451,0.558019,0.509325,0.462023,0.416728,0.373968,0.334141,0.297481,0.264052,0.233762,0.206417,0.181775,0.159612,0.139742,0.122024,0.106319,0.0924705,0.0803021,0.0696342,0.0603009,0.0521609,0.0450918,0.0389565,0.0336473,0.0290571,0.025103,0.0216912,0.018764,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01514,1.01639,1.01774,1.01918,1.02073,1.0224,1.02419,1.02612,1.02818,1.03039,1.03277,1.03532,1.03805,1.04097,1.0441,1.04744,1.05102,1.05484,1.05891,1.06325,1.06788,1.07281,1.07804,1.08359,1.08949,1.09573,1.10232,1.10929,1.11664,1.12438,1.13251,1.14105,1.14999,1.15933,1.16908,1.17922,1.18977,1.2007,1.21199,1.22365,1.23564,1.24795,1.26054,1.27339,1.28645,1.2997,1.31309,1.32658,1.3401,1.35362,1.36707,1.38039,1.39353,1.40642,1.41899,1.43119,1.44294,1.45418,1.46484,1.47487,1.4842,1.49278,1.50057,1.5075,1.51356,1.5187,1.5229,1.52615,1.52844,1.52978,1.53018,1.52965,1.52824,1.52598,1.52292,1.51912,1.51464,1.50955,1.50392,1.49784,1.49137,1.4846,1.4776,1.47045,1.46321,1.45596,1.44874,1.44162,1.43464,1.42782,1.42121,1.41481,1.40863,1.40269,1.39697,1.39147,1.38616,1.38101,1.376,1.3711,1.36625,1.36141,1.35654,1.35157,1.34645,1.34112,1.3355,1.32953,1.32313,1.31621,1.30869,1.30046,1.29143,1.2815,1.27054,1.25843,1.24506,1.23027,1.21394,1.19593,1.17608,1.15427,1.13034,1.10417,1.07565,1.04468,1.01119,0.975148,0.93657,0.895525,0.852146,0.806643,0.759308,0.710521,0.660752,0.610548,0.560524,0.511332,0.463625,0.418014,0.375016,0.335015,0.298228,0.264698,0.234323,0.206899,0.182183,0.159951,0.140025,0.122262,0.106522,0.092645,0.0804528,0.0697629,0.0604111,0.0522563,0.0451754,0.0390294,0.0337118,0.0291141,0.0251544,0.0217366,0.0188055,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01506,1.01631,1.01766,1.0191,1.02065,1.02231,1.0241,1.02602,1.02808,1.0303,1.03267,1.03522,1.03795,1.04087,1.044,1.04735,1.05093,1.05476,1.05884,1.0632,1.06784,1.07279,1.07804,1.08363,1.08956,1.09584,1.10249,1.10951,1.11693,1.12474,1.13296,1.14159,1.15064,1.16011,1.16999,1.1803,1.19101,1.20213,1.21364,1.22553,1.23777,1.25035,1.26324,1.2764,1.28982,1.30343,1.31721,1.33111,1.34508,1.35906,1.373,1.38683,1.4005,1.41394,1.42709,1.43987,1.45222,1.46408,1.47537,1.48603,1.496,1.50522,1.51364,1.52122,1.5279,1.53367,1.53848,1.54232,1.5452,1.54709,1.54802,1.54802,1.54709,1.5453,1.54267,1.53928,1.53519,1.53045,1.52515,1.51936,1.51317,1.50664,1.49987,1.49291,1.48585,1.47875,1.47167,1.46466,1.45776,1.45103,1.44447,1.43811,1.43196,1.42603,1.42031,1.41479,1.40944,1.40425,1.39918,1.39419,1.38925,1.3843,1.37929,1.37418,1.36889,1.36337,1.35754,1.35134,1.34467,1.33746,1.32961,1.32103,1.31161,1.30125,1.28982,1.27721,1.26328,1.2479,1.23093,1.21223,1.19165,1.16905,1.1443,1.11726,1.08784,1.05592,1.02146,0.984437,0.944863,0.902823,0.858464,0.81201,0.76377,0.71414,0.663603,0.612722,0.56212,0.512455,0.464383,0.418504,0.375325,0.33521,0.298354,0.264782,0.234374,0.20692,0.182174,0.159917,0.139974,0.122203,0.106463,0.0925888,0.0803999,0.0697135,0.0603651,0.0522186,0.045142,0.0390008,0.0336886,0.0290956,0.0251401,0.0217257,0.0187995,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01499,1.01623,1.01757,1.01901,1.02056,1.02222,1.024,1.02592,1.02798,1.03019,1.03256,1.03511,1.03784,1.04076,1.04389,1.04724,1.05083,1.05466,1.05875,1.06312,1.06778,1.07274,1.07802,1.08364,1.0896,1.09591,1.10261,1.10969,1.11716,1.12505,1.13335,1.14207,1.15123,1.16082,1.17084,1.18129,1.19218,1.20348,1.2152,1.22731,1.2398,1.25265,1.26583,1.27931,1.29307,1.30705,1.32122,1.33554,1.34995,1.36439,1.37882,1.39317,1.40738,1.42138,1.4351,1.44848,1.46144,1.47392,1.48584,1.49715,1.50777,1.51765,1.52673,1.53496,1.5423,1.5487,1.55414,1.5586,1.56207,1.56455,1.56604,1.56657,1.56616,1.56485,1.56268,1.55972,1.55603,1.55166,1.54671,1.54124,1.53533,1.52907,1.52252,1.51578,1.50891,1.50197,1.49503,1.48814,1.48135,1.47469,1.46819,1.46188,1.45577,1.44985,1.44413,1.43859,1.43322,1.42798,1.42285,1.41778,1.41275,1.40769,1.40256,1.3973,1.39184,1.38613,1.3801,1.37365,1.36672,1.35922,1.35105,1.34212,1.33232,1.32154,1.30965,1.29654,1.28208,1.26612,1.24852,1.22915,1.20786,1.18451,1.15896,1.13108,1.10078,1.06797,1.03258,0.994601,0.95407,0.911075,0.865774,0.818404,0.769288,0.718835,0.667543,0.615986,0.564797,0.514637,0.466161,0.419965,0.376544,0.336247,0.299251,0.265565,0.235056,0.207508,0.182675,0.16034,0.14033,0.122506,0.106723,0.0928136,0.0805933,0.0698794,0.060508,0.0523429,0.0452504,0.0390954,0.0337712,0.0291684,0.0252051,0.0217866,0.0188518,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01491,1.01615,1.01749,1.01892,1.02046,1.02212,1.0239,1.02581,1.02787,1.03008,1.03245,1.03499,1.03771,1.04064,1.04377,1.04712,1.05071,1.05455,1.05865,1.06302,1.06769,1.07267,1.07797,1.08361,1.0896,1.09595,1.10269,1.10982,1.11735,1.1253,1.13368,1.1425,1.15175,1.16146,1.17161,1.18221,1.19326,1.20474,1.21666,1.22899,1.24173,1.25484,1.26831,1.28211,1.2962,1.31055,1.32511,1.33984,1.35469,1.36961,1.38453,1.39939,1.41414,1.4287,1.44301,1.45699,1.47057,1.48368,1.49626,1.50822,1.51951,1.53006,1.53981,1.54871,1.55671,1.56378,1.56987,1.57496,1.57905,1.58213,1.5842,1.58529,1.58541,1.5846,1.58291,1.5804,1.57712,1.57315,1.56856,1.56342,1.55781,1.55182,1.54553,1.539,1.53232,1.52556,1.51876,1.512,1.50531,1.49874,1.49231,1.48605,1.47996,1.47406,1.46834,1.46278,1.45736,1.45207,1.44687,1.44171,1.43657,1.43138,1.42611,1.42068,1.41503,1.40911,1.40283,1.39611,1.38889,1.38106,1.37252,1.36319,1.35295,1.34169,1.32929,1.31561,1.30053,1.28392,1.26561,1.24549,1.22339,1.19919,1.17274,1.14392,1.11264,1.07881,1.04239,1.00336,0.961769,0.917723,0.871395,0.823037,0.772989,0.721678,0.669615,0.61739,0.565646,0.515048,0.466248,0.419834,0.376283,0.335923,0.298906,0.265221,0.234719,0.207176,0.182346,0.160018,0.140022,0.122219,0.106463,0.0925805,0.0803846,0.0696935,0.0603439,0.0521999,0.0451269,0.0389891,0.0336809,0.0290911,0.0251411,0.0217323,0.0188052,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01482,1.01606,1.01739,1.01882,1.02036,1.02202,1.02379,1.0257,1.02775,1.02995,1.03232,1.03486,1.03758,1.0405,1.04363,1.04698,1.05057,1.05441,1.05852,1.0629,1.06758,1.07258,1.07789,1.08355,1.08957,1.09595,1.10273,1.1099,1.11749,1.12551,1.13396,1.14286,1.15221,1.16203,1.1723,1.18305,1.19425,1.20592,1.21803,1.23058,1.24355,1.25693,1.27068,1.28479,1.29922,1.31393,1.32888,1.34402,1.35931,1.37469,1.39011,1.40549,1.42078,1.43591,1.45081,1.4654,1.47961,1.49337,1.5066,1.51923,1.5312,1.54244,1.55288,1.56247,1.57115,1.57889,1.58565,1.59141,1.59613,1.59983,1.60251,1.60417,1.60484,1.60456,1.60337,1.60133,1.59849,1.59492,1.59071,1.58592,1.58063,1.57493,1.56889,1.5626,1.55613,1.54954,1.54291,1.53628,1.52971,1.52322,1.51687,1.51065,1.5046,1.49871,1.49298,1.4874,1.48195,1.4766,1.47132,1.46607,1.46081,1.45549,1.45006,1.44445,1.43861,1.43245,1.42592,1.41892,1.41138,1.4032,1.39429,1.38454,1.37384,1.36208,1.34914,1.33487,1.31916,1.30186,1.28282,1.26191,1.23899,1.2139,1.18653,1.15675,1.12446,1.08959,1.05211,1.01201,0.969342,0.924233,0.876867,0.827515,0.776531,0.724362,0.671534,0.61865,0.566362,0.515341,0.466232,0.419614,0.375946,0.335532,0.298503,0.264824,0.234334,0.206798,0.181976,0.159657,0.13968,0.121904,0.106178,0.0923249,0.0801561,0.0694902,0.0601646,0.0520438,0.0449922,0.0388722,0.0335803,0.0290078,0.0250686,0.021673,0.0187558,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01474,1.01597,1.0173,1.01872,1.02026,1.0219,1.02368,1.02558,1.02762,1.02982,1.03218,1.03472,1.03743,1.04035,1.04348,1.04683,1.05042,1.05426,1.05837,1.06276,1.06745,1.07245,1.07778,1.08346,1.0895,1.09592,1.10273,1.10994,1.11758,1.12566,1.13418,1.14316,1.15261,1.16253,1.17293,1.1838,1.19516,1.207,1.2193,1.23206,1.24527,1.2589,1.27294,1.28735,1.30211,1.31718,1.33252,1.34807,1.3638,1.37965,1.39556,1.41147,1.42731,1.44301,1.4585,1.4737,1.48855,1.50296,1.51687,1.53018,1.54285,1.55478,1.56593,1.57622,1.58561,1.59405,1.60149,1.60792,1.61332,1.61766,1.62095,1.62321,1.62446,1.62473,1.62406,1.62251,1.62013,1.61699,1.61317,1.60875,1.6038,1.5984,1.59264,1.5866,1.58035,1.57396,1.56749,1.56101,1.55455,1.54817,1.54189,1.53573,1.52972,1.52385,1.51812,1.51252,1.50703,1.50162,1.49627,1.49093,1.48556,1.48011,1.47452,1.46874,1.46269,1.45631,1.44952,1.44225,1.43439,1.42587,1.41658,1.40642,1.39527,1.38301,1.36953,1.35469,1.33835,1.32038,1.30063,1.27896,1.25523,1.22929,1.20102,1.1703,1.13704,1.10118,1.06267,1.02154,0.977837,0.931703,0.883337,0.833023,0.781132,0.728125,0.674543,0.621,0.568156,0.516683,0.467226,0.420353,0.376505,0.33597,0.298857,0.265113,0.234565,0.206976,0.182104,0.159744,0.139738,0.121943,0.106205,0.0923441,0.0801684,0.0694977,0.0601693,0.0520475,0.044995,0.0388758,0.0335846,0.0290133,0.0250748,0.0216806,0.0187641,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01465,1.01588,1.0172,1.01862,1.02014,1.02179,1.02355,1.02545,1.02749,1.02968,1.03204,1.03456,1.03728,1.04019,1.04331,1.04666,1.05025,1.05409,1.0582,1.0626,1.06729,1.0723,1.07765,1.08334,1.0894,1.09584,1.10268,1.10994,1.11763,1.12576,1.13434,1.1434,1.15293,1.16296,1.17347,1.18448,1.19599,1.20799,1.22048,1.23345,1.24688,1.26077,1.27508,1.2898,1.30488,1.3203,1.33602,1.35199,1.36816,1.38448,1.40088,1.41731,1.4337,1.44997,1.46606,1.48189,1.49739,1.51246,1.52705,1.54106,1.55443,1.56708,1.57895,1.58996,1.60007,1.60923,1.61738,1.62451,1.63059,1.6356,1.63954,1.64242,1.64427,1.6451,1.64498,1.64394,1.64204,1.63935,1.63595,1.63191,1.62732,1.62224,1.61678,1.611,1.60498,1.59879,1.59251,1.58618,1.57986,1.57358,1.56739,1.5613,1.55533,1.54948,1.54376,1.53814,1.53262,1.52717,1.52174,1.51631,1.51083,1.50525,1.49951,1.49355,1.4873,1.4807,1.47366,1.46611,1.45794,1.44908,1.43942,1.42885,1.41725,1.40452,1.39051,1.37511,1.35817,1.33954,1.3191,1.29669,1.27217,1.24541,1.21627,1.18466,1.15047,1.11364,1.07416,1.03203,0.987334,0.940215,0.890885,0.83964,0.786867,0.733038,0.678707,0.624499,0.571078,0.519122,0.469269,0.422081,0.377987,0.337257,0.299985,0.266103,0.235429,0.207722,0.182743,0.160289,0.140204,0.122343,0.106551,0.0926433,0.0804261,0.0697198,0.0603611,0.0522139,0.0451386,0.0390013,0.0336946,0.0291093,0.0251596,0.0217549,0.01883,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01455,1.01578,1.01709,1.01851,1.02003,1.02166,1.02342,1.02531,1.02735,1.02953,1.03188,1.0344,1.03711,1.04002,1.04314,1.04648,1.05006,1.0539,1.05801,1.06241,1.06711,1.07212,1.07748,1.08318,1.08926,1.09573,1.1026,1.10989,1.11762,1.1258,1.13445,1.14358,1.15319,1.16331,1.17393,1.18507,1.19672,1.20888,1.22155,1.23472,1.24838,1.26251,1.2771,1.29211,1.30752,1.3233,1.33939,1.35577,1.37238,1.38916,1.40606,1.42301,1.43995,1.45681,1.47351,1.48997,1.50611,1.52186,1.53714,1.55186,1.56595,1.57933,1.59193,1.60369,1.61454,1.62443,1.63332,1.64116,1.64794,1.65364,1.65825,1.66178,1.66425,1.66569,1.66612,1.66562,1.66422,1.66201,1.65905,1.65542,1.65119,1.64646,1.64131,1.63581,1.63004,1.62408,1.61799,1.61183,1.60565,1.59949,1.5934,1.58738,1.58147,1.57565,1.56994,1.56432,1.55877,1.55327,1.54779,1.54227,1.53669,1.53099,1.5251,1.51898,1.51254,1.50573,1.49845,1.49064,1.48218,1.473,1.46299,1.45203,1.44002,1.42683,1.41234,1.39641,1.3789,1.35968,1.33859,1.3155,1.29026,1.26273,1.23281,1.20036,1.16532,1.12761,1.08722,1.04418,0.998572,0.950539,0.900307,0.848185,0.794567,0.739938,0.684859,0.629964,0.575924,0.523416,0.47308,0.425472,0.381012,0.339961,0.302403,0.26826,0.237347,0.209418,0.184236,0.161599,0.141351,0.123348,0.10743,0.0934102,0.0810941,0.0703006,0.0608657,0.0526521,0.0455188,0.039331,0.0339806,0.0293575,0.0253751,0.0219422,0.018993,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01445,1.01567,1.01698,1.01839,1.01991,1.02153,1.02329,1.02517,1.0272,1.02937,1.03171,1.03423,1.03693,1.03983,1.04294,1.04628,1.04986,1.0537,1.0578,1.0622,1.0669,1.07192,1.07728,1.083,1.08909,1.09557,1.10247,1.10979,1.11756,1.12579,1.13449,1.14369,1.15338,1.16359,1.17432,1.18557,1.19736,1.20968,1.22252,1.23589,1.24977,1.26414,1.27899,1.29429,1.31002,1.32615,1.34262,1.3594,1.37644,1.39369,1.41109,1.42857,1.44606,1.4635,1.4808,1.4979,1.5147,1.53113,1.54711,1.56255,1.57737,1.5915,1.60485,1.61736,1.62897,1.63962,1.64926,1.65784,1.66535,1.67176,1.67706,1.68126,1.68438,1.68643,1.68745,1.68751,1.68664,1.68492,1.68241,1.67921,1.67537,1.671,1.66617,1.66097,1.65546,1.64973,1.64385,1.63786,1.63184,1.62581,1.61981,1.61387,1.60801,1.60223,1.59653,1.59091,1.58533,1.57978,1.57422,1.56861,1.56292,1.55708,1.55103,1.54473,1.53809,1.53104,1.52351,1.5154,1.50663,1.4971,1.4867,1.47532,1.46286,1.44918,1.43415,1.41765,1.39953,1.37964,1.35786,1.33402,1.308,1.27966,1.24887,1.21553,1.17956,1.14091,1.09956,1.05554,1.00895,0.959952,0.908771,0.855731,0.801239,0.745791,0.689959,0.634386,0.579749,0.526726,0.475955,0.427983,0.383222,0.341917,0.304138,0.269799,0.238704,0.210608,0.185273,0.162499,0.142133,0.124028,0.108022,0.093925,0.0815409,0.0706879,0.0612015,0.0529434,0.0457716,0.0395503,0.0341714,0.0295232,0.0255198,0.022071,0.0191034,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01435,1.01556,1.01687,1.01827,1.01978,1.0214,1.02314,1.02502,1.02704,1.02921,1.03154,1.03405,1.03674,1.03963,1.04274,1.04607,1.04964,1.05347,1.05757,1.06196,1.06666,1.07169,1.07705,1.08278,1.08888,1.09538,1.1023,1.10965,1.11745,1.12572,1.13448,1.14373,1.1535,1.16379,1.17462,1.18599,1.19791,1.21037,1.22338,1.23694,1.25102,1.26563,1.28074,1.29633,1.31237,1.32883,1.34568,1.36286,1.38033,1.39804,1.41593,1.43393,1.45198,1.46999,1.48791,1.50564,1.52311,1.54022,1.55691,1.57307,1.58863,1.60351,1.61762,1.6309,1.64328,1.6547,1.6651,1.67444,1.68269,1.68983,1.69584,1.70072,1.70449,1.70718,1.7088,1.70943,1.7091,1.70788,1.70584,1.70307,1.69964,1.69563,1.69112,1.68621,1.68097,1.67546,1.66977,1.66395,1.65806,1.65214,1.64622,1.64033,1.63449,1.62871,1.62298,1.61729,1.61163,1.60596,1.60026,1.59448,1.58859,1.58251,1.5762,1.56959,1.5626,1.55517,1.54721,1.53864,1.52934,1.51924,1.50822,1.49616,1.48295,1.46846,1.45256,1.43512,1.41599,1.39502,1.37208,1.34703,1.31972,1.29002,1.25782,1.22302,1.18555,1.14537,1.10247,1.05693,1.00884,0.958391,0.905851,0.851567,0.795978,0.739606,0.683052,0.626975,0.572058,0.518978,0.468351,0.420691,0.376363,0.335563,0.298313,0.264487,0.233869,0.206209,0.181279,0.158895,0.138903,0.121158,0.105485,0.0916887,0.0795757,0.0689634,0.0596976,0.0516377,0.0446379,0.0385703,0.0333235,0.0287962,0.0248915,0.0215366,0.0186438,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01424,1.01545,1.01675,1.01814,1.01964,1.02126,1.02299,1.02486,1.02687,1.02903,1.03135,1.03385,1.03654,1.03942,1.04251,1.04584,1.0494,1.05322,1.05732,1.06171,1.0664,1.07143,1.07679,1.08252,1.08864,1.09515,1.10208,1.10946,1.11729,1.1256,1.1344,1.14371,1.15355,1.16392,1.17484,1.18632,1.19836,1.21097,1.22414,1.23788,1.25217,1.26701,1.28237,1.29824,1.31459,1.33139,1.3486,1.36618,1.38408,1.40225,1.42063,1.43915,1.45775,1.47636,1.49489,1.51327,1.5314,1.54922,1.56662,1.58352,1.59984,1.61548,1.63038,1.64445,1.65762,1.66983,1.68102,1.69115,1.70017,1.70806,1.71481,1.72041,1.72487,1.72822,1.73048,1.73171,1.73195,1.73127,1.72973,1.72742,1.72442,1.72081,1.71666,1.71208,1.70712,1.70188,1.69642,1.69079,1.68507,1.67929,1.67348,1.66768,1.6619,1.65616,1.65044,1.64475,1.63905,1.63333,1.62755,1.62167,1.61565,1.60942,1.60294,1.59612,1.58891,1.58123,1.57298,1.56409,1.55445,1.54396,1.53252,1.52001,1.50631,1.49129,1.47483,1.45677,1.43698,1.41532,1.39165,1.36581,1.33768,1.30712,1.27403,1.2383,1.19988,1.15872,1.11484,1.06829,1.01921,0.967785,0.914289,0.859086,0.802625,0.745442,0.688147,0.631405,0.575905,0.522323,0.471272,0.423257,0.37863,0.337575,0.300099,0.266069,0.235262,0.207428,0.182341,0.159817,0.139705,0.121857,0.106093,0.0922169,0.0800337,0.0693603,0.0600417,0.0519362,0.0448968,0.0387948,0.0335185,0.028966,0.0250393,0.0216656,0.0187563,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01413,1.01533,1.01662,1.01801,1.0195,1.02111,1.02284,1.0247,1.0267,1.02885,1.03116,1.03365,1.03632,1.03919,1.04228,1.04559,1.04915,1.05296,1.05705,1.06143,1.06612,1.07114,1.0765,1.08224,1.08835,1.09488,1.10183,1.10922,1.11708,1.12542,1.13426,1.14363,1.15352,1.16397,1.17498,1.18656,1.19871,1.21146,1.22479,1.2387,1.25319,1.26825,1.28386,1.3,1.31665,1.33378,1.35135,1.36933,1.38765,1.40628,1.42515,1.44419,1.46335,1.48254,1.50169,1.52071,1.53952,1.55804,1.57617,1.59382,1.6109,1.62733,1.64302,1.6579,1.67188,1.6849,1.6969,1.70782,1.71764,1.7263,1.73381,1.74015,1.74533,1.74936,1.75228,1.75413,1.75497,1.75484,1.75383,1.752,1.74945,1.74625,1.74248,1.73823,1.73358,1.72861,1.72338,1.71796,1.71241,1.70677,1.70108,1.69537,1.68965,1.68394,1.67823,1.67252,1.66678,1.66099,1.65512,1.64912,1.64295,1.63655,1.62986,1.62282,1.61535,1.60737,1.5988,1.58954,1.57951,1.56859,1.55668,1.54365,1.5294,1.51378,1.49666,1.47791,1.45738,1.43494,1.41043,1.38371,1.35465,1.32313,1.28903,1.25226,1.21277,1.17053,1.12554,1.0779,1.02773,0.975232,0.920708,0.86453,0.807162,0.749154,0.69113,0.633761,0.577742,0.523747,0.47238,0.424131,0.379337,0.338159,0.300587,0.266474,0.23559,0.207685,0.182536,0.159964,0.139818,0.121945,0.106164,0.0922726,0.0800771,0.0693947,0.0600699,0.0519605,0.0449177,0.0388132,0.0335356,0.0289821,0.0250548,0.0216802,0.0187745,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01402,1.01521,1.01649,1.01787,1.01936,1.02096,1.02267,1.02452,1.02651,1.02865,1.03096,1.03343,1.03609,1.03895,1.04203,1.04533,1.04887,1.05268,1.05675,1.06113,1.06581,1.07082,1.07618,1.08191,1.08803,1.09456,1.10152,1.10893,1.11681,1.12518,1.13406,1.14347,1.15342,1.16394,1.17503,1.1867,1.19897,1.21184,1.22532,1.2394,1.25408,1.26935,1.2852,1.30161,1.31856,1.33602,1.35394,1.3723,1.39105,1.41013,1.42948,1.44905,1.46876,1.48854,1.50831,1.52798,1.54748,1.5667,1.58556,1.60397,1.62183,1.63906,1.65556,1.67126,1.68607,1.69992,1.71274,1.72449,1.73512,1.74459,1.75288,1.75999,1.7659,1.77065,1.77426,1.77676,1.77821,1.77867,1.7782,1.77689,1.7748,1.77203,1.76866,1.76477,1.76045,1.75576,1.75079,1.74559,1.74023,1.73475,1.72919,1.72358,1.71793,1.71226,1.70657,1.70085,1.69508,1.68923,1.68328,1.67717,1.67086,1.6643,1.65742,1.65016,1.64245,1.63419,1.62531,1.61572,1.60531,1.59398,1.58163,1.56812,1.55334,1.53716,1.51944,1.50004,1.47883,1.45565,1.43037,1.40284,1.37293,1.34052,1.30549,1.26777,1.2273,1.18406,1.13806,1.0894,1.03822,0.984728,0.929236,0.87213,0.813885,0.755062,0.696294,0.638261,0.58166,0.527164,0.475372,0.426767,0.38167,0.34023,0.302426,0.268101,0.237022,0.208937,0.183625,0.160911,0.140642,0.122662,0.106788,0.0928145,0.0805468,0.0698016,0.0604225,0.0522663,0.0451813,0.0390429,0.0337351,0.0291555,0.0252058,0.0218122,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0139,1.01509,1.01636,1.01773,1.01921,1.0208,1.02251,1.02434,1.02632,1.02845,1.03074,1.0332,1.03585,1.0387,1.04176,1.04505,1.04858,1.05237,1.05644,1.0608,1.06547,1.07048,1.07583,1.08156,1.08768,1.09421,1.10117,1.10859,1.11649,1.12488,1.1338,1.14324,1.15325,1.16382,1.17499,1.18675,1.19912,1.21212,1.22573,1.23998,1.25484,1.27032,1.2864,1.30307,1.3203,1.33808,1.35635,1.37509,1.39425,1.41378,1.43362,1.4537,1.47396,1.49433,1.51472,1.53504,1.55522,1.57515,1.59476,1.61393,1.63258,1.65061,1.66794,1.68446,1.70011,1.71481,1.72848,1.74108,1.75254,1.76283,1.77193,1.77981,1.78649,1.79198,1.79629,1.79946,1.80155,1.80261,1.80271,1.80192,1.80032,1.798,1.79504,1.79152,1.78752,1.78313,1.77842,1.77345,1.76827,1.76295,1.75751,1.75199,1.74641,1.74077,1.73508,1.72933,1.7235,1.71757,1.7115,1.70525,1.69877,1.692,1.68488,1.67735,1.66933,1.66073,1.65147,1.64146,1.63059,1.61876,1.60585,1.59175,1.57633,1.55946,1.541,1.52081,1.49875,1.47467,1.44844,1.41991,1.38895,1.35545,1.31929,1.28041,1.23874,1.19429,1.14708,1.09721,1.04483,0.990195,0.933608,0.875478,0.816302,0.756655,0.697184,0.638578,0.581535,0.526726,0.474734,0.426023,0.38089,0.339457,0.301679,0.267385,0.236333,0.208275,0.182994,0.160319,0.140098,0.12217,0.106345,0.0924198,0.0801953,0.0694908,0.0601502,0.052029,0.0449752,0.0388649,0.0335829,0.0290252,0.0250946,0.02172,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01378,1.01496,1.01622,1.01759,1.01905,1.02063,1.02233,1.02416,1.02612,1.02824,1.03052,1.03297,1.0356,1.03843,1.04148,1.04475,1.04827,1.05205,1.0561,1.06045,1.06511,1.0701,1.07545,1.08117,1.08728,1.09381,1.10078,1.10821,1.11611,1.12453,1.13347,1.14295,1.153,1.16363,1.17486,1.1867,1.19918,1.21228,1.22603,1.24043,1.25547,1.27114,1.28745,1.30437,1.32189,1.33997,1.35859,1.3777,1.39727,1.41724,1.43756,1.45816,1.47898,1.49993,1.52094,1.54192,1.56278,1.58344,1.60379,1.62374,1.64319,1.66204,1.6802,1.69758,1.7141,1.72966,1.7442,1.75766,1.76998,1.78112,1.79106,1.79976,1.80723,1.81348,1.81852,1.8224,1.82516,1.82686,1.82755,1.82732,1.82624,1.82439,1.82187,1.81875,1.81512,1.81105,1.80663,1.8019,1.79695,1.79181,1.78652,1.78112,1.77563,1.77005,1.76439,1.75865,1.7528,1.74682,1.74067,1.73432,1.72771,1.72079,1.71349,1.70575,1.69748,1.68862,1.67906,1.66872,1.65749,1.64526,1.63193,1.61736,1.60144,1.58403,1.565,1.5442,1.52149,1.49673,1.46978,1.44049,1.40874,1.37441,1.3374,1.29763,1.25506,1.20968,1.16153,1.11072,1.0574,1.00183,0.944324,0.885303,0.82527,0.764808,0.704571,0.645254,0.587558,0.532154,0.479625,0.430428,0.384854,0.343018,0.30487,0.270234,0.238867,0.210518,0.184974,0.162061,0.141628,0.123512,0.107519,0.0934443,0.0810877,0.0702669,0.0608243,0.0526138,0.0454821,0.039304,0.033963,0.0293543,0.0253802,0.0219666,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01365,1.01482,1.01608,1.01743,1.01889,1.02046,1.02214,1.02396,1.02591,1.02802,1.03028,1.03272,1.03534,1.03815,1.04119,1.04444,1.04794,1.0517,1.05574,1.06007,1.06472,1.0697,1.07503,1.08074,1.08685,1.09337,1.10034,1.10777,1.11568,1.12411,1.13307,1.14258,1.15267,1.16335,1.17464,1.18656,1.19912,1.21233,1.2262,1.24074,1.25595,1.27182,1.28834,1.3055,1.32329,1.34167,1.36062,1.3801,1.40007,1.42048,1.44127,1.46238,1.48374,1.50527,1.5269,1.54854,1.57009,1.59146,1.61256,1.63329,1.65354,1.67322,1.69223,1.71047,1.72786,1.7443,1.75973,1.77407,1.78727,1.79927,1.81005,1.81959,1.82787,1.8349,1.8407,1.8453,1.84874,1.85108,1.85239,1.85272,1.85217,1.85081,1.84873,1.84602,1.84275,1.839,1.83486,1.83038,1.82563,1.82065,1.8155,1.8102,1.80477,1.79922,1.79356,1.78778,1.78186,1.77577,1.76949,1.76296,1.75615,1.74898,1.74141,1.73335,1.72473,1.71547,1.70548,1.69465,1.6829,1.67009,1.65613,1.64089,1.62424,1.60605,1.58617,1.56448,1.54082,1.51505,1.48703,1.45662,1.42371,1.38816,1.3499,1.30884,1.26496,1.21825,1.16878,1.11666,1.06207,1.00527,0.946615,0.886537,0.82556,0.764288,0.703387,0.643562,0.585513,0.529903,0.477296,0.428122,0.382642,0.340939,0.302935,0.268438,0.237199,0.208972,0.183548,0.160759,0.140455,0.122463,0.106587,0.0926183,0.0803582,0.0696263,0.0602644,0.0521278,0.0450595,0.0389402,0.0336493,0.0290861,0.025149,0.0217705,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01352,1.01468,1.01593,1.01728,1.01872,1.02028,1.02195,1.02376,1.0257,1.02779,1.03003,1.03245,1.03506,1.03786,1.04087,1.04411,1.0476,1.05134,1.05536,1.05967,1.0643,1.06926,1.07458,1.08028,1.08637,1.09289,1.09985,1.10728,1.1152,1.12363,1.13261,1.14214,1.15226,1.16298,1.17433,1.18631,1.19895,1.21227,1.22625,1.24093,1.25629,1.27234,1.28907,1.30647,1.32452,1.3432,1.36247,1.38232,1.40268,1.42352,1.44478,1.46639,1.4883,1.51041,1.53266,1.55495,1.5772,1.5993,1.62116,1.64267,1.66374,1.68427,1.70414,1.72326,1.74154,1.75888,1.77522,1.79046,1.80457,1.81747,1.82913,1.83953,1.84865,1.8565,1.86309,1.86844,1.87261,1.87563,1.87758,1.87852,1.87854,1.8777,1.8761,1.87382,1.87095,1.86756,1.86373,1.85953,1.85502,1.85025,1.84527,1.8401,1.83477,1.82929,1.82367,1.8179,1.81196,1.80582,1.79946,1.79282,1.78587,1.77854,1.77076,1.76248,1.7536,1.74406,1.73374,1.72256,1.71042,1.6972,1.68278,1.66705,1.64987,1.63111,1.61063,1.58829,1.56395,1.53747,1.5087,1.4775,1.44376,1.40736,1.36821,1.32625,1.28144,1.23379,1.18336,1.13027,1.07472,1.01697,0.957387,0.896406,0.834564,0.77247,0.7108,0.650261,0.591558,0.535353,0.482206,0.432544,0.386621,0.344513,0.306136,0.271294,0.239736,0.211216,0.185527,0.1625,0.141983,0.123802,0.107758,0.0936398,0.0812475,0.0703994,0.0609357,0.0527099,0.0455639,0.039377,0.0340274,0.0294134,0.0254326,0.0220158,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01339,1.01454,1.01578,1.01711,1.01855,1.02009,1.02175,1.02354,1.02547,1.02755,1.02978,1.03218,1.03477,1.03755,1.04055,1.04377,1.04723,1.05096,1.05495,1.05925,1.06386,1.0688,1.0741,1.07978,1.08586,1.09236,1.09931,1.10673,1.11465,1.12309,1.13207,1.14163,1.15177,1.16253,1.17392,1.18596,1.19868,1.21208,1.22617,1.24098,1.25649,1.27271,1.28963,1.30725,1.32555,1.34452,1.36411,1.3843,1.40505,1.42631,1.44803,1.47014,1.49258,1.51527,1.53813,1.56108,1.58401,1.60684,1.62946,1.65176,1.67365,1.69502,1.71576,1.73577,1.75495,1.7732,1.79046,1.80663,1.82164,1.83546,1.84802,1.8593,1.86928,1.87796,1.88535,1.89148,1.89638,1.9001,1.90271,1.90427,1.90485,1.90455,1.90343,1.9016,1.89912,1.89609,1.89257,1.88864,1.88435,1.87977,1.87494,1.86988,1.86462,1.85918,1.85356,1.84775,1.84173,1.83548,1.82897,1.82216,1.81498,1.80739,1.79932,1.7907,1.78145,1.77148,1.7607,1.74901,1.73631,1.72248,1.7074,1.69096,1.67302,1.65344,1.63208,1.60882,1.58349,1.55596,1.52609,1.49375,1.45882,1.42118,1.38075,1.33748,1.29133,1.24234,1.19058,1.13618,1.07935,1.02039,0.959658,0.897633,0.834866,0.771983,0.709672,0.648647,0.589613,0.533217,0.480003,0.430368,0.384537,0.342551,0.304306,0.269591,0.238149,0.209742,0.184166,0.161259,0.140863,0.122802,0.106869,0.0928523,0.0805513,0.0697877,0.0604009,0.0522443,0.0451601,0.0390288,0.0337262,0.0291562,0.0252123,0.0218269,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01325,1.01439,1.01562,1.01694,1.01837,1.0199,1.02155,1.02332,1.02524,1.0273,1.02951,1.0319,1.03447,1.03723,1.04021,1.04341,1.04685,1.05055,1.05453,1.0588,1.06339,1.06831,1.07359,1.07924,1.0853,1.09179,1.09873,1.10614,1.11405,1.12248,1.13147,1.14103,1.1512,1.16198,1.17341,1.18551,1.19829,1.21177,1.22596,1.24088,1.25653,1.27291,1.29003,1.30786,1.32641,1.34564,1.36554,1.38608,1.40721,1.42888,1.45105,1.47366,1.49663,1.5199,1.54337,1.56697,1.5906,1.61415,1.63754,1.66064,1.68336,1.70559,1.72721,1.74813,1.76823,1.78742,1.80562,1.82274,1.8387,1.85345,1.86694,1.87914,1.89001,1.89956,1.90779,1.91473,1.92041,1.92487,1.92817,1.93038,1.93158,1.93184,1.93125,1.92989,1.92785,1.92521,1.92204,1.91842,1.9144,1.91005,1.9054,1.90049,1.89535,1.88999,1.88441,1.87861,1.87258,1.86628,1.85968,1.85275,1.84543,1.83766,1.82938,1.82052,1.81099,1.80071,1.78959,1.77753,1.76441,1.75014,1.73458,1.71762,1.69912,1.67895,1.65697,1.63303,1.607,1.57873,1.54808,1.51493,1.47914,1.44063,1.39929,1.35509,1.308,1.25804,1.2053,1.14992,1.09212,1.03219,0.970527,0.907591,0.843951,0.780242,0.717156,0.655415,0.595723,0.538729,0.484972,0.434845,0.388565,0.346168,0.307543,0.272476,0.240711,0.212006,0.186162,0.163014,0.142404,0.124152,0.108048,0.0938806,0.0814457,0.0705655,0.0610761,0.0528298,0.0456672,0.0394678,0.0341062,0.0294849,0.0254971,0.0220737,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0131,1.01424,1.01546,1.01677,1.01818,1.0197,1.02134,1.0231,1.02499,1.02704,1.02923,1.0316,1.03415,1.0369,1.03985,1.04303,1.04645,1.05012,1.05408,1.05832,1.06289,1.06778,1.07304,1.07867,1.08471,1.09117,1.09809,1.10549,1.11339,1.12182,1.1308,1.14037,1.15054,1.16135,1.17281,1.18495,1.19778,1.21134,1.22562,1.24064,1.25642,1.27295,1.29024,1.30828,1.32706,1.34656,1.36675,1.38762,1.40911,1.43119,1.45381,1.4769,1.5004,1.52423,1.54831,1.57255,1.59687,1.62115,1.6453,1.66921,1.69276,1.71585,1.73836,1.76019,1.78122,1.80137,1.82052,1.8386,1.85552,1.87123,1.88567,1.89879,1.91058,1.92102,1.93011,1.93788,1.94435,1.94956,1.95358,1.95646,1.95829,1.95913,1.95908,1.95821,1.95661,1.95436,1.95155,1.94823,1.94448,1.94034,1.93587,1.9311,1.92606,1.92076,1.9152,1.90938,1.90329,1.8969,1.89018,1.88308,1.87556,1.86755,1.85899,1.84981,1.83993,1.82925,1.8177,1.80515,1.79151,1.77667,1.7605,1.74287,1.72366,1.70273,1.67995,1.65515,1.62822,1.59899,1.56735,1.53315,1.49628,1.45664,1.41415,1.36877,1.32047,1.26931,1.21536,1.15879,1.09982,1.03877,0.976038,0.912115,0.847577,0.783073,0.719308,0.657004,0.596868,0.539537,0.485539,0.435244,0.388848,0.346368,0.307675,0.272546,0.240725,0.211974,0.186096,0.162929,0.142311,0.124059,0.107958,0.0937931,0.0813639,0.0704886,0.0610102,0.0527701,0.0456145,0.0394234,0.0340685,0.0294542,0.0254708,0.022054,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01296,1.01408,1.01529,1.01659,1.01799,1.0195,1.02112,1.02286,1.02474,1.02677,1.02895,1.0313,1.03382,1.03655,1.03948,1.04263,1.04603,1.04968,1.0536,1.05782,1.06236,1.06723,1.07245,1.07806,1.08407,1.09051,1.09741,1.10478,1.11266,1.12108,1.13006,1.13962,1.1498,1.16062,1.1721,1.18427,1.19716,1.21077,1.22513,1.24026,1.25615,1.27283,1.29028,1.30851,1.32751,1.34726,1.36774,1.38892,1.41078,1.43325,1.4563,1.47987,1.50389,1.52828,1.55296,1.57785,1.60286,1.62787,1.65279,1.6775,1.70189,1.72585,1.74927,1.77202,1.794,1.81511,1.83524,1.8543,1.87221,1.8889,1.90432,1.9184,1.93113,1.94249,1.95248,1.9611,1.9684,1.9744,1.97917,1.98276,1.98524,1.9867,1.98721,1.98686,1.98574,1.98392,1.98148,1.9785,1.97504,1.97115,1.96689,1.96228,1.95736,1.95215,1.94664,1.94083,1.93472,1.92827,1.92145,1.91422,1.90653,1.89832,1.88953,1.88008,1.86989,1.85888,1.84694,1.83398,1.81989,1.80456,1.78786,1.76967,1.74985,1.72828,1.7048,1.67928,1.65158,1.62155,1.58906,1.55398,1.5162,1.47562,1.43216,1.38578,1.33647,1.28427,1.22929,1.17169,1.1117,1.04964,0.985935,0.921079,0.855658,0.790329,0.725804,0.662812,0.602057,0.544176,0.489691,0.438964,0.39218,0.349348,0.310331,0.274903,0.242806,0.213804,0.187701,0.164334,0.143541,0.125133,0.108894,0.0946081,0.0820717,0.0711029,0.0615428,0.0532316,0.046014,0.0397694,0.0343681,0.0297137,0.0256957,0.0222491,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01281,1.01392,1.01512,1.01641,1.01779,1.01928,1.02089,1.02262,1.02448,1.02649,1.02865,1.03098,1.03348,1.03618,1.03909,1.04222,1.04559,1.04921,1.05311,1.0573,1.0618,1.06664,1.07184,1.07741,1.0834,1.08981,1.09667,1.10402,1.11188,1.12028,1.12924,1.13879,1.14897,1.15979,1.17129,1.18349,1.19641,1.21008,1.22451,1.23972,1.25572,1.27252,1.29012,1.30853,1.32774,1.34773,1.36848,1.38997,1.41217,1.43503,1.4585,1.48254,1.50706,1.532,1.55728,1.58281,1.6085,1.63423,1.65991,1.68543,1.71067,1.7355,1.75982,1.78351,1.80645,1.82853,1.84964,1.8697,1.88862,1.90631,1.92271,1.93777,1.95147,1.96377,1.97467,1.98418,1.99232,1.99913,2.00466,2.00897,2.01213,2.01422,2.01532,2.0155,2.01486,2.01347,2.01142,2.00878,2.00561,2.00196,1.9979,1.99345,1.98864,1.98349,1.97801,1.97219,1.96602,1.95948,1.95253,1.94513,1.93723,1.92877,1.91968,1.9099,1.89934,1.8879,1.87551,1.86205,1.84741,1.83148,1.81414,1.79526,1.77471,1.75235,1.72804,1.70164,1.67301,1.64201,1.6085,1.57235,1.53346,1.49174,1.44711,1.39953,1.349,1.29559,1.23939,1.18058,1.11942,1.05624,0.991475,0.925634,0.859322,0.793207,0.728012,0.664465,0.603273,0.545062,0.490337,0.439441,0.392536,0.349613,0.31052,0.275022,0.242863,0.213808,0.187668,0.164279,0.143475,0.125063,0.108824,0.0945376,0.0820037,0.07104,0.0614864,0.0531817,0.0459707,0.0397318,0.0343362,0.029688,0.0256781,0.0222338,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01265,1.01375,1.01494,1.01621,1.01759,1.01906,1.02065,1.02237,1.02421,1.0262,1.02834,1.03064,1.03313,1.0358,1.03868,1.04179,1.04513,1.04872,1.05259,1.05675,1.06122,1.06602,1.07119,1.07673,1.08268,1.08905,1.09589,1.10321,1.11104,1.11941,1.12835,1.13789,1.14805,1.15887,1.17038,1.18259,1.19554,1.20925,1.22374,1.23902,1.25512,1.27203,1.28978,1.30835,1.32775,1.34797,1.36898,1.39077,1.4133,1.43653,1.46042,1.4849,1.50993,1.53541,1.56128,1.58744,1.61381,1.64026,1.66671,1.69303,1.71911,1.74483,1.77007,1.7947,1.8186,1.84167,1.8638,1.88487,1.90481,1.92352,1.94094,1.95702,1.9717,1.98497,1.99682,2.00724,2.01626,2.02391,2.03024,2.03531,2.03918,2.04193,2.04364,2.04439,2.04426,2.04333,2.0417,2.03942,2.03656,2.03319,2.02935,2.02508,2.0204,2.01535,2.00992,2.00411,1.99791,1.9913,1.98424,1.9767,1.96861,1.95993,1.95059,1.94051,1.92961,1.9178,1.90499,1.89108,1.87595,1.85949,1.84157,1.82208,1.80087,1.77781,1.75276,1.72558,1.69612,1.66425,1.62984,1.59275,1.55289,1.51015,1.46448,1.41585,1.36425,1.30974,1.25245,1.19256,1.13034,1.06612,1.00035,0.93356,0.86636,0.79943,0.733497,0.669296,0.607531,0.548824,0.493672,0.442405,0.395175,0.351959,0.312597,0.276851,0.244465,0.215205,0.188883,0.165337,0.144397,0.125865,0.10952,0.0951407,0.0825257,0.071492,0.0618777,0.0535203,0.046264,0.0399856,0.0345559,0.0298789,0.0258437,0.0223784,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01249,1.01358,1.01476,1.01602,1.01738,1.01884,1.02041,1.02211,1.02393,1.0259,1.02802,1.0303,1.03276,1.03541,1.03826,1.04134,1.04465,1.04821,1.05204,1.05617,1.0606,1.06537,1.0705,1.076,1.08191,1.08825,1.09505,1.10233,1.11013,1.11847,1.12738,1.1369,1.14705,1.15786,1.16936,1.18158,1.19455,1.20828,1.22282,1.23816,1.25434,1.27136,1.28923,1.30796,1.32754,1.34797,1.36923,1.39129,1.41414,1.43773,1.46201,1.48694,1.51245,1.53846,1.56491,1.59169,1.61873,1.6459,1.6731,1.70023,1.72715,1.75375,1.7799,1.80548,1.83036,1.85443,1.87756,1.89967,1.92064,1.94039,1.95885,1.97594,1.99164,2.0059,2.0187,2.03006,2.03998,2.04849,2.05564,2.06148,2.06608,2.06951,2.07184,2.07316,2.07355,2.0731,2.07188,2.06997,2.06743,2.06432,2.0607,2.05659,2.05204,2.04706,2.04166,2.03584,2.02958,2.02287,2.01566,2.00793,1.99961,1.99065,1.98099,1.97055,1.95924,1.94698,1.93368,1.91922,1.9035,1.8864,1.8678,1.84756,1.82557,1.80167,1.77573,1.74761,1.71717,1.68426,1.64876,1.61055,1.56952,1.52558,1.47868,1.42878,1.37591,1.32014,1.26158,1.20045,1.13702,1.07165,1.00481,0.937032,0.868951,0.80126,0.734693,0.669986,0.607841,0.548865,0.493538,0.442167,0.394877,0.351627,0.31224,0.276473,0.244069,0.214802,0.188485,0.164957,0.144043,0.125541,0.109225,0.0948732,0.0822856,0.0712787,0.0616902,0.0533567,0.0461211,0.0398632,0.03445,0.0297875,0.0257679,0.0223119,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01233,1.01341,1.01457,1.01582,1.01716,1.01861,1.02016,1.02184,1.02365,1.02559,1.02769,1.02995,1.03238,1.035,1.03783,1.04087,1.04415,1.04768,1.05148,1.05556,1.05996,1.06469,1.06978,1.07524,1.08111,1.08741,1.09416,1.1014,1.10916,1.11746,1.12634,1.13582,1.14595,1.15674,1.16823,1.18044,1.19342,1.20718,1.22174,1.23714,1.25339,1.2705,1.28848,1.30735,1.3271,1.34772,1.36921,1.39154,1.41469,1.43862,1.46329,1.48865,1.51463,1.54117,1.56818,1.59558,1.62328,1.65116,1.67912,1.70705,1.73482,1.7623,1.78937,1.81591,1.84178,1.86686,1.89103,1.91418,1.93621,1.95702,1.97654,1.99469,2.01142,2.0267,2.04051,2.05283,2.06368,2.07309,2.08109,2.08774,2.0931,2.09724,2.10024,2.10217,2.10312,2.10317,2.1024,2.10089,2.0987,2.09589,2.09251,2.08861,2.08421,2.07934,2.074,2.06819,2.06191,2.05513,2.04781,2.03993,2.03142,2.02224,2.01231,2.00155,1.9899,1.97725,1.96352,1.94859,1.93236,1.91471,1.89552,1.87465,1.85198,1.82736,1.80067,1.77175,1.74046,1.70667,1.67026,1.63109,1.58907,1.54411,1.49616,1.4452,1.39124,1.33437,1.27471,1.21249,1.14799,1.08158,1.01373,0.945008,0.876042,0.807538,0.740236,0.674878,0.612162,0.552692,0.496936,0.445191,0.39757,0.354021,0.314358,0.278336,0.2457,0.216224,0.189722,0.166034,0.144981,0.126357,0.109933,0.0954867,0.0828167,0.0717384,0.0620881,0.053701,0.0464188,0.0401211,0.0346731,0.0299812,0.0259362,0.0224582,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01216,1.01323,1.01438,1.01561,1.01694,1.01837,1.01991,1.02156,1.02335,1.02527,1.02735,1.02958,1.03199,1.03458,1.03738,1.04039,1.04363,1.04712,1.05088,1.05493,1.05929,1.06398,1.06902,1.07444,1.08026,1.08651,1.09322,1.10041,1.10812,1.11638,1.12522,1.13466,1.14475,1.15551,1.16698,1.17919,1.19216,1.20592,1.22051,1.23595,1.25225,1.26943,1.28752,1.30651,1.32641,1.34721,1.36892,1.3915,1.41493,1.43919,1.46423,1.49,1.51645,1.54349,1.57106,1.59907,1.62741,1.656,1.68472,1.71344,1.74205,1.77042,1.79842,1.82591,1.85277,1.87887,1.90409,1.9283,1.95141,1.9733,1.99389,2.01312,2.03092,2.04724,2.06207,2.07539,2.0872,2.09753,2.10642,2.11391,2.12005,2.12493,2.12861,2.13118,2.13271,2.13328,2.13299,2.13189,2.13006,2.12757,2.12445,2.12076,2.11653,2.11177,2.1065,2.10072,2.09441,2.08757,2.08014,2.07211,2.06341,2.054,2.04379,2.03273,2.02072,2.00768,1.99351,1.97811,1.96137,1.94316,1.92337,1.90186,1.87851,1.85317,1.82571,1.79599,1.76386,1.72918,1.69184,1.65172,1.6087,1.56272,1.51372,1.46168,1.40663,1.34866,1.2879,1.22459,1.15901,1.09155,1.0227,0.95303,0.883177,0.813859,0.745823,0.679813,0.616525,0.556559,0.500372,0.44825,0.400295,0.356441,0.316499,0.28022,0.247348,0.21766,0.190973,0.167123,0.145929,0.127181,0.110648,0.0961066,0.0833532,0.0722028,0.0624898,0.0540486,0.0467193,0.0403799,0.0349003,0.0301768,0.0261058,0.0226057,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01199,1.01304,1.01418,1.0154,1.01671,1.01812,1.01964,1.02128,1.02304,1.02495,1.02699,1.0292,1.03158,1.03414,1.03691,1.03988,1.04309,1.04655,1.05027,1.05428,1.05859,1.06323,1.06822,1.07359,1.07936,1.08557,1.09222,1.09937,1.10703,1.11523,1.12402,1.13342,1.14347,1.15419,1.16563,1.17781,1.19076,1.20453,1.21912,1.23458,1.25092,1.26817,1.28634,1.30544,1.32547,1.34644,1.36834,1.39115,1.41486,1.43943,1.46482,1.49099,1.51787,1.54541,1.57352,1.60211,1.6311,1.66038,1.68984,1.71935,1.7488,1.77805,1.80697,1.83542,1.86328,1.89041,1.91668,1.94196,1.96615,1.98914,2.01083,2.03115,2.05002,2.06741,2.08328,2.09762,2.11042,2.12169,2.13148,2.13983,2.14679,2.15242,2.15681,2.16003,2.16216,2.16327,2.16346,2.16279,2.16134,2.15916,2.15631,2.15283,2.14875,2.14411,2.1389,2.13313,2.12679,2.11986,2.11232,2.10411,2.0952,2.08552,2.07502,2.06361,2.05121,2.03774,2.02309,2.00716,1.98985,1.97103,1.95058,1.92838,1.90428,1.87814,1.84984,1.81923,1.78617,1.75053,1.71217,1.67099,1.62689,1.57978,1.52963,1.47642,1.42018,1.36102,1.29908,1.23459,1.16788,1.09933,1.02945,0.958809,0.88808,0.817983,0.749272,0.68269,0.618933,0.558588,0.5021,0.449734,0.401575,0.357544,0.317443,0.281016,0.248011,0.21821,0.191429,0.167504,0.14625,0.127453,0.110876,0.0962981,0.0835149,0.07234,0.0626071,0.0541478,0.0468057,0.0404552,0.0349663,0.0302345,0.0261566,0.0226517,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01181,1.01285,1.01397,1.01518,1.01648,1.01787,1.01937,1.02099,1.02273,1.02461,1.02663,1.02881,1.03116,1.03369,1.03642,1.03936,1.04253,1.04595,1.04963,1.05359,1.05786,1.06245,1.06739,1.07271,1.07843,1.08457,1.09117,1.09826,1.10586,1.11401,1.12274,1.13208,1.14208,1.15276,1.16415,1.1763,1.18923,1.20297,1.21757,1.23304,1.24941,1.2667,1.28493,1.30412,1.32427,1.34539,1.36747,1.3905,1.41445,1.43932,1.46504,1.49159,1.5189,1.54692,1.57555,1.60473,1.63435,1.66431,1.6945,1.7248,1.75508,1.78521,1.81506,1.84448,1.87335,1.90151,1.92885,1.95522,1.98051,2.00461,2.02743,2.04886,2.06885,2.08734,2.10429,2.11967,2.13349,2.14575,2.15648,2.16573,2.17353,2.17997,2.1851,2.18901,2.19177,2.19346,2.19417,2.19397,2.19293,2.1911,2.18855,2.18532,2.18145,2.17695,2.17184,2.16612,2.15979,2.15282,2.1452,2.13687,2.12779,2.11791,2.10716,2.09546,2.08274,2.06891,2.05386,2.0375,2.01971,2.00038,1.97938,1.95658,1.93186,1.90507,1.87607,1.84472,1.81089,1.77444,1.73524,1.69319,1.64817,1.60013,1.54902,1.49482,1.43758,1.3774,1.31444,1.24893,1.1812,1.11165,1.04079,0.969208,0.897579,0.826632,0.757125,0.689807,0.625373,0.564409,0.507355,0.454471,0.405835,0.361363,0.320851,0.284046,0.250694,0.220577,0.193512,0.169334,0.147855,0.128856,0.112101,0.0973644,0.0844418,0.0731448,0.0633049,0.0547521,0.0473289,0.0409075,0.0353575,0.030573,0.0264493,0.0229049,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01163,1.01266,1.01377,1.01496,1.01623,1.01761,1.01909,1.02069,1.02241,1.02426,1.02626,1.02841,1.03073,1.03323,1.03592,1.03882,1.04195,1.04533,1.04896,1.05288,1.0571,1.06164,1.06652,1.07178,1.07744,1.08353,1.09006,1.09709,1.10463,1.11271,1.12138,1.13066,1.1406,1.15122,1.16256,1.17466,1.18755,1.20127,1.21585,1.23131,1.24769,1.26501,1.2833,1.30256,1.32281,1.34405,1.36629,1.38951,1.4137,1.43884,1.46488,1.49179,1.51951,1.54798,1.57712,1.60686,1.63709,1.66772,1.69863,1.72971,1.76081,1.79182,1.82259,1.85298,1.88284,1.91205,1.94045,1.96792,1.99432,2.01955,2.0435,2.06607,2.08719,2.10679,2.12483,2.14129,2.15615,2.16942,2.18111,2.19127,2.19995,2.20721,2.2131,2.21772,2.22113,2.22342,2.22467,2.22494,2.22432,2.22286,2.22061,2.21763,2.21395,2.2096,2.20458,2.19891,2.19257,2.18556,2.17783,2.16936,2.1601,2.14998,2.13896,2.12695,2.11387,2.09963,2.08415,2.0673,2.04899,2.02909,2.00749,1.98405,1.95863,1.93111,1.90134,1.86918,1.8345,1.79715,1.75703,1.71401,1.668,1.61893,1.56675,1.51148,1.45314,1.39186,1.32779,1.26118,1.19236,1.12177,1.0499,0.977364,0.904846,0.833083,0.762839,0.694867,0.629858,0.568393,0.510901,0.457631,0.40865,0.363862,0.323061,0.285988,0.252392,0.222057,0.194801,0.170457,0.148832,0.129705,0.112838,0.0980023,0.0849939,0.0736224,0.063718,0.0551093,0.0476376,0.0411749,0.0355889,0.0307733,0.0266232,0.0230562,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01145,1.01246,1.01355,1.01473,1.01599,1.01735,1.01881,1.02038,1.02208,1.0239,1.02587,1.02799,1.03028,1.03275,1.0354,1.03827,1.04136,1.04469,1.04827,1.05214,1.05631,1.06079,1.06562,1.07082,1.07642,1.08244,1.08891,1.09586,1.10333,1.11134,1.11994,1.12915,1.13902,1.14957,1.16085,1.1729,1.18574,1.19941,1.21396,1.2294,1.24578,1.26311,1.28143,1.30074,1.32107,1.34242,1.3648,1.38819,1.41259,1.43798,1.46431,1.49156,1.51966,1.54857,1.5782,1.60848,1.63931,1.67058,1.7022,1.73403,1.76595,1.79782,1.82949,1.86084,1.8917,1.92194,1.95142,1.97998,2.00751,2.03387,2.05896,2.08267,2.10493,2.12567,2.14482,2.16237,2.17829,2.19258,2.20526,2.21636,2.22592,2.23401,2.24069,2.24603,2.25011,2.253,2.25479,2.25555,2.25535,2.25425,2.25231,2.24958,2.24609,2.24186,2.23693,2.23128,2.22492,2.21783,2.20998,2.20133,2.19184,2.18146,2.17011,2.15774,2.14425,2.12955,2.11356,2.09617,2.07726,2.05672,2.03442,2.01024,1.98404,1.95569,1.92504,1.89195,1.85629,1.81793,1.77675,1.73263,1.68547,1.63523,1.58185,1.52536,1.46579,1.40327,1.33797,1.27015,1.20017,1.12846,1.05554,0.98205,0.908671,0.836155,0.765276,0.696782,0.631361,0.569579,0.511849,0.458397,0.409272,0.364362,0.32345,0.286278,0.252596,0.222191,0.194886,0.170507,0.148859,0.129717,0.112837,0.0979922,0.084979,0.0736055,0.0637009,0.0550923,0.0476225,0.0411626,0.0355785,0.0307662,0.0266192,0.0230526,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01126,1.01226,1.01334,1.01449,1.01574,1.01707,1.01851,1.02006,1.02174,1.02354,1.02547,1.02757,1.02982,1.03225,1.03487,1.03769,1.04074,1.04402,1.04756,1.05137,1.05548,1.05991,1.06468,1.06982,1.07534,1.08129,1.08769,1.09457,1.10196,1.1099,1.11841,1.12755,1.13733,1.14781,1.15902,1.17099,1.18377,1.19739,1.21189,1.2273,1.24365,1.26098,1.27931,1.29866,1.31905,1.34049,1.36298,1.38653,1.41112,1.43673,1.46333,1.4909,1.51937,1.54869,1.57879,1.60959,1.641,1.67292,1.70522,1.7378,1.77053,1.80325,1.83584,1.86815,1.90002,1.9313,1.96186,1.99154,2.0202,2.04772,2.07398,2.09887,2.1223,2.1442,2.1645,2.18318,2.20019,2.21555,2.22926,2.24134,2.25184,2.26082,2.26832,2.27444,2.27923,2.28278,2.28516,2.28645,2.28673,2.28604,2.28446,2.28203,2.27879,2.27476,2.26996,2.26441,2.25809,2.25099,2.24308,2.23434,2.22472,2.21415,2.20259,2.18995,2.17616,2.16113,2.14477,2.12697,2.10761,2.08659,2.06378,2.03905,2.01226,1.98329,1.95198,1.91821,1.88182,1.84271,1.80073,1.75578,1.70778,1.65665,1.60236,1.54493,1.4844,1.4209,1.35462,1.28581,1.21483,1.14213,1.06825,0.993806,0.919508,0.846112,0.774396,0.705112,0.638951,0.576478,0.518103,0.464053,0.41437,0.368941,0.327547,0.289929,0.255838,0.225059,0.197416,0.172734,0.150814,0.131429,0.114332,0.0992962,0.0861135,0.074591,0.0645557,0.0558327,0.0482634,0.0417164,0.0360575,0.0311796,0.0269772,0.0233624,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01107,1.01205,1.01311,1.01425,1.01548,1.0168,1.01822,1.01974,1.02139,1.02316,1.02507,1.02713,1.02935,1.03174,1.03432,1.03711,1.04011,1.04334,1.04683,1.05059,1.05464,1.059,1.06371,1.06877,1.07423,1.0801,1.08642,1.09322,1.10053,1.10838,1.11681,1.12586,1.13556,1.14595,1.15707,1.16896,1.18166,1.19521,1.20965,1.22501,1.24132,1.25863,1.27695,1.29631,1.31674,1.33824,1.36083,1.3845,1.40925,1.43506,1.46191,1.48977,1.51857,1.54828,1.57883,1.61012,1.64209,1.67461,1.70759,1.74089,1.7744,1.80796,1.84144,1.87469,1.90755,1.93986,1.97149,2.00227,2.03206,2.06073,2.08816,2.11422,2.13882,2.16189,2.18335,2.20315,2.22127,2.2377,2.25244,2.26551,2.27695,2.28681,2.29515,2.30203,2.30753,2.31173,2.3147,2.31651,2.31724,2.31696,2.31571,2.31355,2.31052,2.30664,2.30194,2.29642,2.29008,2.28291,2.27488,2.26596,2.25611,2.24527,2.23338,2.22037,2.20616,2.19065,2.17377,2.1554,2.13543,2.11374,2.09022,2.06472,2.03713,2.00729,1.97507,1.94034,1.90295,1.86278,1.8197,1.77361,1.72442,1.67208,1.61654,1.55784,1.49604,1.43126,1.36371,1.29367,1.2215,1.14767,1.07273,0.997336,0.922195,0.848077,0.775766,0.706013,0.6395,0.576775,0.518229,0.464063,0.414298,0.368806,0.327357,0.28969,0.255562,0.224762,0.197114,0.172441,0.150538,0.131171,0.114094,0.0990774,0.0859161,0.0744147,0.0644009,0.055696,0.0481438,0.0416142,0.0359693,0.0311057,0.0269161,0.0233087,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
};
static const double lsx_ahi[108][200]={{0.999182,0.999099,0.999009,0.998911,0.998804,0.998688,0.998561,0.998424,0.998275,0.998113,0.997937,0.997746,0.997538,0.997312,0.997067,0.996802,0.996513,0.9962,0.99586,0.995491,0.995092,0.994658,0.994187,0.993677,0.993125,0.992526,0.991876,0.991173,0.990411,0.989586,0.988693,0.987727,0.986681,0.98555,0.984327,0.983005,0.981577,0.980034,0.978369,0.976571,0.974632,0.972542,0.97029,0.967865,0.965255,0.962449,0.959433,0.956195,0.952722,0.948999,0.945012,0.940748,0.936192,0.93133,0.926149,0.920635,0.914775,0.908558,0.901974,0.895012,0.887666,0.87993,0.871802,0.86328,0.854369,0.845074,0.835406,0.825378,0.815009,0.80432,0.79334,0.782099,0.770633,0.758982,0.747189,0.735302,0.723369,0.711444,0.699577,0.687824,0.676236,0.664865,0.653762,0.642971,0.632536,0.622494,0.612878,0.603714,0.595024,0.586824,0.579122,0.571923,0.565224,0.55902,0.553298,0.548044,0.54324,0.538865,0.534895,0.531308,0.528077,0.525177,0.522582,0.520268,0.51821,0.516384,0.514768,0.513341,0.512084,0.510977,0.510005,0.509151,0.508401,0.507743,0.507163,0.506653,0.506201,0.5058,0.50544,0.505114,0.504815,0.504537,0.504274,0.504019,0.503766,0.503509,0.503243,0.50296,0.502654,0.502316,0.501939,0.501513,0.501028,0.50047,0.499826,0.49908,0.498213,0.497204,0.496027,0.494655,0.493052,0.491183,0.489,0.486455,0.48349,0.480035,0.476021,0.471361,0.465961,0.459721,0.45253,0.444272,0.434819,0.424049,0.41186,0.39813,0.38278,0.36578,0.347103,0.326861,0.305189,0.282366,0.258718,0.234699,0.210818,0.18762,0.165649,0.145311,0.126879,0.110429,0.0958906,0.0830858,0.07183,0.0619197,0.0532781,0.0457991,0.0393122,0.033703,0.0288678,0.0246887,0.0211438,0.018018,0.0154468,0.0134189,0.0112932,0.0334208,0.0338724,0.0358214,0.0348094,0,0,0,0,0,0,0,0,0,0,0}
,{0.999599,0.999523,0.99944,0.99935,0.999251,0.999143,0.999025,0.998897,0.998757,0.998604,0.998438,0.998258,0.998061,0.997847,0.997613,0.99736,0.997084,0.996784,0.996459,0.996104,0.99572,0.995302,0.994848,0.994355,0.99382,0.993239,0.992609,0.991926,0.991185,0.990382,0.989512,0.988569,0.987548,0.986442,0.985246,0.983951,0.982551,0.981038,0.979403,0.977638,0.975732,0.973676,0.971459,0.969071,0.966499,0.963732,0.960757,0.957561,0.954131,0.950453,0.946512,0.942296,0.937789,0.932977,0.927848,0.922387,0.916581,0.91042,0.903892,0.896989,0.889702,0.882026,0.873959,0.8655,0.856652,0.847421,0.837816,0.827853,0.817548,0.806924,0.796008,0.784832,0.77343,0.761842,0.750112,0.738286,0.726413,0.714546,0.702737,0.691039,0.679505,0.668186,0.657132,0.646389,0.635998,0.625999,0.616422,0.607296,0.598642,0.590474,0.582802,0.57563,0.568956,0.562774,0.557073,0.551837,0.547048,0.542687,0.538729,0.535151,0.531927,0.529032,0.526441,0.524127,0.522068,0.520238,0.518616,0.51718,0.515911,0.514789,0.513798,0.512921,0.512144,0.511452,0.510834,0.510277,0.50977,0.509304,0.508868,0.508453,0.50805,0.50765,0.507243,0.50682,0.50637,0.505883,0.505346,0.504747,0.504071,0.5033,0.502417,0.501398,0.50022,0.498854,0.497265,0.495418,0.493268,0.490765,0.487853,0.484466,0.480533,0.47597,0.470688,0.464582,0.457547,0.449464,0.440216,0.429674,0.417727,0.404261,0.389191,0.372468,0.354075,0.334084,0.312621,0.289929,0.266319,0.242238,0.218161,0.194647,0.172227,0.151352,0.132333,0.115299,0.100206,0.0869075,0.0751949,0.0648919,0.0558755,0.0480527,0.041267,0.0353954,0.0303403,0.025957,0.0222187,0.0189759,0.0162443,0.0138382,0.0118533,0.0432512,0.046155,0.0494109,0.0433639,0.0117346,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00017,1.0001,1.00003,0.999947,0.999857,0.999759,0.999651,0.999532,0.999402,0.99926,0.999104,0.998934,0.998749,0.998546,0.998325,0.998083,0.99782,0.997534,0.997222,0.996882,0.996512,0.996109,0.995671,0.995195,0.994678,0.994115,0.993504,0.99284,0.99212,0.991338,0.99049,0.98957,0.988573,0.987492,0.986321,0.985054,0.983682,0.982198,0.980593,0.978858,0.976985,0.974963,0.972781,0.970429,0.967895,0.965167,0.962232,0.959077,0.95569,0.952055,0.94816,0.943991,0.939532,0.93477,0.929692,0.924283,0.918531,0.912425,0.905953,0.899107,0.891878,0.884262,0.876255,0.867857,0.859071,0.849902,0.840361,0.83046,0.820219,0.809659,0.798807,0.787693,0.776354,0.764828,0.753159,0.741394,0.729581,0.717771,0.706018,0.694375,0.682893,0.671625,0.660619,0.649922,0.639576,0.629618,0.620081,0.610991,0.602371,0.594235,0.586593,0.579448,0.572799,0.566639,0.560958,0.55574,0.550968,0.54662,0.542674,0.539105,0.53589,0.533001,0.530414,0.528102,0.526043,0.524212,0.522586,0.521144,0.519866,0.518733,0.517728,0.516833,0.516035,0.515317,0.514668,0.514075,0.513526,0.513009,0.512513,0.512029,0.511544,0.511047,0.510527,0.509972,0.509368,0.508701,0.507953,0.507108,0.506143,0.505036,0.50376,0.502284,0.500573,0.498587,0.496278,0.493595,0.490478,0.486856,0.482656,0.477791,0.472165,0.465674,0.458207,0.449646,0.439865,0.428744,0.416173,0.402043,0.386282,0.368857,0.349771,0.329123,0.307074,0.283898,0.259948,0.235682,0.211615,0.188297,0.166242,0.145856,0.127395,0.110929,0.0963711,0.0835406,0.0722441,0.0623113,0.0536403,0.0461215,0.0396067,0.0339714,0.0291045,0.0249119,0.0213249,0.0182101,0.0155853,0.0133005,0.0113321,0.0402357,0.0405898,0.0426333,0.0405158,0.0171968,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00086,1.0008,1.00074,1.00068,1.0006,1.00051,1.00042,1.00031,1.0002,1.00007,0.999924,0.999767,0.999594,0.999405,0.999197,0.998969,0.99872,0.998447,0.998149,0.997824,0.997469,0.997082,0.996661,0.996201,0.995701,0.995157,0.994564,0.99392,0.99322,0.992459,0.991632,0.990735,0.989761,0.988705,0.98756,0.986318,0.984974,0.983518,0.981943,0.980239,0.978398,0.976409,0.974261,0.971944,0.969447,0.966757,0.963861,0.960747,0.957402,0.953811,0.949961,0.945837,0.941426,0.936713,0.931684,0.926327,0.920628,0.914576,0.908159,0.901369,0.894198,0.88664,0.878693,0.870355,0.861629,0.852522,0.843043,0.833205,0.823026,0.812528,0.801738,0.790687,0.779409,0.767945,0.756336,0.744629,0.732874,0.721121,0.709423,0.697833,0.686403,0.675184,0.664226,0.653575,0.643271,0.633354,0.623856,0.614802,0.606216,0.598111,0.590498,0.58338,0.576755,0.570618,0.564957,0.559757,0.555001,0.550667,0.546733,0.543176,0.539969,0.537087,0.534506,0.532199,0.530142,0.528311,0.526684,0.52524,0.523957,0.522818,0.521804,0.520898,0.520085,0.519351,0.518682,0.518064,0.517486,0.516934,0.516399,0.515866,0.515325,0.514763,0.514167,0.513522,0.512813,0.512023,0.511133,0.51012,0.508961,0.507627,0.506086,0.504303,0.502234,0.499834,0.497046,0.493809,0.490053,0.4857,0.480661,0.47484,0.468131,0.46042,0.451588,0.441511,0.430067,0.417149,0.402653,0.386512,0.3687,0.349233,0.328223,0.305845,0.282388,0.258223,0.233816,0.2097,0.18641,0.164455,0.144221,0.125938,0.109652,0.0952595,0.0825762,0.0714011,0.0615813,0.0530165,0.0455855,0.0391464,0.0335803,0.0287737,0.0246322,0.0210847,0.0180174,0.0154069,0.0131739,0.0112218,0.0395656,0.0360697,0.0356004,0.0359008,0.018218,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00162,1.00159,1.00155,1.0015,1.00145,1.00138,1.0013,1.00121,1.00111,1.001,1.00088,1.00074,1.00058,1.00041,1.00022,1,0.999771,0.999515,0.999233,0.998925,0.998587,0.998217,0.997813,0.997371,0.996889,0.996363,0.99579,0.995165,0.994486,0.993746,0.992941,0.992066,0.991116,0.990084,0.988963,0.987748,0.986431,0.985003,0.983457,0.981784,0.979973,0.978017,0.975903,0.973621,0.97116,0.968507,0.96565,0.962576,0.959272,0.955724,0.951917,0.947839,0.943474,0.938809,0.93383,0.928523,0.922876,0.916877,0.910514,0.90378,0.896665,0.889165,0.881275,0.872997,0.864331,0.855284,0.845865,0.836088,0.825971,0.815535,0.804806,0.793815,0.782598,0.771193,0.759643,0.747994,0.736296,0.724598,0.712954,0.701416,0.690036,0.678866,0.667955,0.657347,0.647086,0.637209,0.627748,0.61873,0.610176,0.602102,0.594517,0.587425,0.580825,0.574709,0.569067,0.563885,0.559145,0.554825,0.550904,0.547357,0.544159,0.541285,0.538709,0.536406,0.534352,0.532522,0.530895,0.529449,0.528163,0.527018,0.525996,0.525081,0.524256,0.523508,0.52282,0.522181,0.521577,0.520996,0.520425,0.519851,0.519261,0.518642,0.517978,0.517255,0.516454,0.515557,0.514541,0.513383,0.512054,0.510522,0.508752,0.506702,0.504325,0.501568,0.498368,0.494656,0.490356,0.48538,0.479633,0.473009,0.465395,0.456673,0.446721,0.435415,0.422644,0.408304,0.392322,0.374664,0.355342,0.334449,0.31215,0.288714,0.264499,0.23996,0.215613,0.192006,0.169651,0.148962,0.130201,0.11345,0.0986231,0.0855506,0.0740288,0.0638962,0.055035,0.0473437,0.0406753,0.0349041,0.029924,0.0256225,0.0219395,0.0187545,0.0160503,0.013697,0.0117211,0.0399569,0.03881,0.0382253,0.0357295,0.0408875,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00243,1.00242,1.00241,1.00239,1.00236,1.00232,1.00227,1.0022,1.00213,1.00204,1.00194,1.00182,1.00168,1.00153,1.00136,1.00117,1.00096,1.00072,1.00046,1.00017,0.999853,0.999503,0.999118,0.998697,0.998235,0.997729,0.997177,0.996573,0.995915,0.995197,0.994415,0.993563,0.992636,0.991629,0.990534,0.989345,0.988054,0.986655,0.985137,0.983494,0.981715,0.97979,0.977709,0.975462,0.973036,0.97042,0.967601,0.964567,0.961303,0.957797,0.954033,0.95,0.945681,0.941063,0.936132,0.930875,0.925279,0.919331,0.913022,0.906342,0.899282,0.891838,0.884006,0.875785,0.867178,0.858191,0.848832,0.839115,0.829057,0.818681,0.808012,0.797081,0.785923,0.774576,0.763084,0.751492,0.739848,0.728205,0.716613,0.705126,0.693796,0.682673,0.671807,0.661243,0.651023,0.641184,0.63176,0.622777,0.614255,0.606211,0.598654,0.591587,0.58501,0.578916,0.573294,0.56813,0.563405,0.559099,0.55519,0.551654,0.548465,0.545598,0.543029,0.540731,0.53868,0.536853,0.535227,0.533781,0.532493,0.531345,0.530318,0.529397,0.528564,0.527804,0.527104,0.526449,0.525827,0.525223,0.524626,0.524021,0.523395,0.522734,0.52202,0.521239,0.52037,0.519394,0.518286,0.51702,0.515566,0.513889,0.511951,0.509706,0.507104,0.504086,0.500586,0.496531,0.491838,0.486415,0.48016,0.472965,0.464711,0.45528,0.444545,0.432389,0.418707,0.403407,0.386435,0.367785,0.347499,0.325716,0.302649,0.278619,0.254031,0.229377,0.205197,0.182028,0.160339,0.140474,0.122605,0.106729,0.0927084,0.0803476,0.0694551,0.0598947,0.0515657,0.0443419,0.0380814,0.0326707,0.0279955,0.0239757,0.0205197,0.0175512,0.0150055,0.0128381,0.0419526,0.0375492,0.0352768,0.0332139,0.0250557,0.0120477,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00324,1.00327,1.00329,1.00331,1.00331,1.0033,1.00328,1.00325,1.0032,1.00314,1.00307,1.00298,1.00288,1.00275,1.00261,1.00245,1.00226,1.00205,1.00181,1.00155,1.00125,1.00093,1.00057,1.00017,0.999728,0.999246,0.998717,0.998137,0.997502,0.996807,0.996049,0.995222,0.994321,0.993338,0.99227,0.991107,0.989844,0.988473,0.986985,0.985371,0.983623,0.98173,0.979683,0.977469,0.975079,0.972499,0.969717,0.966722,0.963498,0.960033,0.956312,0.952322,0.948048,0.943477,0.938593,0.933385,0.927839,0.921942,0.915685,0.909058,0.902053,0.894664,0.886888,0.878724,0.870174,0.861245,0.851944,0.842286,0.832287,0.821969,0.811359,0.800486,0.789386,0.778096,0.76666,0.755123,0.743534,0.731943,0.720403,0.708965,0.697683,0.686606,0.675784,0.665262,0.655082,0.645281,0.635892,0.626942,0.618452,0.610437,0.602906,0.595864,0.58931,0.583236,0.577632,0.572484,0.567774,0.563481,0.559584,0.556057,0.552876,0.550016,0.547451,0.545157,0.543108,0.541281,0.539654,0.538204,0.536912,0.535757,0.534722,0.533789,0.532942,0.532165,0.531445,0.530767,0.530116,0.529479,0.528842,0.528191,0.52751,0.526785,0.525998,0.525129,0.52416,0.523065,0.52182,0.520395,0.518755,0.516863,0.514675,0.512141,0.509206,0.505804,0.501863,0.497303,0.492033,0.485956,0.478962,0.470936,0.46176,0.451308,0.439459,0.426106,0.411151,0.394529,0.376219,0.356252,0.334737,0.311864,0.287926,0.263304,0.238469,0.213949,0.190289,0.167986,0.147426,0.128836,0.112264,0.097606,0.0846754,0.0732746,0.0632501,0.0544876,0.0468835,0.0402894,0.0345804,0.0296514,0.0253995,0.0217559,0.0186069,0.0159257,0.0136101,0.0116318,0.0375279,0.0359477,0.0344878,0.0358213,0.0329402,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00405,1.00412,1.00418,1.00423,1.00427,1.0043,1.00432,1.00432,1.00432,1.0043,1.00426,1.00421,1.00414,1.00405,1.00394,1.00381,1.00365,1.00347,1.00327,1.00303,1.00277,1.00247,1.00214,1.00177,1.00136,1.0009,1.0004,0.999846,0.999238,0.99857,0.997839,0.997038,0.996163,0.995208,0.994167,0.993033,0.991798,0.990456,0.988998,0.987415,0.985698,0.983837,0.981823,0.979644,0.977288,0.974745,0.972001,0.969043,0.965859,0.962434,0.958756,0.954809,0.950579,0.946053,0.941217,0.936056,0.930559,0.924713,0.918507,0.911932,0.90498,0.897646,0.889924,0.881816,0.873323,0.864449,0.855206,0.845605,0.835664,0.825404,0.814851,0.804035,0.79299,0.781757,0.770375,0.758892,0.747356,0.735816,0.724326,0.712937,0.701701,0.690669,0.67989,0.669409,0.659267,0.649503,0.640149,0.631231,0.622771,0.614784,0.607279,0.600261,0.593728,0.587674,0.582088,0.576956,0.57226,0.56798,0.564093,0.560575,0.557402,0.554548,0.551988,0.549697,0.54765,0.545823,0.544194,0.542741,0.541443,0.540281,0.539237,0.538293,0.537432,0.536638,0.535897,0.535194,0.534515,0.533844,0.533167,0.532469,0.531733,0.530944,0.530081,0.529126,0.528054,0.526841,0.525458,0.523872,0.522046,0.519938,0.517501,0.514679,0.511411,0.507628,0.50325,0.498191,0.492355,0.485637,0.477922,0.469093,0.459028,0.447601,0.434701,0.420224,0.404093,0.386272,0.366769,0.345666,0.323121,0.299386,0.274818,0.249852,0.224999,0.200806,0.177794,0.156399,0.136914,0.119456,0.103973,0.0903037,0.078244,0.06762,0.0583085,0.0502021,0.0431742,0.0370825,0.0318165,0.0272687,0.023363,0.0199955,0.0171146,0.0146293,0.0125236,0.0380125,0.0362029,0.0325764,0.0292642,0.0249928,0.013343,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00483,1.00494,1.00505,1.00514,1.00522,1.0053,1.00536,1.00541,1.00545,1.00547,1.00548,1.00547,1.00544,1.00539,1.00532,1.00523,1.00512,1.00498,1.00481,1.00461,1.00438,1.00412,1.00382,1.00349,1.00311,1.00268,1.00221,1.00169,1.00111,1.00048,0.999774,0.999003,0.998158,0.997233,0.996222,0.995117,0.993913,0.992602,0.991174,0.989623,0.987939,0.986111,0.98413,0.981985,0.979665,0.977158,0.974451,0.971532,0.968387,0.965003,0.961366,0.957462,0.953276,0.948795,0.944004,0.938891,0.933442,0.927645,0.92149,0.914966,0.908067,0.900785,0.893118,0.885064,0.876625,0.867808,0.85862,0.849075,0.83919,0.828986,0.818489,0.807728,0.796739,0.78556,0.774232,0.762801,0.751316,0.739827,0.728385,0.717043,0.705852,0.694863,0.684126,0.673684,0.66358,0.653852,0.644531,0.635644,0.627213,0.619253,0.611773,0.604777,0.598265,0.59223,0.586661,0.581544,0.576861,0.572592,0.568714,0.565204,0.562037,0.559188,0.556631,0.55434,0.552293,0.550463,0.54883,0.547371,0.546064,0.544891,0.543833,0.542871,0.54199,0.541172,0.540402,0.539664,0.538944,0.538225,0.537492,0.536728,0.535917,0.535038,0.534071,0.532994,0.531781,0.530404,0.52883,0.527022,0.52494,0.522535,0.519754,0.516537,0.512815,0.50851,0.503537,0.497801,0.491198,0.483616,0.474937,0.465039,0.453798,0.441096,0.426833,0.410922,0.393318,0.374023,0.353097,0.330689,0.307028,0.282449,0.257372,0.232297,0.207767,0.184309,0.162388,0.142333,0.1243,0.108274,0.0941112,0.0816137,0.0705931,0.0609144,0.0524747,0.04515,0.0388004,0.0333061,0.0285604,0.0244724,0.0209597,0.0179376,0.0153504,0.0131359,0.0112182,0.034704,0.032042,0.0306547,0.030918,0.0281429,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00559,1.00574,1.00589,1.00603,1.00616,1.00628,1.00639,1.00649,1.00658,1.00665,1.00671,1.00675,1.00677,1.00677,1.00675,1.0067,1.00663,1.00654,1.00642,1.00626,1.00608,1.00586,1.0056,1.0053,1.00496,1.00458,1.00414,1.00366,1.00311,1.00251,1.00184,1.00111,1.0003,0.999405,0.998426,0.997355,0.996184,0.994905,0.993511,0.991993,0.990343,0.988549,0.986603,0.984494,0.98221,0.97974,0.977071,0.97419,0.971085,0.967741,0.964145,0.960283,0.956141,0.951704,0.946959,0.941893,0.936491,0.930743,0.924637,0.918164,0.911316,0.904086,0.896471,0.888471,0.880087,0.871323,0.86219,0.8527,0.84287,0.832721,0.822278,0.811572,0.800637,0.78951,0.778235,0.766855,0.75542,0.74398,0.732585,0.721289,0.710142,0.699196,0.688499,0.678096,0.668029,0.658335,0.649046,0.64019,0.631787,0.623854,0.616398,0.609425,0.602934,0.596917,0.591365,0.586263,0.581594,0.577337,0.57347,0.569969,0.566809,0.563966,0.561414,0.559127,0.557082,0.555254,0.55362,0.552159,0.550849,0.549672,0.548607,0.547637,0.546745,0.545915,0.54513,0.544374,0.543632,0.542888,0.542126,0.541327,0.540475,0.539549,0.538527,0.537385,0.536098,0.534633,0.532958,0.531034,0.528816,0.526256,0.523296,0.519873,0.515914,0.51134,0.50606,0.499977,0.492983,0.484964,0.475798,0.465365,0.453539,0.44021,0.425279,0.408675,0.390365,0.37037,0.348782,0.325773,0.301608,0.276655,0.251359,0.22624,0.201844,0.178685,0.15719,0.137635,0.120123,0.104591,0.090873,0.0787641,0.0680918,0.0587356,0.0505879,0.043522,0.0373934,0.0320944,0.0275189,0.0235857,0.0201969,0.0172922,0.0147905,0.0126729,0.0356708,0.0336244,0.0302461,0.0266288,0.0270035,0.0173496,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0063,1.0065,1.0067,1.00688,1.00707,1.00724,1.0074,1.00756,1.00769,1.00782,1.00793,1.00802,1.0081,1.00815,1.00819,1.0082,1.00818,1.00814,1.00807,1.00797,1.00783,1.00766,1.00745,1.0072,1.00691,1.00657,1.00617,1.00573,1.00523,1.00467,1.00404,1.00334,1.00257,1.00171,1.00077,0.999738,0.998603,0.997361,0.996003,0.994521,0.992906,0.991149,0.989239,0.987167,0.98492,0.982488,0.979857,0.977016,0.97395,0.970647,0.967093,0.963274,0.959175,0.954782,0.950082,0.945062,0.939707,0.934007,0.92795,0.921527,0.914729,0.90755,0.899987,0.892039,0.883708,0.874998,0.865918,0.856482,0.846705,0.83661,0.82622,0.815567,0.804684,0.793609,0.782384,0.771054,0.759668,0.748275,0.736926,0.725674,0.71457,0.703665,0.693007,0.682641,0.672609,0.662949,0.653691,0.644864,0.636489,0.62858,0.621148,0.614196,0.607724,0.601725,0.596188,0.5911,0.586443,0.582196,0.578338,0.574844,0.57169,0.568851,0.5663,0.564015,0.561968,0.560137,0.558499,0.557031,0.555713,0.554524,0.553445,0.552458,0.551546,0.550691,0.549877,0.549087,0.548305,0.547514,0.546696,0.545833,0.544906,0.543892,0.542768,0.541508,0.540083,0.538458,0.536598,0.534459,0.531994,0.529148,0.525859,0.522058,0.517667,0.512599,0.50676,0.500044,0.492339,0.483526,0.473483,0.462086,0.449218,0.434775,0.418675,0.400869,0.38136,0.360207,0.337556,0.313633,0.288771,0.263384,0.237973,0.213073,0.189222,0.166887,0.14641,0.127964,0.111548,0.097028,0.0842059,0.0728924,0.0629433,0.0542526,0.0467068,0.0401614,0.03449,0.0295922,0.0253684,0.0217428,0.018612,0.0159412,0.0136386,0.0116625,0.0322489,0.0310531,0.0307282,0.0317491,0.0281695,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00697,1.00722,1.00747,1.00771,1.00794,1.00817,1.00838,1.00859,1.00879,1.00897,1.00914,1.00929,1.00943,1.00954,1.00964,1.00971,1.00975,1.00977,1.00975,1.00971,1.00963,1.00952,1.00936,1.00916,1.00892,1.00863,1.00829,1.0079,1.00745,1.00693,1.00635,1.0057,1.00497,1.00415,1.00325,1.00226,1.00117,0.999962,0.998644,0.997201,0.995625,0.993906,0.992036,0.990002,0.987794,0.985401,0.98281,0.980009,0.976985,0.973723,0.970211,0.966434,0.962379,0.95803,0.953376,0.948401,0.943093,0.937441,0.931432,0.925057,0.918309,0.911181,0.903669,0.895773,0.887493,0.878835,0.869808,0.860424,0.8507,0.840657,0.83032,0.819718,0.808886,0.797861,0.786686,0.775404,0.764065,0.752718,0.741414,0.730205,0.719143,0.708278,0.697657,0.687328,0.67733,0.667702,0.658475,0.649677,0.641328,0.633444,0.626034,0.619103,0.61265,0.606668,0.601147,0.596073,0.591428,0.587192,0.583343,0.579857,0.57671,0.573876,0.571329,0.569046,0.567001,0.56517,0.56353,0.562059,0.560736,0.559541,0.558455,0.557458,0.556533,0.555663,0.554831,0.55402,0.553213,0.552393,0.551541,0.550638,0.549664,0.548595,0.547408,0.546075,0.544564,0.542841,0.540866,0.538595,0.535977,0.532956,0.529466,0.525434,0.520781,0.515415,0.509238,0.502143,0.494013,0.484729,0.474167,0.462204,0.448727,0.43364,0.416868,0.398378,0.378191,0.356391,0.333151,0.308729,0.283487,0.257867,0.232384,0.207586,0.183989,0.162033,0.142012,0.124047,0.108092,0.093987,0.0815304,0.0705413,0.0608908,0.052476,0.045171,0.0388353,0.0333505,0.0286127,0.0245304,0.0210206,0.0180014,0.0154145,0.0131989,0.0333259,0.0311474,0.0287668,0.0276922,0.0281144,0.0231012,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00761,1.0079,1.0082,1.00849,1.00877,1.00906,1.00933,1.0096,1.00985,1.0101,1.01033,1.01054,1.01074,1.01092,1.01108,1.01121,1.01132,1.0114,1.01146,1.01148,1.01146,1.01141,1.01132,1.01118,1.011,1.01077,1.01049,1.01015,1.00975,1.00929,1.00876,1.00816,1.00747,1.00671,1.00586,1.00491,1.00386,1.0027,1.00143,1.00003,0.998493,0.996817,0.994988,0.992995,0.990829,0.988477,0.985928,0.983168,0.980186,0.976967,0.973497,0.969764,0.965753,0.961449,0.95684,0.951911,0.94665,0.941044,0.935083,0.928757,0.922058,0.91498,0.907518,0.899672,0.891443,0.882837,0.873861,0.864528,0.854856,0.844863,0.834577,0.824025,0.813243,0.802267,0.79114,0.779906,0.768612,0.75731,0.746049,0.734882,0.72386,0.713033,0.702449,0.692155,0.68219,0.672593,0.663395,0.654624,0.6463,0.638439,0.631051,0.62414,0.617704,0.611738,0.606232,0.60117,0.596536,0.59231,0.588468,0.584989,0.581846,0.579015,0.576471,0.574187,0.57214,0.570306,0.568661,0.567183,0.565851,0.564644,0.563542,0.562528,0.561582,0.560687,0.559826,0.55898,0.558132,0.557264,0.556356,0.555388,0.554337,0.553181,0.551891,0.550438,0.548789,0.546906,0.544746,0.542261,0.539398,0.536093,0.532279,0.527876,0.5228,0.516955,0.510237,0.502533,0.493725,0.48369,0.472306,0.459452,0.445023,0.428934,0.41113,0.391606,0.370414,0.347684,0.323631,0.298568,0.272899,0.247112,0.221739,0.197322,0.174348,0.153188,0.134053,0.116979,0.101854,0.0884868,0.076682,0.0662832,0.0571783,0.0492573,0.0423871,0.0364277,0.0312747,0.0268263,0.0230016,0.0197025,0.0168815,0.0144474,0.0123833,0.0313473,0.0296107,0.0279825,0.0260711,0.025979,0.0172458,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0082,1.00855,1.00889,1.00923,1.00957,1.00991,1.01024,1.01057,1.01088,1.01119,1.01149,1.01177,1.01203,1.01228,1.01251,1.01271,1.01289,1.01304,1.01316,1.01325,1.01331,1.01333,1.0133,1.01324,1.01312,1.01296,1.01274,1.01246,1.01213,1.01173,1.01126,1.01071,1.01009,1.00938,1.00858,1.00768,1.00668,1.00557,1.00435,1.00299,1.00151,0.999875,0.998091,0.996143,0.994021,0.991713,0.989208,0.986492,0.983553,0.980378,0.976953,0.973264,0.969297,0.965039,0.960475,0.955593,0.950378,0.94482,0.938907,0.932629,0.925979,0.91895,0.911537,0.903741,0.895563,0.887006,0.878081,0.868799,0.859176,0.849234,0.838997,0.828495,0.817761,0.806833,0.795752,0.784564,0.773315,0.762056,0.750837,0.739711,0.728727,0.717938,0.70739,0.697129,0.687197,0.67763,0.66846,0.659715,0.651416,0.643578,0.636211,0.629319,0.622901,0.616951,0.611459,0.60641,0.601787,0.597571,0.593738,0.590265,0.587129,0.584302,0.581761,0.57948,0.577434,0.575599,0.573952,0.57247,0.571133,0.56992,0.56881,0.567786,0.566827,0.565917,0.565038,0.56417,0.563298,0.5624,0.561458,0.56045,0.559353,0.558142,0.55679,0.555264,0.553531,0.551551,0.549279,0.546665,0.543653,0.540179,0.53617,0.531546,0.526218,0.520089,0.513051,0.50499,0.495786,0.485314,0.473454,0.460087,0.445113,0.428453,0.410065,0.389957,0.3682,0.344947,0.320436,0.295006,0.269081,0.243166,0.217801,0.193519,0.170785,0.149939,0.131149,0.114415,0.099598,0.0865034,0.0749386,0.0647592,0.0558559,0.048118,0.0414021,0.03558,0.0305471,0.0262029,0.0224695,0.0192491,0.0164966,0.0141225,0.0120965,0.029195,0.0284638,0.0274673,0.0269796,0.0242939,0.0130644,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00876,1.00915,1.00954,1.00993,1.01033,1.01072,1.01111,1.01149,1.01187,1.01225,1.01261,1.01296,1.01329,1.01361,1.01391,1.01419,1.01444,1.01467,1.01487,1.01503,1.01516,1.01526,1.01531,1.01532,1.01528,1.01518,1.01504,1.01483,1.01457,1.01423,1.01383,1.01335,1.01279,1.01214,1.0114,1.01056,1.00962,1.00856,1.00739,1.00609,1.00465,1.00307,1.00134,0.99944,0.997366,0.995105,0.992646,0.989977,0.987084,0.983955,0.980575,0.976932,0.973012,0.9688,0.964282,0.959446,0.954279,0.948768,0.942903,0.936673,0.930071,0.923091,0.915728,0.907981,0.899852,0.891345,0.882469,0.873236,0.863663,0.853769,0.843581,0.833126,0.82244,0.811558,0.800523,0.789379,0.778173,0.766956,0.755778,0.74469,0.733745,0.722991,0.712477,0.702249,0.692347,0.682809,0.673666,0.664947,0.656671,0.648854,0.641507,0.634633,0.628231,0.622295,0.616816,0.611778,0.607165,0.602956,0.59913,0.595663,0.592529,0.589705,0.587164,0.584882,0.582833,0.580993,0.579339,0.577849,0.576501,0.575273,0.574147,0.573102,0.572119,0.571181,0.570268,0.569361,0.568443,0.567491,0.566487,0.565406,0.564225,0.562916,0.56145,0.559792,0.557906,0.55575,0.553274,0.550426,0.547145,0.543362,0.539001,0.533975,0.528192,0.521549,0.513933,0.505227,0.495309,0.484055,0.471343,0.457065,0.44113,0.423476,0.404083,0.382992,0.360309,0.336233,0.311048,0.285141,0.258974,0.233076,0.207994,0.184231,0.162204,0.142174,0.124227,0.108294,0.0941991,0.081742,0.0707479,0.0610928,0.0526734,0.0453616,0.0390167,0.0335215,0.0287738,0.0246819,0.0211618,0.0181339,0.0155377,0.0133138,0.0293649,0.0275326,0.0255767,0.0247133,0.024834,0.0219533,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00928,1.00971,1.01015,1.01059,1.01104,1.01149,1.01194,1.01238,1.01283,1.01326,1.01369,1.01411,1.01452,1.01491,1.01529,1.01564,1.01597,1.01628,1.01656,1.01681,1.01702,1.01719,1.01732,1.01741,1.01745,1.01744,1.01737,1.01725,1.01706,1.0168,1.01647,1.01606,1.01557,1.01499,1.01431,1.01354,1.01266,1.01167,1.01055,1.00931,1.00793,1.00641,1.00473,1.00288,1.00086,0.998649,0.99624,0.99362,0.990776,0.987695,0.984364,0.980769,0.976896,0.972731,0.968261,0.963473,0.958354,0.952891,0.947074,0.940892,0.934339,0.927407,0.920093,0.912395,0.904314,0.895857,0.887029,0.877845,0.86832,0.858475,0.848333,0.837926,0.827285,0.816449,0.805458,0.794357,0.783194,0.772017,0.760878,0.749829,0.73892,0.728201,0.71772,0.707523,0.697651,0.688141,0.679025,0.670329,0.662076,0.654281,0.646953,0.640096,0.63371,0.627789,0.622322,0.617296,0.612693,0.608493,0.604674,0.601213,0.598085,0.595264,0.592725,0.590444,0.588395,0.586554,0.584897,0.583403,0.582048,0.580813,0.579677,0.578621,0.577624,0.576669,0.575736,0.574806,0.573859,0.572876,0.571834,0.57071,0.569478,0.56811,0.566575,0.564839,0.562862,0.560601,0.558005,0.555019,0.551579,0.547615,0.543048,0.537788,0.531741,0.5248,0.516852,0.507777,0.497452,0.485753,0.472561,0.457771,0.441298,0.423089,0.403138,0.3815,0.358304,0.333767,0.308197,0.282001,0.25566,0.229709,0.204693,0.181103,0.159324,0.139583,0.121933,0.106276,0.0924245,0.0801812,0.0693797,0.0599026,0.0516457,0.0444762,0.038253,0.0328657,0.0282109,0.0242025,0.0207529,0.0177869,0.0152398,0.0130652,0.0279817,0.0260837,0.0243346,0.022544,0.0221493,0.0184148,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.00976,1.01024,1.01073,1.01122,1.01172,1.01222,1.01273,1.01323,1.01374,1.01424,1.01474,1.01523,1.01571,1.01618,1.01663,1.01707,1.01748,1.01787,1.01823,1.01856,1.01886,1.01912,1.01934,1.01951,1.01964,1.01972,1.01973,1.01969,1.01958,1.01941,1.01916,1.01883,1.01841,1.01791,1.01731,1.01661,1.0158,1.01488,1.01383,1.01265,1.01133,1.00987,1.00825,1.00646,1.00449,1.00234,0.999984,0.997417,0.994625,0.991596,0.988315,0.98477,0.980947,0.976832,0.972411,0.967672,0.962601,0.957187,0.951419,0.945286,0.938781,0.931898,0.924632,0.916983,0.908951,0.900541,0.891762,0.882626,0.873148,0.863349,0.853255,0.842893,0.832297,0.821504,0.810556,0.799497,0.788375,0.777238,0.766137,0.755124,0.744249,0.733564,0.723115,0.712948,0.703104,0.69362,0.684529,0.675857,0.667625,0.659849,0.652538,0.645698,0.639326,0.633418,0.627963,0.622946,0.618351,0.614158,0.610344,0.606886,0.603759,0.600939,0.598399,0.596115,0.594061,0.592212,0.590547,0.589041,0.587672,0.58642,0.585263,0.584182,0.583156,0.582167,0.581194,0.580217,0.579216,0.578169,0.577053,0.575843,0.574511,0.573028,0.57136,0.569469,0.567314,0.564847,0.562014,0.558756,0.555004,0.550684,0.54571,0.539991,0.533424,0.525899,0.517299,0.507501,0.496381,0.483819,0.469699,0.453926,0.436431,0.417184,0.396209,0.373594,0.349515,0.324233,0.298109,0.271587,0.245183,0.21944,0.194887,0.171971,0.151005,0.132133,0.115329,0.100443,0.0872771,0.0756413,0.0653958,0.0564326,0.0486387,0.041871,0.0360005,0.0309239,0.026541,0.0227719,0.0195212,0.0167383,0.01434,0.0122928,0.0254807,0.0251013,0.0244575,0.0237448,0.0219779,0.0181936,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01022,1.01073,1.01127,1.01181,1.01236,1.01291,1.01348,1.01404,1.01461,1.01518,1.01575,1.01631,1.01686,1.01741,1.01794,1.01846,1.01895,1.01943,1.01988,1.0203,1.02068,1.02104,1.02135,1.02161,1.02183,1.022,1.02211,1.02216,1.02214,1.02206,1.02189,1.02165,1.02132,1.0209,1.02038,1.01976,1.01903,1.01818,1.0172,1.0161,1.01485,1.01345,1.0119,1.01017,1.00827,1.00617,1.00388,1.00137,0.998629,0.995654,0.992427,0.988935,0.985164,0.981101,0.976731,0.972042,0.967022,0.961657,0.955938,0.949855,0.9434,0.936565,0.929348,0.921747,0.913763,0.905402,0.89667,0.887581,0.87815,0.868397,0.858348,0.84803,0.837478,0.826729,0.815823,0.804804,0.793721,0.782622,0.771558,0.76058,0.749739,0.739086,0.728667,0.718529,0.708712,0.699253,0.690185,0.681535,0.673323,0.665565,0.658271,0.651445,0.645087,0.63919,0.633745,0.628737,0.624148,0.61996,0.61615,0.612694,0.609568,0.606746,0.604202,0.601913,0.599851,0.597993,0.596315,0.594793,0.593406,0.592131,0.590948,0.589835,0.588773,0.58774,0.586717,0.585682,0.584612,0.583486,0.582277,0.58096,0.579504,0.577877,0.576042,0.573959,0.571582,0.56886,0.565733,0.562138,0.558002,0.553243,0.547771,0.541488,0.534285,0.526049,0.516659,0.505989,0.493918,0.480326,0.46511,0.44819,0.429517,0.40909,0.386974,0.363303,0.338305,0.312297,0.285694,0.258982,0.232699,0.207387,0.183538,0.161528,0.141578,0.123736,0.1079,0.0938823,0.0814843,0.0705402,0.0609318,0.052555,0.0452777,0.038959,0.0334855,0.0287558,0.0246796,0.0211704,0.0181527,0.0155623,0.0133459,0.0254741,0.0238475,0.0221701,0.0216907,0.0216786,0.0213459,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01064,1.0112,1.01177,1.01236,1.01296,1.01357,1.01419,1.01481,1.01544,1.01608,1.01671,1.01735,1.01798,1.0186,1.01921,1.01981,1.02039,1.02095,1.02149,1.02201,1.02249,1.02293,1.02334,1.0237,1.02402,1.02428,1.02449,1.02464,1.02472,1.02473,1.02466,1.02451,1.02428,1.02395,1.02352,1.02298,1.02234,1.02157,1.02067,1.01965,1.01847,1.01715,1.01566,1.01401,1.01217,1.01014,1.00791,1.00546,1.00278,0.999869,0.996699,0.993263,0.989548,0.985538,0.981222,0.976586,0.971617,0.966304,0.960636,0.954604,0.948198,0.941413,0.934245,0.926693,0.918758,0.910444,0.90176,0.892717,0.883332,0.873625,0.863621,0.853348,0.842839,0.832131,0.821266,0.810288,0.799243,0.788181,0.777153,0.766209,0.755402,0.744779,0.734391,0.724281,0.71449,0.705057,0.696012,0.687383,0.679191,0.671452,0.664176,0.657366,0.651022,0.645138,0.639704,0.634707,0.630128,0.625948,0.622145,0.618695,0.615574,0.612757,0.610217,0.60793,0.60587,0.604013,0.602335,0.600813,0.599424,0.598147,0.596961,0.595844,0.594776,0.593737,0.592706,0.591661,0.59058,0.589441,0.588218,0.586883,0.585407,0.583757,0.581896,0.579783,0.577372,0.57461,0.571439,0.567794,0.563602,0.558779,0.553236,0.546873,0.539583,0.531249,0.521751,0.510965,0.498766,0.485037,0.469674,0.452597,0.433759,0.413159,0.390863,0.367005,0.341815,0.31561,0.288805,0.261887,0.235394,0.209871,0.185807,0.163586,0.143433,0.125398,0.109384,0.0952041,0.0826584,0.0715794,0.0618472,0.0533577,0.045981,0.0395736,0.0340214,0.0292227,0.0250853,0.021523,0.0184589,0.0158288,0.0135743,0.0116331,0.0225034,0.0211527,0.0202519,0.0209331,0.0172054,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01103,1.01163,1.01224,1.01288,1.01352,1.01419,1.01486,1.01554,1.01624,1.01694,1.01764,1.01834,1.01905,1.01975,1.02044,1.02112,1.02179,1.02245,1.02308,1.02368,1.02426,1.02481,1.02531,1.02578,1.0262,1.02656,1.02688,1.02713,1.02731,1.02742,1.02746,1.02741,1.02727,1.02704,1.02671,1.02627,1.02571,1.02503,1.02423,1.02328,1.0222,1.02095,1.01955,1.01797,1.0162,1.01424,1.01208,1.0097,1.00709,1.00423,1.00113,0.99775,0.994093,0.990141,0.98588,0.981299,0.976385,0.971125,0.96551,0.959528,0.953174,0.946439,0.939321,0.931818,0.923931,0.915665,0.907028,0.898033,0.888693,0.879031,0.869071,0.858841,0.848374,0.837707,0.826882,0.815943,0.804935,0.793909,0.782916,0.772006,0.761229,0.750637,0.740277,0.730194,0.720429,0.711019,0.701996,0.693388,0.685215,0.677493,0.670232,0.663436,0.657105,0.651233,0.64581,0.640821,0.63625,0.632076,0.628278,0.624833,0.621715,0.618899,0.616359,0.614071,0.61201,0.610149,0.608467,0.606938,0.605541,0.604254,0.603055,0.601924,0.600839,0.599779,0.598724,0.597651,0.596538,0.595361,0.594093,0.592708,0.591173,0.589455,0.587516,0.585312,0.582797,0.579917,0.576611,0.572811,0.568442,0.563419,0.55765,0.551033,0.543458,0.534807,0.524959,0.513789,0.501173,0.486995,0.471157,0.453583,0.434236,0.413127,0.390334,0.366011,0.340403,0.313848,0.286777,0.259689,0.233127,0.207633,0.183682,0.161632,0.141679,0.123849,0.108024,0.0940089,0.0816074,0.0706592,0.0610482,0.0526692,0.045388,0.039064,0.0335849,0.02885,0.0247684,0.0212538,0.0182315,0.0156363,0.0134154,0.022843,0.0214381,0.0202681,0.0196684,0.0196424,0.0186477,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01139,1.01203,1.01269,1.01336,1.01406,1.01477,1.0155,1.01624,1.01699,1.01775,1.01853,1.0193,1.02008,1.02086,1.02163,1.0224,1.02316,1.0239,1.02463,1.02533,1.026,1.02665,1.02726,1.02783,1.02836,1.02883,1.02925,1.02961,1.0299,1.03012,1.03027,1.03033,1.0303,1.03017,1.02994,1.0296,1.02915,1.02857,1.02786,1.02701,1.02601,1.02485,1.02353,1.02203,1.02035,1.01847,1.01638,1.01407,1.01153,1.00874,1.0057,1.00239,0.998796,0.994905,0.990704,0.986181,0.981323,0.976118,0.970557,0.964629,0.958327,0.951644,0.944576,0.937123,0.929285,0.921067,0.912477,0.903527,0.894233,0.884616,0.874699,0.864511,0.854085,0.843459,0.832672,0.82177,0.810799,0.799808,0.788847,0.777968,0.767222,0.756659,0.746325,0.736267,0.726526,0.717137,0.708135,0.699545,0.691389,0.683683,0.676436,0.669652,0.663332,0.657469,0.652053,0.64707,0.642503,0.638333,0.634537,0.631091,0.62797,0.625151,0.622606,0.62031,0.618237,0.616364,0.614666,0.613118,0.611699,0.610385,0.609154,0.607986,0.606857,0.605747,0.604633,0.603492,0.602299,0.60103,0.599656,0.598146,0.596469,0.594586,0.592456,0.590033,0.587266,0.584096,0.580458,0.576279,0.571478,0.565965,0.559642,0.552402,0.54413,0.534704,0.524001,0.511896,0.498269,0.483013,0.466041,0.447299,0.426775,0.404519,0.380649,0.355372,0.328985,0.301879,0.274525,0.247457,0.221219,0.196327,0.173199,0.152109,0.13316,0.116295,0.101344,0.088104,0.0763949,0.0660817,0.0570584,0.0492082,0.0423867,0.0364659,0.0313434,0.0269198,0.023113,0.0198288,0.017018,0.0145918,0.01252,0.0205851,0.0202885,0.019646,0.0195767,0.0189643,0.0152551,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01173,1.01241,1.0131,1.01382,1.01456,1.01532,1.0161,1.0169,1.01771,1.01853,1.01937,1.02022,1.02107,1.02193,1.02278,1.02363,1.02448,1.02532,1.02614,1.02694,1.02771,1.02846,1.02918,1.02986,1.03049,1.03108,1.03161,1.03209,1.03249,1.03283,1.03309,1.03326,1.03334,1.03333,1.03321,1.03298,1.03264,1.03216,1.03155,1.0308,1.0299,1.02884,1.02761,1.02621,1.02461,1.02281,1.0208,1.01857,1.01611,1.0134,1.01043,1.00719,1.00366,0.99983,0.995692,0.99123,0.986432,0.981286,0.975781,0.969908,0.96366,0.95703,0.950014,0.942611,0.934822,0.926653,0.91811,0.909207,0.899959,0.890385,0.880511,0.870365,0.85998,0.849393,0.838645,0.827779,0.816843,0.805886,0.794958,0.78411,0.773393,0.762857,0.75255,0.742516,0.732797,0.72343,0.714447,0.705875,0.697736,0.690044,0.682811,0.676039,0.66973,0.663876,0.658468,0.653491,0.64893,0.644763,0.640969,0.637524,0.634403,0.631581,0.629033,0.626732,0.624652,0.62277,0.62106,0.619499,0.618062,0.616729,0.615475,0.614278,0.613118,0.61197,0.610812,0.60962,0.608368,0.60703,0.605577,0.603976,0.602192,0.600187,0.597917,0.595333,0.59238,0.588998,0.585118,0.580664,0.57555,0.569682,0.56296,0.555273,0.546502,0.536526,0.525218,0.512455,0.498121,0.482114,0.464361,0.444818,0.423496,0.400468,0.375882,0.349976,0.323081,0.29562,0.268088,0.241029,0.214983,0.190442,0.167782,0.147222,0.128812,0.112449,0.097948,0.0851044,0.0737532,0.0637704,0.0550512,0.0474706,0.0408828,0.0351658,0.0302247,0.0259596,0.0222898,0.0191246,0.0164156,0.0140827,0.0120811,0.0191378,0.0184887,0.018366,0.0186338,0.0191009,0.0149251,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01205,1.01276,1.01349,1.01425,1.01503,1.01584,1.01667,1.01752,1.01839,1.01928,1.02018,1.0211,1.02202,1.02295,1.02389,1.02483,1.02576,1.02669,1.02761,1.02851,1.02939,1.03024,1.03107,1.03186,1.03261,1.03331,1.03396,1.03455,1.03508,1.03553,1.03591,1.0362,1.03641,1.03651,1.03651,1.0364,1.03617,1.03581,1.03531,1.03467,1.03388,1.03292,1.03179,1.03048,1.02898,1.02727,1.02535,1.0232,1.02082,1.01819,1.0153,1.01213,1.00867,1.00491,1.00084,0.996446,0.99171,0.986625,0.981179,0.975364,0.969172,0.962596,0.955634,0.948283,0.940545,0.932424,0.92393,0.915073,0.90587,0.896341,0.88651,0.876405,0.866061,0.855512,0.844801,0.833972,0.82307,0.812146,0.801249,0.79043,0.779742,0.769232,0.75895,0.748939,0.739242,0.729895,0.720931,0.712376,0.704252,0.696575,0.689353,0.682593,0.676293,0.670448,0.665046,0.660076,0.655518,0.651355,0.647562,0.644117,0.640995,0.638171,0.635618,0.63331,0.631223,0.62933,0.627607,0.626031,0.624576,0.623221,0.621942,0.620715,0.61952,0.618331,0.617126,0.615879,0.614564,0.613153,0.611614,0.609916,0.608019,0.605884,0.603464,0.600708,0.597559,0.593952,0.589815,0.585069,0.579624,0.573384,0.566243,0.558086,0.548795,0.538244,0.526308,0.512865,0.497804,0.48103,0.462482,0.442134,0.420016,0.396228,0.370947,0.344447,0.317089,0.289327,0.261674,0.23468,0.208879,0.184729,0.162559,0.142533,0.124649,0.10877,0.0946964,0.0822335,0.0712276,0.0615653,0.0531396,0.045814,0.0394481,0.0339306,0.0291612,0.0250485,0.0215055,0.018458,0.0158407,0.0135996,0.0189328,0.0178974,0.0168015,0.0166581,0.0165228,0.0175159,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01235,1.01309,1.01386,1.01465,1.01548,1.01633,1.01721,1.01811,1.01904,1.01999,1.02095,1.02194,1.02293,1.02394,1.02496,1.02598,1.02701,1.02803,1.02904,1.03004,1.03102,1.03199,1.03292,1.03382,1.03469,1.03551,1.03628,1.037,1.03765,1.03823,1.03873,1.03915,1.03948,1.03971,1.03984,1.03985,1.03974,1.0395,1.03912,1.0386,1.03792,1.03707,1.03605,1.03484,1.03344,1.03183,1.03001,1.02796,1.02566,1.02312,1.02031,1.01722,1.01384,1.01015,1.00615,1.00183,0.997157,0.992137,0.986753,0.980999,0.974865,0.968346,0.961438,0.95414,0.946454,0.938384,0.929938,0.921129,0.911972,0.902487,0.892699,0.882636,0.872331,0.861821,0.851147,0.840352,0.829484,0.818592,0.807726,0.796937,0.786275,0.775791,0.765533,0.755545,0.745869,0.736542,0.727595,0.719057,0.710948,0.703284,0.696075,0.689326,0.683036,0.677199,0.671805,0.66684,0.662288,0.658128,0.654338,0.650895,0.647773,0.644948,0.642393,0.640082,0.637989,0.63609,0.63436,0.632773,0.631307,0.629937,0.628641,0.627395,0.626176,0.624961,0.623724,0.62244,0.621083,0.619623,0.618028,0.616264,0.614293,0.612072,0.609554,0.606686,0.603408,0.599655,0.595352,0.590416,0.584759,0.578279,0.570869,0.562414,0.552792,0.541878,0.529546,0.515676,0.500159,0.482907,0.463862,0.44301,0.420392,0.396121,0.370394,0.343498,0.315812,0.287803,0.259995,0.232939,0.207161,0.183104,0.161073,0.141208,0.123482,0.107746,0.0937957,0.0814413,0.0705346,0.0609655,0.0526241,0.0453713,0.0390678,0.0336057,0.0288841,0.0248137,0.0213069,0.0182909,0.0156986,0.0134822,0.017567,0.0166757,0.0158879,0.0152542,0.0140635,0.0132899,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01262,1.01339,1.0142,1.01503,1.0159,1.01679,1.01772,1.01867,1.01965,1.02066,1.02169,1.02274,1.02381,1.02489,1.02599,1.02709,1.02821,1.02932,1.03043,1.03153,1.03262,1.03369,1.03474,1.03576,1.03674,1.03768,1.03858,1.03942,1.0402,1.04091,1.04154,1.0421,1.04256,1.04292,1.04318,1.04332,1.04334,1.04323,1.04298,1.04258,1.04202,1.04129,1.04038,1.03929,1.038,1.0365,1.03478,1.03282,1.03063,1.02817,1.02545,1.02245,1.01915,1.01555,1.01162,1.00737,1.00277,0.997817,0.9925,0.986808,0.980736,0.974276,0.967425,0.960183,0.95255,0.944531,0.936135,0.927373,0.918262,0.908822,0.899077,0.889055,0.878789,0.868317,0.85768,0.84692,0.836085,0.825224,0.814387,0.803626,0.792991,0.782531,0.772296,0.762329,0.752673,0.743364,0.734434,0.725911,0.717816,0.710164,0.702966,0.696226,0.689944,0.684114,0.678726,0.673765,0.669216,0.665058,0.661268,0.657824,0.6547,0.651871,0.64931,0.646992,0.64489,0.642979,0.641235,0.639632,0.638145,0.636752,0.635429,0.634151,0.632895,0.631636,0.630349,0.629008,0.627584,0.626046,0.624363,0.622496,0.620407,0.61805,0.615376,0.612329,0.608847,0.604861,0.600293,0.595058,0.589062,0.582201,0.574365,0.565436,0.555289,0.5438,0.530843,0.516301,0.500071,0.482074,0.462264,0.440645,0.417281,0.392311,0.36596,0.338545,0.310477,0.282241,0.254378,0.227437,0.201925,0.17825,0.156672,0.137278,0.120003,0.104671,0.0910772,0.0790409,0.0684283,0.0591327,0.0510353,0.0439962,0.0378776,0.0325812,0.0280043,0.0240609,0.0206588,0.0177418,0.0152268,0.0130819,0.0159765,0.0155998,0.0152976,0.0147295,0.0135814,0.0134268,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01288,1.01368,1.01452,1.01539,1.01629,1.01723,1.0182,1.0192,1.02024,1.0213,1.02239,1.0235,1.02464,1.0258,1.02698,1.02817,1.02937,1.03057,1.03178,1.03298,1.03417,1.03535,1.03652,1.03765,1.03876,1.03982,1.04085,1.04182,1.04273,1.04357,1.04434,1.04503,1.04563,1.04613,1.04653,1.04681,1.04697,1.04699,1.04687,1.0466,1.04617,1.04557,1.04479,1.04382,1.04265,1.04126,1.03965,1.0378,1.03571,1.03335,1.03073,1.02781,1.02461,1.02109,1.01725,1.01307,1.00855,1.00367,0.998419,0.992795,0.986787,0.980389,0.973598,0.966412,0.958834,0.950869,0.942524,0.933811,0.924747,0.915352,0.90565,0.895669,0.885444,0.87501,0.864408,0.853682,0.84288,0.83205,0.821242,0.810508,0.799898,0.789463,0.77925,0.769304,0.759667,0.750375,0.741461,0.732953,0.724871,0.717231,0.710044,0.703314,0.69704,0.691217,0.685834,0.680879,0.676333,0.672178,0.66839,0.664946,0.661822,0.65899,0.656426,0.654104,0.651996,0.650078,0.648324,0.64671,0.645211,0.643802,0.64246,0.641161,0.63988,0.638592,0.637271,0.635891,0.634422,0.632832,0.631089,0.629154,0.626986,0.624538,0.621761,0.618597,0.614981,0.610842,0.606101,0.600671,0.594455,0.587348,0.579238,0.570004,0.559523,0.547667,0.534313,0.519346,0.502665,0.484197,0.463904,0.441798,0.417957,0.392532,0.365763,0.337986,0.309621,0.281168,0.253172,0.22618,0.200689,0.177091,0.155622,0.136351,0.11919,0.103959,0.0904508,0.0784912,0.0679503,0.0587214,0.0506834,0.0436944,0.0376213,0.032363,0.0278197,0.0239053,0.0205279,0.0176325,0.0151362,0.0130083,0.0147393,0.0143567,0.014113,0.0137894,0.0143445,0.0114515,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01312,1.01395,1.01482,1.01572,1.01666,1.01764,1.01865,1.0197,1.02079,1.02191,1.02306,1.02424,1.02544,1.02667,1.02793,1.0292,1.03049,1.03178,1.03308,1.03439,1.03569,1.03698,1.03825,1.03951,1.04074,1.04193,1.04308,1.04418,1.04523,1.04621,1.04713,1.04796,1.0487,1.04934,1.04988,1.05031,1.05061,1.05078,1.0508,1.05067,1.05038,1.04991,1.04926,1.04842,1.04737,1.04611,1.04461,1.04288,1.0409,1.03865,1.03613,1.03331,1.0302,1.02677,1.02302,1.01893,1.01449,1.00968,1.00451,0.998955,0.993015,0.986682,0.979953,0.972827,0.965306,0.957395,0.949103,0.94044,0.931424,0.922075,0.912416,0.902478,0.892292,0.881895,0.871329,0.860637,0.849867,0.839066,0.828287,0.817579,0.806994,0.796582,0.78639,0.776463,0.766844,0.757568,0.74867,0.740174,0.732104,0.724475,0.717297,0.710575,0.704307,0.69849,0.693111,0.688159,0.683615,0.679459,0.67567,0.672224,0.669095,0.666259,0.663687,0.661356,0.659237,0.657305,0.655535,0.653902,0.65238,0.650944,0.649572,0.648236,0.646914,0.645578,0.644202,0.642757,0.641214,0.639539,0.637697,0.635648,0.63335,0.630754,0.627805,0.624446,0.620607,0.616215,0.611187,0.605433,0.598851,0.591335,0.582768,0.573029,0.561991,0.549528,0.535519,0.519852,0.502434,0.483203,0.462135,0.439263,0.414688,0.388587,0.361232,0.332986,0.304299,0.275685,0.2477,0.22088,0.195699,0.172507,0.151492,0.132676,0.115938,0.101082,0.0879063,0.0762479,0.0659871,0.0570146,0.0492058,0.0424127,0.0365141,0.0314108,0.0270013,0.0232037,0.0199284,0.0171205,0.0147002,0.0126315,0.0131265,0.012942,0.0134537,0.0135913,0.0140967,0.0121581,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01335,1.0142,1.0151,1.01603,1.01701,1.01802,1.01908,1.02018,1.02131,1.02248,1.02369,1.02493,1.02621,1.02751,1.02884,1.03019,1.03157,1.03295,1.03435,1.03576,1.03716,1.03856,1.03995,1.04133,1.04268,1.044,1.04528,1.04652,1.04771,1.04883,1.04989,1.05086,1.05175,1.05255,1.05324,1.05381,1.05426,1.05458,1.05475,1.05477,1.05462,1.0543,1.05379,1.05308,1.05217,1.05103,1.04967,1.04806,1.0462,1.04406,1.04165,1.03894,1.03593,1.0326,1.02894,1.02494,1.02058,1.01586,1.01077,1.00529,0.999422,0.993158,0.986494,0.979431,0.97197,0.964116,0.955878,0.947267,0.938301,0.928998,0.919384,0.909488,0.899342,0.888983,0.878453,0.867795,0.857056,0.846286,0.835534,0.824853,0.814292,0.803902,0.793731,0.783823,0.774222,0.764962,0.756078,0.747596,0.739538,0.73192,0.724751,0.718037,0.711777,0.705965,0.700592,0.695644,0.691103,0.68695,0.683163,0.679717,0.676588,0.67375,0.671176,0.668841,0.666717,0.664779,0.663002,0.66136,0.659827,0.658379,0.656992,0.655639,0.654297,0.652938,0.651535,0.650059,0.648481,0.646765,0.644876,0.642775,0.640415,0.63775,0.634723,0.631273,0.627332,0.622825,0.617668,0.611768,0.605023,0.597326,0.588558,0.578597,0.567316,0.554589,0.540295,0.524324,0.506584,0.487018,0.465606,0.442385,0.417463,0.391025,0.363352,0.334812,0.305862,0.277023,0.248849,0.221877,0.196577,0.173292,0.152201,0.133318,0.116519,0.101603,0.0883716,0.0766621,0.0663552,0.0573415,0.0494952,0.0426685,0.0367397,0.0316096,0.0271766,0.023358,0.0200646,0.0172403,0.0148066,0.0127253,0.011953,0.0119088,0.0123407,0.0125953,0.0138324,0.0120904,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01356,1.01444,1.01536,1.01633,1.01734,1.01839,1.01949,1.02063,1.02181,1.02303,1.0243,1.0256,1.02694,1.02831,1.02972,1.03115,1.03261,1.03408,1.03558,1.03708,1.03859,1.0401,1.04161,1.0431,1.04458,1.04603,1.04745,1.04882,1.05015,1.05142,1.05262,1.05375,1.05479,1.05574,1.05659,1.05732,1.05792,1.0584,1.05872,1.0589,1.0589,1.05873,1.05837,1.05781,1.05704,1.05604,1.05481,1.05333,1.05159,1.04958,1.04729,1.0447,1.04179,1.03857,1.03501,1.0311,1.02684,1.02221,1.01719,1.0118,1.006,0.999811,0.993217,0.986219,0.97882,0.971025,0.962843,0.954286,0.94537,0.936115,0.926547,0.916693,0.906587,0.896267,0.885772,0.875148,0.86444,0.853698,0.842974,0.832317,0.821779,0.811411,0.801259,0.791369,0.781783,0.772538,0.763667,0.755196,0.747147,0.739537,0.732376,0.725667,0.719411,0.713603,0.708231,0.703283,0.698741,0.694586,0.690794,0.687342,0.684206,0.681358,0.678772,0.676423,0.674282,0.672324,0.670523,0.668853,0.667289,0.665803,0.664373,0.66297,0.66157,0.660144,0.658663,0.657099,0.655417,0.653583,0.651558,0.6493,0.646762,0.643891,0.640628,0.636911,0.632665,0.627812,0.622262,0.61592,0.608679,0.600426,0.591042,0.5804,0.568375,0.55484,0.539678,0.522787,0.504088,0.483539,0.461144,0.436968,0.411152,0.38392,0.355591,0.326573,0.297353,0.268471,0.240482,0.213904,0.189161,0.166536,0.146142,0.127933,0.111746,0.0973745,0.0846292,0.073365,0.0634711,0.054836,0.0473197,0.0407818,0.0351099,0.0302042,0.0259695,0.0223189,0.0191774,0.0164774,0.0141618,0.0121679,0.0106841,0.0103651,0.0103674,0.0113669,0.00895651,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01375,1.01465,1.0156,1.0166,1.01764,1.01873,1.01987,1.02105,1.02228,1.02356,1.02487,1.02624,1.02764,1.02908,1.03056,1.03207,1.03361,1.03517,1.03676,1.03836,1.03998,1.0416,1.04322,1.04484,1.04644,1.04802,1.04957,1.05109,1.05256,1.05398,1.05533,1.05661,1.05781,1.05892,1.05992,1.06082,1.06159,1.06222,1.06271,1.06304,1.06321,1.0632,1.06299,1.06259,1.06196,1.06112,1.06003,1.05869,1.05709,1.05521,1.05304,1.05057,1.04778,1.04467,1.04122,1.03741,1.03325,1.02871,1.02379,1.01847,1.01276,1.00665,1.00012,0.993196,0.985863,0.97813,0.970007,0.961505,0.952642,0.943437,0.933915,0.924105,0.91404,0.903758,0.8933,0.882709,0.872033,0.86132,0.850622,0.839991,0.829476,0.819128,0.808995,0.799123,0.789552,0.780321,0.771463,0.763003,0.754964,0.747363,0.740208,0.733506,0.727255,0.72145,0.716081,0.711135,0.706593,0.702437,0.698643,0.695188,0.692047,0.689193,0.6866,0.684241,0.682089,0.680118,0.678302,0.676613,0.675027,0.673517,0.672057,0.670621,0.669182,0.667711,0.66618,0.664556,0.662807,0.660894,0.65878,0.656419,0.653763,0.650758,0.647343,0.643452,0.639009,0.633933,0.628132,0.621508,0.613951,0.605347,0.595574,0.584505,0.572013,0.557974,0.542274,0.524813,0.505521,0.484366,0.461363,0.436594,0.410217,0.382478,0.353716,0.324355,0.294899,0.265896,0.237897,0.211409,0.186833,0.164421,0.144256,0.126265,0.110273,0.0960714,0.0834783,0.0723555,0.0625931,0.0540771,0.0466642,0.0402155,0.0346236,0.0297876,0.0256142,0.0220158,0.0189203,0.0162598,0.0139801,0.0099302,0.00961327,0.00942061,0.00953504,0.00994893,0.0117899,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01393,1.01486,1.01584,1.01686,1.01793,1.01906,1.02023,1.02145,1.02273,1.02405,1.02542,1.02684,1.0283,1.02981,1.03136,1.03295,1.03457,1.03622,1.03791,1.03961,1.04133,1.04306,1.0448,1.04653,1.04826,1.04997,1.05166,1.05332,1.05493,1.0565,1.05801,1.05945,1.06081,1.06208,1.06325,1.06431,1.06524,1.06605,1.06671,1.06721,1.06754,1.0677,1.06766,1.06741,1.06695,1.06625,1.06532,1.06413,1.06267,1.06093,1.0589,1.05655,1.05389,1.0509,1.04756,1.04387,1.03981,1.03537,1.03054,1.02532,1.01969,1.01366,1.00721,1.00036,0.993095,0.985427,0.977365,0.968921,0.960112,0.950958,0.941484,0.931719,0.921696,0.911454,0.901031,0.890474,0.879829,0.869145,0.858474,0.847866,0.837374,0.827046,0.816931,0.807075,0.797519,0.788301,0.779454,0.771004,0.762974,0.755379,0.74823,0.741532,0.735284,0.729481,0.724112,0.719165,0.714621,0.710461,0.706662,0.7032,0.700051,0.697186,0.694581,0.692206,0.690037,0.688045,0.686204,0.684487,0.682868,0.68132,0.679816,0.678329,0.676831,0.675292,0.673683,0.671969,0.670116,0.668085,0.665835,0.663318,0.660483,0.657274,0.653627,0.649471,0.644728,0.639312,0.633128,0.626074,0.618037,0.608899,0.598535,0.586819,0.573623,0.558825,0.542317,0.524009,0.503842,0.481802,0.457926,0.432324,0.405184,0.376786,0.347501,0.317785,0.28816,0.259184,0.2314,0.205284,0.181195,0.159328,0.139712,0.122235,0.106701,0.0929053,0.080679,0.0698968,0.0604513,0.0522172,0.0450511,0.0388174,0.0334182,0.0287499,0.0247245,0.0212503,0.018269,0.0156988,0.0135033,0.00848356,0.00864413,0.00888411,0.00897648,0.00884357,0.00892969,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0141,1.01505,1.01605,1.0171,1.01821,1.01936,1.02057,1.02183,1.02315,1.02452,1.02594,1.02742,1.02894,1.03051,1.03213,1.0338,1.0355,1.03724,1.03901,1.04081,1.04263,1.04447,1.04633,1.04818,1.05004,1.05188,1.05371,1.05551,1.05727,1.05899,1.06065,1.06225,1.06377,1.06521,1.06655,1.06778,1.0689,1.06987,1.07071,1.07139,1.07189,1.07222,1.07235,1.07228,1.07198,1.07145,1.07068,1.06964,1.06834,1.06675,1.06486,1.06265,1.06013,1.05726,1.05405,1.05047,1.04652,1.04219,1.03746,1.03233,1.0268,1.02085,1.01449,1.00771,1.00052,0.99292,0.984922,0.976539,0.967786,0.958686,0.949261,0.939543,0.929563,0.91936,0.908975,0.898452,0.887839,0.877184,0.866539,0.855956,0.845485,0.835177,0.82508,0.81524,0.805699,0.796493,0.787656,0.779216,0.771194,0.763606,0.756462,0.749768,0.743523,0.737721,0.732354,0.727405,0.72286,0.718696,0.714893,0.711425,0.708268,0.705394,0.702778,0.70039,0.698205,0.696195,0.694333,0.692591,0.690943,0.689362,0.687819,0.686288,0.684739,0.683142,0.681464,0.679673,0.677731,0.675598,0.673231,0.67058,0.667593,0.66421,0.660364,0.655984,0.650987,0.645284,0.638778,0.631363,0.622923,0.61334,0.602485,0.590232,0.576455,0.561033,0.543863,0.524862,0.503984,0.481227,0.456646,0.430373,0.402619,0.373689,0.343978,0.313964,0.284181,0.25519,0.227523,0.201634,0.177845,0.156314,0.137032,0.119862,0.104598,0.0910422,0.0790352,0.0684573,0.0591999,0.0511337,0.0441107,0.0380066,0.0327202,0.0281507,0.0242116,0.0208117,0.0178965,0.0153814,0.0132326,0.00711063,0.00753293,0.00801057,0.00846018,0.00895213,0.00952129,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01426,1.01523,1.01625,1.01733,1.01846,1.01965,1.02089,1.02219,1.02355,1.02497,1.02644,1.02797,1.02955,1.03118,1.03287,1.03461,1.03639,1.03821,1.04008,1.04197,1.0439,1.04585,1.04781,1.04979,1.05177,1.05375,1.05571,1.05765,1.05957,1.06144,1.06326,1.06502,1.06671,1.06832,1.06984,1.07125,1.07253,1.07369,1.07471,1.07557,1.07626,1.07677,1.07708,1.07718,1.07706,1.07671,1.0761,1.07523,1.07409,1.07265,1.07091,1.06886,1.06647,1.06374,1.06066,1.05721,1.05338,1.04916,1.04454,1.03951,1.03408,1.02822,1.02195,1.01525,1.00813,1.00061,0.992678,0.984359,0.975666,0.96662,0.957248,0.947577,0.937642,0.927481,0.917133,0.906645,0.896064,0.885438,0.87482,0.864261,0.853812,0.843524,0.833444,0.82362,0.814092,0.804898,0.796072,0.787641,0.779626,0.772044,0.764905,0.758215,0.751972,0.746172,0.740805,0.735855,0.731308,0.727141,0.723333,0.71986,0.716695,0.713812,0.711184,0.708784,0.706584,0.704556,0.702673,0.700908,0.699232,0.697619,0.69604,0.694466,0.692868,0.691215,0.689474,0.687609,0.685582,0.683353,0.680875,0.678098,0.674967,0.671421,0.66739,0.662799,0.657564,0.651594,0.644788,0.637037,0.628225,0.618229,0.606922,0.594175,0.579864,0.563872,0.546099,0.52647,0.504948,0.481543,0.456328,0.429452,0.401148,0.371741,0.341647,0.311359,0.281421,0.252394,0.2248,0.199071,0.1755,0.15421,0.135166,0.11821,0.103136,0.0897468,0.0778934,0.0674607,0.0583356,0.0503862,0.0434637,0.0374488,0.0322424,0.0277411,0.023861,0.0205141,0.017642,0.0151668,0.0130489,0.00588338,0.00629261,0.00711241,0.00776631,0.00915476,0.00642227,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01441,1.0154,1.01644,1.01754,1.0187,1.01992,1.0212,1.02253,1.02393,1.02539,1.02691,1.02849,1.03013,1.03183,1.03358,1.03539,1.03725,1.03915,1.04111,1.0431,1.04512,1.04718,1.04926,1.05136,1.05346,1.05557,1.05767,1.05976,1.06182,1.06385,1.06583,1.06776,1.06962,1.0714,1.0731,1.07469,1.07616,1.0775,1.07871,1.07975,1.08063,1.08133,1.08183,1.08212,1.08218,1.08201,1.08158,1.08088,1.07991,1.07864,1.07706,1.07516,1.07293,1.07034,1.0674,1.06408,1.06037,1.05628,1.05177,1.04686,1.04152,1.03577,1.02958,1.02297,1.01594,1.00849,1.00063,0.992379,0.983748,0.974761,0.965442,0.955821,0.945933,0.935813,0.925505,0.915052,0.904503,0.893907,0.883316,0.872781,0.862353,0.852084,0.842021,0.832212,0.822697,0.813514,0.804698,0.796274,0.788265,0.780688,0.773553,0.766865,0.760624,0.754823,0.749454,0.744502,0.73995,0.735777,0.731962,0.72848,0.725304,0.722409,0.719766,0.717348,0.715127,0.713075,0.711165,0.709367,0.707655,0.705999,0.704371,0.702741,0.701078,0.699351,0.697524,0.695561,0.693422,0.691064,0.688439,0.685495,0.682173,0.678408,0.674131,0.66926,0.66371,0.657384,0.65018,0.641985,0.632679,0.622139,0.610235,0.59684,0.581829,0.565093,0.546537,0.526097,0.503751,0.479529,0.453525,0.425916,0.396963,0.367021,0.336532,0.306009,0.276008,0.247084,0.21974,0.194373,0.171229,0.150386,0.131768,0.115196,0.100461,0.0873769,0.0758058,0.0656349,0.0567489,0.0490097,0.0422704,0.0364183,0.0313535,0.0269788,0.0232071,0.0199532,0.0171615,0.014763,0.0127006,0.00473791,0.00503945,0.00591711,0.00676096,0.00694935,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01455,1.01556,1.01662,1.01774,1.01893,1.02017,1.02148,1.02285,1.02429,1.02579,1.02736,1.02899,1.03068,1.03244,1.03426,1.03613,1.03807,1.04006,1.0421,1.04418,1.04631,1.04847,1.05066,1.05288,1.05511,1.05735,1.05959,1.06182,1.06404,1.06622,1.06837,1.07046,1.0725,1.07446,1.07633,1.0781,1.07977,1.0813,1.0827,1.08394,1.08501,1.0859,1.0866,1.08708,1.08734,1.08735,1.08711,1.0866,1.0858,1.08471,1.0833,1.08156,1.07949,1.07706,1.07426,1.07108,1.06751,1.06354,1.05916,1.05437,1.04914,1.04349,1.0374,1.03088,1.02394,1.01657,1.00879,1.00061,0.992041,0.983115,0.973853,0.964284,0.954443,0.944368,0.9341,0.923685,0.913169,0.902604,0.892039,0.881529,0.871123,0.860873,0.850828,0.841033,0.831532,0.822361,0.813553,0.805138,0.797136,0.789564,0.782434,0.775748,0.769509,0.763709,0.758339,0.753386,0.748832,0.744656,0.740836,0.737348,0.734165,0.731261,0.728608,0.726178,0.723943,0.721875,0.719946,0.718127,0.71639,0.714705,0.713044,0.711377,0.709671,0.707894,0.70601,0.703982,0.70177,0.699327,0.696606,0.693552,0.690106,0.686201,0.681763,0.676713,0.670961,0.66441,0.656953,0.648476,0.638861,0.627979,0.615702,0.601903,0.586458,0.569259,0.550217,0.529274,0.506414,0.481676,0.455168,0.427079,0.397683,0.367351,0.336535,0.305759,0.27558,0.246554,0.219174,0.193821,0.170724,0.14994,0.131379,0.114857,0.100161,0.087113,0.0755754,0.0654377,0.0565834,0.0488687,0.0421501,0.0363183,0.0312708,0.026911,0.0231513,0.0199104,0.017126,0.0147353,0.012679,0.00360809,0.00397218,0.00489167,0.00543052,0.00739262,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01467,1.0157,1.01679,1.01793,1.01914,1.02041,1.02175,1.02316,1.02463,1.02617,1.02778,1.02946,1.03121,1.03302,1.0349,1.03685,1.03886,1.04093,1.04305,1.04523,1.04746,1.04972,1.05203,1.05436,1.05672,1.05909,1.06147,1.06384,1.06621,1.06855,1.07086,1.07313,1.07534,1.07747,1.07953,1.0815,1.08335,1.08508,1.08667,1.08812,1.08939,1.09048,1.09138,1.09206,1.09252,1.09273,1.09269,1.09237,1.09176,1.09085,1.08962,1.08806,1.08615,1.08388,1.08124,1.07821,1.07479,1.07096,1.06671,1.06203,1.05692,1.05138,1.0454,1.03898,1.03213,1.02484,1.01714,1.00903,1.00054,0.991676,0.982473,0.972959,0.963169,0.953139,0.942913,0.932535,0.922054,0.911519,0.900982,0.890496,0.880112,0.869881,0.859853,0.850072,0.840583,0.831422,0.822623,0.814214,0.806218,0.79865,0.791521,0.784837,0.778597,0.772796,0.767423,0.762466,0.757906,0.753723,0.749894,0.746395,0.7432,0.740282,0.737612,0.735162,0.732905,0.730811,0.728851,0.726997,0.72522,0.72349,0.721776,0.720048,0.718273,0.716416,0.714441,0.712309,0.709977,0.707398,0.704521,0.70129,0.697642,0.693509,0.688813,0.68347,0.677389,0.670468,0.662599,0.653665,0.643542,0.632104,0.61922,0.604763,0.588615,0.570672,0.550853,0.529111,0.505448,0.479921,0.452662,0.423884,0.393891,0.36308,0.331925,0.300967,0.270767,0.241871,0.214747,0.189741,0.167036,0.146648,0.128456,0.112261,0.0978561,0.0850721,0.073781,0.063872,0.0552237,0.0476878,0.0411271,0.0354356,0.0305107,0.0262587,0.0225904,0.0194335,0.0167169,0.0143917,0.00230767,0.00264901,0.00312926,0.00357262,0.00400119,0.00597965,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01479,1.01584,1.01694,1.01811,1.01934,1.02064,1.022,1.02344,1.02495,1.02653,1.02818,1.02991,1.03171,1.03358,1.03552,1.03754,1.03962,1.04176,1.04397,1.04624,1.04856,1.05093,1.05335,1.0558,1.05828,1.06078,1.0633,1.06582,1.06834,1.07084,1.07331,1.07575,1.07814,1.08046,1.0827,1.08486,1.08691,1.08884,1.09064,1.09228,1.09377,1.09507,1.09617,1.09707,1.09773,1.09815,1.09831,1.09819,1.09778,1.09706,1.09602,1.09464,1.09291,1.09081,1.08834,1.08547,1.0822,1.07851,1.0744,1.06986,1.06487,1.05945,1.05358,1.04726,1.04051,1.03331,1.0257,1.01767,1.00925,1.00045,0.991313,0.981856,0.972118,0.962136,0.951954,0.941615,0.93117,0.920667,0.910159,0.899697,0.889336,0.879125,0.869113,0.859347,0.84987,0.84072,0.83193,0.823528,0.815537,0.807973,0.800847,0.794165,0.787925,0.782122,0.776748,0.771787,0.767223,0.763034,0.759199,0.755692,0.752487,0.749556,0.746873,0.744408,0.742132,0.740017,0.738034,0.736153,0.734344,0.732577,0.730822,0.729046,0.727217,0.725298,0.723252,0.721039,0.718614,0.71593,0.712933,0.709566,0.705764,0.701456,0.696563,0.690998,0.684668,0.67747,0.669291,0.660013,0.649512,0.63766,0.624325,0.609383,0.592715,0.574224,0.553832,0.531503,0.507247,0.481134,0.453313,0.424011,0.393551,0.362345,0.33088,0.299707,0.269388,0.240461,0.213382,0.188473,0.165891,0.145633,0.12756,0.111468,0.0971523,0.0844491,0.0732348,0.0633999,0.0548169,0.0473372,0.0408251,0.035178,0.0302913,0.0260721,0.0224336,0.0193014,0.016606,0.0142995,0.00114966,0.00160822,0.00213796,0.00270808,0.00342288,0.00139964,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01491,1.01596,1.01709,1.01827,1.01953,1.02085,1.02224,1.02371,1.02525,1.02687,1.02856,1.03034,1.03219,1.03411,1.03611,1.03819,1.04034,1.04257,1.04486,1.04721,1.04963,1.0521,1.05463,1.0572,1.0598,1.06243,1.06509,1.06776,1.07042,1.07308,1.07572,1.07833,1.0809,1.0834,1.08584,1.08819,1.09044,1.09258,1.09458,1.09644,1.09814,1.09965,1.10097,1.10208,1.10296,1.10359,1.10396,1.10405,1.10385,1.10333,1.10249,1.10131,1.09976,1.09785,1.09555,1.09285,1.08974,1.0862,1.08224,1.07783,1.07298,1.06768,1.06193,1.05573,1.04907,1.04198,1.03445,1.02651,1.01817,1.00944,1.00037,0.990973,0.98129,0.971358,0.961221,0.950924,0.940515,0.930045,0.919566,0.909131,0.898792,0.888601,0.878606,0.868855,0.85939,0.85025,0.841468,0.833073,0.825087,0.817526,0.810402,0.80372,0.79748,0.791676,0.786298,0.781333,0.776763,0.772568,0.768724,0.765207,0.761991,0.759047,0.756348,0.753865,0.751569,0.749431,0.74742,0.745508,0.743663,0.741856,0.740054,0.738225,0.736334,0.734345,0.73222,0.729915,0.727387,0.724584,0.721454,0.717934,0.713959,0.709455,0.704342,0.69853,0.691922,0.684413,0.67589,0.666231,0.65531,0.642998,0.629165,0.613686,0.596448,0.577355,0.556338,0.53337,0.508472,0.481732,0.453312,0.423461,0.392519,0.360915,0.329154,0.297789,0.267388,0.238477,0.211493,0.186732,0.164325,0.144241,0.126327,0.110374,0.0961805,0.0835895,0.0724824,0.0627469,0.054252,0.0468487,0.0404034,0.0348165,0.0299822,0.0258102,0.0222079,0.0191132,0.0164454,0.0141632,0,0.000607275,0.00125623,0.00183999,0.00274916,0.00505902,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01501,1.01608,1.01722,1.01843,1.0197,1.02105,1.02247,1.02397,1.02554,1.02719,1.02893,1.03074,1.03264,1.03462,1.03668,1.03882,1.04104,1.04334,1.04571,1.04815,1.05066,1.05324,1.05587,1.05855,1.06128,1.06404,1.06683,1.06964,1.07247,1.07528,1.07809,1.08087,1.08362,1.08631,1.08894,1.09149,1.09394,1.09629,1.09851,1.10058,1.10249,1.10423,1.10577,1.1071,1.10821,1.10906,1.10965,1.10996,1.10997,1.10967,1.10903,1.10805,1.1067,1.10498,1.10286,1.10034,1.0974,1.09403,1.09022,1.08597,1.08126,1.07609,1.07046,1.06438,1.05783,1.05084,1.04341,1.03556,1.0273,1.01865,1.00965,1.00031,0.990688,0.98081,0.970721,0.960467,0.950097,0.939661,0.929213,0.918804,0.908489,0.898318,0.888341,0.878604,0.869152,0.860022,0.851249,0.84286,0.834878,0.827321,0.820199,0.813518,0.807276,0.801471,0.79609,0.791121,0.786545,0.782344,0.778492,0.774966,0.771738,0.768782,0.766069,0.763569,0.761253,0.759093,0.757057,0.755115,0.753237,0.751392,0.749547,0.747668,0.74572,0.743667,0.741468,0.73908,0.736456,0.733545,0.730291,0.726632,0.722499,0.717818,0.712505,0.706468,0.699609,0.691821,0.682987,0.672985,0.661688,0.648965,0.634688,0.618732,0.600986,0.581359,0.559788,0.536254,0.510789,0.48349,0.454537,0.42419,0.392807,0.360831,0.328775,0.2972,0.266672,0.237711,0.210738,0.186029,0.163695,0.143686,0.125839,0.109941,0.095795,0.0832493,0.0721864,0.0624934,0.0540346,0.0466627,0.0402444,0.0346826,0.02987,0.0257162,0.0221296,0.0190493,0.0163929,0.0141214,0,0,0.00045336,0.00128847,0.00172236,0.00391223,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0151,1.01619,1.01735,1.01857,1.01987,1.02123,1.02268,1.0242,1.02581,1.0275,1.02927,1.03113,1.03307,1.0351,1.03722,1.03942,1.04171,1.04408,1.04653,1.04906,1.05166,1.05433,1.05707,1.05986,1.06271,1.0656,1.06853,1.07149,1.07446,1.07744,1.08041,1.08337,1.0863,1.08918,1.092,1.09475,1.09741,1.09997,1.1024,1.1047,1.10684,1.1088,1.11057,1.11213,1.11346,1.11455,1.11537,1.11591,1.11614,1.11606,1.11564,1.11487,1.11373,1.1122,1.11028,1.10795,1.10519,1.10199,1.09835,1.09425,1.08969,1.08466,1.07917,1.07321,1.06678,1.0599,1.05257,1.04481,1.03664,1.02807,1.01914,1.00988,1.00031,0.99049,0.980452,0.970243,0.959913,0.949513,0.939096,0.928716,0.918424,0.908274,0.898314,0.888593,0.879153,0.870033,0.861267,0.852884,0.844907,0.837352,0.830231,0.82355,0.817307,0.811498,0.806113,0.801138,0.796556,0.792345,0.788484,0.784946,0.781705,0.778733,0.776002,0.773481,0.771142,0.768954,0.766888,0.764911,0.762993,0.761101,0.759203,0.757264,0.755248,0.753117,0.750828,0.748338,0.745599,0.742556,0.739153,0.735325,0.731002,0.726105,0.720549,0.714241,0.707078,0.698951,0.689741,0.679325,0.667574,0.654358,0.639546,0.623018,0.604665,0.584403,0.562176,0.537976,0.511849,0.483907,0.454348,0.423453,0.391597,0.35924,0.32691,0.295173,0.264591,0.235672,0.208815,0.18427,0.162118,0.142285,0.124596,0.108835,0.0948118,0.0823807,0.0714268,0.061834,0.0534642,0.0461673,0.0398192,0.0343174,0.0295567,0.0254492,0.0219023,0.0188571,0.016232,0.0139866,0,0,0,0.000418427,0.00232396,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01519,1.01629,1.01746,1.0187,1.02002,1.02141,1.02288,1.02443,1.02607,1.02779,1.0296,1.03149,1.03348,1.03556,1.03773,1.03999,1.04235,1.04479,1.04731,1.04993,1.05262,1.05539,1.05823,1.06114,1.06411,1.06713,1.07019,1.07329,1.07641,1.07955,1.08269,1.08582,1.08893,1.092,1.09503,1.09798,1.10085,1.10362,1.10628,1.10879,1.11116,1.11336,1.11536,1.11716,1.11873,1.12005,1.12111,1.12188,1.12235,1.1225,1.1223,1.12176,1.12083,1.11952,1.1178,1.11566,1.11309,1.11008,1.10661,1.10268,1.09828,1.0934,1.08805,1.08222,1.07592,1.06915,1.06193,1.05427,1.04619,1.03771,1.02886,1.01967,1.01017,1.0004,0.990419,0.980258,0.969971,0.959609,0.949225,0.938873,0.928607,0.918478,0.908537,0.898831,0.889404,0.880294,0.871536,0.86316,0.855186,0.847634,0.840514,0.833832,0.827587,0.821775,0.816386,0.811405,0.806816,0.802597,0.798725,0.795176,0.791922,0.788934,0.786185,0.783645,0.781283,0.779069,0.776972,0.774961,0.773003,0.771067,0.769118,0.767121,0.765039,0.762832,0.760458,0.75787,0.75502,0.751852,0.748306,0.744317,0.739812,0.73471,0.728924,0.722359,0.714909,0.706462,0.6969,0.686096,0.67392,0.660241,0.644931,0.627871,0.608955,0.588104,0.565271,0.540457,0.513717,0.485182,0.455063,0.423658,0.391358,0.358637,0.326034,0.294118,0.26345,0.234523,0.20772,0.183266,0.16122,0.141491,0.123892,0.108208,0.0942536,0.0818881,0.0709977,0.0614635,0.053145,0.0458918,0.0395829,0.0341162,0.0293864,0.0253053,0.0217811,0.0187568,0.0161468,0.0139121,0,0,0,0,0.00106367,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01527,1.01639,1.01757,1.01883,1.02016,1.02157,1.02307,1.02464,1.02631,1.02806,1.0299,1.03184,1.03387,1.036,1.03822,1.04054,1.04296,1.04547,1.04807,1.05076,1.05354,1.05641,1.05935,1.06237,1.06546,1.0686,1.0718,1.07504,1.07832,1.08162,1.08492,1.08823,1.09152,1.09479,1.09801,1.10117,1.10425,1.10724,1.11012,1.11287,1.11547,1.1179,1.12015,1.12219,1.124,1.12557,1.12687,1.12789,1.1286,1.12898,1.12903,1.12871,1.12801,1.12692,1.12541,1.12348,1.12111,1.11829,1.11501,1.11125,1.10702,1.1023,1.0971,1.09141,1.08524,1.0786,1.07149,1.06394,1.05596,1.04757,1.0388,1.02968,1.02025,1.01055,1.00062,0.990512,0.980269,0.969946,0.959597,0.949276,0.939036,0.928929,0.919007,0.909316,0.899902,0.890802,0.882052,0.873681,0.865711,0.85816,0.85104,0.844356,0.838108,0.832292,0.826896,0.821908,0.81731,0.81308,0.809196,0.805632,0.802361,0.799354,0.796583,0.794018,0.791627,0.78938,0.787246,0.785192,0.783186,0.781195,0.779183,0.777114,0.774949,0.772649,0.770168,0.767459,0.764471,0.761147,0.757425,0.753235,0.748504,0.743148,0.737077,0.730192,0.722387,0.713545,0.703545,0.692261,0.67956,0.665312,0.64939,0.631678,0.612075,0.590509,0.566944,0.541393,0.513931,0.484703,0.453943,0.421972,0.389201,0.356122,0.323285,0.291263,0.26061,0.2318,0.205188,0.180967,0.159162,0.13966,0.122263,0.106757,0.0929638,0.0807502,0.0700032,0.0605988,0.0523947,0.0452407,0.0390206,0.0336336,0.0289718,0.0249498,0.021479,0.0184979,0.0159281,0.0137275,0,0,0,0,0.00121785,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01535,1.01647,1.01767,1.01894,1.02029,1.02173,1.02324,1.02484,1.02653,1.02831,1.03019,1.03217,1.03424,1.03641,1.03869,1.04106,1.04354,1.04612,1.04879,1.05157,1.05443,1.05739,1.06044,1.06357,1.06677,1.07004,1.07337,1.07675,1.08018,1.08363,1.08711,1.09059,1.09407,1.09753,1.10094,1.10431,1.10761,1.11082,1.11393,1.11691,1.11975,1.12242,1.12492,1.12721,1.12927,1.13109,1.13265,1.13391,1.13487,1.13551,1.1358,1.13572,1.13526,1.1344,1.13312,1.13141,1.12925,1.12663,1.12354,1.11997,1.11591,1.11136,1.10632,1.10078,1.09475,1.08824,1.08126,1.07382,1.06594,1.05765,1.04896,1.03993,1.03057,1.02094,1.01107,1.00101,0.990816,0.980536,0.970223,0.959934,0.949721,0.939638,0.929736,0.920062,0.91066,0.901571,0.892829,0.884464,0.876498,0.868949,0.86183,0.855144,0.848894,0.843073,0.837671,0.832676,0.828069,0.823829,0.819933,0.816355,0.813068,0.810043,0.807252,0.804663,0.802245,0.799968,0.797799,0.795705,0.793654,0.791611,0.78954,0.787405,0.785164,0.782777,0.780198,0.777378,0.774264,0.770797,0.766913,0.762541,0.757605,0.752018,0.745689,0.738515,0.730388,0.721191,0.7108,0.699085,0.685916,0.671162,0.654696,0.636405,0.616194,0.593997,0.569787,0.543587,0.515485,0.485644,0.454315,0.421833,0.388629,0.355206,0.322124,0.289958,0.259253,0.230469,0.20394,0.179833,0.158151,0.138764,0.121465,0.106044,0.0923299,0.0801919,0.0695163,0.0601781,0.0520309,0.0449266,0.0387507,0.0334023,0.0287755,0.024784,0.0213389,0.0183806,0.0158334,0.013644,0,0,0,0,9.89859e-05,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01542,1.01655,1.01777,1.01905,1.02042,1.02187,1.0234,1.02503,1.02674,1.02856,1.03047,1.03248,1.03459,1.03681,1.03913,1.04156,1.0441,1.04674,1.04949,1.05234,1.05529,1.05834,1.06149,1.06472,1.06804,1.07143,1.0749,1.07842,1.08199,1.08561,1.08925,1.09291,1.09657,1.10022,1.10384,1.10741,1.11093,1.11436,1.1177,1.12092,1.124,1.12693,1.12967,1.13222,1.13454,1.13662,1.13843,1.13996,1.14118,1.14207,1.14262,1.14279,1.14258,1.14196,1.14091,1.13943,1.13749,1.13508,1.1322,1.12882,1.12495,1.12058,1.1157,1.11032,1.10444,1.09807,1.09122,1.0839,1.07613,1.06794,1.05936,1.0504,1.04113,1.03156,1.02176,1.01176,1.00161,0.991374,0.9811,0.970845,0.960661,0.950602,0.94072,0.931063,0.921676,0.912597,0.903863,0.895503,0.887541,0.879993,0.872873,0.866185,0.859931,0.854104,0.848695,0.843691,0.839073,0.834821,0.83091,0.827315,0.824009,0.820963,0.818146,0.815529,0.813079,0.810764,0.808553,0.806412,0.804307,0.802202,0.800061,0.797844,0.795513,0.793022,0.790325,0.787371,0.784104,0.780465,0.776387,0.771796,0.766612,0.760748,0.754109,0.746589,0.738077,0.728454,0.717593,0.705365,0.691638,0.67628,0.659168,0.640193,0.619266,0.596329,0.571366,0.544417,0.515586,0.485055,0.453096,0.420068,0.38642,0.352672,0.319393,0.287156,0.256494,0.22785,0.201523,0.177648,0.156199,0.137026,0.119916,0.104663,0.0911035,0.0791115,0.0685728,0.059358,0.0513189,0.0443094,0.0382193,0.0329448,0.0283844,0.0244479,0.0210516,0.0181345,0.015627,0.01347,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01548,1.01663,1.01785,1.01915,1.02053,1.022,1.02356,1.0252,1.02694,1.02878,1.03073,1.03277,1.03492,1.03718,1.03955,1.04204,1.04463,1.04733,1.05015,1.05308,1.05611,1.05925,1.0625,1.06584,1.06927,1.07278,1.07638,1.08004,1.08376,1.08753,1.09134,1.09518,1.09902,1.10286,1.10669,1.11047,1.11421,1.11787,1.12144,1.1249,1.12823,1.1314,1.13441,1.13721,1.1398,1.14214,1.14423,1.14602,1.14751,1.14867,1.14948,1.14991,1.14995,1.14959,1.14879,1.14754,1.14583,1.14365,1.14098,1.13781,1.13414,1.12995,1.12526,1.12004,1.11432,1.1081,1.10138,1.09419,1.08654,1.07846,1.06997,1.06112,1.05192,1.04243,1.03269,1.02275,1.01266,1.00247,0.992239,0.982019,0.971866,0.961834,0.951974,0.942336,0.932963,0.923896,0.915171,0.906817,0.898859,0.891313,0.884193,0.877503,0.871245,0.865413,0.859998,0.854985,0.850357,0.846093,0.842169,0.838559,0.835235,0.832169,0.829329,0.826685,0.824206,0.821858,0.819609,0.817424,0.815269,0.813108,0.810902,0.808614,0.806199,0.803615,0.800811,0.797737,0.794335,0.790542,0.78629,0.781504,0.776101,0.769992,0.763079,0.755254,0.746404,0.736408,0.725137,0.712461,0.698248,0.682367,0.664697,0.645131,0.623586,0.600011,0.574401,0.546804,0.517341,0.486209,0.453696,0.420177,0.386117,0.352046,0.318539,0.286169,0.25546,0.226837,0.200577,0.176794,0.155439,0.136351,0.119313,0.104123,0.0906229,0.0786891,0.0682062,0.0590427,0.0510447,0.0440731,0.0380179,0.0327738,0.028239,0.0243238,0.0209517,0.0180488,0.0155574,0.0134111,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01554,1.01669,1.01793,1.01924,1.02064,1.02212,1.0237,1.02536,1.02713,1.029,1.03097,1.03305,1.03524,1.03754,1.03995,1.04249,1.04514,1.0479,1.05079,1.05379,1.05691,1.06013,1.06347,1.06691,1.07046,1.07409,1.07781,1.08162,1.08549,1.08941,1.09339,1.0974,1.10143,1.10546,1.10949,1.11349,1.11744,1.12133,1.12514,1.12884,1.13242,1.13585,1.13912,1.14219,1.14505,1.14767,1.15002,1.1521,1.15386,1.1553,1.15638,1.15708,1.15739,1.15728,1.15674,1.15574,1.15428,1.15233,1.14989,1.14694,1.14347,1.13948,1.13497,1.12993,1.12438,1.11831,1.11174,1.10469,1.09716,1.0892,1.08082,1.07206,1.06295,1.05354,1.04387,1.034,1.02396,1.01382,1.00363,0.993453,0.983332,0.973328,0.963491,0.953871,0.944513,0.935458,0.926742,0.918394,0.910439,0.902894,0.895773,0.88908,0.882817,0.876978,0.871554,0.866531,0.861891,0.857612,0.853671,0.850041,0.846696,0.843604,0.840735,0.838059,0.835542,0.833152,0.830854,0.828615,0.826398,0.824166,0.82188,0.8195,0.816982,0.814279,0.811342,0.808117,0.804543,0.800556,0.796086,0.791054,0.785376,0.778958,0.771699,0.76349,0.754215,0.743749,0.731964,0.718728,0.703906,0.687372,0.669006,0.648708,0.626401,0.602044,0.575645,0.547271,0.517059,0.485229,0.452091,0.418042,0.383566,0.349207,0.315546,0.283151,0.252531,0.224083,0.198055,0.174522,0.153411,0.134543,0.117699,0.102682,0.0893446,0.0775653,0.0672255,0.0581899,0.0503034,0.0434301,0.0374635,0.0322961,0.0278298,0.0239738,0.0206532,0.0177954,0.0153436,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01559,1.01676,1.018,1.01933,1.02074,1.02224,1.02383,1.02552,1.02731,1.0292,1.0312,1.03331,1.03553,1.03787,1.04033,1.04292,1.04562,1.04845,1.0514,1.05447,1.05766,1.06098,1.06441,1.06795,1.07161,1.07536,1.07921,1.08315,1.08716,1.09125,1.09539,1.09957,1.10378,1.10801,1.11224,1.11645,1.12063,1.12475,1.1288,1.13275,1.13658,1.14028,1.14381,1.14715,1.15028,1.15318,1.15582,1.15818,1.16023,1.16195,1.16331,1.1643,1.16488,1.16505,1.16477,1.16404,1.16282,1.16112,1.15891,1.15619,1.15294,1.14916,1.14485,1.14,1.13462,1.12872,1.12231,1.1154,1.10801,1.10016,1.0919,1.08324,1.07423,1.0649,1.05531,1.0455,1.03553,1.02544,1.0153,1.00516,0.995075,0.9851,0.975289,0.96569,0.956349,0.947307,0.938601,0.93026,0.92231,0.914768,0.907646,0.900952,0.894685,0.88884,0.883409,0.878377,0.873726,0.869435,0.865479,0.861833,0.858468,0.855354,0.852461,0.849757,0.847208,0.844782,0.842443,0.840157,0.837887,0.835595,0.833242,0.830785,0.82818,0.825379,0.82233,0.818978,0.815262,0.811116,0.806465,0.801231,0.795326,0.788655,0.781115,0.772594,0.762975,0.75213,0.73993,0.726242,0.710934,0.693878,0.674957,0.654074,0.631159,0.606178,0.579149,0.550149,0.519328,0.486922,0.453255,0.418739,0.38387,0.3492,0.315316,0.282779,0.252091,0.223632,0.197629,0.174139,0.153072,0.134241,0.117426,0.102436,0.0891246,0.0773721,0.0670605,0.0580488,0.0501825,0.043327,0.0373772,0.0322242,0.0277702,0.0239257,0.020614,0.0177629,0.0153195,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01563,1.01681,1.01807,1.0194,1.02083,1.02234,1.02395,1.02566,1.02747,1.02938,1.03141,1.03355,1.03581,1.03819,1.04069,1.04332,1.04608,1.04896,1.05198,1.05512,1.05839,1.06179,1.06531,1.06896,1.07272,1.07659,1.08056,1.08464,1.08879,1.09303,1.09734,1.10169,1.10609,1.11052,1.11495,1.11937,1.12377,1.12813,1.13241,1.13661,1.14071,1.14466,1.14847,1.15209,1.1555,1.15869,1.16162,1.16427,1.16661,1.16862,1.17027,1.17155,1.17242,1.17287,1.17287,1.17241,1.17146,1.17001,1.16805,1.16557,1.16255,1.15899,1.15488,1.15023,1.14504,1.13931,1.13306,1.1263,1.11906,1.11135,1.1032,1.09465,1.08574,1.0765,1.06699,1.05726,1.04735,1.03732,1.02723,1.01713,1.00708,0.997137,0.987352,0.977774,0.96845,0.959422,0.950725,0.942391,0.934444,0.926902,0.919779,0.913081,0.906807,0.900955,0.895513,0.890467,0.885801,0.881492,0.877516,0.873846,0.870454,0.86731,0.864382,0.861637,0.859044,0.856566,0.85417,0.851818,0.849473,0.847095,0.844645,0.842078,0.839348,0.836406,0.833197,0.829664,0.825744,0.821366,0.816456,0.81093,0.804698,0.797662,0.789715,0.780743,0.770625,0.759232,0.746434,0.732095,0.716085,0.698279,0.678564,0.65685,0.633077,0.607224,0.579324,0.549476,0.517851,0.484711,0.450404,0.415368,0.380116,0.345216,0.311252,0.27878,0.248276,0.220089,0.194404,0.171243,0.150485,0.131931,0.115362,0.100596,0.0874938,0.0759403,0.065811,0.0569605,0.0492359,0.0425053,0.0366689,0.0316139,0.0272472,0.0234749,0.0202319,0.0174346,0.0150396,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01567,1.01686,1.01813,1.01947,1.02091,1.02244,1.02406,1.02579,1.02762,1.02956,1.03161,1.03378,1.03608,1.03849,1.04104,1.04371,1.04652,1.04946,1.05253,1.05574,1.05909,1.06257,1.06618,1.06992,1.07379,1.07778,1.08187,1.08608,1.09038,1.09477,1.09924,1.10377,1.10835,1.11297,1.11761,1.12224,1.12687,1.13146,1.13599,1.14044,1.14479,1.14902,1.1531,1.157,1.1607,1.16418,1.1674,1.17035,1.17299,1.17531,1.17726,1.17884,1.18001,1.18075,1.18104,1.18085,1.18018,1.17901,1.17731,1.17507,1.17229,1.16896,1.16508,1.16063,1.15564,1.1501,1.14402,1.13742,1.13033,1.12275,1.11473,1.1063,1.0975,1.08836,1.07894,1.06928,1.05944,1.04947,1.03943,1.02938,1.01937,1.00946,0.999706,0.990152,0.980847,0.971834,0.963148,0.954822,0.94688,0.939341,0.932217,0.925516,0.919238,0.913378,0.907927,0.902871,0.898191,0.893866,0.889872,0.886182,0.882766,0.879595,0.876636,0.873857,0.871224,0.868702,0.866255,0.863845,0.861435,0.858984,0.85645,0.853789,0.850952,0.847888,0.844542,0.840855,0.83676,0.832187,0.827057,0.821285,0.814778,0.807435,0.799148,0.789799,0.779267,0.76742,0.754126,0.739251,0.722664,0.704242,0.683877,0.661484,0.63701,0.610444,0.581831,0.551285,0.518995,0.485238,0.450381,0.414877,0.379256,0.34409,0.309965,0.27743,0.246945,0.218833,0.193258,0.170215,0.149568,0.13111,0.114625,0.0999359,0.086909,0.0754283,0.0653667,0.0565748,0.0489004,0.0422178,0.0364218,0.0314028,0.0270671,0.0233224,0.0201033,0.0173274,0.0149508,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01571,1.0169,1.01818,1.01954,1.02099,1.02253,1.02417,1.02591,1.02776,1.02972,1.0318,1.034,1.03632,1.03877,1.04136,1.04408,1.04693,1.04993,1.05306,1.05634,1.05976,1.06332,1.06702,1.07085,1.07482,1.07892,1.08314,1.08748,1.09192,1.09646,1.10109,1.10579,1.11056,1.11537,1.12021,1.12507,1.12991,1.13474,1.13951,1.14422,1.14884,1.15333,1.15769,1.16188,1.16588,1.16965,1.17318,1.17643,1.17939,1.18201,1.18427,1.18616,1.18763,1.18867,1.18926,1.18938,1.18899,1.18809,1.18667,1.18469,1.18217,1.17908,1.17542,1.1712,1.16641,1.16107,1.15517,1.14875,1.14181,1.13438,1.1265,1.11819,1.1095,1.10046,1.09113,1.08156,1.07179,1.06189,1.05191,1.04191,1.03194,1.02207,1.01234,1.00281,0.993527,0.984529,0.975855,0.967537,0.9596,0.952062,0.944938,0.938233,0.931949,0.92608,0.920618,0.915549,0.910853,0.906509,0.902493,0.898778,0.895334,0.89213,0.889135,0.886314,0.883634,0.881058,0.87855,0.876071,0.873583,0.871043,0.868408,0.865633,0.862667,0.859457,0.855946,0.852073,0.847769,0.84296,0.837565,0.831497,0.824659,0.816948,0.808252,0.798453,0.787423,0.775033,0.761147,0.745633,0.72836,0.709209,0.688076,0.664883,0.639588,0.612194,0.582762,0.551422,0.518386,0.483953,0.448512,0.412537,0.376572,0.341197,0.306997,0.274508,0.244165,0.216262,0.190926,0.168124,0.1477,0.129439,0.113128,0.0986011,0.0857285,0.074394,0.0644649,0.0557899,0.0482171,0.0416266,0.035913,0.0309651,0.0266924,0.0230013,0.0198293,0.0170957,0.0147504,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01574,1.01694,1.01823,1.01959,1.02105,1.02261,1.02426,1.02602,1.02789,1.02987,1.03198,1.0342,1.03655,1.03904,1.04166,1.04442,1.04732,1.05037,1.05356,1.05691,1.0604,1.06403,1.06782,1.07175,1.07582,1.08003,1.08437,1.08884,1.09342,1.09811,1.1029,1.10777,1.11272,1.11772,1.12277,1.12784,1.13291,1.13797,1.14299,1.14796,1.15284,1.15761,1.16225,1.16673,1.17103,1.17511,1.17894,1.18251,1.18578,1.18872,1.1913,1.1935,1.19529,1.19665,1.19755,1.19797,1.19788,1.19728,1.19613,1.19443,1.19217,1.18934,1.18592,1.18193,1.17736,1.17222,1.16652,1.16028,1.15351,1.14624,1.1385,1.13032,1.12175,1.11283,1.10359,1.09411,1.08442,1.07459,1.06467,1.05472,1.0448,1.03496,1.02527,1.01577,1.00651,0.997525,0.988865,0.980556,0.972625,0.96509,0.957965,0.951257,0.944968,0.939091,0.933618,0.928536,0.923824,0.919462,0.915425,0.911685,0.908213,0.904978,0.901946,0.899085,0.896358,0.893729,0.891161,0.888615,0.88605,0.883423,0.88069,0.877804,0.874712,0.87136,0.86769,0.863637,0.85913,0.854093,0.848444,0.842091,0.834936,0.826873,0.817787,0.807557,0.796056,0.78315,0.768705,0.752587,0.734668,0.714832,0.692979,0.66904,0.64298,0.614815,0.584621,0.552544,0.518815,0.483753,0.447765,0.411343,0.375041,0.339447,0.305142,0.272649,0.242382,0.214609,0.189428,0.166782,0.1465,0.128362,0.112162,0.097738,0.0849659,0.0737271,0.0638841,0.0552848,0.0477782,0.0412477,0.0355879,0.030686,0.0264532,0.0227994,0.0196577,0.0169499,0.0146284,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01577,1.01698,1.01827,1.01964,1.02111,1.02268,1.02435,1.02612,1.02801,1.03001,1.03214,1.03439,1.03677,1.03929,1.04195,1.04475,1.04769,1.05079,1.05404,1.05745,1.06101,1.06472,1.06859,1.07261,1.07678,1.0811,1.08555,1.09015,1.09487,1.09971,1.10465,1.1097,1.11482,1.12002,1.12527,1.13055,1.13585,1.14115,1.14642,1.15164,1.15679,1.16184,1.16677,1.17155,1.17615,1.18053,1.18469,1.18857,1.19216,1.19543,1.19834,1.20087,1.20299,1.20467,1.20589,1.20662,1.20685,1.20654,1.20569,1.20428,1.20229,1.19972,1.19657,1.19282,1.18848,1.18355,1.17806,1.172,1.16541,1.15831,1.15072,1.14269,1.13424,1.12543,1.11631,1.10691,1.09731,1.08755,1.0777,1.0678,1.05793,1.04814,1.03848,1.02901,1.01977,1.01081,1.00216,0.993859,0.985933,0.9784,0.971273,0.96456,0.958262,0.952375,0.946888,0.941788,0.937056,0.93267,0.928605,0.924834,0.921326,0.918049,0.914971,0.912056,0.909268,0.906571,0.903925,0.901291,0.898626,0.895886,0.893024,0.889992,0.886736,0.8832,0.87932,0.875031,0.870259,0.864925,0.858942,0.852217,0.844647,0.836123,0.826527,0.815736,0.803618,0.79004,0.774868,0.757967,0.739213,0.718494,0.695719,0.670829,0.643802,0.614673,0.583539,0.550571,0.516025,0.480248,0.443675,0.406818,0.370247,0.334554,0.300312,0.26802,0.23806,0.210655,0.18586,0.163585,0.143639,0.1258,0.109871,0.0957012,0.0831695,0.0721531,0.0625108,0.0540877,0.046737,0.0403472,0.034809,0.0300164,0.0258778,0.0223051,0.0192354,0.0165929,0.0143206,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01579,1.017,1.0183,1.01969,1.02117,1.02275,1.02443,1.02622,1.02812,1.03014,1.03229,1.03456,1.03697,1.03952,1.04221,1.04505,1.04805,1.05119,1.0545,1.05796,1.06159,1.06537,1.06932,1.07343,1.0777,1.08213,1.0867,1.09142,1.09627,1.10126,1.10636,1.11158,1.11688,1.12227,1.12772,1.13322,1.13875,1.14428,1.1498,1.15528,1.1607,1.16604,1.17125,1.17633,1.18124,1.18594,1.19041,1.19463,1.19855,1.20215,1.2054,1.20826,1.21072,1.21274,1.21429,1.21535,1.21589,1.21591,1.21536,1.21425,1.21255,1.21026,1.20737,1.20387,1.19977,1.19508,1.1898,1.18395,1.17755,1.17062,1.1632,1.15531,1.147,1.13832,1.1293,1.12001,1.1105,1.10082,1.09104,1.08121,1.07139,1.06164,1.05202,1.04259,1.03337,1.02443,1.0158,1.00752,0.999602,0.992075,0.984952,0.978239,0.971939,0.966047,0.960553,0.955444,0.9507,0.946301,0.94222,0.938429,0.934899,0.931598,0.928491,0.925545,0.922721,0.919983,0.917291,0.914605,0.911881,0.909075,0.90614,0.903024,0.899675,0.896033,0.892035,0.887613,0.882694,0.877195,0.871029,0.8641,0.856305,0.847532,0.837663,0.826571,0.814127,0.800195,0.784639,0.767328,0.748136,0.726954,0.703693,0.678298,0.650753,0.621095,0.589431,0.555938,0.52088,0.484613,0.447579,0.410297,0.37334,0.337306,0.302763,0.270211,0.240024,0.212419,0.187445,0.165005,0.144906,0.126926,0.110867,0.09658,0.0839433,0.0728333,0.0631074,0.0546098,0.0471932,0.0407452,0.035156,0.0303171,0.026141,0.0225347,0.0194351,0.0167675,0.014473,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0158,1.01703,1.01833,1.01973,1.02122,1.0228,1.0245,1.0263,1.02822,1.03026,1.03243,1.03472,1.03716,1.03974,1.04246,1.04534,1.04838,1.05157,1.05493,1.05845,1.06214,1.066,1.07003,1.07422,1.07859,1.08312,1.0878,1.09265,1.09763,1.10276,1.10802,1.1134,1.11889,1.12446,1.13012,1.13583,1.14158,1.14736,1.15313,1.15887,1.16456,1.17018,1.17569,1.18107,1.18629,1.19131,1.19611,1.20066,1.20492,1.20886,1.21245,1.21567,1.21847,1.22083,1.22272,1.22412,1.225,1.22534,1.22512,1.22431,1.22292,1.22092,1.2183,1.21507,1.21123,1.20678,1.20172,1.19609,1.18988,1.18314,1.17589,1.16816,1.16,1.15144,1.14255,1.13337,1.12395,1.11436,1.10465,1.09488,1.08512,1.07543,1.06585,1.05644,1.04726,1.03834,1.02973,1.02146,1.01355,1.00602,0.998901,0.992185,0.985878,0.979976,0.974469,0.969343,0.96458,0.960157,0.956048,0.952226,0.94866,0.945318,0.942165,0.939165,0.936282,0.933475,0.930706,0.927933,0.92511,0.922193,0.919131,0.915873,0.912363,0.90854,0.904338,0.899688,0.894512,0.888726,0.88224,0.874954,0.866762,0.857551,0.847198,0.835577,0.822553,0.807992,0.791757,0.773719,0.753755,0.73176,0.707653,0.681389,0.652965,0.622435,0.589921,0.555624,0.51983,0.482918,0.44535,0.407662,0.370438,0.334275,0.299735,0.267293,0.237295,0.209924,0.185196,0.162989,0.143098,0.125303,0.109413,0.0952865,0.0828034,0.0718359,0.0622384,0.0538506,0.0465336,0.0401758,0.0346658,0.029897,0.0257776,0.0222279,0.01917,0.0165448,0.0142823,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01582,1.01705,1.01836,1.01976,1.02126,1.02286,1.02456,1.02638,1.02831,1.03037,1.03255,1.03487,1.03733,1.03994,1.0427,1.04561,1.04869,1.05193,1.05533,1.05891,1.06267,1.06659,1.0707,1.07498,1.07944,1.08407,1.08887,1.09383,1.09895,1.10422,1.10964,1.11518,1.12084,1.12661,1.13246,1.13839,1.14437,1.15038,1.1564,1.16241,1.16837,1.17428,1.18008,1.18577,1.1913,1.19665,1.20179,1.20667,1.21128,1.21557,1.21952,1.22308,1.22624,1.22896,1.23121,1.23295,1.23418,1.23486,1.23497,1.23449,1.2334,1.23171,1.22938,1.22643,1.22286,1.21866,1.21384,1.20843,1.20244,1.19589,1.18882,1.18126,1.17325,1.16484,1.15607,1.147,1.13769,1.12819,1.11856,1.10887,1.09917,1.08953,1.08,1.07063,1.06148,1.05258,1.04399,1.03573,1.02784,1.02032,1.0132,1.00648,1.00017,0.994263,0.988747,0.983608,0.978828,0.974386,0.970254,0.966406,0.96281,0.959433,0.95624,0.953196,0.950261,0.947398,0.944564,0.941717,0.938811,0.9358,0.932634,0.929257,0.925613,0.92164,0.917271,0.912433,0.907046,0.901026,0.894278,0.886702,0.87819,0.868625,0.857883,0.845836,0.83235,0.817287,0.800513,0.781898,0.761322,0.738684,0.713909,0.686957,0.657834,0.626606,0.593408,0.558453,0.522043,0.48457,0.446511,0.408412,0.370863,0.334461,0.299762,0.267231,0.237194,0.209817,0.185096,0.162897,0.143011,0.125216,0.109328,0.095207,0.0827332,0.071776,0.0621875,0.0538071,0.0464969,0.0401465,0.0346428,0.0298789,0.0257646,0.0222191,0.019165,0.0165433,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01583,1.01706,1.01838,1.01979,1.02129,1.0229,1.02461,1.02644,1.02839,1.03046,1.03267,1.03501,1.03749,1.04013,1.04292,1.04586,1.04898,1.05226,1.05572,1.05935,1.06316,1.06716,1.07134,1.0757,1.08025,1.08498,1.08989,1.09497,1.10022,1.10563,1.1112,1.1169,1.12274,1.1287,1.13475,1.14089,1.14709,1.15334,1.15962,1.16589,1.17213,1.17832,1.18443,1.19042,1.19628,1.20196,1.20743,1.21266,1.21762,1.22227,1.22657,1.23051,1.23403,1.23711,1.23972,1.24183,1.24341,1.24444,1.24489,1.24475,1.244,1.24261,1.2406,1.23794,1.23464,1.23071,1.22615,1.22097,1.2152,1.20886,1.20198,1.1946,1.18675,1.17849,1.16986,1.16091,1.15171,1.1423,1.13276,1.12314,1.11351,1.10392,1.09444,1.08511,1.076,1.06713,1.05856,1.05032,1.04243,1.03492,1.0278,1.02108,1.01476,1.00884,1.00331,0.998156,0.993355,0.988887,0.984726,0.980844,0.977208,0.973785,0.970541,0.967438,0.964437,0.961498,0.958579,0.955635,0.952621,0.949487,0.946182,0.942649,0.93883,0.934659,0.930068,0.924981,0.919316,0.912985,0.905892,0.897932,0.888995,0.878961,0.867705,0.855095,0.840996,0.825271,0.807786,0.788411,0.767033,0.743556,0.717912,0.690073,0.66006,0.627953,0.593908,0.558159,0.521031,0.482937,0.444373,0.4059,0.368116,0.331614,0.296937,0.264527,0.23468,0.207526,0.183033,0.161047,0.141348,0.123721,0.107989,0.0940166,0.0816846,0.0708597,0.0613879,0.0531099,0.0458913,0.0396235,0.0341909,0.0294917,0.0254333,0.0219357,0.0189224,0.0163394,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01583,1.01707,1.01839,1.01981,1.02132,1.02294,1.02466,1.0265,1.02846,1.03055,1.03277,1.03513,1.03764,1.0403,1.04312,1.0461,1.04925,1.05257,1.05608,1.05976,1.06364,1.0677,1.07195,1.0764,1.08103,1.08586,1.09087,1.09607,1.10145,1.107,1.11271,1.11858,1.12459,1.13073,1.13699,1.14334,1.14977,1.15625,1.16278,1.16931,1.17583,1.18231,1.18872,1.19503,1.20121,1.20722,1.21304,1.21862,1.22394,1.22895,1.23363,1.23793,1.24183,1.24529,1.24827,1.25076,1.25271,1.2541,1.25491,1.25512,1.2547,1.25365,1.25195,1.2496,1.24659,1.24294,1.23864,1.23371,1.22818,1.22206,1.21538,1.20819,1.20051,1.19241,1.18392,1.17511,1.16602,1.15672,1.14727,1.13774,1.12818,1.11865,1.10922,1.09994,1.09086,1.08202,1.07348,1.06525,1.05738,1.04988,1.04276,1.03605,1.02973,1.0238,1.01826,1.01309,1.00827,1.00378,0.999594,0.995682,0.992013,0.988552,0.985264,0.982111,0.979054,0.976051,0.97306,0.970035,0.966929,0.963692,0.96027,0.956607,0.952641,0.948306,0.943531,0.938238,0.932344,0.925758,0.918382,0.910109,0.900826,0.890413,0.878741,0.865677,0.851086,0.834831,0.816777,0.796797,0.774781,0.750635,0.724299,0.695753,0.665026,0.63221,0.597474,0.561066,0.523325,0.484678,0.445634,0.406762,0.368665,0.331935,0.297107,0.264608,0.234718,0.207548,0.183049,0.161057,0.141349,0.123712,0.107972,0.0939982,0.0816683,0.0708467,0.0613774,0.0531016,0.0458852,0.0396209,0.0341903,0.0294932,0.0254372,0.021942,0.01893,0.0163489,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01583,1.01707,1.0184,1.01982,1.02134,1.02297,1.0247,1.02655,1.02853,1.03063,1.03287,1.03525,1.03777,1.04046,1.0433,1.04632,1.0495,1.05287,1.05642,1.06015,1.06408,1.06821,1.07253,1.07705,1.08177,1.0867,1.09182,1.09713,1.10263,1.10832,1.11418,1.12021,1.12639,1.13271,1.13916,1.14573,1.15238,1.15911,1.16588,1.17268,1.17948,1.18625,1.19297,1.19959,1.2061,1.21245,1.21861,1.22455,1.23023,1.23562,1.24067,1.24536,1.24964,1.25349,1.25686,1.25972,1.26206,1.26382,1.265,1.26557,1.26551,1.2648,1.26343,1.2614,1.2587,1.25534,1.25132,1.24665,1.24136,1.23548,1.22901,1.22202,1.21453,1.20659,1.19826,1.18958,1.18062,1.17144,1.16209,1.15264,1.14316,1.1337,1.12433,1.11509,1.10605,1.09725,1.08873,1.08053,1.07267,1.06518,1.05807,1.05136,1.04504,1.0391,1.03355,1.02837,1.02353,1.01902,1.01481,1.01087,1.00717,1.00367,1.00033,0.997131,0.994016,0.990949,0.987884,0.984777,0.981578,0.978236,0.974696,0.9709,0.966786,0.962285,0.957324,0.951824,0.945699,0.938857,0.931197,0.92261,0.912981,0.902188,0.890102,0.876587,0.861508,0.844726,0.826109,0.805532,0.782885,0.758081,0.731065,0.701824,0.670396,0.636885,0.601471,0.564415,0.526071,0.486878,0.447355,0.408081,0.369661,0.332686,0.297685,0.26507,0.235105,0.207886,0.183349,0.16132,0.141576,0.123904,0.108135,0.0941378,0.0817909,0.0709551,0.0614729,0.0531855,0.0459594,0.0396875,0.0342499,0.0295478,0.0254843,0.0219868,0.0189701,0.0163864,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01583,1.01707,1.01841,1.01983,1.02136,1.02299,1.02473,1.02659,1.02858,1.0307,1.03295,1.03535,1.0379,1.0406,1.04347,1.04652,1.04974,1.05314,1.05673,1.06052,1.0645,1.06869,1.07308,1.07768,1.08248,1.0875,1.09272,1.09814,1.10377,1.10959,1.11559,1.12178,1.12813,1.13464,1.14129,1.14806,1.15494,1.1619,1.16893,1.17599,1.18307,1.19013,1.19715,1.2041,1.21094,1.21763,1.22415,1.23045,1.2365,1.24227,1.24771,1.25278,1.25746,1.2617,1.26546,1.26873,1.27145,1.27361,1.27517,1.27611,1.27642,1.27607,1.27505,1.27335,1.27097,1.26791,1.26418,1.25979,1.25476,1.24912,1.24288,1.2361,1.2288,1.22105,1.21287,1.20435,1.19552,1.18645,1.17721,1.16786,1.15846,1.14907,1.13976,1.13058,1.12159,1.11283,1.10434,1.09616,1.08832,1.08084,1.07374,1.06703,1.0607,1.05476,1.0492,1.04401,1.03915,1.03462,1.03039,1.02642,1.02268,1.01914,1.01576,1.01251,1.00934,1.0062,1.00306,0.999872,0.996579,0.993131,0.989473,0.985544,0.98128,0.976612,0.971464,0.965757,0.959402,0.952303,0.94436,0.935461,0.925488,0.914319,0.901821,0.887861,0.872299,0.854999,0.835828,0.814663,0.791398,0.76595,0.738268,0.708348,0.676235,0.642045,0.605967,0.568276,0.529338,0.489603,0.449601,0.409918,0.371162,0.333921,0.298718,0.265954,0.235879,0.208573,0.183962,0.161863,0.142052,0.124318,0.108494,0.0944519,0.0820669,0.0711978,0.0616856,0.0533716,0.0461223,0.0398304,0.0343759,0.0296589,0.0255823,0.0220736,0.0190473,0.0164523,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01582,1.01707,1.01841,1.01984,1.02137,1.02301,1.02476,1.02663,1.02863,1.03075,1.03302,1.03544,1.038,1.04073,1.04363,1.0467,1.04995,1.05339,1.05703,1.06086,1.0649,1.06914,1.0736,1.07827,1.08316,1.08826,1.09358,1.09912,1.10486,1.11081,1.11696,1.1233,1.12982,1.13651,1.14335,1.15033,1.15743,1.16463,1.17191,1.17924,1.1866,1.19396,1.20128,1.20855,1.21572,1.22276,1.22963,1.23631,1.24274,1.24889,1.25472,1.26019,1.26527,1.26991,1.27409,1.27776,1.28089,1.28344,1.2854,1.28673,1.28742,1.28744,1.28678,1.28543,1.28338,1.28064,1.27722,1.27312,1.26836,1.26297,1.25697,1.25041,1.24332,1.23575,1.22775,1.21938,1.2107,1.20176,1.19263,1.18338,1.17407,1.16476,1.15551,1.14639,1.13744,1.12872,1.12026,1.11211,1.10429,1.09682,1.08973,1.08301,1.07669,1.07074,1.06517,1.05995,1.05508,1.05052,1.04625,1.04224,1.03846,1.03487,1.03144,1.02812,1.02487,1.02165,1.01842,1.01512,1.01171,1.00812,1.00431,1.00021,0.995752,0.990869,0.985481,0.979505,0.972851,0.965421,0.957111,0.947807,0.937389,0.925732,0.912702,0.898164,0.881977,0.864007,0.844122,0.822201,0.798144,0.771873,0.743347,0.712572,0.679608,0.644585,0.607712,0.56928,0.529675,0.489365,0.448894,0.408856,0.369864,0.332499,0.297267,0.26455,0.234569,0.207379,0.182883,0.160889,0.141169,0.123516,0.107773,0.0938099,0.0815023,0.0707048,0.0612545,0.0529956,0.045796,0.03955,0.0341349,0.0294528,0.0254064,0.0219252,0.0189209,0.0163472,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01581,1.01706,1.0184,1.01984,1.02138,1.02302,1.02478,1.02666,1.02866,1.0308,1.03308,1.03551,1.0381,1.04085,1.04377,1.04687,1.05015,1.05363,1.0573,1.06118,1.06527,1.06957,1.07409,1.07883,1.0838,1.08899,1.09441,1.10005,1.10591,1.11199,1.11828,1.12477,1.13146,1.13832,1.14536,1.15255,1.15987,1.1673,1.17483,1.18243,1.19007,1.19772,1.20536,1.21295,1.22045,1.22784,1.23508,1.24212,1.24894,1.25548,1.26171,1.26759,1.27308,1.27814,1.28273,1.28682,1.29036,1.29333,1.2957,1.29744,1.29851,1.29892,1.29863,1.29764,1.29595,1.29354,1.29044,1.28664,1.28217,1.27705,1.2713,1.26498,1.2581,1.25074,1.24292,1.23472,1.22618,1.21738,1.20837,1.19923,1.19002,1.18079,1.17162,1.16256,1.15366,1.14498,1.13656,1.12844,1.12064,1.11319,1.10611,1.0994,1.09307,1.08712,1.08154,1.07631,1.07142,1.06684,1.06255,1.05851,1.05469,1.05105,1.04757,1.04419,1.04088,1.03759,1.03428,1.03089,1.02737,1.02367,1.01973,1.01548,1.01086,1.0058,1.00021,0.99401,0.987107,0.979402,0.970788,0.96115,0.950367,0.93831,0.924846,0.909836,0.893143,0.87463,0.854167,0.831636,0.806938,0.780002,0.750793,0.719323,0.685662,0.64995,0.612406,0.573336,0.533135,0.492284,0.451335,0.410889,0.37156,0.333926,0.298486,0.26561,0.235505,0.208213,0.183626,0.161547,0.141746,0.124019,0.108211,0.0941933,0.0818389,0.071,0.0615127,0.0532211,0.0459945,0.0397229,0.0342863,0.0295857,0.0255231,0.0220282,0.0190115,0.0164279,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0158,1.01705,1.0184,1.01984,1.02138,1.02303,1.02479,1.02668,1.02869,1.03084,1.03314,1.03558,1.03818,1.04095,1.04389,1.04702,1.05033,1.05384,1.05755,1.06147,1.06561,1.06997,1.07455,1.07936,1.0844,1.08968,1.09519,1.10094,1.10692,1.11312,1.11955,1.12619,1.13304,1.14008,1.14731,1.1547,1.16224,1.16991,1.17769,1.18555,1.19347,1.20142,1.20937,1.21728,1.22513,1.23287,1.24047,1.24789,1.25509,1.26203,1.26867,1.27497,1.28088,1.28636,1.29138,1.29589,1.29987,1.30326,1.30605,1.3082,1.30969,1.31049,1.31059,1.30998,1.30865,1.30659,1.30382,1.30034,1.29616,1.29132,1.28585,1.27977,1.27312,1.26596,1.25834,1.25031,1.24194,1.23328,1.2244,1.21538,1.20626,1.19712,1.18803,1.17903,1.17019,1.16156,1.15317,1.14508,1.1373,1.12986,1.12279,1.11608,1.10975,1.10379,1.09819,1.09294,1.08802,1.08341,1.07907,1.07498,1.07111,1.06741,1.06386,1.0604,1.05699,1.0536,1.05016,1.04663,1.04296,1.03909,1.03496,1.0305,1.02564,1.0203,1.01441,1.00788,1.0006,0.992482,0.983411,0.97327,0.961935,0.949275,0.935154,0.919435,0.901976,0.882645,0.861314,0.837869,0.812218,0.784299,0.754089,0.721615,0.686967,0.650303,0.611866,0.571986,0.531082,0.489654,0.448272,0.407547,0.368089,0.330466,0.295154,0.262489,0.232641,0.205618,0.181288,0.15944,0.139845,0.122309,0.106682,0.0928395,0.0806496,0.0699585,0.0606021,0.0524253,0.0453053,0.0391277,0.0337725,0.0291441,0.025144,0.0217049,0.0187369,0.0161903,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01578,1.01703,1.01838,1.01983,1.02137,1.02303,1.0248,1.02669,1.02871,1.03087,1.03318,1.03564,1.03825,1.04104,1.04401,1.04715,1.05049,1.05404,1.05778,1.06175,1.06593,1.07034,1.07498,1.07986,1.08498,1.09034,1.09594,1.10179,1.10788,1.1142,1.12077,1.12756,1.13457,1.14178,1.1492,1.15679,1.16455,1.17245,1.18048,1.18861,1.19681,1.20505,1.21331,1.22155,1.22974,1.23784,1.24581,1.25361,1.26121,1.26855,1.27561,1.28233,1.28866,1.29458,1.30004,1.30499,1.30941,1.31324,1.31646,1.31904,1.32095,1.32217,1.32267,1.32245,1.3215,1.3198,1.31738,1.31423,1.31037,1.30583,1.30063,1.29481,1.28841,1.28147,1.27406,1.26622,1.25801,1.24951,1.24077,1.23187,1.22286,1.21382,1.20481,1.19589,1.18711,1.17853,1.17018,1.16212,1.15437,1.14695,1.13989,1.13319,1.12686,1.1209,1.11529,1.11002,1.10508,1.10044,1.09607,1.09195,1.08803,1.08428,1.08067,1.07714,1.07366,1.07018,1.06664,1.06301,1.05921,1.0552,1.05091,1.04628,1.04122,1.03567,1.02954,1.02274,1.01517,1.00673,0.9973,0.986766,0.975002,0.961874,0.947246,0.930979,0.912933,0.892975,0.870979,0.846836,0.820457,0.791786,0.760809,0.727562,0.692144,0.65473,0.615574,0.57502,0.533502,0.491532,0.449691,0.408591,0.368846,0.331016,0.295565,0.262813,0.232912,0.205851,0.181489,0.159609,0.139983,0.122418,0.106771,0.0929145,0.0807149,0.0700156,0.0606517,0.0524687,0.0453442,0.0391633,0.0338047,0.0291742,0.0251717,0.0217294,0.0187619,0.0162142,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01575,1.01701,1.01836,1.01981,1.02136,1.02302,1.02479,1.02669,1.02872,1.03089,1.03321,1.03568,1.03831,1.04112,1.0441,1.04727,1.05064,1.05421,1.05799,1.062,1.06622,1.07068,1.07538,1.08033,1.08551,1.09096,1.09665,1.10259,1.10879,1.11524,1.12194,1.12887,1.13604,1.14343,1.15103,1.15882,1.1668,1.17493,1.18321,1.1916,1.20008,1.20862,1.21719,1.22576,1.23429,1.24275,1.25109,1.25928,1.26728,1.27503,1.2825,1.28965,1.29643,1.30279,1.30869,1.3141,1.31896,1.32325,1.32692,1.32994,1.33228,1.33393,1.33485,1.33503,1.33447,1.33316,1.3311,1.32829,1.32477,1.32053,1.31563,1.31008,1.30393,1.29723,1.29003,1.28239,1.27437,1.26603,1.25744,1.24866,1.23977,1.23083,1.22191,1.21306,1.20435,1.19582,1.18752,1.17949,1.17177,1.16437,1.15732,1.15062,1.14429,1.13832,1.13269,1.1274,1.12243,1.11775,1.11334,1.10916,1.10519,1.10137,1.09767,1.09406,1.09047,1.08687,1.08321,1.07943,1.07547,1.07127,1.06678,1.06191,1.05659,1.05075,1.0443,1.03714,1.02917,1.02029,1.01038,0.999312,0.986967,0.973207,0.957894,0.940888,0.922051,0.90125,0.878364,0.853287,0.82594,0.796277,0.764296,0.730048,0.693652,0.655302,0.615276,0.573941,0.531751,0.489239,0.446998,0.405647,0.365794,0.327986,0.292658,0.2601,0.230429,0.203603,0.17946,0.157776,0.138325,0.120926,0.105438,0.0917361,0.0796802,0.069109,0.0598588,0.0517771,0.0447446,0.0386444,0.0333577,0.0287895,0.024844,0.0214494,0.0185251,0.0160114,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01573,1.01699,1.01834,1.01979,1.02134,1.02301,1.02479,1.02669,1.02873,1.03091,1.03323,1.03571,1.03836,1.04118,1.04418,1.04738,1.05077,1.05437,1.05818,1.06222,1.06649,1.071,1.07576,1.08076,1.08602,1.09154,1.09732,1.10336,1.10967,1.11623,1.12306,1.13013,1.13746,1.14501,1.1528,1.16079,1.16898,1.17735,1.18587,1.19452,1.20328,1.21212,1.221,1.2299,1.23878,1.2476,1.25632,1.2649,1.2733,1.28147,1.28937,1.29695,1.30418,1.31099,1.31735,1.32322,1.32854,1.33329,1.33742,1.3409,1.3437,1.34578,1.34714,1.34774,1.34759,1.34667,1.34499,1.34255,1.33937,1.33546,1.33086,1.3256,1.31973,1.31328,1.30631,1.29887,1.29104,1.28288,1.27444,1.26581,1.25704,1.24822,1.23939,1.23063,1.22198,1.21352,1.20527,1.19728,1.18959,1.18221,1.17518,1.16849,1.16216,1.15619,1.15055,1.14525,1.14025,1.13555,1.1311,1.12688,1.12285,1.11898,1.11522,1.11153,1.10786,1.10416,1.10039,1.09648,1.09239,1.08804,1.08337,1.07831,1.07278,1.0667,1.05998,1.05253,1.04424,1.035,1.0247,1.01321,1.0004,0.986138,0.970281,0.952689,0.933227,0.911761,0.888173,0.862363,0.834254,0.803809,0.771033,0.735989,0.698808,0.659695,0.618944,0.576934,0.534136,0.491093,0.448405,0.406695,0.36657,0.328566,0.293108,0.260467,0.230741,0.203873,0.179692,0.15797,0.138483,0.121054,0.105543,0.0918258,0.0797576,0.0691766,0.0599172,0.0518282,0.0447904,0.0386856,0.0333946,0.0288238,0.0248756,0.0214788,0.0185531,0.016036,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0157,1.01696,1.01832,1.01977,1.02132,1.02299,1.02477,1.02668,1.02873,1.03091,1.03325,1.03574,1.0384,1.04123,1.04425,1.04747,1.05088,1.05451,1.05835,1.06243,1.06674,1.0713,1.0761,1.08117,1.08649,1.09208,1.09795,1.10408,1.11049,1.11717,1.12413,1.13134,1.13882,1.14654,1.15451,1.1627,1.1711,1.17969,1.18846,1.19737,1.20641,1.21554,1.22474,1.23397,1.2432,1.25238,1.26148,1.27045,1.27926,1.28785,1.29619,1.30422,1.31189,1.31917,1.326,1.33234,1.33814,1.34336,1.34796,1.35191,1.35517,1.35772,1.35952,1.36056,1.36083,1.36033,1.35904,1.35698,1.35415,1.35059,1.34631,1.34136,1.33576,1.32957,1.32284,1.31564,1.30801,1.30003,1.29176,1.28327,1.27464,1.26593,1.25721,1.24853,1.23997,1.23156,1.22337,1.21543,1.20777,1.20042,1.1934,1.18672,1.18039,1.17441,1.16876,1.16344,1.15842,1.15368,1.14919,1.14492,1.14083,1.13689,1.13305,1.12926,1.12549,1.12168,1.11778,1.11373,1.10947,1.10494,1.10006,1.09477,1.08899,1.08263,1.07559,1.06779,1.05912,1.04946,1.0387,1.0267,1.01334,0.998478,0.981975,0.963691,0.943489,0.921239,0.896825,0.870153,0.841155,0.8098,0.776106,0.74015,0.702077,0.662112,0.620565,0.577835,0.534409,0.490845,0.447753,0.405757,0.365459,0.327383,0.291932,0.259349,0.229708,0.202932,0.178835,0.157185,0.137763,0.120399,0.104955,0.0913043,0.0792989,0.0687743,0.0595648,0.0515212,0.044526,0.0384571,0.0331997,0.0286566,0.0247328,0.0213573,0.0184518,0.0159517,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01567,1.01693,1.01828,1.01974,1.02129,1.02296,1.02475,1.02667,1.02871,1.03091,1.03325,1.03575,1.03842,1.04127,1.04431,1.04754,1.05098,1.05463,1.0585,1.06261,1.06696,1.07156,1.07642,1.08154,1.08693,1.0926,1.09854,1.10477,1.11128,1.11807,1.12515,1.1325,1.14012,1.14801,1.15615,1.16454,1.17315,1.18197,1.19098,1.20015,1.20947,1.2189,1.22841,1.23797,1.24754,1.25709,1.26657,1.27594,1.28516,1.29419,1.30296,1.31144,1.31958,1.32732,1.33463,1.34145,1.34774,1.35345,1.35854,1.36297,1.36671,1.36973,1.372,1.37349,1.37421,1.37412,1.37325,1.37158,1.36913,1.36593,1.36199,1.35735,1.35205,1.34614,1.33967,1.33269,1.32528,1.3175,1.30941,1.30108,1.29259,1.284,1.27539,1.26681,1.25833,1.25,1.24186,1.23397,1.22635,1.21903,1.21203,1.20536,1.19904,1.19305,1.18739,1.18205,1.17701,1.17223,1.1677,1.16338,1.15924,1.15523,1.15131,1.14744,1.14357,1.13965,1.13562,1.13143,1.12701,1.1223,1.11722,1.11171,1.10568,1.09904,1.09171,1.08357,1.07453,1.06447,1.05326,1.04078,1.02689,1.01146,0.994348,0.975408,0.954506,0.931517,0.906327,0.878846,0.849012,0.816804,0.782251,0.745439,0.706528,0.665759,0.623458,0.580038,0.536002,0.491919,0.448406,0.40609,0.365567,0.32735,0.291822,0.259209,0.229563,0.20279,0.178694,0.157041,0.137617,0.120255,0.10482,0.0911827,0.0791912,0.0686799,0.0594805,0.0514474,0.0444637,0.0384045,0.0331558,0.0286197,0.0247056,0.0213331,0.0184345,0.015939,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01563,1.01689,1.01825,1.0197,1.02126,1.02293,1.02472,1.02664,1.0287,1.03089,1.03324,1.03575,1.03844,1.0413,1.04435,1.0476,1.05105,1.05473,1.05863,1.06277,1.06716,1.0718,1.07671,1.08188,1.08733,1.09307,1.09909,1.10541,1.11202,1.11892,1.12611,1.1336,1.14137,1.14942,1.15774,1.16631,1.17513,1.18418,1.19343,1.20286,1.21246,1.22218,1.232,1.2419,1.25182,1.26173,1.2716,1.28137,1.29101,1.30046,1.30968,1.31862,1.32723,1.33545,1.34325,1.35056,1.35734,1.36355,1.36914,1.37407,1.37831,1.38181,1.38456,1.38653,1.3877,1.38806,1.38761,1.38635,1.3843,1.38147,1.37788,1.37358,1.36859,1.36297,1.35677,1.35004,1.34286,1.33528,1.32738,1.31922,1.31088,1.30243,1.29394,1.28546,1.27707,1.26882,1.26074,1.2529,1.24532,1.23803,1.23106,1.22441,1.21809,1.2121,1.20643,1.20107,1.196,1.19119,1.18662,1.18225,1.17805,1.17397,1.16997,1.16601,1.16204,1.158,1.15384,1.1495,1.14491,1.14001,1.13473,1.12899,1.1227,1.11578,1.10813,1.09965,1.09023,1.07975,1.06808,1.05511,1.04068,1.02467,1.00693,0.987322,0.96571,0.94197,0.915992,0.887693,0.857016,0.823949,0.788531,0.75086,0.711112,0.66954,0.626485,0.58238,0.537738,0.493139,0.449208,0.406573,0.365824,0.32746,0.29185,0.259197,0.229534,0.202751,0.178643,0.156978,0.137543,0.120175,0.104742,0.0911113,0.0791271,0.0686227,0.0594286,0.0514031,0.0444264,0.0383737,0.0331303,0.0285984,0.0246907,0.0213219,0.0184288,0.0159342,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01559,1.01685,1.01821,1.01966,1.02122,1.0229,1.02469,1.02661,1.02867,1.03087,1.03323,1.03575,1.03844,1.04131,1.04437,1.04764,1.05112,1.05481,1.05874,1.06291,1.06734,1.07202,1.07697,1.0822,1.08771,1.09351,1.09961,1.10601,1.11271,1.11972,1.12703,1.13465,1.14256,1.15077,1.15926,1.16803,1.17705,1.18631,1.1958,1.2055,1.21536,1.22538,1.23552,1.24574,1.25602,1.2663,1.27655,1.28673,1.29679,1.30668,1.31635,1.32575,1.33484,1.34355,1.35184,1.35966,1.36695,1.37367,1.37977,1.38521,1.38996,1.39396,1.39721,1.39966,1.4013,1.40213,1.40212,1.4013,1.39965,1.39721,1.394,1.39004,1.38538,1.38007,1.37415,1.36769,1.36074,1.35339,1.34568,1.33771,1.32953,1.32123,1.31286,1.3045,1.2962,1.28802,1.28002,1.27224,1.26471,1.25746,1.25051,1.24387,1.23756,1.23157,1.2259,1.22052,1.21542,1.21058,1.20597,1.20155,1.19729,1.19314,1.18906,1.18501,1.18093,1.17678,1.17248,1.16799,1.16324,1.15815,1.15267,1.14669,1.14015,1.13295,1.12499,1.11616,1.10636,1.09547,1.08336,1.06989,1.05494,1.03835,1.02,0.999735,0.977428,0.952955,0.926212,0.897116,0.865621,0.83172,0.795464,0.756961,0.716399,0.674046,0.630257,0.585479,0.540235,0.495117,0.450755,0.407776,0.366768,0.328217,0.292476,0.259731,0.229998,0.203155,0.178991,0.157271,0.137787,0.120379,0.104915,0.0912608,0.0792569,0.0687348,0.0595254,0.0514873,0.0445007,0.0384395,0.0331883,0.0286505,0.0247376,0.0213644,0.0184673,0.0159692,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01555,1.01681,1.01816,1.01962,1.02118,1.02285,1.02465,1.02657,1.02863,1.03084,1.0332,1.03573,1.03843,1.04131,1.04439,1.04767,1.05116,1.05488,1.05883,1.06303,1.06749,1.07221,1.0772,1.08248,1.08805,1.09391,1.10008,1.10657,1.11336,1.12047,1.1279,1.13564,1.1437,1.15206,1.16072,1.16967,1.17889,1.18838,1.1981,1.20805,1.21819,1.2285,1.23895,1.24951,1.26013,1.27078,1.28142,1.29201,1.30249,1.31282,1.32295,1.33282,1.34239,1.3516,1.3604,1.36873,1.37654,1.38378,1.39041,1.39638,1.40164,1.40617,1.40992,1.41288,1.41501,1.41631,1.41677,1.41639,1.41517,1.41313,1.41031,1.40672,1.4024,1.39741,1.39179,1.3856,1.37891,1.37179,1.3643,1.35651,1.34851,1.34035,1.33212,1.32387,1.31568,1.30759,1.29966,1.29194,1.28445,1.27724,1.27032,1.2637,1.25739,1.2514,1.24571,1.24031,1.23518,1.2303,1.22564,1.22115,1.21682,1.21258,1.20841,1.20425,1.20004,1.19574,1.19129,1.18661,1.18166,1.17635,1.17061,1.16435,1.1575,1.14996,1.14162,1.13237,1.12212,1.11072,1.09806,1.084,1.0684,1.05113,1.03203,1.01097,0.987829,0.962475,0.934811,0.904764,0.872294,0.837409,0.800169,0.760701,0.719209,0.67598,0.631389,0.5859,0.540054,0.494453,0.449735,0.406524,0.365396,0.326821,0.291125,0.258466,0.228837,0.202094,0.17802,0.156379,0.13697,0.119638,0.104253,0.090674,0.0787411,0.0682815,0.0591281,0.0511414,0.0442015,0.03818,0.0329663,0.0284609,0.024576,0.021228,0.018353,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0155,1.01676,1.01812,1.01957,1.02113,1.02281,1.0246,1.02653,1.02859,1.0308,1.03317,1.0357,1.03841,1.0413,1.04439,1.04768,1.05119,1.05493,1.0589,1.06313,1.06761,1.07237,1.0774,1.08273,1.08835,1.09428,1.10052,1.10708,1.11397,1.12118,1.12872,1.13658,1.14477,1.15329,1.16211,1.17125,1.18067,1.19037,1.20033,1.21053,1.22094,1.23155,1.24231,1.25319,1.26417,1.27519,1.28622,1.29721,1.30812,1.3189,1.32949,1.33984,1.3499,1.35961,1.36892,1.37778,1.38612,1.3939,1.40107,1.40757,1.41338,1.41843,1.42271,1.42619,1.42883,1.43062,1.43156,1.43164,1.43087,1.42926,1.42684,1.42363,1.41968,1.41502,1.40972,1.40382,1.3974,1.39052,1.38325,1.37567,1.36785,1.35986,1.35177,1.34365,1.33557,1.32758,1.31973,1.31207,1.30464,1.29747,1.29058,1.28398,1.27769,1.2717,1.266,1.26058,1.25543,1.25051,1.2458,1.24126,1.23686,1.23255,1.22829,1.22402,1.2197,1.21527,1.21066,1.20582,1.20068,1.19516,1.18919,1.18268,1.17554,1.16769,1.159,1.14938,1.13871,1.12686,1.11371,1.09912,1.08294,1.06505,1.04529,1.02353,0.999646,0.973511,0.945034,0.914147,0.880817,0.845059,0.806947,0.766619,0.724292,0.680267,0.634933,0.588769,0.542327,0.49622,0.451087,0.407554,0.366187,0.327444,0.291633,0.258896,0.229207,0.202412,0.178286,0.156597,0.137147,0.119783,0.104373,0.0907763,0.0788291,0.0683567,0.0591925,0.0511974,0.0442513,0.038224,0.0330063,0.0284972,0.0246089,0.0212575,0.0183814,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01545,1.01671,1.01806,1.01952,1.02108,1.02275,1.02455,1.02648,1.02854,1.03076,1.03313,1.03566,1.03837,1.04127,1.04437,1.04768,1.0512,1.05496,1.05895,1.0632,1.06772,1.07251,1.07758,1.08295,1.08862,1.09461,1.10092,1.10756,1.11453,1.12183,1.12948,1.13747,1.14579,1.15445,1.16344,1.17275,1.18237,1.19229,1.20248,1.21293,1.22361,1.2345,1.24557,1.25679,1.26811,1.27951,1.29093,1.30233,1.31367,1.3249,1.33595,1.34679,1.35735,1.36757,1.3774,1.38679,1.39568,1.404,1.41172,1.41878,1.42513,1.43074,1.43556,1.43957,1.44274,1.44504,1.44648,1.44704,1.44673,1.44557,1.44356,1.44076,1.43718,1.43288,1.4279,1.42231,1.41618,1.40956,1.40253,1.39516,1.38753,1.37971,1.37177,1.36379,1.35582,1.34793,1.34017,1.33259,1.32521,1.31809,1.31123,1.30465,1.29837,1.29238,1.28667,1.28123,1.27605,1.27109,1.26632,1.26172,1.25724,1.25284,1.24847,1.24408,1.23963,1.23504,1.23027,1.22524,1.21988,1.21412,1.20788,1.20108,1.19362,1.1854,1.17632,1.16626,1.15512,1.14275,1.12904,1.11383,1.097,1.0784,1.05789,1.03534,1.01061,0.983587,0.954191,0.922357,0.888062,0.851333,0.812255,0.770981,0.727746,0.682868,0.636755,0.5899,0.542871,0.49629,0.4508,0.407023,0.365513,0.326711,0.290901,0.258199,0.228558,0.20181,0.177725,0.156071,0.136657,0.119334,0.10397,0.0904186,0.078513,0.0680779,0.0589479,0.0509842,0.0440682,0.0380657,0.0328715,0.0283809,0.0245128,0.0211752,0.0183141,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01539,1.01665,1.01801,1.01946,1.02102,1.02269,1.02449,1.02642,1.02849,1.0307,1.03307,1.03561,1.03833,1.04124,1.04434,1.04766,1.0512,1.05497,1.05898,1.06326,1.0678,1.07262,1.07773,1.08314,1.08886,1.09491,1.10128,1.10799,1.11504,1.12244,1.13019,1.1383,1.14675,1.15556,1.16471,1.17419,1.184,1.19413,1.20455,1.21524,1.22619,1.23737,1.24875,1.2603,1.27197,1.28374,1.29555,1.30737,1.31914,1.33082,1.34235,1.35367,1.36473,1.37547,1.38584,1.39577,1.40521,1.41409,1.42237,1.43,1.43692,1.44309,1.44847,1.45303,1.45674,1.45958,1.46153,1.46259,1.46276,1.46206,1.4605,1.45811,1.45492,1.45099,1.44637,1.4411,1.43526,1.42891,1.42213,1.41499,1.40757,1.39994,1.39216,1.38433,1.37649,1.3687,1.36104,1.35353,1.34622,1.33914,1.33232,1.32577,1.3195,1.31351,1.3078,1.30234,1.29713,1.29212,1.28731,1.28264,1.27809,1.2736,1.26913,1.26462,1.26003,1.2553,1.25036,1.24514,1.23957,1.23357,1.22708,1.21998,1.2122,1.20363,1.19417,1.18369,1.17208,1.15921,1.14495,1.12916,1.1117,1.09242,1.07119,1.04787,1.02233,0.99447,0.964199,0.931466,0.896254,0.858602,0.818605,0.776432,0.73233,0.686635,0.639768,0.592238,0.544624,0.497555,0.451678,0.407611,0.3659,0.326968,0.29108,0.258331,0.228658,0.201881,0.177767,0.156087,0.136651,0.119316,0.103947,0.0903956,0.0784905,0.0680558,0.0589274,0.0509661,0.044053,0.0380539,0.0328629,0.0283752,0.0245099,0.0211747,0.0183135,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01533,1.01659,1.01795,1.0194,1.02096,1.02263,1.02443,1.02635,1.02842,1.03064,1.03301,1.03555,1.03828,1.04119,1.0443,1.04763,1.05118,1.05496,1.059,1.06329,1.06785,1.0727,1.07785,1.0833,1.08907,1.09517,1.1016,1.10838,1.11551,1.123,1.13085,1.13907,1.14765,1.1566,1.1659,1.17556,1.18556,1.19589,1.20653,1.21747,1.22869,1.24015,1.25184,1.26371,1.27574,1.28788,1.30008,1.31232,1.32452,1.33666,1.34866,1.36047,1.37205,1.38331,1.39422,1.4047,1.4147,1.42416,1.43302,1.44122,1.44872,1.45547,1.46143,1.46656,1.47082,1.47421,1.47669,1.47827,1.47894,1.47872,1.47762,1.47567,1.4729,1.46935,1.46509,1.46016,1.45464,1.44858,1.44206,1.43517,1.42796,1.42052,1.41292,1.40524,1.39753,1.38987,1.3823,1.37487,1.36764,1.36061,1.35383,1.34731,1.34106,1.33507,1.32935,1.32387,1.31862,1.31358,1.30871,1.30397,1.29933,1.29475,1.29017,1.28554,1.28081,1.27591,1.27079,1.26536,1.25957,1.25332,1.24654,1.23914,1.23102,1.22208,1.2122,1.20127,1.18917,1.17577,1.16094,1.14452,1.12639,1.1064,1.08441,1.06028,1.03389,1.00515,0.973966,0.940294,0.904129,0.865519,0.824574,0.781476,0.736487,0.68996,0.642332,0.594127,0.545935,0.498393,0.452151,0.407821,0.365936,0.326904,0.290967,0.258199,0.228518,0.201736,0.177613,0.155925,0.136487,0.119158,0.103801,0.0902637,0.078373,0.0679504,0.0588336,0.0508856,0.043983,0.037994,0.0328128,0.0283333,0.0244762,0.0211468,0.0182925,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01527,1.01653,1.01788,1.01933,1.02089,1.02256,1.02435,1.02628,1.02835,1.03056,1.03294,1.03549,1.03821,1.04113,1.04425,1.04758,1.05114,1.05494,1.05899,1.0633,1.06789,1.07276,1.07794,1.08343,1.08924,1.09539,1.10188,1.10873,1.11593,1.12351,1.13146,1.13979,1.14849,1.15757,1.16703,1.17685,1.18704,1.19757,1.20844,1.21962,1.2311,1.24285,1.25483,1.26703,1.27941,1.29192,1.30452,1.31717,1.32981,1.3424,1.35488,1.3672,1.37928,1.39109,1.40254,1.41358,1.42416,1.43419,1.44364,1.45244,1.46054,1.46788,1.47443,1.48014,1.48499,1.48894,1.49198,1.49409,1.49528,1.49556,1.49494,1.49344,1.4911,1.48796,1.48408,1.47951,1.47432,1.46856,1.46233,1.45568,1.44871,1.44148,1.43406,1.42654,1.41898,1.41144,1.40398,1.39665,1.38948,1.38252,1.37578,1.36929,1.36306,1.35708,1.35135,1.34585,1.34057,1.33549,1.33056,1.32576,1.32104,1.31636,1.31166,1.30691,1.30203,1.29697,1.29166,1.28603,1.28,1.2735,1.26644,1.25873,1.25026,1.24094,1.23065,1.21927,1.20668,1.19275,1.17733,1.1603,1.1415,1.1208,1.09805,1.07312,1.0459,1.01629,0.984204,0.949609,0.912508,0.872959,0.831084,0.787078,0.74122,0.693875,0.645497,0.596622,0.547853,0.499831,0.453209,0.408593,0.366505,0.327337,0.291311,0.258482,0.228753,0.201926,0.17776,0.156033,0.136564,0.119213,0.103844,0.0902976,0.0783999,0.0679714,0.0588494,0.0509006,0.0439968,0.0380064,0.0328248,0.0283456,0.0244886,0.0211613,0.0183063,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01521,1.01646,1.01781,1.01926,1.02081,1.02248,1.02428,1.0262,1.02827,1.03048,1.03286,1.03541,1.03813,1.04105,1.04418,1.04752,1.05109,1.0549,1.05896,1.06329,1.0679,1.0728,1.078,1.08353,1.08938,1.09558,1.10212,1.10903,1.11631,1.12397,1.13201,1.14044,1.14927,1.15848,1.16809,1.17807,1.18844,1.19917,1.21026,1.22168,1.23341,1.24544,1.25773,1.27026,1.28298,1.29586,1.30885,1.32191,1.335,1.34805,1.36101,1.37383,1.38644,1.39878,1.41079,1.4224,1.43356,1.44419,1.45424,1.46364,1.47235,1.4803,1.48746,1.49377,1.49921,1.50375,1.50736,1.51003,1.51176,1.51255,1.51242,1.5114,1.50951,1.5068,1.50332,1.49912,1.49427,1.48884,1.48289,1.47652,1.46978,1.46277,1.45556,1.44821,1.4408,1.43339,1.42604,1.4188,1.41172,1.40482,1.39813,1.39167,1.38545,1.37947,1.37373,1.36821,1.3629,1.35776,1.35277,1.34788,1.34307,1.33827,1.33345,1.32855,1.3235,1.31826,1.31273,1.30687,1.30058,1.29379,1.28641,1.27834,1.26948,1.25972,1.24896,1.23707,1.22392,1.20938,1.19331,1.17557,1.15602,1.13452,1.11092,1.08509,1.05693,1.02634,0.993249,0.957627,0.919488,0.878904,0.836011,0.791023,0.744234,0.696029,0.646879,0.597336,0.548013,0.499563,0.452631,0.407821,0.365636,0.326445,0.290447,0.257669,0.227998,0.201223,0.177102,0.155418,0.135995,0.118696,0.10338,0.0898872,0.0780367,0.0676507,0.0585679,0.0506561,0.0437856,0.0378246,0.0326689,0.0282121,0.0243764,0.0210666,0.0182247,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01514,1.01639,1.01774,1.01918,1.02073,1.0224,1.02419,1.02612,1.02818,1.03039,1.03277,1.03532,1.03805,1.04097,1.0441,1.04744,1.05102,1.05484,1.05891,1.06325,1.06788,1.0728,1.07804,1.08359,1.08949,1.09573,1.10232,1.10929,1.11664,1.12438,1.13251,1.14105,1.14998,1.15933,1.16907,1.17922,1.18976,1.20069,1.21199,1.22365,1.23564,1.24794,1.26053,1.27338,1.28645,1.29969,1.31308,1.32656,1.34009,1.3536,1.36705,1.38037,1.39351,1.4064,1.41897,1.43116,1.44291,1.45414,1.46481,1.47483,1.48416,1.49274,1.50052,1.50746,1.51351,1.51864,1.52284,1.52609,1.52838,1.52971,1.5301,1.52957,1.52816,1.52589,1.52283,1.51902,1.51454,1.50944,1.50381,1.49771,1.49124,1.48446,1.47745,1.47029,1.46305,1.45578,1.44856,1.44142,1.43442,1.42759,1.42096,1.41454,1.40834,1.40237,1.39663,1.39109,1.38575,1.38056,1.37551,1.37056,1.36565,1.36076,1.35582,1.35077,1.34557,1.34015,1.33443,1.32834,1.32181,1.31474,1.30706,1.29865,1.28943,1.27928,1.26808,1.25571,1.24205,1.22695,1.21028,1.1919,1.17166,1.14942,1.12505,1.09841,1.0694,1.03793,1.00393,0.967375,0.928297,0.886774,0.842955,0.797065,0.749414,0.700401,0.65051,0.600305,0.55041,0.501479,0.454161,0.409052,0.366645,0.327291,0.291171,0.258298,0.228542,0.201689,0.177495,0.155745,0.136268,0.118926,0.103577,0.0900564,0.0781818,0.0677749,0.0586748,0.050749,0.043867,0.0378956,0.0327323,0.0282678,0.0244268,0.0211114,0.0182648,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01506,1.01631,1.01766,1.0191,1.02065,1.02231,1.0241,1.02602,1.02808,1.0303,1.03267,1.03522,1.03795,1.04087,1.044,1.04735,1.05093,1.05476,1.05884,1.0632,1.06784,1.07279,1.07804,1.08363,1.08956,1.09584,1.10249,1.10951,1.11693,1.12474,1.13296,1.14159,1.15064,1.1601,1.16999,1.18029,1.19101,1.20213,1.21364,1.22552,1.23776,1.25034,1.26323,1.2764,1.28981,1.30342,1.3172,1.3311,1.34506,1.35904,1.37298,1.38681,1.40048,1.41392,1.42706,1.43984,1.45219,1.46404,1.47533,1.48599,1.49596,1.50518,1.5136,1.52117,1.52785,1.53361,1.53842,1.54226,1.54513,1.54702,1.54795,1.54793,1.54701,1.5452,1.54258,1.53918,1.53508,1.53034,1.52503,1.51924,1.51303,1.5065,1.49971,1.49275,1.48568,1.47856,1.47147,1.46444,1.45753,1.45078,1.4442,1.43782,1.43165,1.42569,1.41994,1.41439,1.409,1.40377,1.39865,1.39362,1.38862,1.38361,1.37853,1.37334,1.36797,1.36235,1.35641,1.35008,1.34328,1.33592,1.3279,1.31914,1.30952,1.29893,1.28725,1.27437,1.26015,1.24445,1.22713,1.20805,1.18707,1.16404,1.13883,1.11132,1.08139,1.04897,1.014,0.976458,0.936383,0.893868,0.849074,0.802243,0.753698,0.703856,0.653215,0.602353,0.551901,0.50252,0.454857,0.4095,0.366926,0.327468,0.291287,0.258374,0.228587,0.201704,0.177481,0.155706,0.136214,0.118867,0.103518,0.090001,0.0781296,0.0677264,0.0586309,0.0507109,0.0438348,0.0378678,0.0327087,0.0282509,0.0244116,0.0211017,0.0182587,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01499,1.01623,1.01757,1.01901,1.02056,1.02222,1.024,1.02592,1.02798,1.03019,1.03256,1.03511,1.03784,1.04076,1.04389,1.04724,1.05083,1.05466,1.05875,1.06312,1.06778,1.07274,1.07802,1.08364,1.08959,1.09591,1.10261,1.10969,1.11716,1.12505,1.13335,1.14207,1.15123,1.16081,1.17084,1.18129,1.19217,1.20348,1.21519,1.2273,1.23979,1.25264,1.26582,1.27931,1.29306,1.30704,1.32121,1.33552,1.34993,1.36438,1.3788,1.39315,1.40736,1.42135,1.43507,1.44845,1.46141,1.47388,1.48581,1.49711,1.50773,1.51761,1.52668,1.53491,1.54224,1.54864,1.55408,1.55854,1.562,1.56447,1.56596,1.56648,1.56607,1.56475,1.56258,1.55961,1.55591,1.55154,1.54658,1.5411,1.53519,1.52891,1.52236,1.51561,1.50872,1.50177,1.49481,1.48791,1.4811,1.47443,1.46791,1.46158,1.45544,1.4495,1.44374,1.43817,1.43276,1.42748,1.4223,1.41718,1.41208,1.40696,1.40176,1.39641,1.39087,1.38506,1.3789,1.37233,1.36527,1.35761,1.34927,1.34015,1.33013,1.31912,1.30698,1.29359,1.27882,1.26253,1.24458,1.22482,1.20312,1.17933,1.15331,1.12496,1.09416,1.06082,1.02492,0.986425,0.945393,0.901924,0.856193,0.808452,0.759043,0.708391,0.657011,0.60549,0.554469,0.504612,0.456564,0.410906,0.368104,0.328474,0.292159,0.259136,0.22925,0.202273,0.177965,0.156114,0.136559,0.11916,0.103771,0.0902191,0.0783171,0.0678876,0.0587699,0.0508317,0.0439394,0.0379598,0.0327894,0.0283227,0.0244747,0.0211584,0.0183092,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01491,1.01615,1.01749,1.01892,1.02046,1.02212,1.0239,1.02581,1.02787,1.03008,1.03245,1.03499,1.03771,1.04064,1.04377,1.04712,1.05071,1.05455,1.05865,1.06302,1.06769,1.07267,1.07797,1.08361,1.0896,1.09595,1.10269,1.10982,1.11735,1.1253,1.13368,1.1425,1.15175,1.16145,1.17161,1.18221,1.19325,1.20474,1.21665,1.22899,1.24172,1.25484,1.26831,1.2821,1.29619,1.31054,1.3251,1.33983,1.35468,1.36959,1.38451,1.39937,1.41412,1.42867,1.44298,1.45696,1.47054,1.48365,1.49622,1.50818,1.51947,1.53001,1.53976,1.54866,1.55665,1.56371,1.5698,1.57489,1.57898,1.58205,1.58412,1.58519,1.58531,1.5845,1.5828,1.58028,1.577,1.57302,1.56842,1.56327,1.55766,1.55166,1.54535,1.53882,1.53212,1.52534,1.51854,1.51176,1.50505,1.49846,1.49201,1.48573,1.47961,1.47368,1.46792,1.46233,1.45687,1.45154,1.44628,1.44107,1.43587,1.43061,1.42526,1.41974,1.414,1.40797,1.40157,1.39473,1.38735,1.37936,1.37065,1.36112,1.35066,1.33916,1.32649,1.31253,1.29714,1.28018,1.26151,1.24099,1.21847,1.19382,1.1669,1.1376,1.10581,1.07146,1.03451,0.994962,0.952873,0.908359,0.861607,0.812889,0.762561,0.711068,0.658937,0.606771,0.555219,0.504948,0.456599,0.410742,0.367825,0.328143,0.291814,0.258793,0.228914,0.201942,0.177637,0.155794,0.136254,0.118879,0.103517,0.0899908,0.0781131,0.0677062,0.0586102,0.0506927,0.0438185,0.0378561,0.0327019,0.0282481,0.024413,0.0211092,0.0182667,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01482,1.01606,1.01739,1.01882,1.02036,1.02202,1.02379,1.0257,1.02775,1.02995,1.03232,1.03486,1.03758,1.0405,1.04363,1.04698,1.05057,1.05441,1.05852,1.0629,1.06758,1.07258,1.07789,1.08355,1.08957,1.09595,1.10273,1.1099,1.11749,1.12551,1.13396,1.14286,1.15221,1.16202,1.1723,1.18304,1.19425,1.20591,1.21802,1.23057,1.24355,1.25692,1.27068,1.28478,1.29921,1.31391,1.32886,1.34401,1.3593,1.37467,1.39009,1.40547,1.42076,1.43588,1.45078,1.46536,1.47957,1.49333,1.50656,1.51919,1.53116,1.54239,1.55282,1.56241,1.57109,1.57882,1.58558,1.59133,1.59605,1.59975,1.60241,1.60407,1.60473,1.60445,1.60325,1.6012,1.59836,1.59478,1.59056,1.58576,1.58046,1.57475,1.56871,1.5624,1.55592,1.54932,1.54267,1.53602,1.52943,1.52293,1.51654,1.51031,1.50423,1.49831,1.49254,1.48692,1.48143,1.47603,1.4707,1.46539,1.46007,1.45468,1.44916,1.44346,1.43752,1.43125,1.4246,1.41746,1.40977,1.40142,1.39232,1.38237,1.37144,1.35943,1.34621,1.33166,1.31562,1.29797,1.27856,1.25725,1.23389,1.20835,1.18049,1.15021,1.11741,1.08202,1.04401,1.00339,0.960225,0.914652,0.866871,0.817169,0.765921,0.713587,0.660712,0.607911,0.555839,0.505168,0.456533,0.410491,0.367473,0.327747,0.291411,0.258399,0.22853,0.201566,0.177267,0.155437,0.135917,0.11857,0.103238,0.0897408,0.0778899,0.0675077,0.0584357,0.0505414,0.0436872,0.0377427,0.032606,0.0281665,0.0243454,0.0210529,0.0182206,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01474,1.01597,1.0173,1.01872,1.02026,1.0219,1.02368,1.02558,1.02762,1.02982,1.03218,1.03472,1.03744,1.04035,1.04348,1.04683,1.05042,1.05426,1.05837,1.06276,1.06745,1.07245,1.07778,1.08346,1.0895,1.09592,1.10273,1.10994,1.11758,1.12566,1.13418,1.14316,1.15261,1.16252,1.17292,1.1838,1.19516,1.20699,1.2193,1.23206,1.24526,1.2589,1.27293,1.28734,1.3021,1.31717,1.3325,1.34806,1.36379,1.37963,1.39554,1.41144,1.42728,1.44298,1.45846,1.47367,1.48851,1.50292,1.51682,1.53014,1.5428,1.55473,1.56587,1.57616,1.58554,1.59397,1.60142,1.60784,1.61323,1.61757,1.62085,1.62311,1.62435,1.62461,1.62394,1.62237,1.61999,1.61684,1.61302,1.60858,1.60362,1.59821,1.59244,1.58639,1.58012,1.57372,1.56723,1.56073,1.55426,1.54785,1.54155,1.53537,1.52932,1.52342,1.51765,1.51201,1.50648,1.50102,1.49562,1.49021,1.48478,1.47925,1.47357,1.4677,1.46154,1.45505,1.44813,1.44071,1.4327,1.424,1.41452,1.40414,1.39276,1.38025,1.36649,1.35134,1.33467,1.31634,1.29621,1.27413,1.24995,1.22355,1.19479,1.16356,1.12979,1.09339,1.05436,1.0127,0.968507,0.921913,0.873139,0.822486,0.770344,0.717188,0.663578,0.610138,0.557532,0.506432,0.457468,0.411188,0.368004,0.328166,0.29175,0.258677,0.228751,0.201734,0.177387,0.155517,0.135971,0.118606,0.103264,0.0897584,0.0779011,0.0675145,0.05844,0.0505461,0.0436908,0.0377483,0.0326109,0.0281717,0.0243487,0.0210602,0.018228,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01465,1.01588,1.0172,1.01862,1.02014,1.02179,1.02355,1.02545,1.02749,1.02968,1.03204,1.03456,1.03728,1.04019,1.04331,1.04666,1.05025,1.05409,1.0582,1.0626,1.06729,1.0723,1.07765,1.08334,1.0894,1.09584,1.10268,1.10994,1.11763,1.12576,1.13434,1.1434,1.15293,1.16295,1.17347,1.18448,1.19598,1.20798,1.22047,1.23344,1.24687,1.26076,1.27507,1.28979,1.30487,1.32029,1.33601,1.35197,1.36814,1.38446,1.40086,1.41729,1.43367,1.44994,1.46603,1.48186,1.49735,1.51242,1.527,1.54101,1.55438,1.56702,1.57888,1.5899,1.6,1.60915,1.6173,1.62443,1.63049,1.6355,1.63943,1.64231,1.64415,1.64498,1.64485,1.6438,1.64189,1.6392,1.63578,1.63174,1.62713,1.62204,1.61657,1.61077,1.60474,1.59854,1.59224,1.58589,1.57954,1.57325,1.56703,1.56091,1.55491,1.54903,1.54327,1.53761,1.53204,1.52653,1.52105,1.51556,1.51,1.50434,1.49851,1.49245,1.4861,1.47937,1.4722,1.4645,1.45617,1.44713,1.43727,1.42648,1.41464,1.40164,1.38735,1.37163,1.35435,1.33536,1.31452,1.29169,1.26672,1.23949,1.20986,1.17773,1.14301,1.10565,1.06563,1.02299,0.977799,0.930224,0.880492,0.828918,0.775905,0.721942,0.6676,0.613512,0.560348,0.508783,0.459441,0.412861,0.369442,0.329418,0.292849,0.25964,0.229591,0.202457,0.178006,0.156045,0.136422,0.118995,0.1036,0.0900488,0.0781521,0.0677296,0.0586263,0.050708,0.0438314,0.0378706,0.0327164,0.0282651,0.0244312,0.0211332,0.018293,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01455,1.01578,1.01709,1.01851,1.02003,1.02166,1.02342,1.02531,1.02735,1.02953,1.03188,1.0344,1.03711,1.04002,1.04314,1.04648,1.05006,1.0539,1.05801,1.06241,1.06711,1.07212,1.07748,1.08318,1.08926,1.09573,1.1026,1.10989,1.11762,1.1258,1.13445,1.14357,1.15319,1.16331,1.17393,1.18507,1.19671,1.20888,1.22155,1.23472,1.24837,1.26251,1.27709,1.2921,1.30751,1.32328,1.33938,1.35575,1.37236,1.38914,1.40604,1.42299,1.43993,1.45678,1.47347,1.48993,1.50607,1.52182,1.53709,1.55181,1.56589,1.57927,1.59187,1.60362,1.61446,1.62435,1.63323,1.64107,1.64785,1.65354,1.65814,1.66167,1.66413,1.66555,1.66598,1.66547,1.66407,1.66184,1.65887,1.65523,1.651,1.64625,1.64108,1.63557,1.62979,1.62381,1.6177,1.61152,1.60532,1.59914,1.59301,1.58697,1.58102,1.57517,1.56942,1.56376,1.55816,1.55261,1.54706,1.54148,1.53582,1.53003,1.52406,1.51783,1.51128,1.50434,1.49693,1.48896,1.48034,1.47097,1.46075,1.44957,1.43731,1.42385,1.40906,1.39281,1.37495,1.35535,1.33387,1.31034,1.28465,1.25665,1.22622,1.19326,1.15768,1.11943,1.07851,1.03495,0.988848,0.940361,0.889732,0.837286,0.783437,0.728684,0.673606,0.618845,0.565076,0.512973,0.463162,0.416173,0.372399,0.332062,0.295212,0.261747,0.231463,0.204111,0.17946,0.15732,0.137539,0.119973,0.104455,0.0907947,0.0788016,0.0682942,0.0591168,0.0511339,0.0442008,0.0381911,0.0329944,0.0285063,0.0246407,0.0213153,0.0184516,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01445,1.01567,1.01698,1.01839,1.01991,1.02153,1.02329,1.02517,1.0272,1.02937,1.03171,1.03423,1.03693,1.03983,1.04294,1.04628,1.04986,1.0537,1.0578,1.0622,1.0669,1.07192,1.07728,1.083,1.08909,1.09557,1.10247,1.10979,1.11756,1.12579,1.13449,1.14369,1.15338,1.16359,1.17432,1.18557,1.19736,1.20967,1.22252,1.23588,1.24976,1.26413,1.27898,1.29428,1.31001,1.32613,1.3426,1.35938,1.37642,1.39367,1.41106,1.42854,1.44603,1.46347,1.48077,1.49786,1.51466,1.53109,1.54706,1.5625,1.57731,1.59143,1.60478,1.61729,1.62889,1.63954,1.64917,1.65775,1.66525,1.67165,1.67695,1.68114,1.68424,1.68629,1.68731,1.68735,1.68647,1.68474,1.68223,1.67901,1.67516,1.67078,1.66594,1.66072,1.65519,1.64945,1.64354,1.63754,1.63149,1.62543,1.61941,1.61344,1.60754,1.60173,1.59599,1.59031,1.58468,1.57908,1.57345,1.56778,1.562,1.55608,1.54994,1.54353,1.53677,1.52959,1.52191,1.51365,1.5047,1.49498,1.48437,1.47276,1.46004,1.44608,1.43075,1.41392,1.39544,1.37517,1.35298,1.32871,1.30222,1.27339,1.2421,1.20824,1.17173,1.13254,1.09065,1.04611,0.999029,0.949576,0.898004,0.844648,0.789936,0.734377,0.678562,0.623139,0.56879,0.516189,0.465958,0.418619,0.374554,0.333971,0.296907,0.263249,0.232785,0.205268,0.180467,0.158195,0.138299,0.120635,0.105031,0.0912954,0.0792358,0.0686704,0.0594433,0.0514171,0.0444465,0.0384043,0.0331798,0.0286699,0.0247812,0.0214382,0.018559,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01435,1.01556,1.01687,1.01827,1.01978,1.0214,1.02314,1.02502,1.02704,1.02921,1.03154,1.03405,1.03674,1.03963,1.04274,1.04607,1.04964,1.05347,1.05757,1.06196,1.06666,1.07169,1.07705,1.08278,1.08888,1.09538,1.1023,1.10965,1.11745,1.12572,1.13448,1.14373,1.1535,1.16379,1.17462,1.18599,1.1979,1.21037,1.22338,1.23693,1.25102,1.26562,1.28073,1.29632,1.31236,1.32882,1.34566,1.36284,1.38031,1.39802,1.4159,1.4339,1.45194,1.46996,1.48787,1.5056,1.52306,1.54017,1.55685,1.57301,1.58857,1.60344,1.61755,1.63083,1.6432,1.65461,1.665,1.67434,1.68258,1.68971,1.69571,1.70059,1.70435,1.70702,1.70864,1.70926,1.70892,1.70769,1.70564,1.70285,1.69941,1.69538,1.69087,1.68594,1.68068,1.67515,1.66944,1.6636,1.65768,1.65173,1.64578,1.63986,1.63398,1.62816,1.62238,1.61665,1.61093,1.6052,1.59944,1.59358,1.5876,1.58143,1.57502,1.5683,1.56119,1.55362,1.54551,1.53676,1.52729,1.51698,1.50573,1.49343,1.47995,1.46517,1.44896,1.43117,1.41167,1.39031,1.36695,1.34144,1.31366,1.28346,1.25074,1.21541,1.1774,1.13667,1.09324,1.04718,0.998608,0.947727,0.894817,0.840246,0.78447,0.728028,0.671533,0.615652,0.56107,0.508454,0.458404,0.411407,0.367793,0.327724,0.291187,0.258036,0.228041,0.200954,0.176555,0.154667,0.135145,0.117834,0.102556,0.089116,0.0773205,0.0669924,0.0579807,0.0501468,0.0433435,0.0374517,0.0323575,0.027963,0.0241732,0.0209201,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01424,1.01545,1.01675,1.01814,1.01964,1.02126,1.02299,1.02486,1.02687,1.02903,1.03136,1.03385,1.03654,1.03942,1.04251,1.04584,1.0494,1.05322,1.05732,1.06171,1.0664,1.07143,1.07679,1.08252,1.08864,1.09515,1.10208,1.10946,1.11729,1.1256,1.1344,1.14371,1.15355,1.16392,1.17484,1.18632,1.19836,1.21096,1.22413,1.23787,1.25216,1.267,1.28236,1.29823,1.31458,1.33137,1.34858,1.36616,1.38406,1.40223,1.4206,1.43912,1.45772,1.47632,1.49485,1.51322,1.53136,1.54916,1.56656,1.58346,1.59977,1.61541,1.63031,1.64437,1.65753,1.66974,1.68092,1.69104,1.70005,1.70793,1.71467,1.72027,1.72472,1.72806,1.73031,1.73153,1.73176,1.73106,1.72952,1.7272,1.72418,1.72055,1.71639,1.71178,1.70681,1.70155,1.69606,1.69042,1.68467,1.67886,1.67302,1.66718,1.66137,1.65558,1.64982,1.64407,1.63832,1.63253,1.62668,1.62073,1.61462,1.60829,1.6017,1.59477,1.58743,1.5796,1.5712,1.56213,1.5523,1.54161,1.52994,1.51718,1.5032,1.48788,1.47109,1.45268,1.43252,1.41045,1.38635,1.36005,1.33144,1.30038,1.26676,1.2305,1.19152,1.14982,1.1054,1.05834,1.00878,0.956921,0.903063,0.847582,0.790947,0.733706,0.676486,0.619956,0.564808,0.511707,0.461248,0.413908,0.370006,0.329688,0.29293,0.259578,0.229397,0.202139,0.177586,0.155564,0.135925,0.118513,0.103147,0.0896293,0.0777654,0.067378,0.058315,0.0504369,0.043595,0.0376699,0.0325472,0.0281278,0.0243174,0.0210459,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01413,1.01533,1.01662,1.01801,1.0195,1.02111,1.02284,1.0247,1.0267,1.02885,1.03116,1.03365,1.03632,1.03919,1.04228,1.04559,1.04915,1.05296,1.05705,1.06143,1.06612,1.07114,1.0765,1.08224,1.08835,1.09488,1.10183,1.10922,1.11708,1.12542,1.13426,1.14362,1.15352,1.16397,1.17497,1.18655,1.19871,1.21145,1.22478,1.23869,1.25318,1.26824,1.28385,1.29999,1.31664,1.33377,1.35134,1.36931,1.38763,1.40625,1.42512,1.44416,1.46332,1.4825,1.50165,1.52067,1.53948,1.55799,1.57611,1.59375,1.61083,1.62726,1.64294,1.65781,1.67179,1.6848,1.69679,1.70771,1.71751,1.72617,1.73367,1.74,1.74517,1.74919,1.7521,1.75394,1.75476,1.75463,1.7536,1.75176,1.74919,1.74597,1.74219,1.73792,1.73325,1.72826,1.72301,1.71757,1.71199,1.70632,1.70059,1.69484,1.68909,1.68333,1.67757,1.6718,1.666,1.66015,1.6542,1.64812,1.64186,1.63536,1.62856,1.6214,1.61379,1.60566,1.59693,1.58749,1.57726,1.56613,1.55397,1.54069,1.52615,1.51022,1.49277,1.47367,1.45275,1.42989,1.40494,1.37776,1.34821,1.31617,1.28154,1.24424,1.20419,1.1614,1.11588,1.06772,1.01707,0.964153,0.909277,0.852834,0.795307,0.737261,0.679332,0.622198,0.566552,0.513059,0.462302,0.414743,0.370685,0.330251,0.293401,0.259967,0.22971,0.202383,0.177771,0.155703,0.136032,0.118597,0.103214,0.089682,0.0778066,0.0674111,0.0583422,0.0504609,0.0436151,0.0376885,0.0325643,0.028145,0.0243325,0.0210608,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01402,1.01521,1.0165,1.01788,1.01936,1.02096,1.02268,1.02452,1.02651,1.02865,1.03096,1.03343,1.03609,1.03895,1.04203,1.04533,1.04887,1.05268,1.05675,1.06113,1.06581,1.07082,1.07618,1.08191,1.08803,1.09456,1.10152,1.10893,1.11681,1.12518,1.13406,1.14347,1.15342,1.16394,1.17502,1.1867,1.19897,1.21184,1.22531,1.23939,1.25407,1.26934,1.28519,1.3016,1.31855,1.336,1.35393,1.37228,1.39103,1.4101,1.42946,1.44902,1.46873,1.4885,1.50827,1.52794,1.54743,1.56664,1.5855,1.6039,1.62176,1.63898,1.65548,1.67117,1.68597,1.69981,1.71263,1.72437,1.73499,1.74445,1.75273,1.75983,1.76574,1.77047,1.77407,1.77656,1.778,1.77844,1.77796,1.77663,1.77453,1.77174,1.76835,1.76445,1.7601,1.75539,1.75039,1.74517,1.73978,1.73427,1.72867,1.72302,1.71733,1.71162,1.70587,1.7001,1.69426,1.68834,1.68231,1.67612,1.66972,1.66305,1.65606,1.64867,1.64082,1.63241,1.62336,1.61358,1.60297,1.59142,1.57881,1.56504,1.54997,1.53347,1.51541,1.49565,1.47404,1.45045,1.42471,1.39671,1.3663,1.33337,1.29781,1.25954,1.21851,1.17472,1.12818,1.07901,1.02735,0.973447,0.91761,0.860249,0.801858,0.743011,0.684354,0.626572,0.570361,0.516384,0.465217,0.417313,0.372961,0.332273,0.295196,0.261553,0.231104,0.2036,0.17883,0.156623,0.136832,0.119295,0.103821,0.0902086,0.0782629,0.0678065,0.0586849,0.0507581,0.0438726,0.0379119,0.0327569,0.0283135,0.0244792,0.0211892,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0139,1.01509,1.01636,1.01773,1.01921,1.0208,1.02251,1.02434,1.02632,1.02845,1.03074,1.0332,1.03585,1.0387,1.04176,1.04505,1.04858,1.05237,1.05644,1.0608,1.06547,1.07048,1.07583,1.08156,1.08768,1.09421,1.10117,1.10859,1.11649,1.12488,1.1338,1.14324,1.15325,1.16382,1.17499,1.18675,1.19912,1.21211,1.22573,1.23997,1.25483,1.27031,1.28639,1.30306,1.32029,1.33806,1.35633,1.37507,1.39423,1.41375,1.43359,1.45367,1.47393,1.49429,1.51467,1.53499,1.55517,1.5751,1.59469,1.61386,1.6325,1.65053,1.66785,1.68437,1.70001,1.7147,1.72836,1.74095,1.7524,1.76268,1.77177,1.77965,1.78631,1.79178,1.79608,1.79925,1.80132,1.80237,1.80245,1.80164,1.80003,1.79769,1.79471,1.79117,1.78715,1.78274,1.778,1.773,1.76779,1.76243,1.75696,1.7514,1.74577,1.74008,1.73434,1.72853,1.72263,1.71663,1.71048,1.70413,1.69755,1.69068,1.68344,1.67578,1.66761,1.65885,1.64942,1.63921,1.62813,1.61607,1.60291,1.58853,1.57281,1.55561,1.5368,1.51623,1.49377,1.46926,1.44257,1.41356,1.3821,1.34807,1.31137,1.27193,1.2297,1.1847,1.13695,1.08657,1.03373,0.978683,0.921765,0.863398,0.804097,0.74445,0.685116,0.626788,0.570164,0.515896,0.464551,0.416557,0.37218,0.331504,0.294455,0.260843,0.230421,0.202944,0.178206,0.15604,0.136298,0.118813,0.103389,0.0898239,0.0779196,0.0675039,0.0584196,0.0505267,0.0436723,0.0377398,0.0326093,0.028188,0.0243724,0.0210973,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01378,1.01496,1.01622,1.01759,1.01905,1.02063,1.02233,1.02416,1.02612,1.02824,1.03052,1.03297,1.0356,1.03844,1.04148,1.04476,1.04827,1.05205,1.0561,1.06045,1.06511,1.0701,1.07545,1.08117,1.08728,1.09381,1.10078,1.10821,1.11612,1.12453,1.13347,1.14295,1.153,1.16363,1.17486,1.1867,1.19917,1.21228,1.22603,1.24042,1.25546,1.27114,1.28744,1.30436,1.32187,1.33995,1.35857,1.37768,1.39725,1.41722,1.43753,1.45813,1.47894,1.49989,1.52089,1.54187,1.56273,1.58338,1.60372,1.62367,1.64311,1.66195,1.68011,1.69748,1.71399,1.72954,1.74408,1.75753,1.76984,1.78097,1.79089,1.79958,1.80704,1.81328,1.81831,1.82218,1.82492,1.8266,1.82728,1.82703,1.82593,1.82407,1.82153,1.81838,1.81473,1.81064,1.80618,1.80143,1.79644,1.79126,1.78594,1.78049,1.77495,1.76933,1.76362,1.75781,1.75189,1.74583,1.7396,1.73315,1.72644,1.71941,1.71198,1.70411,1.69569,1.68666,1.67692,1.66638,1.65494,1.64247,1.62888,1.61403,1.5978,1.58006,1.56067,1.53949,1.51637,1.49117,1.46375,1.43397,1.40171,1.36685,1.32928,1.28896,1.24583,1.19989,1.15121,1.09988,1.0461,0.990125,0.932295,0.873044,0.812893,0.752441,0.692353,0.633326,0.576061,0.521211,0.469338,0.420869,0.376059,0.334988,0.297575,0.263626,0.232894,0.205132,0.180135,0.157738,0.137789,0.120119,0.104532,0.0908204,0.0787874,0.0682583,0.0590748,0.051095,0.0441647,0.0381662,0.0329786,0.0285075,0.0246494,0.0213374,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01365,1.01482,1.01608,1.01743,1.01889,1.02046,1.02214,1.02396,1.02591,1.02802,1.03028,1.03272,1.03534,1.03816,1.04119,1.04444,1.04795,1.05171,1.05574,1.06007,1.06472,1.0697,1.07503,1.08074,1.08685,1.09337,1.10034,1.10777,1.11568,1.12411,1.13307,1.14258,1.15267,1.16335,1.17464,1.18656,1.19912,1.21233,1.2262,1.24074,1.25594,1.27181,1.28833,1.30549,1.32327,1.34166,1.36061,1.38008,1.40005,1.42046,1.44124,1.46235,1.4837,1.50523,1.52685,1.54848,1.57003,1.5914,1.6125,1.63322,1.65346,1.67313,1.69213,1.71037,1.72774,1.74418,1.75959,1.77393,1.78711,1.79911,1.80988,1.8194,1.82767,1.83468,1.84047,1.84506,1.84848,1.85081,1.85209,1.85241,1.85184,1.85047,1.84836,1.84562,1.84233,1.83856,1.83438,1.82987,1.82509,1.82007,1.81488,1.80953,1.80405,1.79845,1.79273,1.78688,1.78089,1.77472,1.76835,1.76173,1.7548,1.74752,1.73981,1.73161,1.72284,1.71341,1.70322,1.69219,1.68021,1.66716,1.65293,1.6374,1.62043,1.60189,1.58165,1.55956,1.53548,1.50926,1.48077,1.44986,1.41642,1.38034,1.34152,1.2999,1.25545,1.20819,1.15818,1.10556,1.05051,0.993324,0.93436,0.874074,0.813006,0.751773,0.691053,0.63155,0.573963,0.518934,0.467007,0.418578,0.373872,0.332937,0.295669,0.261857,0.231251,0.20361,0.178734,0.156462,0.136641,0.119095,0.103622,0.0900149,0.0780768,0.0676331,0.0585322,0.0506221,0.0437536,0.0378122,0.0326737,0.0282469,0.0244277,0.0211483,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01352,1.01468,1.01593,1.01728,1.01872,1.02028,1.02195,1.02376,1.0257,1.02779,1.03004,1.03246,1.03506,1.03786,1.04088,1.04412,1.0476,1.05134,1.05536,1.05967,1.0643,1.06927,1.07458,1.08028,1.08637,1.09289,1.09985,1.10728,1.1152,1.12363,1.13261,1.14214,1.15226,1.16298,1.17433,1.18631,1.19895,1.21226,1.22625,1.24093,1.25629,1.27233,1.28906,1.30646,1.32451,1.34318,1.36246,1.3823,1.40266,1.42349,1.44475,1.46636,1.48826,1.51037,1.53261,1.5549,1.57714,1.59923,1.62109,1.6426,1.66366,1.68417,1.70403,1.72315,1.74142,1.75875,1.77508,1.79031,1.8044,1.81729,1.82894,1.83933,1.84844,1.85627,1.86285,1.86819,1.87234,1.87535,1.87728,1.8782,1.87819,1.87733,1.87571,1.87341,1.87051,1.86709,1.86323,1.859,1.85445,1.84964,1.84461,1.8394,1.83402,1.82848,1.8228,1.81696,1.81094,1.80472,1.79826,1.79153,1.78446,1.77701,1.7691,1.76067,1.75163,1.74191,1.7314,1.72001,1.70763,1.69416,1.67946,1.66343,1.64593,1.62682,1.60597,1.58323,1.55846,1.53152,1.50227,1.47057,1.4363,1.39935,1.35965,1.31711,1.27173,1.22352,1.17256,1.11897,1.06296,1.00483,0.944943,0.883762,0.821838,0.759794,0.698315,0.638111,0.579881,0.524269,0.471814,0.422907,0.377766,0.336433,0.298797,0.264646,0.233726,0.205798,0.180662,0.158158,0.138129,0.120399,0.104761,0.0910083,0.0789414,0.0683848,0.0591846,0.0511877,0.0442438,0.0382365,0.0330411,0.0285647,0.0247031,0.0213866,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01339,1.01454,1.01578,1.01711,1.01855,1.02009,1.02176,1.02355,1.02547,1.02755,1.02978,1.03218,1.03477,1.03756,1.04055,1.04377,1.04724,1.05096,1.05496,1.05925,1.06386,1.0688,1.0741,1.07978,1.08586,1.09236,1.09931,1.10674,1.11465,1.12309,1.13208,1.14163,1.15177,1.16253,1.17392,1.18596,1.19868,1.21208,1.22617,1.24097,1.25648,1.2727,1.28962,1.30724,1.32554,1.3445,1.36409,1.38428,1.40503,1.42629,1.448,1.47011,1.49254,1.51523,1.53808,1.56102,1.58395,1.60677,1.62938,1.65168,1.67356,1.69492,1.71565,1.73565,1.75482,1.77307,1.79031,1.80647,1.82147,1.83527,1.84782,1.85909,1.86905,1.87772,1.88509,1.89121,1.89609,1.89979,1.90238,1.90392,1.90448,1.90415,1.90302,1.90115,1.89865,1.89559,1.89203,1.88807,1.88375,1.87912,1.87424,1.86913,1.86382,1.85832,1.85263,1.84674,1.84065,1.83431,1.82771,1.82078,1.81349,1.80578,1.79757,1.78879,1.77937,1.76922,1.75823,1.74632,1.73338,1.71929,1.70393,1.68718,1.6689,1.64896,1.62722,1.60354,1.57778,1.54978,1.51942,1.48657,1.45109,1.4129,1.37191,1.32806,1.28135,1.2318,1.17951,1.12461,1.06734,1.008,0.946991,0.884789,0.821967,0.759163,0.697075,0.636417,0.577886,0.522111,0.46961,0.420745,0.375704,0.334499,0.296994,0.262967,0.232163,0.204346,0.179325,0.156941,0.137034,0.119421,0.103894,0.0902388,0.0782624,0.0677888,0.0586647,0.0507362,0.0438526,0.0378989,0.0327493,0.028316,0.0244902,0.0212028,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01325,1.01439,1.01562,1.01695,1.01837,1.0199,1.02155,1.02333,1.02524,1.0273,1.02951,1.0319,1.03447,1.03723,1.04021,1.04341,1.04685,1.05055,1.05453,1.0588,1.06339,1.06831,1.07359,1.07925,1.08531,1.09179,1.09873,1.10614,1.11405,1.12249,1.13147,1.14104,1.1512,1.16198,1.17341,1.18551,1.19829,1.21177,1.22596,1.24088,1.25653,1.27291,1.29002,1.30785,1.3264,1.34563,1.36553,1.38606,1.40718,1.42886,1.45102,1.47363,1.49659,1.51985,1.54332,1.56691,1.59053,1.61408,1.63746,1.66056,1.68327,1.70549,1.7271,1.74801,1.7681,1.78728,1.80547,1.82257,1.83852,1.85326,1.86674,1.87892,1.88978,1.89931,1.90753,1.91445,1.9201,1.92454,1.92783,1.93002,1.93119,1.93143,1.93081,1.92943,1.92736,1.92468,1.92148,1.91782,1.91376,1.90936,1.90467,1.89971,1.89451,1.88908,1.88344,1.87756,1.87144,1.86505,1.85836,1.85132,1.84388,1.83598,1.82755,1.81853,1.80883,1.79836,1.78703,1.77474,1.76138,1.74684,1.73099,1.71371,1.69487,1.67434,1.65196,1.62761,1.60113,1.57239,1.54124,1.50756,1.47124,1.43216,1.39026,1.34548,1.29781,1.2473,1.19403,1.13815,1.07991,1.01962,0.957669,0.894565,0.830879,0.767259,0.704408,0.643046,0.583869,0.527508,0.474475,0.425127,0.379646,0.338036,0.300157,0.265784,0.234662,0.206554,0.18127,0.15865,0.138534,0.120735,0.105041,0.0912389,0.0791325,0.0685448,0.0593209,0.0513048,0.0443453,0.0383252,0.0331185,0.0286352,0.0247669,0.0214425,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.0131,1.01424,1.01546,1.01677,1.01818,1.0197,1.02134,1.0231,1.025,1.02704,1.02924,1.0316,1.03415,1.0369,1.03985,1.04303,1.04645,1.05013,1.05408,1.05833,1.06289,1.06779,1.07304,1.07867,1.08471,1.09118,1.09809,1.10549,1.11339,1.12182,1.1308,1.14037,1.15054,1.16135,1.17281,1.18495,1.19778,1.21133,1.22562,1.24064,1.25642,1.27295,1.29024,1.30827,1.32705,1.34654,1.36674,1.3876,1.40909,1.43117,1.45378,1.47686,1.50036,1.52418,1.54826,1.5725,1.5968,1.62108,1.64522,1.66912,1.69267,1.71574,1.73825,1.76006,1.78109,1.80122,1.82036,1.83842,1.85533,1.87103,1.88545,1.89856,1.91033,1.92075,1.92983,1.93758,1.94402,1.94922,1.95321,1.95607,1.95787,1.95869,1.95861,1.95771,1.95608,1.9538,1.95095,1.94759,1.9438,1.93962,1.9351,1.93027,1.92517,1.9198,1.91417,1.90827,1.9021,1.89561,1.88878,1.88157,1.87392,1.86578,1.85707,1.84772,1.83766,1.82679,1.81502,1.80224,1.78834,1.77322,1.75675,1.73881,1.71925,1.69794,1.67475,1.64953,1.62214,1.59244,1.56028,1.52556,1.48814,1.44793,1.40487,1.3589,1.31004,1.25831,1.20383,1.14677,1.08737,1.02597,0.962971,0.898896,0.834332,0.769942,0.706435,0.644535,0.584937,0.52826,0.475002,0.425499,0.37991,0.338221,0.300276,0.265843,0.234666,0.206514,0.181199,0.158563,0.138441,0.120642,0.10495,0.0911521,0.0790513,0.0684707,0.0592547,0.0512469,0.0442943,0.0382809,0.0330835,0.0286036,0.0247425,0.0214233,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01296,1.01408,1.01529,1.01659,1.01799,1.0195,1.02112,1.02286,1.02474,1.02677,1.02895,1.0313,1.03383,1.03655,1.03948,1.04263,1.04603,1.04968,1.05361,1.05783,1.06236,1.06723,1.07246,1.07806,1.08408,1.09052,1.09741,1.10479,1.11267,1.12108,1.13006,1.13962,1.1498,1.16062,1.1721,1.18428,1.19716,1.21077,1.22513,1.24025,1.25615,1.27282,1.29027,1.3085,1.3275,1.34724,1.36772,1.3889,1.41075,1.43323,1.45627,1.47983,1.50384,1.52823,1.55291,1.57779,1.60279,1.6278,1.6527,1.67741,1.70179,1.72574,1.74915,1.77189,1.79386,1.81495,1.83507,1.85412,1.87202,1.88869,1.90409,1.91816,1.93087,1.94221,1.95218,1.96079,1.96806,1.97404,1.97878,1.98235,1.98481,1.98624,1.98672,1.98634,1.98519,1.98333,1.98086,1.97783,1.97432,1.97039,1.96607,1.96141,1.95643,1.95114,1.94556,1.93967,1.93347,1.92692,1.91999,1.91264,1.90482,1.89647,1.88753,1.87791,1.86753,1.85631,1.84416,1.83096,1.81661,1.80099,1.78399,1.76546,1.74529,1.72333,1.69945,1.6735,1.64533,1.61481,1.58181,1.5462,1.50786,1.46671,1.42267,1.3757,1.32582,1.27306,1.21755,1.15946,1.09904,1.03663,0.972673,0.907674,0.842238,0.777037,0.712785,0.65021,0.590008,0.532795,0.479062,0.429137,0.383169,0.341133,0.30287,0.268142,0.236694,0.208296,0.182762,0.159931,0.139638,0.121688,0.105861,0.0919444,0.0797392,0.0690676,0.0597723,0.0516952,0.0446824,0.0386169,0.0333745,0.0288557,0.024961,0.0216129,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01281,1.01392,1.01512,1.01641,1.01779,1.01928,1.02089,1.02262,1.02448,1.02649,1.02865,1.03098,1.03348,1.03618,1.03909,1.04222,1.04559,1.04921,1.05311,1.0573,1.06181,1.06664,1.07184,1.07742,1.0834,1.08981,1.09668,1.10403,1.11188,1.12028,1.12924,1.1388,1.14897,1.1598,1.1713,1.18349,1.19641,1.21008,1.22451,1.23972,1.25572,1.27251,1.29012,1.30853,1.32773,1.34772,1.36847,1.38995,1.41215,1.435,1.45847,1.4825,1.50702,1.53195,1.55723,1.58275,1.60843,1.63416,1.65983,1.68534,1.71056,1.73539,1.7597,1.78337,1.8063,1.82836,1.84947,1.86951,1.88841,1.90608,1.92247,1.93752,1.95119,1.96347,1.97435,1.98384,1.99196,1.99875,2.00425,2.00854,2.01167,2.01373,2.0148,2.01495,2.01427,2.01285,2.01076,2.00807,2.00485,2.00116,1.99703,1.99252,1.98765,1.98243,1.97687,1.97097,1.9647,1.95806,1.95099,1.94347,1.93543,1.92682,1.91758,1.90762,1.89686,1.88522,1.8726,1.85889,1.84398,1.82776,1.81011,1.79089,1.76998,1.74723,1.7225,1.69566,1.66655,1.63505,1.60102,1.56433,1.52488,1.48258,1.43736,1.3892,1.3381,1.28412,1.2274,1.16811,1.10653,1.04301,0.978003,0.912039,0.845732,0.779768,0.71487,0.651765,0.591149,0.533625,0.479669,0.429587,0.383505,0.341382,0.303044,0.268248,0.236739,0.208292,0.182723,0.159873,0.139571,0.121617,0.105791,0.0918742,0.0796725,0.0690061,0.059717,0.0516453,0.0446396,0.0385807,0.0333443,0.0288309,0.024942,0.0215979,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01265,1.01375,1.01494,1.01622,1.01759,1.01907,1.02066,1.02237,1.02421,1.0262,1.02834,1.03065,1.03313,1.03581,1.03869,1.04179,1.04513,1.04872,1.05259,1.05675,1.06122,1.06603,1.07119,1.07673,1.08268,1.08906,1.09589,1.10321,1.11104,1.11941,1.12835,1.13789,1.14806,1.15888,1.17038,1.1826,1.19554,1.20925,1.22374,1.23902,1.25511,1.27203,1.28977,1.30835,1.32775,1.34796,1.36897,1.39075,1.41328,1.4365,1.46039,1.48487,1.50988,1.53536,1.56123,1.58738,1.61374,1.64019,1.66663,1.69294,1.71901,1.74471,1.76994,1.79455,1.81845,1.8415,1.86361,1.88467,1.90459,1.92329,1.94069,1.95675,1.97141,1.98466,1.99649,2.00689,2.01588,2.02351,2.02982,2.03486,2.0387,2.04142,2.04309,2.0438,2.04364,2.04268,2.041,2.03867,2.03577,2.03234,2.02844,2.0241,2.01936,2.01423,2.00872,2.00282,1.99653,1.98981,1.98263,1.97496,1.96673,1.9579,1.94839,1.93813,1.92703,1.91501,1.90197,1.8878,1.87239,1.85564,1.8374,1.81756,1.79598,1.77252,1.74705,1.71941,1.68948,1.6571,1.62216,1.58453,1.5441,1.50078,1.45452,1.40529,1.35311,1.29805,1.24023,1.17987,1.11722,1.05268,0.986678,0.919776,0.852597,0.785833,0.720214,0.656472,0.5953,0.537295,0.482924,0.432481,0.386082,0.343671,0.305069,0.270029,0.238297,0.209649,0.183905,0.160902,0.140467,0.122397,0.106467,0.09246,0.0801797,0.0694451,0.060097,0.0519733,0.0449241,0.0388273,0.0335579,0.0290164,0.0251031,0.0217381,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01249,1.01358,1.01476,1.01602,1.01738,1.01884,1.02041,1.02211,1.02394,1.0259,1.02802,1.0303,1.03276,1.03541,1.03827,1.04134,1.04465,1.04821,1.05205,1.05617,1.06061,1.06538,1.0705,1.07601,1.08192,1.08826,1.09506,1.10234,1.11014,1.11848,1.12739,1.1369,1.14705,1.15786,1.16936,1.18158,1.19455,1.20829,1.22282,1.23816,1.25434,1.27136,1.28923,1.30795,1.32753,1.34796,1.36921,1.39127,1.41412,1.4377,1.46198,1.4869,1.51241,1.53842,1.56485,1.59163,1.61866,1.64582,1.67302,1.70013,1.72704,1.75363,1.77976,1.80533,1.8302,1.85425,1.87737,1.89946,1.92041,1.94015,1.95858,1.97566,1.99133,2.00557,2.01835,2.02969,2.03958,2.04807,2.05519,2.061,2.06557,2.06896,2.07126,2.07254,2.0729,2.0724,2.07114,2.06918,2.06659,2.06342,2.05974,2.05557,2.05094,2.04588,2.0404,2.03448,2.02812,2.0213,2.01397,2.0061,1.99764,1.98852,1.97869,1.96806,1.95655,1.94407,1.93052,1.9158,1.89979,1.88239,1.86346,1.84287,1.82049,1.79619,1.76982,1.74123,1.7103,1.67688,1.64085,1.60208,1.56048,1.51595,1.46845,1.41797,1.36452,1.30818,1.2491,1.1875,1.12366,1.05798,0.990926,0.923059,0.855023,0.787523,0.721296,0.657075,0.595546,0.537294,0.482764,0.432228,0.385776,0.343334,0.304708,0.269647,0.237899,0.209246,0.183509,0.160527,0.14012,0.122079,0.106177,0.0921979,0.0799451,0.0692372,0.0599153,0.0518139,0.0447855,0.0387087,0.0334558,0.0289307,0.0250325,0.0216762,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01233,1.01341,1.01457,1.01582,1.01716,1.01861,1.02017,1.02184,1.02365,1.02559,1.02769,1.02995,1.03238,1.03501,1.03783,1.04087,1.04415,1.04768,1.05148,1.05557,1.05997,1.0647,1.06978,1.07525,1.08111,1.08741,1.09417,1.10141,1.10917,1.11747,1.12635,1.13583,1.14595,1.15674,1.16823,1.18045,1.19342,1.20718,1.22175,1.23714,1.25339,1.2705,1.28848,1.30734,1.32709,1.34771,1.3692,1.39152,1.41467,1.4386,1.46326,1.48861,1.51459,1.54112,1.56813,1.59552,1.62321,1.65108,1.67903,1.70695,1.73471,1.76218,1.78924,1.81576,1.84161,1.86667,1.89083,1.91396,1.93597,1.95677,1.97626,1.99439,2.0111,2.02636,2.04014,2.05244,2.06326,2.07265,2.08062,2.08724,2.09256,2.09667,2.09963,2.10152,2.10243,2.10244,2.10162,2.10006,2.09781,2.09494,2.0915,2.08753,2.08305,2.0781,2.07267,2.06677,2.06038,2.05348,2.04604,2.03802,2.02937,2.02002,2.00991,1.99896,1.9871,1.97422,1.96024,1.94504,1.92852,1.91056,1.89103,1.8698,1.84674,1.82171,1.79458,1.76519,1.73341,1.6991,1.66214,1.62241,1.57981,1.53426,1.48571,1.43415,1.37961,1.32218,1.26201,1.19932,1.13442,1.0677,0.99965,0.930847,0.861941,0.793644,0.7267,0.661844,0.599761,0.541028,0.486083,0.435182,0.388406,0.345669,0.306773,0.271461,0.239486,0.210628,0.184712,0.161574,0.141032,0.122872,0.106865,0.0927945,0.080461,0.0696835,0.0603018,0.0521481,0.0450746,0.0389592,0.0336726,0.0291191,0.0251961,0.0218189,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01216,1.01323,1.01438,1.01561,1.01694,1.01837,1.01991,1.02157,1.02335,1.02528,1.02735,1.02958,1.03199,1.03458,1.03738,1.04039,1.04363,1.04713,1.05089,1.05494,1.05929,1.06398,1.06902,1.07444,1.08026,1.08652,1.09322,1.10042,1.10813,1.11639,1.12523,1.13467,1.14476,1.15552,1.16699,1.17919,1.19216,1.20593,1.22052,1.23595,1.25225,1.26944,1.28752,1.30651,1.3264,1.34721,1.3689,1.39148,1.41492,1.43917,1.46421,1.48997,1.51641,1.54344,1.57101,1.599,1.62734,1.65592,1.68462,1.71334,1.74193,1.77029,1.79827,1.82575,1.8526,1.87869,1.90388,1.92808,1.95116,1.97303,1.99361,2.01281,2.03058,2.04689,2.06169,2.07498,2.08676,2.09707,2.10592,2.11337,2.11949,2.12433,2.12797,2.1305,2.13198,2.13251,2.13217,2.13102,2.12913,2.12658,2.12339,2.11963,2.11531,2.11047,2.10511,2.09923,2.09281,2.08585,2.0783,2.07012,2.06127,2.05168,2.0413,2.03004,2.01781,2.00454,1.99012,1.97444,1.9574,1.93887,1.91874,1.89686,1.87311,1.84736,1.81945,1.78925,1.75661,1.72142,1.68353,1.64283,1.59923,1.55265,1.50304,1.4504,1.39477,1.33624,1.27497,1.21119,1.14522,1.07746,1.00842,0.938682,0.868903,0.799808,0.732147,0.666656,0.604017,0.544802,0.489438,0.438171,0.391066,0.348032,0.30886,0.273295,0.241089,0.212025,0.185929,0.162633,0.141954,0.123674,0.107561,0.0933966,0.0809821,0.0701344,0.060692,0.0524855,0.0453664,0.0392121,0.0338915,0.0293092,0.0253612,0.021963,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01199,1.01304,1.01418,1.0154,1.01671,1.01812,1.01965,1.02128,1.02305,1.02495,1.027,1.0292,1.03158,1.03415,1.03691,1.03989,1.0431,1.04655,1.05027,1.05428,1.05859,1.06324,1.06823,1.0736,1.07937,1.08557,1.09223,1.09937,1.10703,1.11524,1.12403,1.13343,1.14347,1.1542,1.16563,1.17781,1.19077,1.20453,1.21913,1.23459,1.25093,1.26817,1.28634,1.30544,1.32547,1.34643,1.36833,1.39114,1.41484,1.43941,1.46479,1.49095,1.51783,1.54536,1.57346,1.60205,1.63103,1.6603,1.68974,1.71925,1.74868,1.77792,1.80682,1.83526,1.86311,1.89021,1.91646,1.94173,1.9659,1.98886,2.01053,2.03082,2.04968,2.06704,2.08288,2.09719,2.10996,2.1212,2.13096,2.13927,2.14619,2.15179,2.15614,2.15931,2.16139,2.16246,2.1626,2.16187,2.16036,2.15812,2.1552,2.15164,2.14748,2.14275,2.13744,2.13157,2.12512,2.11807,2.11038,2.10203,2.09296,2.08311,2.07242,2.0608,2.04818,2.03447,2.01956,2.00335,1.98574,1.96659,1.94579,1.92321,1.8987,1.87214,1.84339,1.81229,1.77872,1.74254,1.70363,1.66188,1.61718,1.56947,1.51871,1.4649,1.40808,1.34836,1.2859,1.22096,1.15386,1.08502,1.01496,0.944273,0.873638,0.803786,0.73547,0.66943,0.606341,0.546765,0.491112,0.43961,0.392309,0.349102,0.309773,0.274064,0.241728,0.212554,0.186368,0.163001,0.142264,0.123936,0.107781,0.0935816,0.0811386,0.0702672,0.0608063,0.0525829,0.0454522,0.0392856,0.0339549,0.0293631,0.0254115,0.0220079,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01181,1.01286,1.01398,1.01518,1.01648,1.01787,1.01937,1.02099,1.02273,1.02461,1.02663,1.02881,1.03116,1.0337,1.03643,1.03937,1.04254,1.04595,1.04963,1.0536,1.05786,1.06246,1.0674,1.07272,1.07843,1.08458,1.09118,1.09826,1.10587,1.11402,1.12275,1.13209,1.14209,1.15277,1.16416,1.17631,1.18924,1.20298,1.21758,1.23305,1.24941,1.2667,1.28494,1.30412,1.32427,1.34539,1.36746,1.39049,1.41444,1.4393,1.46502,1.49156,1.51887,1.54687,1.5755,1.60467,1.63428,1.66423,1.69441,1.7247,1.75496,1.78508,1.81491,1.84432,1.87317,1.90131,1.92863,1.95498,1.98025,2.00433,2.02712,2.04853,2.06849,2.08695,2.10387,2.11923,2.13301,2.14524,2.15594,2.16514,2.17291,2.17931,2.1844,2.18826,2.19097,2.19262,2.19327,2.19301,2.1919,2.19001,2.18739,2.18408,2.18012,2.17553,2.17032,2.16449,2.15805,2.15095,2.14319,2.13471,2.12547,2.11541,2.10446,2.09256,2.07961,2.06553,2.05022,2.03357,2.01547,1.99581,1.97445,1.95127,1.92614,1.89891,1.86945,1.83761,1.80326,1.76627,1.72651,1.68388,1.63827,1.58962,1.53789,1.48309,1.42527,1.36453,1.30105,1.23508,1.16697,1.09714,1.0261,0.954485,0.882959,0.812267,0.743168,0.676404,0.61265,0.552466,0.496258,0.444247,0.396476,0.352834,0.313102,0.277021,0.244344,0.214861,0.188398,0.164783,0.143826,0.125301,0.108972,0.0946183,0.0820395,0.0710493,0.0614842,0.05317,0.0459582,0.0397248,0.0343351,0.0296914,0.0256956,0.0222541,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01163,1.01266,1.01377,1.01496,1.01624,1.01761,1.0191,1.02069,1.02241,1.02426,1.02626,1.02841,1.03073,1.03323,1.03592,1.03883,1.04196,1.04533,1.04897,1.05288,1.0571,1.06164,1.06653,1.07179,1.07745,1.08354,1.09007,1.0971,1.10464,1.11272,1.12139,1.13067,1.14061,1.15123,1.16257,1.17467,1.18756,1.20128,1.21586,1.23132,1.2477,1.26502,1.2833,1.30256,1.32281,1.34405,1.36629,1.38951,1.41369,1.43882,1.46486,1.49176,1.51948,1.54794,1.57707,1.6068,1.63703,1.66764,1.69854,1.7296,1.76069,1.79169,1.82244,1.85281,1.88266,1.91184,1.94022,1.96767,1.99405,2.01926,2.04318,2.06572,2.08681,2.10639,2.1244,2.14083,2.15565,2.16888,2.18054,2.19067,2.1993,2.20651,2.21237,2.21694,2.2203,2.22254,2.22372,2.22394,2.22325,2.22171,2.2194,2.21633,2.21257,2.20812,2.203,2.19721,2.19076,2.18361,2.17574,2.16711,2.15768,2.14738,2.13616,2.12393,2.11062,2.09614,2.08038,2.06324,2.04461,2.02438,2.00241,1.97858,1.95275,1.92478,1.89454,1.86189,1.82668,1.78879,1.7481,1.70449,1.65787,1.60819,1.5554,1.49952,1.4406,1.37875,1.31416,1.2471,1.17791,1.10704,1.03501,0.962452,0.890052,0.81856,0.748742,0.68134,0.617027,0.556356,0.499722,0.447334,0.399225,0.355273,0.315256,0.278912,0.245996,0.2163,0.189651,0.165875,0.144776,0.126126,0.109688,0.0952379,0.0825757,0.0715131,0.0618855,0.0535168,0.0462601,0.0399846,0.0345595,0.0298864,0.0258649,0.0224011,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01145,1.01246,1.01356,1.01473,1.01599,1.01735,1.01881,1.02038,1.02208,1.02391,1.02588,1.028,1.03028,1.03275,1.03541,1.03827,1.04136,1.04469,1.04828,1.05215,1.05631,1.0608,1.06563,1.07083,1.07643,1.08245,1.08892,1.09587,1.10334,1.11136,1.11995,1.12917,1.13903,1.14959,1.16087,1.17291,1.18575,1.19943,1.21397,1.22941,1.24579,1.26312,1.28144,1.30075,1.32108,1.34243,1.3648,1.38819,1.41259,1.43796,1.46429,1.49153,1.51963,1.54853,1.57815,1.60842,1.63924,1.67051,1.70211,1.73393,1.76583,1.79768,1.82934,1.86067,1.89151,1.92173,1.95118,1.97972,2.00723,2.03356,2.05863,2.08231,2.10454,2.12525,2.14437,2.16188,2.17776,2.19202,2.20466,2.21572,2.22524,2.23329,2.23992,2.24521,2.24923,2.25207,2.2538,2.25449,2.25422,2.25305,2.25103,2.24822,2.24463,2.24031,2.23527,2.22951,2.22302,2.21579,2.20779,2.19898,2.18932,2.17875,2.1672,2.1546,2.14087,2.12592,2.10965,2.09196,2.07273,2.05184,2.02917,2.00459,1.97797,1.94917,1.91804,1.88445,1.84826,1.80934,1.76758,1.72286,1.6751,1.62424,1.57025,1.51314,1.45298,1.3899,1.32409,1.25583,1.18549,1.11351,1.04045,0.966953,0.893713,0.821493,0.751063,0.683162,0.618458,0.557488,0.500628,0.448069,0.399821,0.35575,0.315624,0.279184,0.246184,0.216424,0.189728,0.16592,0.1448,0.126135,0.109684,0.0952273,0.0825593,0.0714967,0.0618687,0.053501,0.0462461,0.0399709,0.0345505,0.0298789,0.0258604,0.0223989,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01126,1.01226,1.01334,1.0145,1.01574,1.01708,1.01852,1.02007,1.02174,1.02354,1.02548,1.02757,1.02982,1.03226,1.03488,1.0377,1.04075,1.04403,1.04757,1.05138,1.05549,1.05992,1.06469,1.06983,1.07535,1.0813,1.0877,1.09458,1.10197,1.10991,1.11843,1.12756,1.13735,1.14783,1.15903,1.17101,1.18379,1.19741,1.2119,1.22731,1.24367,1.26099,1.27932,1.29867,1.31906,1.34049,1.36299,1.38653,1.41111,1.43672,1.46332,1.49088,1.51934,1.54865,1.57875,1.60954,1.64094,1.67284,1.70514,1.7377,1.77041,1.80312,1.83569,1.86798,1.89983,1.93109,1.96162,1.99128,2.01991,2.04741,2.07364,2.0985,2.1219,2.14376,2.16404,2.18267,2.19965,2.21497,2.22864,2.24068,2.25114,2.26006,2.26752,2.27358,2.27832,2.28181,2.28413,2.28536,2.28556,2.2848,2.28314,2.28062,2.27728,2.27315,2.26824,2.26257,2.25612,2.24888,2.24083,2.23192,2.22211,2.21136,2.19959,2.18672,2.17269,2.1574,2.14075,2.12264,2.10296,2.08159,2.0584,2.03327,2.00605,1.97662,1.94483,1.91054,1.87363,1.83395,1.79139,1.74584,1.69722,1.64547,1.59056,1.53251,1.47139,1.40733,1.34054,1.27128,1.19994,1.12698,1.05296,0.978517,0.904367,0.831275,0.760017,0.691337,0.625903,0.564252,0.506758,0.453608,0.404811,0.360228,0.319628,0.282749,0.249347,0.219221,0.192194,0.168089,0.146704,0.127801,0.11114,0.0964953,0.0836621,0.0724542,0.0626991,0.0542201,0.0468684,0.0405109,0.0350156,0.0302806,0.0262074,0.0226986,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
,{1.01107,1.01206,1.01312,1.01426,1.01548,1.0168,1.01822,1.01975,1.02139,1.02316,1.02508,1.02713,1.02935,1.03175,1.03433,1.03711,1.04011,1.04335,1.04684,1.05059,1.05465,1.05901,1.06372,1.06879,1.07424,1.08012,1.08644,1.09324,1.10054,1.1084,1.11683,1.12587,1.13557,1.14597,1.15709,1.16898,1.18168,1.19523,1.20967,1.22502,1.24134,1.25864,1.27696,1.29633,1.31675,1.33825,1.36084,1.38451,1.40925,1.43506,1.4619,1.48975,1.51855,1.54825,1.57879,1.61007,1.64202,1.67454,1.7075,1.74079,1.77428,1.80783,1.84129,1.87451,1.90735,1.93965,1.97125,2.002,2.03177,2.06041,2.0878,2.11384,2.13841,2.16144,2.18286,2.20263,2.22071,2.2371,2.25179,2.26482,2.27621,2.28602,2.29431,2.30113,2.30658,2.31071,2.31362,2.31536,2.31602,2.31565,2.31432,2.31207,2.30894,2.30496,2.30014,2.2945,2.28803,2.28071,2.27253,2.26344,2.2534,2.24236,2.23026,2.21701,2.20255,2.18678,2.16961,2.15092,2.13062,2.10857,2.08466,2.05876,2.03072,2.00042,1.96771,1.93246,1.89452,1.85378,1.81011,1.76342,1.71361,1.66063,1.60448,1.54516,1.48276,1.41743,1.34937,1.27889,1.20637,1.1323,1.05724,0.981864,0.906896,0.833108,0.761282,0.692157,0.626393,0.564508,0.506855,0.453599,0.404725,0.360081,0.319427,0.282502,0.249066,0.218922,0.191893,0.167799,0.146431,0.127548,0.110905,0.0962809,0.0834684,0.0722825,0.0625476,0.054087,0.0467527,0.0404087,0.0349324,0.0302085,0.0261486,0.0226479,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0}
};
static const int niso[111]={0,2,2,2,1,2,2,2,3,1,3,1,3,1,3,1,4,2,3,3,6,1,5,2,4,1,4,1,5,2,5,2,5,1,6,2,6,2,4,1,5,1,7,1,7,1,6,2,8,2,10,2,8,1,9,1,7,2,4,1,7,1,7,2,7,1,7,1,6,1,7,2,6,2,5,2,7,2,6,1,7,2,4,1,1,1,1,1,1,1,1,1,3,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,0};
struct Iso{int a;float f;};
static const Iso iso[111][10]={{{0,0}}
,{{1,0.999885023f},{2,0.000115000003f}}
,{{4,0.999998629f},{3,1.36999995e-06f}}
,{{7,0.924099982f},{6,0.0759000033f}}
,{{9,1.0f}}
,{{11,0.800999999f},{10,0.199000001f}}
,{{12,0.989300013f},{13,0.0107000005f}}
,{{14,0.996320009f},{15,0.00368000008f}}
,{{16,0.997569978f},{18,0.00205000001f},{17,0.000380000012f}}
,{{19,1.0f}}
,{{20,0.904799998f},{22,0.0925000012f},{21,0.00270000007f}}
,{{23,1.0f}}
,{{24,0.789900005f},{26,0.110100001f},{25,0.100000001f}}
,{{27,1.0f}}
,{{28,0.922297001f},{29,0.046831999f},{30,0.0308710001f}}
,{{31,1.0f}}
,{{32,0.949299991f},{34,0.0428999998f},{33,0.00760000013f},{36,0.000199999995f}}
,{{35,0.757799983f},{37,0.242200002f}}
,{{40,0.996002972f},{36,0.00336500001f},{38,0.000631999981f}}
,{{39,0.932581007f},{41,0.0673020035f},{40,0.000117000003f}}
,{{40,0.969410002f},{44,0.0208599996f},{42,0.00646999991f},{48,0.00187000004f},{43,0.00135000004f},{46,3.9999999e-05f}}
,{{45,1.0f}}
,{{48,0.737200022f},{46,0.0825000033f},{47,0.0744000003f},{49,0.0540999994f},{50,0.0518000014f}}
,{{51,0.997500002f},{50,0.00249999994f}}
,{{52,0.837890029f},{53,0.0950099975f},{50,0.0434500016f},{54,0.0236499999f}}
,{{55,1.0f}}
,{{56,0.917540014f},{54,0.0584499985f},{57,0.0211900007f},{58,0.00282000005f}}
,{{59,1.0f}}
,{{58,0.680769026f},{60,0.262230992f},{62,0.0363450013f},{61,0.011399f},{64,0.0092559997f}}
,{{63,0.691699982f},{65,0.308299989f}}
,{{64,0.486299992f},{66,0.279000014f},{68,0.1875f},{67,0.0410000011f},{70,0.00620000018f}}
,{{69,0.60108f},{71,0.39892f}}
,{{74,0.362800002f},{72,0.275400013f},{70,0.208399996f},{73,0.0772999972f},{76,0.0760999992f}}
,{{75,1.0f}}
,{{80,0.496100008f},{78,0.2377f},{76,0.0936999992f},{82,0.0873000026f},{77,0.0763000026f},{74,0.00889999978f}}
,{{79,0.506900012f},{81,0.493099988f}}
,{{84,0.569999993f},{86,0.172999993f},{82,0.115800001f},{83,0.1149f},{80,0.0228000004f},{78,0.00350000011f}}
,{{85,0.721700013f},{87,0.278299987f}}
,{{88,0.825800002f},{86,0.0986000001f},{87,0.0700000003f},{84,0.0055999998f}}
,{{89,1.0f}}
,{{90,0.514500022f},{94,0.173800007f},{92,0.171499997f},{91,0.112199999f},{96,0.0280000009f}}
,{{93,1.0f}}
,{{98,0.241300002f},{96,0.166800007f},{95,0.159199998f},{92,0.148399994f},{100,0.0962999985f},{97,0.0954999998f},{94,0.0925000012f}}
,{{98,1.0f}}
,{{102,0.315499991f},{104,0.186199993f},{101,0.170599997f},{99,0.127599999f},{100,0.126000002f},{96,0.055399999f},{98,0.0186999999f}}
,{{103,1.0f}}
,{{106,0.273299992f},{108,0.264600009f},{105,0.223299995f},{110,0.117200002f},{104,0.111400001f},{102,0.0102000004f}}
,{{107,0.51839f},{109,0.48161f}}
,{{114,0.287299991f},{112,0.241300002f},{111,0.128000006f},{110,0.124899998f},{113,0.122199997f},{116,0.0749000013f},{106,0.0125000002f},{108,0.00889999978f}}
,{{115,0.957099974f},{113,0.0428999998f}}
,{{120,0.325800002f},{118,0.242200002f},{116,0.145400003f},{119,0.0859000012f},{117,0.0768000036f},{124,0.0579000004f},{122,0.0463000014f},{112,0.00970000029f},{114,0.00659999996f},{115,0.00340000005f}}
,{{121,0.572099984f},{123,0.427899987f}}
,{{130,0.340799987f},{128,0.317400008f},{126,0.1884f},{125,0.0706999972f},{124,0.0474000014f},{122,0.0254999995f},{123,0.00889999978f},{120,0.000899999985f}}
,{{127,1.0f}}
,{{132,0.268900007f},{129,0.264400005f},{131,0.211799994f},{134,0.104400001f},{136,0.0886999965f},{130,0.0408000015f},{128,0.0192000009f},{124,0.000899999985f},{126,0.000899999985f}}
,{{133,1.0f}}
,{{138,0.71697998f},{137,0.112319998f},{136,0.0785399973f},{135,0.0659200028f},{134,0.0241700001f},{130,0.00106000004f},{132,0.00101000001f}}
,{{139,0.999100029f},{138,0.000899999985f}}
,{{140,0.884500027f},{142,0.111139998f},{138,0.00251000002f},{136,0.00185f}}
,{{141,1.0f}}
,{{142,0.272000015f},{144,0.238000005f},{146,0.172000006f},{143,0.122000001f},{145,0.0829999968f},{148,0.057f},{150,0.0560000017f}}
,{{145,1.0f}}
,{{152,0.267500013f},{154,0.227500007f},{147,0.149900004f},{149,0.1382f},{148,0.112400003f},{150,0.0737999976f},{144,0.0307f}}
,{{153,0.521899998f},{151,0.478100002f}}
,{{158,0.248400003f},{160,0.218600005f},{156,0.204699993f},{157,0.156499997f},{155,0.148000002f},{154,0.0218000002f},{152,0.00200000009f}}
,{{159,1.0f}}
,{{164,0.281800002f},{162,0.255100012f},{163,0.248999998f},{161,0.189099997f},{160,0.0233999994f},{158,0.00100000005f},{156,0.000600000028f}}
,{{165,1.0f}}
,{{166,0.336100012f},{168,0.267800003f},{167,0.229300007f},{170,0.149299994f},{164,0.0161000006f},{162,0.00139999995f}}
,{{169,1.0f}}
,{{174,0.318300009f},{172,0.2183f},{173,0.161300004f},{171,0.142800003f},{176,0.127599999f},{170,0.0304000005f},{168,0.0013f}}
,{{175,0.974099994f},{176,0.0259000007f}}
,{{180,0.350800008f},{178,0.272799999f},{177,0.186000004f},{179,0.136199996f},{176,0.0526000001f},{174,0.00159999996f}}
,{{181,0.999880016f},{180,0.000119999997f}}
,{{184,0.306400001f},{186,0.284299999f},{182,0.264999986f},{183,0.143099993f},{180,0.00120000006f}}
,{{187,0.625999987f},{185,0.374000013f}}
,{{192,0.407799989f},{190,0.262600005f},{189,0.161500007f},{188,0.132400006f},{187,0.0196000002f},{186,0.0159000009f},{184,0.000199999995f}}
,{{193,0.626999974f},{191,0.372999996f}}
,{{195,0.338319987f},{194,0.329670012f},{196,0.252420008f},{198,0.0716300011f},{192,0.00781999994f},{190,0.000140000004f}}
,{{197,1.0f}}
,{{202,0.298599988f},{200,0.231000006f},{199,0.168699995f},{201,0.131799996f},{198,0.0996999964f},{204,0.0687000006f},{196,0.00150000001f}}
,{{205,0.704760015f},{203,0.295240015f}}
,{{208,0.523999989f},{206,0.240999997f},{207,0.221000001f},{204,0.0140000004f}}
,{{209,1.0f}}
,{{209,1.0f}}
,{{210,1.0f}}
,{{222,1.0f}}
,{{223,1.0f}}
,{{226,1.0f}}
,{{227,1.0f}}
,{{232,1.0f}}
,{{231,1.0f}}
,{{238,0.992744982f},{235,0.00719999988f},{234,5.50000004e-05f}}
,{{237,1.0f}}
,{{244,1.0f}}
,{{243,1.0f}}
,{{247,1.0f}}
,{{247,1.0f}}
,{{251,1.0f}}
,{{252,1.0f}}
,{{257,1.0f}}
,{{258,1.0f}}
,{{259,1.0f}}
,{{262,1.0f}}
,{{261,1.0f}}
,{{262,1.0f}}
,{{266,1.0f}}
,{{264,1.0f}}
,{{269,1.0f}}
,{{268,1.0f}}
,{{0,0}}
};
struct Comp{int id;double rho;int n;double e[16][3];};
static const Comp comp[]={{201,1.032,2,{{1.00794,1,10},{12.0107,6,9}}}
,{202,0.001205,4,{{14.0067,7,0.755267},{15.9994,8,0.231781},{39.948,18,0.012827},{12.0107,6,0.000124}}}
,{203,0.94,2,{{12.0107,6,1},{1.00794,1,2}}}
,{204,0.0708,1,{{1.00794,1,1}}}
,{205,0.162,1,{{2.0141,1,1}}}
,{206,1,2,{{1.00794,1,2},{15.9994,8,1}}}
,{207,3.52,1,{{12.0107,6,1}}}
,{208,2.4,6,{{28.0855,14,0.37722},{15.9994,8,0.539562},{10.811,5,0.040064},{22.9898,11,0.028191},{26.9815,13,0.011644},{39.0983,19,0.003321}}}
,{209,2.67,2,{{26.9815,13,0.97},{24.305,12,0.03}}}
,{210,0.00171,3,{{39.948,18,0.679},{15.9994,8,0.2321},{12.0107,6,0.0889}}}
,{211,0.00372,2,{{12.0107,6,1},{18.9984,9,4}}}
,{212,0.00251,2,{{12.0107,6,4},{1.00794,1,10}}}
,{213,1.42,4,{{1.00794,1,0.026362},{12.0107,6,0.691133},{14.0067,7,0.07327},{15.9994,8,0.209235}}}
,{214,1.38,3,{{12.0107,6,10},{1.00794,1,8},{15.9994,8,4}}}
,{215,2.56,2,{{22.9898,11,1},{18.9984,9,1}}}
,{216,0.00166,3,{{39.948,18,9},{12.0107,6,1},{1.00794,1,4}}}
,{217,0.9,2,{{12.0107,6,8},{1.00794,1,16}}}
,{218,12,2,{{247.07,96,1},{15.9994,8,2}}}
,{219,2.2,2,{{28.0855,14,1},{15.9994,8,2}}}
,{220,8.3,6,{{58.9332,27,0.403228},{51.9961,24,0.169412},{58.6934,28,0.124301},{183.84,74,0.089847},{95.94,42,0.031259},{55.845,26,0.181952}}}
,{221,8,3,{{55.845,26,0.74621},{51.9961,24,0.169},{58.6934,28,0.08479}}}
,{222,0.001842,2,{{12.0107,6,1},{15.9994,8,2}}}
,{223,0.0006,2,{{1.00794,1,4},{12.0107,6,1}}}
,{224,0.792,3,{{1.00794,1,4},{12.0107,6,1},{15.9994,8,1}}}
,{225,0.7899,3,{{1.00794,1,6},{12.0107,6,3},{15.9994,8,1}}}
,{226,0.0010967,2,{{1.00794,1,2},{12.0107,6,2}}}
,{227,1.35,3,{{1.00794,1,5},{12.0107,6,5},{14.0067,7,5}}}
,{228,0.92,13,{{1.00794,1,0.119477},{12.0107,6,0.63724},{14.0067,7,0.00797},{15.9994,8,0.232333},{22.9898,11,0.0005},{24.305,12,2e-05},{30.9738,15,0.00016},{32.065,16,0.00073},{35.453,17,0.00119},{39.0983,19,0.00032},{40.078,20,2e-05},{55.845,26,2e-05},{65.409,30,2e-05}}}
,{229,1.42,4,{{1.00794,1,7},{12.0107,6,3},{14.0067,7,1},{15.9994,8,2}}}
,{230,1.25,3,{{1.00794,1,0.057441},{12.0107,6,0.774591},{15.9994,8,0.167968}}}
,{231,6.473,2,{{107.868,47,1},{79.904,35,1}}}
,{232,5.56,2,{{107.868,47,1},{35.453,17,1}}}
,{233,5.675,2,{{107.868,47,1},{126.904,53,1}}}
,{234,3.97,2,{{15.9994,8,3},{26.9815,13,2}}}
,{235,1.1,3,{{1.00794,1,0.10593},{12.0107,6,0.788974},{15.9994,8,0.105096}}}
,{236,0.000826,2,{{1.00794,1,3},{14.0067,7,1}}}
,{237,1.0235,3,{{1.00794,1,7},{12.0107,6,6},{14.0067,7,1}}}
,{238,1.283,2,{{1.00794,1,10},{12.0107,6,14}}}
,{239,1.127,6,{{1.00794,1,0.101327},{12.0107,6,0.7755},{14.0067,7,0.035057},{15.9994,8,0.0523159},{18.9984,9,0.017422},{40.078,20,0.018378}}}
,{240,1.45,6,{{1.00794,1,0.0654709},{12.0107,6,0.536944},{14.0067,7,0.0215},{15.9994,8,0.032085},{18.9984,9,0.167411},{40.078,20,0.176589}}}
,{241,4.89,2,{{18.9984,9,2},{137.327,56,1}}}
,{242,4.5,3,{{15.9994,8,4},{32.065,16,1},{137.327,56,1}}}
,{243,0.87865,2,{{1.00794,1,6},{12.0107,6,6}}}
,{244,3.01,2,{{9.01218,4,1},{15.9994,8,1}}}
,{245,7.13,3,{{15.9994,8,12},{72.64,32,3},{208.98,83,4}}}
,{246,1.06,14,{{1.00794,1,0.101866},{12.0107,6,0.10002},{14.0067,7,0.02964},{15.9994,8,0.759414},{22.9898,11,0.00185},{24.305,12,4e-05},{28.0855,14,3e-05},{30.9738,15,0.00035},{32.065,16,0.00185},{35.453,17,0.00278},{39.0983,19,0.00163},{40.078,20,6e-05},{55.845,26,0.00046},{65.409,30,1e-05}}}
,{247,1.85,8,{{1.00794,1,0.063984},{12.0107,6,0.278},{14.0067,7,0.027},{15.9994,8,0.410016},{24.305,12,0.002},{30.9738,15,0.07},{32.065,16,0.002},{40.078,20,0.147}}}
,{248,1.85,9,{{1.00794,1,0.047234},{12.0107,6,0.14433},{14.0067,7,0.04199},{15.9994,8,0.446096},{24.305,12,0.0022},{30.9738,15,0.10497},{32.065,16,0.00315},{40.078,20,0.20993},{65.409,30,0.0001}}}
,{249,1.03,13,{{1.00794,1,0.110667},{12.0107,6,0.12542},{14.0067,7,0.01328},{15.9994,8,0.737723},{22.9898,11,0.00184},{24.305,12,0.00015},{30.9738,15,0.00354},{32.065,16,0.00177},{35.453,17,0.00236},{39.0983,19,0.0031},{40.078,20,9e-05},{55.845,26,5e-05},{65.409,30,1e-05}}}
,{250,2.52,2,{{10.811,5,4},{12.0107,6,1}}}
,{251,1.032,2,{{1.00794,1,10},{12.0107,6,9}}}
,{252,0.81,3,{{1.00794,1,10},{12.0107,6,4},{15.9994,8,1}}}
,{253,1.76,5,{{1.00794,1,0.02468},{12.0107,6,0.50161},{15.9994,8,0.004527},{18.9984,9,0.465209},{28.0855,14,0.003973}}}
,{254,6.2,2,{{112.411,48,1},{127.6,52,1}}}
,{255,7.9,3,{{15.9994,8,4},{112.411,48,1},{183.84,74,1}}}
,{256,2.8,3,{{12.0107,6,1},{15.9994,8,3},{40.078,20,1}}}
,{257,3.18,2,{{18.9984,9,2},{40.078,20,1}}}
,{258,3.34,2,{{15.9994,8,1},{40.078,20,1}}}
,{259,6.062,3,{{15.9994,8,4},{40.078,20,1},{183.84,74,1}}}
,{260,4.115,2,{{18.9984,9,1},{132.905,55,1}}}
,{261,4.51,2,{{126.904,53,1},{132.905,55,1}}}
,{262,1.594,2,{{12.0107,6,1},{35.453,17,4}}}
,{263,1.622,2,{{12.0107,6,2},{35.453,17,4}}}
,{264,1.42,3,{{1.00794,1,0.062162},{12.0107,6,0.444462},{15.9994,8,0.493376}}}
,{265,1.1058,3,{{1.00794,1,5},{12.0107,6,6},{35.453,17,1}}}
,{266,1.4832,3,{{1.00794,1,1},{12.0107,6,1},{35.453,17,3}}}
,{267,0.779,2,{{1.00794,1,12},{12.0107,6,6}}}
,{268,2.3,10,{{1.00794,1,0.01},{12.0107,6,0.001},{15.9994,8,0.529107},{22.9898,11,0.016},{24.305,12,0.002},{26.9815,13,0.033872},{28.0855,14,0.337021},{39.0983,19,0.013},{40.078,20,0.044},{55.845,26,0.014}}}
,{269,0.71378,3,{{1.00794,1,10},{12.0107,6,4},{15.9994,8,1}}}
,{270,0.00125324,2,{{1.00794,1,6},{12.0107,6,2}}}
,{271,0.7893,3,{{1.00794,1,6},{12.0107,6,2},{15.9994,8,1}}}
,{272,0.00117497,2,{{1.00794,1,4},{12.0107,6,2}}}
,{273,1.1,4,{{1.00794,1,0.099269},{12.0107,6,0.19371},{14.0067,7,0.05327},{15.9994,8,0.653751}}}
,{274,5.242,2,{{15.9994,8,3},{55.845,26,2}}}
,{275,5.745,2,{{15.9994,8,1},{55.845,26,1}}}
,{276,1.486,3,{{12.0107,6,1},{18.9984,9,2},{35.453,17,2}}}
,{277,2.27,3,{{12.0107,6,1},{18.9984,9,2},{79.904,35,2}}}
,{278,1.526,3,{{12.0107,6,1},{18.9984,9,3},{35.453,17,1}}}
,{279,1.538,3,{{12.0107,6,1},{18.9984,9,3},{79.904,35,1}}}
,{280,1.538,3,{{12.0107,6,1},{18.9984,9,3},{126.904,53,1}}}
,{281,7.44,3,{{15.9994,8,2},{32.065,16,1},{157.25,64,2}}}
,{282,5.3176,2,{{69.723,31,1},{74.9216,33,1}}}
,{283,1.2914,5,{{1.00794,1,0.08118},{12.0107,6,0.41606},{14.0067,7,0.11124},{15.9994,8,0.38064},{32.065,16,0.01088}}}
,{284,2.23,6,{{10.811,5,0.0400639},{15.9994,8,0.539561},{22.9898,11,0.0281909},{26.9815,13,0.011644},{28.0855,14,0.377219},{39.0983,19,0.00332099}}}
,{285,6.22,5,{{15.9994,8,0.156453},{28.0855,14,0.080866},{47.867,22,0.008092},{74.9216,33,0.002651},{207.2,82,0.751938}}}
,{286,1.54,3,{{1.00794,1,12},{12.0107,6,6},{15.9994,8,6}}}
,{287,1.46,4,{{1.00794,1,10},{12.0107,6,5},{14.0067,7,2},{15.9994,8,3}}}
,{288,1.2613,3,{{1.00794,1,8},{12.0107,6,3},{15.9994,8,3}}}
,{289,1.58,4,{{1.00794,1,5},{12.0107,6,5},{14.0067,7,5},{15.9994,8,1}}}
,{290,2.32,4,{{1.00794,1,0.023416},{15.9994,8,0.557572},{32.065,16,0.186215},{40.078,20,0.232797}}}
,{291,0.68376,2,{{1.00794,1,16},{12.0107,6,7}}}
,{292,0.66603,2,{{1.00794,1,14},{12.0107,6,6}}}
,{293,3.13,2,{{39.0983,19,1},{126.904,53,1}}}
,{294,2.32,2,{{15.9994,8,1},{39.0983,19,2}}}
,{295,5.06,2,{{138.905,57,1},{79.904,35,3}}}
,{296,6.28,3,{{15.9994,8,1},{79.904,35,1},{138.905,57,1}}}
,{297,5.86,3,{{15.9994,8,2},{32.065,16,1},{138.905,57,2}}}
,{298,1.05,13,{{1.00794,1,0.101278},{12.0107,6,0.10231},{14.0067,7,0.02865},{15.9994,8,0.757072},{22.9898,11,0.00184},{24.305,12,0.00073},{30.9738,15,0.0008},{32.065,16,0.00225},{35.453,17,0.00266},{39.0983,19,0.00194},{40.078,20,9e-05},{55.845,26,0.00037},{65.409,30,1e-05}}}
,{299,2.958,3,{{24.305,12,1},{12.0107,6,1},{15.9994,8,3}}}
,{300,3.148,2,{{24.305,12,1},{18.9984,9,2}}}
,{301,3.6,2,{{24.305,12,1},{15.9994,8,1}}}
,{302,1,6,{{1.00794,1,0.081192},{12.0107,6,0.583442},{14.0067,7,0.017798},{15.9994,8,0.186381},{24.305,12,0.130287},{35.453,17,0.0009}}}
,{303,1.04,13,{{1.00794,1,0.100637},{12.0107,6,0.10783},{14.0067,7,0.02768},{15.9994,8,0.754773},{22.9898,11,0.00075},{24.305,12,0.00019},{30.9738,15,0.0018},{32.065,16,0.00241},{35.453,17,0.00079},{39.0983,19,0.00302},{40.078,20,3e-05},{55.845,26,4e-05},{65.409,30,5e-05}}}
,{304,1.04,9,{{1.00794,1,0.101997},{12.0107,6,0.123},{14.0067,7,0.035},{15.9994,8,0.729003},{22.9898,11,0.0008},{24.305,12,0.0002},{30.9738,15,0.002},{32.065,16,0.005},{39.0983,19,0.003}}}
,{305,1.11,4,{{1.00794,1,0.0982341},{12.0107,6,0.156214},{14.0067,7,0.035451},{15.9994,8,0.710101}}}
,{306,1.07,4,{{1.00794,1,0.101969},{12.0107,6,0.120058},{14.0067,7,0.035451},{15.9994,8,0.742522}}}
,{307,2.532,3,{{12.0107,6,1},{15.9994,8,3},{22.9898,11,2}}}
,{308,3.667,2,{{22.9898,11,1},{126.904,53,1}}}
,{309,2.165,2,{{22.9898,11,1},{35.453,17,1}}}
,{310,2.27,2,{{15.9994,8,1},{22.9898,11,2}}}
,{311,2.261,3,{{14.0067,7,1},{15.9994,8,3},{22.9898,11,1}}}
,{312,1.145,2,{{1.00794,1,8},{12.0107,6,10}}}
,{313,1.199,4,{{1.00794,1,5},{12.0107,6,6},{14.0067,7,1},{15.9994,8,2}}}
,{314,0.00183,2,{{14.0067,7,2},{15.9994,8,1}}}
,{315,0.703,2,{{1.00794,1,18},{12.0107,6,8}}}
,{316,0.93,2,{{1.00794,1,0.148605},{12.0107,6,0.851395}}}
,{317,0.626,2,{{1.00794,1,12},{12.0107,6,5}}}
,{318,3.815,8,{{1.00794,1,0.0141},{12.0107,6,0.072261},{14.0067,7,0.01932},{15.9994,8,0.066101},{32.065,16,0.00189},{79.904,35,0.349103},{107.868,47,0.474105},{126.904,53,0.00312}}}
,{319,11.46,2,{{15.9994,8,2},{244.064,94,1}}}
,{320,1.184,3,{{1.00794,1,3},{12.0107,6,3},{14.0067,7,1}}}
,{321,1.2,3,{{1.00794,1,0.055491},{12.0107,6,0.755751},{15.9994,8,0.188758}}}
,{322,1.18,3,{{1.00794,1,8},{12.0107,6,5},{15.9994,8,2}}}
,{323,1.42,3,{{1.00794,1,2},{12.0107,6,1},{15.9994,8,1}}}
,{324,0.9,2,{{12.0107,6,3},{1.00794,1,6}}}
,{325,1.06,2,{{12.0107,6,8},{1.00794,1,8}}}
,{326,0.00188,2,{{1.00794,1,8},{12.0107,6,3}}}
,{327,0.8035,3,{{1.00794,1,8},{12.0107,6,3},{15.9994,8,1}}}
,{328,1.3,3,{{1.00794,1,3},{12.0107,6,2},{35.453,17,1}}}
,{329,0.9819,3,{{1.00794,1,5},{12.0107,6,5},{14.0067,7,1}}}
,{330,2.32,2,{{15.9994,8,2},{28.0855,14,1}}}
,{331,1.1,13,{{1.00794,1,0.100588},{12.0107,6,0.22825},{14.0067,7,0.04642},{15.9994,8,0.619002},{22.9898,11,7e-05},{24.305,12,6e-05},{30.9738,15,0.00033},{32.065,16,0.00159},{35.453,17,0.00267},{39.0983,19,0.00085},{40.078,20,0.00015},{55.845,26,1e-05},{65.409,30,1e-05}}}
,{332,1.587,3,{{1.00794,1,22},{12.0107,6,12},{15.9994,8,11}}}
,{333,2.2,2,{{12.0107,6,2},{18.9984,9,4}}}
,{334,7.004,2,{{35.453,17,1},{204.383,81,1}}}
,{335,0.8669,2,{{1.00794,1,8},{12.0107,6,7}}}
,{336,1.46,3,{{1.00794,1,1},{12.0107,6,2},{35.453,17,3}}}
,{337,2.4,2,{{18.9984,9,6},{183.84,74,1}}}
,{338,11.28,2,{{12.0107,6,2},{238.029,92,1}}}
,{339,13.63,2,{{12.0107,6,1},{238.029,92,1}}}
,{340,10.97,2,{{15.9994,8,2},{238.029,92,1}}}
,{341,1.323,4,{{1.00794,1,0.067131},{12.0107,6,0.2},{14.0067,7,0.466459},{15.9994,8,0.266411}}}
,{342,1.23,4,{{1.00794,1,11},{12.0107,6,5},{14.0067,7,1},{15.9994,8,2}}}
,{343,1.738,3,{{12.0107,6,10},{1.00794,1,7},{126.904,53,1}}}
,{344,1.18,3,{{12.0107,6,21},{1.00794,1,24},{15.9994,8,4}}}
,{345,11.5,3,{{58.9332,27,17},{186.207,75,23},{51.9961,24,1}}}
,{346,5.1,4,{{6.941,3,7},{138.905,57,3},{91.224,40,2},{15.9994,8,12}}}
,{347,1.14,4,{{12.0107,6,6},{1.00794,1,11},{14.0067,7,1},{15.9994,8,1}}}
,{348,8.73,3,{{63.546,29,0.63},{65.409,30,0.35},{207.2,82,0.02}}}
,{349,1.045,4,{{1.00794,1,0.0759},{12.0107,6,0.9041},{15.9994,8,0.008},{47.867,22,0.012}}}
};
}
