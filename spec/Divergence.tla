------------------------------ MODULE Divergence ------------------------------
(***************************************************************************)
(* The divergence between a Dirichlet distribution with whole parameters   *)
(* and the one given whole counts of evidence, in millionths:              *)
(*   KL = ln G(T) - sum ln G(a) - ln G(T + N) + sum ln G(a + n)            *)
(*        - sum n (psi(a) - psi(T))                                        *)
(* with G(k + 1) = k! and psi(a) - psi(T) = H(a - 1) - H(T - 1), H the     *)
(* harmonic numbers.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSetsExt, SequencesExt

\* ln k, ln k! and H(k) in millionths, for k up to 400
LnTable == <<
      0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225, 2302585, 2397895, 2484907,
      2564949, 2639057, 2708050, 2772589, 2833213, 2890372, 2944439, 2995732, 3044522, 3091042, 3135494, 3178054,
      3218876, 3258097, 3295837, 3332205, 3367296, 3401197, 3433987, 3465736, 3496508, 3526361, 3555348, 3583519,
      3610918, 3637586, 3663562, 3688879, 3713572, 3737670, 3761200, 3784190, 3806662, 3828641, 3850148, 3871201,
      3891820, 3912023, 3931826, 3951244, 3970292, 3988984, 4007333, 4025352, 4043051, 4060443, 4077537, 4094345,
      4110874, 4127134, 4143135, 4158883, 4174387, 4189655, 4204693, 4219508, 4234107, 4248495, 4262680, 4276666,
      4290459, 4304065, 4317488, 4330733, 4343805, 4356709, 4369448, 4382027, 4394449, 4406719, 4418841, 4430817,
      4442651, 4454347, 4465908, 4477337, 4488636, 4499810, 4510860, 4521789, 4532599, 4543295, 4553877, 4564348,
      4574711, 4584967, 4595120, 4605170, 4615121, 4624973, 4634729, 4644391, 4653960, 4663439, 4672829, 4682131,
      4691348, 4700480, 4709530, 4718499, 4727388, 4736198, 4744932, 4753590, 4762174, 4770685, 4779123, 4787492,
      4795791, 4804021, 4812184, 4820282, 4828314, 4836282, 4844187, 4852030, 4859812, 4867534, 4875197, 4882802,
      4890349, 4897840, 4905275, 4912655, 4919981, 4927254, 4934474, 4941642, 4948760, 4955827, 4962845, 4969813,
      4976734, 4983607, 4990433, 4997212, 5003946, 5010635, 5017280, 5023881, 5030438, 5036953, 5043425, 5049856,
      5056246, 5062595, 5068904, 5075174, 5081404, 5087596, 5093750, 5099866, 5105945, 5111988, 5117994, 5123964,
      5129899, 5135798, 5141664, 5147494, 5153292, 5159055, 5164786, 5170484, 5176150, 5181784, 5187386, 5192957,
      5198497, 5204007, 5209486, 5214936, 5220356, 5225747, 5231109, 5236442, 5241747, 5247024, 5252273, 5257495,
      5262690, 5267858, 5273000, 5278115, 5283204, 5288267, 5293305, 5298317, 5303305, 5308268, 5313206, 5318120,
      5323010, 5327876, 5332719, 5337538, 5342334, 5347108, 5351858, 5356586, 5361292, 5365976, 5370638, 5375278,
      5379897, 5384495, 5389072, 5393628, 5398163, 5402677, 5407172, 5411646, 5416100, 5420535, 5424950, 5429346,
      5433722, 5438079, 5442418, 5446737, 5451038, 5455321, 5459586, 5463832, 5468060, 5472271, 5476464, 5480639,
      5484797, 5488938, 5493061, 5497168, 5501258, 5505332, 5509388, 5513429, 5517453, 5521461, 5525453, 5529429,
      5533389, 5537334, 5541264, 5545177, 5549076, 5552960, 5556828, 5560682, 5564520, 5568345, 5572154, 5575949,
      5579730, 5583496, 5587249, 5590987, 5594711, 5598422, 5602119, 5605802, 5609472, 5613128, 5616771, 5620401,
      5624018, 5627621, 5631212, 5634790, 5638355, 5641907, 5645447, 5648974, 5652489, 5655992, 5659482, 5662960,
      5666427, 5669881, 5673323, 5676754, 5680173, 5683580, 5686975, 5690359, 5693732, 5697093, 5700444, 5703782,
      5707110, 5710427, 5713733, 5717028, 5720312, 5723585, 5726848, 5730100, 5733341, 5736572, 5739793, 5743003,
      5746203, 5749393, 5752573, 5755742, 5758902, 5762051, 5765191, 5768321, 5771441, 5774552, 5777652, 5780744,
      5783825, 5786897, 5789960, 5793014, 5796058, 5799093, 5802118, 5805135, 5808142, 5811141, 5814131, 5817111,
      5820083, 5823046, 5826000, 5828946, 5831882, 5834811, 5837730, 5840642, 5843544, 5846439, 5849325, 5852202,
      5855072, 5857933, 5860786, 5863631, 5866468, 5869297, 5872118, 5874931, 5877736, 5880533, 5883322, 5886104,
      5888878, 5891644, 5894403, 5897154, 5899897, 5902633, 5905362, 5908083, 5910797, 5913503, 5916202, 5918894,
      5921578, 5924256, 5926926, 5929589, 5932245, 5934894, 5937536, 5940171, 5942799, 5945421, 5948035, 5950643,
      5953243, 5955837, 5958425, 5961005, 5963579, 5966147, 5968708, 5971262, 5973810, 5976351, 5978886, 5981414,
      5983936, 5986452, 5988961, 5991465>>
LnFact == <<
      0, 693147, 1791759, 3178054, 4787492, 6579251, 8525161, 10604603, 12801827, 15104413, 17502308, 19987214,
      22552164, 25191221, 27899271, 30671860, 33505073, 36395445, 39339884, 42335616, 45380139, 48471181, 51606676, 54784729,
      58003605, 61261702, 64557539, 67889743, 71257039, 74658236, 78092224, 81557959, 85054467, 88580828, 92136176, 95719695,
      99330612, 102968199, 106631760, 110320640, 114034212, 117771881, 121533082, 125317271, 129123934, 132952575, 136802723, 140673924,
      144565744, 148477767, 152409593, 156360836, 160331128, 164320112, 168327445, 172352797, 176395848, 180456291, 184533829, 188628173,
      192739047, 196866182, 201009316, 205168199, 209342587, 213532241, 217736934, 221956442, 226190548, 230439044, 234701723, 238978390,
      243268849, 247572914, 251890402, 256221136, 260564941, 264921650, 269291098, 273673124, 278067573, 282474293, 286893133, 291323950,
      295766601, 300220949, 304686857, 309164194, 313652830, 318152640, 322663499, 327185288, 331717887, 336261182, 340815059, 345379407,
      349954118, 354539086, 359134205, 363739376, 368354496, 372979469, 377614198, 382258589, 386912549, 391575988, 396248817, 400930948,
      405622296, 410322777, 415032307, 419750806, 424478193, 429214392, 433959324, 438712914, 443475088, 448245773, 453024896, 457812388,
      462608179, 467412200, 472224384, 477044665, 481872979, 486709261, 491553448, 496405478, 501265291, 506132825, 511008023, 515890825,
      520781174, 525679014, 530584288, 535496943, 540416924, 545344178, 550278652, 555220294, 560169054, 565124881, 570087726, 575057539,
      580034273, 585017879, 590008312, 595005524, 600009471, 605020106, 610037386, 615061266, 620091704, 625128657, 630172082, 635221938,
      640278184, 645340779, 650409683, 655484857, 660566261, 665653857, 670747608, 675847474, 680953420, 686065407, 691183401, 696307365,
      701437264, 706573062, 711714726, 716862220, 722015512, 727174567, 732339353, 737509837, 742685987, 747867770, 753055156, 758248113,
      763446610, 768650617, 773860103, 779075039, 784295395, 789521141, 794752250, 799988692, 805230439, 810477463, 815729736, 820987232,
      826249922, 831517780, 836790780, 842068894, 847352098, 852640365, 857933670, 863231987, 868535292, 873843560, 879156766, 884474886,
      889797896, 895125772, 900458491, 905796029, 911138363, 916485471, 921837329, 927193915, 932555207, 937921183, 943291821, 948667100,
      954046997, 959431492, 964820564, 970214191, 975612354, 981015031, 986422203, 991833849, 997249950, 1002670485, 1008095435, 1013524780,
      1018958502, 1024396582, 1029838999, 1035285737, 1040736775, 1046192096, 1051651682, 1057115514, 1062583574, 1068055844, 1073532308, 1079012947,
      1084497744, 1089986681, 1095479743, 1100976911, 1106478169, 1111983501, 1117492889, 1123006318, 1128523771, 1134045232, 1139570685, 1145100114,
      1150633503, 1156170838, 1161712101, 1167257279, 1172806355, 1178359314, 1183916142, 1189476824, 1195041344, 1200609689, 1206181843, 1211757792,
      1217337522, 1222921018, 1228508267, 1234099254, 1239693965, 1245292387, 1250894506, 1256500308, 1262109780, 1267722908, 1273339679, 1278960080,
      1284584097, 1290211718, 1295842930, 1301477720, 1307116075, 1312757982, 1318403428, 1324052403, 1329704892, 1335360884, 1341020366, 1346683326,
      1352349753, 1358019634, 1363692957, 1369369711, 1375049884, 1380733463, 1386420439, 1392110798, 1397804530, 1403501624, 1409202067, 1414905850,
      1420612960, 1426323387, 1432037120, 1437754148, 1443474460, 1449198045, 1454924892, 1460654992, 1466388333, 1472124906, 1477864699, 1483607702,
      1489353905, 1495103298, 1500855871, 1506611613, 1512370515, 1518132566, 1523897757, 1529666078, 1535437519, 1541212071, 1546989723, 1552770467,
      1558554292, 1564341189, 1570131149, 1575924163, 1581720221, 1587519313, 1593321432, 1599126567, 1604934709, 1610745850, 1616559981, 1622377092,
      1628197175, 1634020221, 1639846221, 1645675166, 1651507049, 1657341860, 1663179590, 1669020232, 1674863776, 1680710215, 1686559540, 1692411742,
      1698266814, 1704124747, 1709985533, 1715849165, 1721715633, 1727584930, 1733457047, 1739331978, 1745209714, 1751090247, 1756973569, 1762859673,
      1768748551, 1774640196, 1780534598, 1786431752, 1792331650, 1798234283, 1804139645, 1810047728, 1815958524, 1821872027, 1827788229, 1833707123,
      1839628702, 1845552957, 1851479884, 1857409473, 1863341718, 1869276612, 1875214148, 1881154319, 1887097119, 1893042539, 1898990574, 1904941217,
      1910894460, 1916850298, 1922808722, 1928769728, 1934733307, 1940699454, 1946668161, 1952639423, 1958613233, 1964589584, 1970568470, 1976549884,
      1982533820, 1988520272, 1994509233, 2000500698>>
Harmonic == <<
      1000000, 1500000, 1833333, 2083333, 2283333, 2450000, 2592857, 2717857, 2828968, 2928968, 3019877, 3103211,
      3180134, 3251562, 3318229, 3380729, 3439553, 3495108, 3547740, 3597740, 3645359, 3690813, 3734292, 3775958,
      3815958, 3854420, 3891457, 3927171, 3961654, 3994987, 4027245, 4058495, 4088798, 4118210, 4146781, 4174559,
      4201586, 4227902, 4253543, 4278543, 4302933, 4326743, 4349999, 4372726, 4394948, 4416687, 4437964, 4458797,
      4479205, 4499205, 4518813, 4538044, 4556912, 4575430, 4593612, 4611469, 4629013, 4646255, 4663204, 4679870,
      4696264, 4712393, 4728266, 4743891, 4759276, 4774427, 4789352, 4804058, 4818551, 4832837, 4846921, 4860810,
      4874509, 4888022, 4901356, 4914514, 4927501, 4940321, 4952979, 4965479, 4977825, 4990020, 5002068, 5013973,
      5025738, 5037366, 5048860, 5060224, 5071459, 5082571, 5093560, 5104429, 5115182, 5125820, 5136346, 5146763,
      5157072, 5167277, 5177378, 5187378, 5197279, 5207082, 5216791, 5226407, 5235930, 5245364, 5254710, 5263969,
      5273144, 5282235, 5291244, 5300172, 5309022, 5317794, 5326489, 5335110, 5343657, 5352132, 5360535, 5368868,
      5377133, 5385329, 5393460, 5401524, 5409524, 5417461, 5425335, 5433147, 5440899, 5448591, 5456225, 5463801,
      5471319, 5478782, 5486190, 5493543, 5500842, 5508088, 5515282, 5522425, 5529517, 5536560, 5543553, 5550497,
      5557394, 5564243, 5571046, 5577803, 5584514, 5591181, 5597803, 5604382, 5610918, 5617412, 5623863, 5630273,
      5636643, 5642972, 5649261, 5655511, 5661722, 5667895, 5674030, 5680128, 5686188, 5692212, 5698201, 5704153,
      5710070, 5715952, 5721800, 5727614, 5733395, 5739142, 5744856, 5750538, 5756188, 5761806, 5767392, 5772948,
      5778473, 5783967, 5789432, 5794866, 5800272, 5805648, 5810996, 5816315, 5821606, 5826869, 5832105, 5837313,
      5842494, 5847649, 5852777, 5857879, 5862955, 5868006, 5873031, 5878031, 5883006, 5887957, 5892883, 5897785,
      5902663, 5907517, 5912348, 5917156, 5921940, 5926702, 5931442, 5936159, 5940853, 5945526, 5950177, 5954807,
      5959415, 5964003, 5968569, 5973114, 5977639, 5982144, 5986628, 5991092, 5995537, 5999961, 6004367, 6008753,
      6013119, 6017467, 6021796, 6026107, 6030399, 6034672, 6038927, 6043165, 6047384, 6051586, 6055770, 6059936,
      6064086, 6068218, 6072333, 6076432, 6080513, 6084578, 6088627, 6092659, 6096675, 6100675, 6104659, 6108628,
      6112580, 6116517, 6120439, 6124345, 6128236, 6132112, 6135973, 6139819, 6143651, 6147467, 6151270, 6155058,
      6158831, 6162590, 6166336, 6170067, 6173785, 6177488, 6181178, 6184855, 6188518, 6192167, 6195804, 6199427,
      6203037, 6206634, 6210218, 6213790, 6217349, 6220895, 6224428, 6227949, 6231458, 6234955, 6238439, 6241911,
      6245371, 6248820, 6252256, 6255681, 6259094, 6262495, 6265885, 6269263, 6272630, 6275986, 6279331, 6282664,
      6285986, 6289297, 6292598, 6295887, 6299166, 6302434, 6305691, 6308938, 6312174, 6315400, 6318615, 6321821,
      6325015, 6328200, 6331375, 6334539, 6337694, 6340839, 6343973, 6347098, 6350214, 6353319, 6356415, 6359502,
      6362579, 6365646, 6368704, 6371753, 6374792, 6377823, 6380844, 6383856, 6386859, 6389853, 6392838, 6395814,
      6398782, 6401740, 6404690, 6407631, 6410564, 6413488, 6416403, 6419310, 6422209, 6425099, 6427981, 6430854,
      6433720, 6436577, 6439426, 6442267, 6445099, 6447924, 6450741, 6453550, 6456351, 6459145, 6461930, 6464708,
      6467478, 6470240, 6472995, 6475743, 6478482, 6481214, 6483939, 6486657, 6489367, 6492069, 6494765, 6497453,
      6500134, 6502808, 6505474, 6508134, 6510787, 6513432, 6516071, 6518702, 6521327, 6523945, 6526556, 6529160,
      6531757, 6534348, 6536932, 6539509, 6542080, 6544644, 6547201, 6549752, 6552297, 6554835, 6557367, 6559892,
      6562411, 6564923, 6567430, 6569930>>
LnFactTable(n) == IF n = 0 THEN 0 ELSE LnFact[n]
HarmTable(n) == IF n = 0 THEN 0 ELSE Harmonic[n]
LnGamma(k) == LnFactTable(k - 1)
Harm(k) == HarmTable(k - 1)

\* outcomes: a sequence of <<parameter, evidence>> with evidence above zero, and the total T of all parameters
SumBy(s, f(_)) == FoldLeft(LAMBDA x, y : x + f(y), 0, s)
KL(T, out) ==
    LET N == SumBy(out, LAMBDA o : o[2])
    IN LnGamma(T) - LnGamma(T + N)
       + SumBy(out, LAMBDA o : LnGamma(o[1] + o[2]) - LnGamma(o[1]))
       - SumBy(out, LAMBDA o : o[2] * (Harm(o[1]) - Harm(T)))
\* and the other way around: how far the posterior is from the prior
PostKL(T, out) ==
    LET N == SumBy(out, LAMBDA o : o[2])
    IN LnGamma(T + N) - LnGamma(T)
       - SumBy(out, LAMBDA o : LnGamma(o[1] + o[2]) - LnGamma(o[1]))
       + SumBy(out, LAMBDA o : o[2] * (Harm(o[1] + o[2]) - Harm(T + N)))
===============================================================================
