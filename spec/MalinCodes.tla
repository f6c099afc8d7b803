----------------------------- MODULE MalinCodes -----------------------------
(* The prefix codes of Malin's cameras: for every byte its code, as a number *)
(* whose binary digits after the first are the code's bits in the order they *)
(* are read; 0 where there is none.  Msl: predictive compression of MSL's    *)
(* cameras; Moc: the eight tables of the Mars Orbiter Camera.                *)
EXTENDS Integers, Sequences

Msl == <<
  17, 19, 22, 27, 30, 41, 50, 58, 66, 86, 102, 118,
  129, 169, 193, 239, 271, 351, 448, 451, 672, 768, 898, 1026,
  1346, 1349, 1798, 2054, 2694, 3078, 3600, 4114, 5392, 6160, 7205, 8225,
  10788, 13260, 14412, 14415, 21578, 26519, 32920, 28826, 52993, 52992, 49407, 49406,
  49405, 49404, 49403, 49402, 49401, 49400, 49399, 49398, 49397, 49396, 49395, 49394,
  49393, 49392, 49391, 49390, 49389, 49388, 49387, 49386, 49385, 49384, 49383, 49382,
  49381, 49380, 49379, 49378, 49377, 49376, 49375, 49374, 49373, 49372, 49371, 49370,
  49369, 49368, 49367, 49366, 49365, 49364, 49363, 49362, 49361, 49360, 53019, 52995,
  53023, 53022, 53027, 53026, 53030, 53029, 49351, 49350, 49349, 49348, 49347, 52994,
  49359, 49344, 49343, 49342, 49341, 49340, 49339, 53032, 53031, 49336, 49335, 49334,
  49333, 49332, 53034, 53033, 49329, 49328, 53035, 53036, 53037, 49324, 49323, 49322,
  49321, 49358, 49346, 49318, 49317, 49316, 49315, 49314, 49345, 49320, 49311, 49310,
  49309, 49308, 49307, 49306, 49305, 49304, 49303, 49302, 49301, 49319, 49313, 49298,
  49312, 49300, 49295, 49294, 49293, 49292, 49291, 49299, 49297, 49290, 43159, 49289,
  49288, 32921, 43158, 49296, 49355, 49356, 49357, 52996, 52997, 52998, 52999, 53020,
  49353, 49354, 53021, 53000, 53001, 53002, 53003, 53024, 49352, 53025, 53004, 53005,
  53006, 53028, 49325, 49326, 49327, 49330, 49331, 49337, 49338, 53007, 53008, 53009,
  53010, 53011, 53012, 53013, 53014, 53015, 53016, 53017, 53018, 28827, 26525, 26524,
  16461, 14414, 13263, 13261, 8231, 8224, 7204, 5395, 5393, 4113, 3601, 3079,
  2695, 2055, 1799, 1538, 1029, 901, 829, 675, 515, 512, 415, 350,
  270, 238, 206, 174, 134, 113, 97, 85, 65, 57, 49, 40,
  31, 26, 23, 18>>
Moc == <<
<<
  256, 384, 320, 448, 288, 416, 352, 480, 272, 400, 336, 464,
  304, 432, 368, 496, 264, 392, 328, 456, 296, 424, 360, 488,
  280, 408, 344, 472, 312, 440, 376, 504, 260, 388, 324, 452,
  292, 420, 356, 484, 276, 404, 340, 468, 308, 436, 372, 500,
  268, 396, 332, 460, 300, 428, 364, 492, 284, 412, 348, 476,
  316, 444, 380, 508, 258, 386, 322, 450, 290, 418, 354, 482,
  274, 402, 338, 466, 306, 434, 370, 498, 266, 394, 330, 458,
  298, 426, 362, 490, 282, 410, 346, 474, 314, 442, 378, 506,
  262, 390, 326, 454, 294, 422, 358, 486, 278, 406, 342, 470,
  310, 438, 374, 502, 270, 398, 334, 462, 302, 430, 366, 494,
  286, 414, 350, 478, 318, 446, 382, 510, 257, 385, 321, 449,
  289, 417, 353, 481, 273, 401, 337, 465, 305, 433, 369, 497,
  265, 393, 329, 457, 297, 425, 361, 489, 281, 409, 345, 473,
  313, 441, 377, 505, 261, 389, 325, 453, 293, 421, 357, 485,
  277, 405, 341, 469, 309, 437, 373, 501, 269, 397, 333, 461,
  301, 429, 365, 493, 285, 413, 349, 477, 317, 445, 381, 509,
  259, 387, 323, 451, 291, 419, 355, 483, 275, 403, 339, 467,
  307, 435, 371, 499, 267, 395, 331, 459, 299, 427, 363, 491,
  283, 411, 347, 475, 315, 443, 379, 507, 263, 391, 327, 455,
  295, 423, 359, 487, 279, 407, 343, 471, 311, 439, 375, 503,
  271, 399, 335, 463, 303, 431, 367, 495, 287, 415, 351, 479,
  319, 447, 383, 511>>,
<<
  2, 12, 27, 213, 431, 1723, 13712, 54852, 55085, 55084, 55083, 55082,
  55081, 55080, 55079, 55078, 55077, 55076, 55075, 55074, 55073, 55072, 55071, 55070,
  55069, 55068, 55067, 55066, 55065, 55064, 55063, 55062, 55061, 55060, 55059, 55058,
  55057, 55056, 55055, 55054, 55053, 55052, 55051, 55050, 55049, 55048, 55047, 55046,
  55045, 55044, 55043, 55042, 55041, 55040, 55039, 55038, 55037, 55036, 55035, 55034,
  55033, 55032, 55031, 55030, 55029, 55028, 55027, 55026, 55025, 55024, 55023, 55022,
  55021, 55020, 55019, 55018, 55017, 55016, 55015, 55014, 55013, 55012, 55011, 55010,
  55009, 55008, 55007, 55006, 55005, 55004, 55003, 55002, 55001, 55000, 54999, 54998,
  54997, 54996, 54995, 54994, 54993, 54992, 54991, 54990, 54989, 54988, 54987, 54986,
  54985, 54984, 54983, 54982, 54981, 54980, 54979, 54978, 54977, 54976, 54975, 54974,
  54973, 54972, 55086, 54970, 54969, 54971, 55091, 55092, 55093, 54964, 54963, 54962,
  54961, 54960, 54959, 54958, 54957, 54956, 54955, 54954, 54953, 54952, 54951, 54950,
  54949, 54948, 54947, 54946, 54945, 54944, 54943, 54942, 54941, 54940, 54939, 54938,
  54937, 54936, 54935, 54934, 54933, 54932, 54931, 54930, 54929, 54928, 54927, 54926,
  54925, 54924, 54923, 54922, 54921, 54920, 54919, 54918, 54917, 54916, 54915, 54914,
  54913, 54912, 54968, 54910, 54911, 54908, 54907, 54906, 54905, 54904, 54903, 54902,
  54901, 54900, 54899, 54898, 54897, 54896, 54895, 54894, 54893, 54892, 54891, 54890,
  54889, 54888, 54887, 54886, 54885, 54884, 54883, 54882, 54909, 54881, 54879, 54878,
  54877, 54876, 54875, 54874, 54873, 54872, 54871, 54870, 54869, 54868, 54867, 54880,
  54866, 54864, 54863, 54862, 54861, 54860, 54859, 54865, 54858, 54856, 54855, 54857,
  54853, 54854, 54965, 54966, 54967, 55087, 55088, 55089, 55090, 27547, 6887, 1722,
  856, 212, 52, 7>>,
<<
  5, 8, 13, 38, 49, 158, 319, 769, 1540, 3084, 6171, 6203,
  12402, 49592, 49591, 49590, 49589, 49588, 49587, 49586, 49585, 49584, 49583, 49582,
  49581, 49580, 49579, 49578, 49577, 49576, 49575, 49574, 49573, 49572, 49571, 49570,
  49569, 49568, 49567, 49566, 49565, 49564, 49563, 49562, 49561, 49560, 49559, 49558,
  49557, 49556, 49555, 49554, 49553, 49552, 49551, 49550, 49549, 49548, 49547, 49546,
  49545, 49544, 49543, 49542, 49541, 49540, 49539, 49538, 49537, 49536, 49535, 49534,
  49533, 49532, 49531, 49530, 49529, 49528, 49527, 49526, 49525, 49524, 49523, 49522,
  49521, 49520, 49519, 49518, 49517, 49516, 49515, 49514, 49513, 49512, 49511, 49510,
  49509, 49508, 49507, 49506, 49505, 49504, 49503, 49502, 49501, 49500, 49499, 49498,
  49497, 49496, 49495, 49494, 49493, 49492, 49491, 49490, 49489, 49488, 49487, 49486,
  49599, 49595, 49602, 49601, 49593, 49485, 49603, 49604, 49605, 49476, 49475, 49474,
  49473, 49472, 49471, 49470, 49469, 49468, 49467, 49466, 49465, 49464, 49463, 49462,
  49461, 49460, 49459, 49458, 49457, 49456, 49455, 49454, 49453, 49452, 49451, 49450,
  49449, 49448, 49447, 49446, 49445, 49444, 49443, 49442, 49441, 49440, 49439, 49438,
  49437, 49436, 49435, 49434, 49433, 49432, 49431, 49430, 49429, 49428, 49484, 49482,
  49481, 49424, 49423, 49422, 49421, 49420, 49419, 49418, 49417, 49416, 49415, 49414,
  49413, 49412, 49411, 49410, 49409, 49408, 49407, 49406, 49405, 49404, 49403, 49402,
  49401, 49426, 49400, 49398, 49397, 49396, 49395, 49394, 49393, 49392, 49391, 49390,
  49389, 49388, 49387, 49399, 49386, 49384, 49383, 49382, 49381, 49380, 49385, 49379,
  49377, 49378, 49376, 24803, 49425, 49427, 49479, 49480, 49594, 49483, 49596, 49597,
  49598, 49600, 49477, 49478, 12403, 6202, 6170, 1551, 1541, 768, 318, 97,
  78, 25, 18, 7>>,
<<
  9, 11, 15, 26, 29, 54, 70, 110, 142, 223, 287, 448,
  768, 899, 903, 1803, 1805, 3595, 6167, 7217, 12336, 14374, 24674, 28872,
  49533, 49532, 49531, 49530, 49529, 49528, 49527, 49526, 49525, 49524, 49523, 49522,
  49521, 49520, 49519, 49518, 49517, 49516, 49515, 49514, 49513, 49512, 49511, 49510,
  49509, 49508, 49507, 49506, 49505, 49504, 49503, 49502, 49501, 49500, 49499, 49498,
  49497, 49496, 49495, 49494, 49493, 49492, 49491, 49490, 49489, 49488, 49487, 49486,
  49485, 49484, 49483, 49482, 49481, 49480, 49479, 49478, 49477, 49476, 49475, 49474,
  49473, 49472, 49471, 49470, 49469, 49468, 49467, 49466, 49465, 49464, 49463, 49462,
  49461, 49460, 49459, 49458, 49457, 49456, 49455, 49454, 49453, 49452, 49451, 49450,
  49449, 49448, 49447, 57481, 49535, 57485, 57484, 57488, 57487, 49534, 49446, 49438,
  49437, 49436, 57490, 57489, 49433, 49432, 57491, 57492, 57493, 49428, 49427, 49426,
  49425, 49424, 49423, 49422, 49421, 49420, 49419, 49418, 49417, 49416, 49415, 49414,
  49413, 49412, 49411, 49410, 49409, 49408, 49407, 49406, 49405, 49404, 49403, 49402,
  49401, 49400, 49399, 49398, 49397, 49396, 49445, 49440, 49393, 49439, 49395, 49390,
  49389, 49388, 49387, 49386, 49385, 49384, 49383, 49382, 49381, 49380, 49379, 49378,
  49377, 49376, 49375, 49374, 49373, 49372, 49371, 49394, 49392, 49391, 49370, 49366,
  49365, 49364, 49363, 49362, 49361, 49360, 49359, 49367, 49369, 49356, 49355, 49354,
  49353, 49357, 49352, 49350, 49351, 28873, 49358, 49368, 49442, 49443, 49444, 57472,
  57473, 57474, 57475, 57482, 49441, 57483, 57476, 57477, 57478, 57486, 49429, 49430,
  49431, 49434, 49435, 57479, 57480, 28747, 14437, 14375, 7219, 7216, 6166, 3594,
  3082, 1802, 1540, 900, 769, 387, 286, 222, 113, 97, 57, 49,
  34, 25, 16, 10>>,
<<
  13, 15, 18, 24, 33, 42, 50, 70, 86, 102, 142, 174,
  206, 286, 350, 512, 640, 704, 1027, 1282, 1411, 2057, 2569, 2825,
  4116, 5140, 5142, 8234, 8237, 11351, 11354, 16479, 22701, 32946, 32944, 45366,
  45365, 45364, 45363, 45362, 45361, 45360, 45359, 45358, 45357, 45356, 45355, 45354,
  45353, 45352, 45351, 45350, 45349, 45348, 45347, 45346, 45345, 45344, 45343, 45342,
  45341, 45340, 45339, 45338, 45337, 45336, 45335, 45334, 45333, 45332, 45331, 45330,
  45329, 45328, 45327, 45326, 45325, 45324, 45323, 45322, 45321, 45320, 45319, 45318,
  45317, 45316, 45315, 45314, 45313, 45312, 45311, 45310, 45309, 45308, 45307, 45306,
  45305, 45304, 45303, 45392, 45394, 45393, 45299, 45298, 45297, 45296, 45295, 45294,
  45293, 45292, 45291, 45290, 45367, 45302, 45287, 45396, 45395, 45284, 45283, 45282,
  45281, 45280, 45398, 45397, 45277, 45276, 45399, 45400, 45401, 45272, 45271, 45270,
  45269, 45268, 45267, 45266, 45265, 45264, 45263, 45262, 45261, 45260, 45259, 45258,
  45257, 45301, 45289, 45254, 45253, 45252, 45251, 45288, 45256, 45248, 45247, 45246,
  45245, 45244, 45243, 45242, 45241, 45240, 45239, 45238, 45237, 45236, 45235, 45234,
  45255, 45250, 45231, 45249, 45233, 45228, 45227, 45226, 45225, 45224, 45223, 45232,
  45230, 45229, 45222, 45218, 45217, 45221, 32947, 45216, 45219, 45220, 45300, 45368,
  45369, 45370, 45273, 45274, 45275, 45278, 45279, 45285, 45286, 45371, 45372, 45373,
  45374, 45375, 45376, 45377, 45378, 45379, 45380, 45381, 45382, 45383, 45384, 45385,
  45386, 45387, 45388, 45389, 45390, 45391, 22707, 32945, 22706, 16478, 11355, 11352,
  8238, 8235, 5143, 5141, 2839, 2824, 2568, 2056, 1410, 1283, 1026, 643,
  515, 355, 351, 287, 207, 161, 129, 89, 81, 65, 45, 41,
  34, 23, 19, 14>>,
<<
  17, 19, 22, 27, 30, 41, 50, 58, 66, 86, 102, 118,
  129, 169, 193, 239, 271, 351, 448, 451, 672, 768, 898, 1026,
  1346, 1349, 1798, 2054, 2694, 3078, 3600, 4114, 5392, 6160, 7205, 8225,
  10788, 13260, 14412, 14415, 21578, 26519, 32920, 28826, 52993, 52992, 49407, 49406,
  49405, 49404, 49403, 49402, 49401, 49400, 49399, 49398, 49397, 49396, 49395, 49394,
  49393, 49392, 49391, 49390, 49389, 49388, 49387, 49386, 49385, 49384, 49383, 49382,
  49381, 49380, 49379, 49378, 49377, 49376, 49375, 49374, 49373, 49372, 49371, 49370,
  49369, 49368, 49367, 49366, 49365, 49364, 49363, 49362, 49361, 49360, 53019, 52995,
  53023, 53022, 53027, 53026, 53030, 53029, 49351, 49350, 49349, 49348, 49347, 52994,
  49359, 49344, 49343, 49342, 49341, 49340, 49339, 53032, 53031, 49336, 49335, 49334,
  49333, 49332, 53034, 53033, 49329, 49328, 53035, 53036, 53037, 49324, 49323, 49322,
  49321, 49358, 49346, 49318, 49317, 49316, 49315, 49314, 49345, 49320, 49311, 49310,
  49309, 49308, 49307, 49306, 49305, 49304, 49303, 49302, 49301, 49319, 49313, 49298,
  49312, 49300, 49295, 49294, 49293, 49292, 49291, 49299, 49297, 49290, 43159, 49289,
  49288, 32921, 43158, 49296, 49355, 49356, 49357, 52996, 52997, 52998, 52999, 53020,
  49353, 49354, 53021, 53000, 53001, 53002, 53003, 53024, 49352, 53025, 53004, 53005,
  53006, 53028, 49325, 49326, 49327, 49330, 49331, 49337, 49338, 53007, 53008, 53009,
  53010, 53011, 53012, 53013, 53014, 53015, 53016, 53017, 53018, 28827, 26525, 26524,
  16461, 14414, 13263, 13261, 8231, 8224, 7204, 5395, 5393, 4113, 3601, 3079,
  2695, 2055, 1799, 1538, 1029, 901, 829, 675, 515, 512, 415, 350,
  270, 238, 206, 174, 134, 113, 97, 85, 65, 57, 49, 40,
  31, 26, 23, 18>>,
<<
  21, 23, 26, 31, 34, 39, 49, 58, 66, 74, 82, 102,
  113, 129, 145, 166, 206, 238, 270, 289, 334, 415, 479, 543,
  607, 670, 897, 1024, 1153, 1280, 1600, 1798, 2053, 2310, 2566, 3205,
  3598, 4105, 4623, 5134, 7168, 7199, 9216, 9218, 10271, 12861, 14397, 16444,
  20513, 20512, 28678, 32838, 32836, 28679, 51387, 51386, 51385, 51384, 51383, 51382,
  51381, 51380, 51379, 51378, 51377, 51376, 51375, 51374, 51373, 51372, 51371, 51370,
  51369, 51368, 51367, 51366, 51365, 51364, 51363, 51362, 51361, 51360, 51359, 51358,
  51357, 51356, 51355, 51354, 51353, 51352, 51415, 51414, 51419, 51418, 51423, 51422,
  51427, 51426, 51431, 51430, 51434, 51433, 51339, 51390, 51389, 51336, 51335, 51334,
  51333, 51332, 51331, 51330, 51329, 51328, 51327, 51436, 51435, 51324, 51323, 51322,
  51321, 51320, 51438, 51437, 51317, 51316, 51439, 51440, 51441, 51319, 51311, 51310,
  51309, 51308, 51307, 51306, 51305, 51318, 51313, 51302, 51312, 51304, 51299, 51298,
  51297, 51303, 51301, 51296, 41031, 41030, 36877, 51300, 51349, 51388, 51351, 51348,
  51347, 51391, 51413, 51392, 51393, 51394, 51395, 51416, 51345, 51346, 51417, 51396,
  51397, 51398, 51399, 51420, 51343, 51344, 51421, 51400, 51401, 51402, 51403, 51424,
  51341, 51342, 51425, 51404, 51405, 51406, 51407, 51428, 51340, 51429, 51408, 51409,
  51410, 51432, 51337, 51314, 51315, 51338, 51350, 51325, 51326, 51411, 51412, 32837,
  36876, 32839, 25721, 18439, 20514, 16445, 14396, 14338, 10270, 9217, 8223, 8208,
  6431, 5129, 4622, 4110, 3585, 3204, 2565, 2305, 2054, 1793, 1601, 1281,
  1154, 1025, 898, 671, 606, 542, 478, 414, 321, 302, 257, 225,
  201, 161, 150, 134, 118, 101, 81, 73, 65, 57, 48, 38,
  35, 30, 27, 22>>,
<<
  26, 4, 0, 0, 0, 0, 0, 0, 0, 0, 12, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 55, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  54, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 7, 0, 0, 0, 0, 0,
  0, 0, 0, 5>>>>
=============================================================================
