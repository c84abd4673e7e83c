/* Code words and lengths of the two code books (ISO/IEC 23008-3, multichannel coding tool). */
static const uint32_t ref_code_scf[121] = {262120,262118,262119,262117,524277,524273,524269,524278,524270,524271,524272,524284,524285,524287,524286,524279,524280,524283,524281,262116,524282,262115,131055,131056,65525,131054,65522,65523,65524,65521,32758,32759,16377,16373,16375,16371,16374,16370,8183,8181,4089,4087,4086,2041,4084,2040,1017,1015,1013,504,503,250,248,246,121,58,56,26,11,4,0,10,12,27,57,59,120,122,247,249,502,505,1012,1014,1016,2037,2036,2038,2039,4085,4088,8180,8182,8184,16376,16372,65520,32756,65526,32757,262114,524249,524250,524251,524252,524253,524254,524248,524242,524243,524244,524245,524246,524274,524255,524263,524264,524265,524266,524267,524262,524256,524257,524258,524259,524260,524261,524247,524268,524276,524275};
static const uint32_t ref_len_scf[121] = {18,18,18,18,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,18,19,18,17,17,16,17,16,16,16,16,15,15,14,14,14,14,14,14,13,13,12,12,12,11,12,11,10,10,10,9,9,8,8,8,7,6,6,5,4,3,1,4,4,5,6,6,7,7,8,8,9,9,10,10,10,11,11,11,11,12,12,13,13,13,14,14,16,15,16,15,18,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19,19};
static const uint32_t ref_code_angle[65] = {0,11,18,27,31,49,58,67,101,115,130,154,206,238,262,314,473,478,514,609,527,526,611,614,626,625,631,630,820,805,806,807,804,803,821,802,800,801,627,624,615,608,1220,1221,515,479,474,472,411,475,306,256,207,204,155,129,114,79,66,56,48,30,26,17,10};
static const uint32_t ref_len_angle[65] = {1,4,5,5,5,6,6,7,7,7,8,8,8,8,9,9,9,9,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,11,11,10,9,9,9,9,9,9,9,8,8,8,8,7,7,7,6,6,5,5,5,4};
