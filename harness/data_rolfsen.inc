static const char*rolfsen10[]={
"PD[X[1, 4, 2, 5], X[3, 6, 4, 1], X[5, 2, 6, 3]]",
"PD[X[4, 2, 5, 1], X[8, 6, 1, 5], X[6, 3, 7, 4], X[2, 7, 3, 8]]",
"PD[X[1, 6, 2, 7], X[3, 8, 4, 9], X[5, 10, 6, 1], X[7, 2, 8, 3], X[9, 4, 10, 5]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 10, 6, 1], X[9, 6, 10, 7], X[7, 2, 8, 3]]",
"PD[X[1, 4, 2, 5], X[7, 10, 8, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[5, 12, 6, 1], X[11, 6, 12, 7]]",
"PD[X[1, 4, 2, 5], X[5, 10, 6, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[7, 12, 8, 1], X[11, 6, 12, 7]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[12, 9, 1, 10], X[10, 5, 11, 6], X[6, 11, 7, 12], X[2, 8, 3, 7]]",
"PD[X[1, 8, 2, 9], X[3, 10, 4, 11], X[5, 12, 6, 13], X[7, 14, 8, 1], X[9, 2, 10, 3], X[11, 4, 12, 5], X[13, 6, 14, 7]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[5, 14, 6, 1], X[7, 12, 8, 13], X[11, 8, 12, 9], X[13, 6, 14, 7], X[9, 2, 10, 3]]",
"PD[X[6, 2, 7, 1], X[10, 4, 11, 3], X[14, 8, 1, 7], X[8, 14, 9, 13], X[12, 6, 13, 5], X[2, 10, 3, 9], X[4, 12, 5, 11]]",
"PD[X[6, 2, 7, 1], X[12, 6, 13, 5], X[14, 8, 1, 7], X[8, 14, 9, 13], X[2, 12, 3, 11], X[10, 4, 11, 3], X[4, 10, 5, 9]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[5, 12, 6, 13], X[7, 14, 8, 1], X[13, 6, 14, 7], X[11, 8, 12, 9], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 12, 6, 13], X[9, 1, 10, 14], X[13, 11, 14, 10], X[11, 6, 12, 7], X[7, 2, 8, 3]]",
"PD[X[1, 4, 2, 5], X[5, 10, 6, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[11, 14, 12, 1], X[7, 13, 8, 12], X[13, 7, 14, 6]]",
"PD[X[1, 4, 2, 5], X[9, 12, 10, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[5, 16, 6, 1], X[7, 14, 8, 15], X[13, 8, 14, 9], X[15, 6, 16, 7]]",
"PD[X[1, 4, 2, 5], X[5, 12, 6, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[7, 14, 8, 15], X[9, 16, 10, 1], X[13, 6, 14, 7], X[15, 8, 16, 9]]",
"PD[X[6, 2, 7, 1], X[14, 10, 15, 9], X[10, 5, 11, 6], X[12, 3, 13, 4], X[4, 11, 5, 12], X[2, 13, 3, 14], X[16, 8, 1, 7], X[8, 16, 9, 15]]",
"PD[X[6, 2, 7, 1], X[14, 10, 15, 9], X[10, 3, 11, 4], X[2, 13, 3, 14], X[12, 5, 13, 6], X[16, 8, 1, 7], X[4, 11, 5, 12], X[8, 16, 9, 15]]",
"PD[X[6, 2, 7, 1], X[8, 4, 9, 3], X[2, 8, 3, 7], X[14, 10, 15, 9], X[12, 5, 13, 6], X[4, 13, 5, 14], X[16, 12, 1, 11], X[10, 16, 11, 15]]",
"PD[X[1, 4, 2, 5], X[9, 12, 10, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[5, 14, 6, 15], X[7, 16, 8, 1], X[15, 6, 16, 7], X[13, 8, 14, 9]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[11, 1, 12, 16], X[5, 13, 6, 12], X[7, 15, 8, 14], X[13, 7, 14, 6], X[15, 9, 16, 8], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[11, 15, 12, 14], X[5, 13, 6, 12], X[13, 7, 14, 6], X[9, 1, 10, 16], X[15, 11, 16, 10], X[7, 2, 8, 3]]",
"PD[X[6, 2, 7, 1], X[14, 8, 15, 7], X[10, 3, 11, 4], X[2, 13, 3, 14], X[12, 5, 13, 6], X[4, 11, 5, 12], X[16, 10, 1, 9], X[8, 16, 9, 15]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[9, 15, 10, 14], X[5, 13, 6, 12], X[13, 7, 14, 6], X[11, 1, 12, 16], X[15, 11, 16, 10], X[7, 2, 8, 3]]",
"PD[X[1, 4, 2, 5], X[5, 12, 6, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[9, 16, 10, 1], X[15, 6, 16, 7], X[7, 14, 8, 15], X[13, 8, 14, 9]]",
"PD[X[4, 2, 5, 1], X[10, 8, 11, 7], X[8, 3, 9, 4], X[2, 9, 3, 10], X[14, 6, 15, 5], X[16, 11, 1, 12], X[12, 15, 13, 16], X[6, 14, 7, 13]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[11, 1, 12, 16], X[5, 13, 6, 12], X[15, 7, 16, 6], X[7, 15, 8, 14], X[13, 9, 14, 8], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[5, 10, 6, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[7, 14, 8, 15], X[11, 16, 12, 1], X[15, 12, 16, 13], X[13, 6, 14, 7]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 12, 6, 13], X[13, 16, 14, 1], X[9, 14, 10, 15], X[15, 10, 16, 11], X[11, 6, 12, 7], X[7, 2, 8, 3]]",
"PD[X[6, 2, 7, 1], X[14, 6, 15, 5], X[16, 11, 1, 12], X[12, 7, 13, 8], X[8, 3, 9, 4], X[4, 9, 5, 10], X[10, 15, 11, 16], X[2, 14, 3, 13]]",
"PD[X[6, 2, 7, 1], X[14, 8, 15, 7], X[8, 3, 9, 4], X[2, 13, 3, 14], X[12, 5, 13, 6], X[4, 9, 5, 10], X[16, 12, 1, 11], X[10, 16, 11, 15]]",
"PD[X[6, 2, 7, 1], X[8, 3, 9, 4], X[16, 11, 1, 12], X[2, 14, 3, 13], X[4, 15, 5, 16], X[10, 6, 11, 5], X[12, 7, 13, 8], X[14, 10, 15, 9]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[9, 15, 10, 14], X[5, 13, 6, 12], X[13, 7, 14, 6], X[11, 1, 12, 16], X[15, 11, 16, 10], X[2, 8, 3, 7]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[5, 12, 6, 13], X[13, 16, 14, 1], X[9, 14, 10, 15], X[15, 10, 16, 11], X[11, 6, 12, 7], X[2, 8, 3, 7]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[12, 6, 13, 5], X[13, 16, 14, 1], X[9, 14, 10, 15], X[15, 10, 16, 11], X[6, 12, 7, 11], X[7, 2, 8, 3]]",
"PD[X[1, 10, 2, 11], X[3, 12, 4, 13], X[5, 14, 6, 15], X[7, 16, 8, 17], X[9, 18, 10, 1], X[11, 2, 12, 3], X[13, 4, 14, 5], X[15, 6, 16, 7], X[17, 8, 18, 9]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[5, 18, 6, 1], X[7, 16, 8, 17], X[9, 14, 10, 15], X[13, 10, 14, 11], X[15, 8, 16, 9], X[17, 6, 18, 7], X[11, 2, 12, 3]]",
"PD[X[8, 2, 9, 1], X[12, 4, 13, 3], X[18, 10, 1, 9], X[10, 18, 11, 17], X[14, 6, 15, 5], X[16, 8, 17, 7], X[2, 12, 3, 11], X[4, 14, 5, 13], X[6, 16, 7, 15]]",
"PD[X[1, 6, 2, 7], X[3, 12, 4, 13], X[7, 18, 8, 1], X[9, 16, 10, 17], X[15, 10, 16, 11], X[17, 8, 18, 9], X[5, 14, 6, 15], X[11, 2, 12, 3], X[13, 4, 14, 5]]",
"PD[X[6, 2, 7, 1], X[14, 6, 15, 5], X[18, 8, 1, 7], X[16, 10, 17, 9], X[10, 16, 11, 15], X[8, 18, 9, 17], X[2, 14, 3, 13], X[12, 4, 13, 3], X[4, 12, 5, 11]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[5, 14, 6, 15], X[7, 16, 8, 17], X[9, 18, 10, 1], X[15, 6, 16, 7], X[17, 8, 18, 9], X[13, 10, 14, 11], X[11, 2, 12, 3]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[5, 16, 6, 17], X[7, 18, 8, 1], X[17, 6, 18, 7], X[9, 14, 10, 15], X[13, 10, 14, 11], X[15, 8, 16, 9], X[11, 2, 12, 3]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 14, 6, 15], X[9, 1, 10, 18], X[11, 17, 12, 16], X[15, 13, 16, 12], X[17, 11, 18, 10], X[13, 6, 14, 7], X[7, 2, 8, 3]]",
"PD[X[1, 6, 2, 7], X[3, 12, 4, 13], X[7, 16, 8, 17], X[9, 18, 10, 1], X[17, 8, 18, 9], X[15, 10, 16, 11], X[5, 14, 6, 15], X[11, 2, 12, 3], X[13, 4, 14, 5]]",
"PD[X[8, 2, 9, 1], X[12, 4, 13, 3], X[18, 10, 1, 9], X[10, 18, 11, 17], X[16, 8, 17, 7], X[2, 12, 3, 11], X[4, 16, 5, 15], X[14, 6, 15, 5], X[6, 14, 7, 13]]",
"PD[X[1, 4, 2, 5], X[9, 12, 10, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[13, 1, 14, 18], X[5, 15, 6, 14], X[7, 17, 8, 16], X[15, 7, 16, 6], X[17, 9, 18, 8]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[5, 16, 6, 17], X[11, 1, 12, 18], X[17, 13, 18, 12], X[7, 14, 8, 15], X[13, 8, 14, 9], X[15, 6, 16, 7], X[9, 2, 10, 3]]",
"PD[X[6, 2, 7, 1], X[14, 6, 15, 5], X[16, 8, 17, 7], X[18, 10, 1, 9], X[8, 18, 9, 17], X[10, 16, 11, 15], X[2, 14, 3, 13], X[12, 4, 13, 3], X[4, 12, 5, 11]]",
"PD[X[1, 4, 2, 5], X[5, 12, 6, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[13, 18, 14, 1], X[9, 15, 10, 14], X[7, 17, 8, 16], X[15, 9, 16, 8], X[17, 7, 18, 6]]",
"PD[X[1, 4, 2, 5], X[7, 10, 8, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[13, 17, 14, 16], X[5, 15, 6, 14], X[15, 7, 16, 6], X[11, 1, 12, 18], X[17, 13, 18, 12]]",
"PD[X[4, 2, 5, 1], X[12, 4, 13, 3], X[16, 6, 17, 5], X[18, 8, 1, 7], X[6, 18, 7, 17], X[10, 16, 11, 15], X[14, 10, 15, 9], X[8, 14, 9, 13], X[2, 12, 3, 11]]",
"PD[X[1, 4, 2, 5], X[5, 12, 6, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[7, 14, 8, 15], X[13, 6, 14, 7], X[15, 18, 16, 1], X[9, 17, 10, 16], X[17, 9, 18, 8]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[5, 14, 6, 15], X[9, 18, 10, 1], X[17, 6, 18, 7], X[7, 16, 8, 17], X[15, 8, 16, 9], X[13, 10, 14, 11], X[11, 2, 12, 3]]",
"PD[X[1, 4, 2, 5], X[5, 10, 6, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[13, 16, 14, 17], X[7, 15, 8, 14], X[15, 7, 16, 6], X[11, 18, 12, 1], X[17, 12, 18, 13]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[5, 14, 6, 15], X[7, 16, 8, 17], X[11, 1, 12, 18], X[15, 6, 16, 7], X[17, 13, 18, 12], X[13, 8, 14, 9], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[9, 12, 10, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[13, 1, 14, 18], X[5, 15, 6, 14], X[17, 7, 18, 6], X[7, 17, 8, 16], X[15, 9, 16, 8]]",
"PD[X[4, 2, 5, 1], X[10, 6, 11, 5], X[8, 3, 9, 4], X[2, 9, 3, 10], X[16, 12, 17, 11], X[14, 7, 15, 8], X[6, 15, 7, 16], X[18, 14, 1, 13], X[12, 18, 13, 17]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[5, 12, 6, 13], X[7, 16, 8, 17], X[13, 18, 14, 1], X[17, 14, 18, 15], X[15, 6, 16, 7], X[11, 8, 12, 9], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 14, 6, 15], X[9, 17, 10, 16], X[11, 1, 12, 18], X[17, 11, 18, 10], X[15, 13, 16, 12], X[13, 6, 14, 7], X[7, 2, 8, 3]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 12, 6, 13], X[9, 17, 10, 16], X[13, 18, 14, 1], X[17, 14, 18, 15], X[15, 11, 16, 10], X[11, 6, 12, 7], X[7, 2, 8, 3]]",
"PD[X[1, 4, 2, 5], X[5, 12, 6, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[13, 18, 14, 1], X[7, 15, 8, 14], X[17, 7, 18, 6], X[9, 17, 10, 16], X[15, 9, 16, 8]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[11, 1, 12, 18], X[5, 13, 6, 12], X[13, 17, 14, 16], X[7, 14, 8, 15], X[15, 6, 16, 7], X[17, 9, 18, 8], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[11, 15, 12, 14], X[5, 13, 6, 12], X[13, 7, 14, 6], X[15, 18, 16, 1], X[9, 16, 10, 17], X[17, 10, 18, 11], X[7, 2, 8, 3]]",
"PD[X[6, 2, 7, 1], X[16, 11, 17, 12], X[10, 4, 11, 3], X[2, 15, 3, 16], X[14, 5, 15, 6], X[18, 8, 1, 7], X[4, 10, 5, 9], X[12, 17, 13, 18], X[8, 13, 9, 14]]",
"PD[X[4, 2, 5, 1], X[10, 6, 11, 5], X[8, 3, 9, 4], X[2, 9, 3, 10], X[14, 8, 15, 7], X[18, 15, 1, 16], X[16, 11, 17, 12], X[12, 17, 13, 18], X[6, 14, 7, 13]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[11, 1, 12, 18], X[5, 13, 6, 12], X[17, 7, 18, 6], X[7, 14, 8, 15], X[13, 16, 14, 17], X[15, 8, 16, 9], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[13, 18, 14, 1], X[3, 9, 4, 8], X[9, 3, 10, 2], X[7, 15, 8, 14], X[15, 11, 16, 10], X[5, 12, 6, 13], X[11, 17, 12, 16], X[17, 7, 18, 6]]",
"PD[X[4, 2, 5, 1], X[12, 8, 13, 7], X[8, 3, 9, 4], X[2, 9, 3, 10], X[18, 13, 1, 14], X[14, 5, 15, 6], X[6, 17, 7, 18], X[16, 12, 17, 11], X[10, 16, 11, 15]]",
"PD[X[6, 2, 7, 1], X[16, 8, 17, 7], X[8, 3, 9, 4], X[2, 15, 3, 16], X[14, 9, 15, 10], X[10, 6, 11, 5], X[4, 14, 5, 13], X[18, 11, 1, 12], X[12, 17, 13, 18]]",
"PD[X[1, 8, 2, 9], X[7, 14, 8, 15], X[5, 16, 6, 17], X[9, 18, 10, 1], X[15, 6, 16, 7], X[17, 10, 18, 11], X[13, 2, 14, 3], X[3, 12, 4, 13], X[11, 4, 12, 5]]",
"PD[X[1, 4, 2, 5], X[7, 10, 8, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[11, 17, 12, 16], X[5, 15, 6, 14], X[15, 7, 16, 6], X[13, 1, 14, 18], X[17, 13, 18, 12]]",
"PD[X[1, 4, 2, 5], X[7, 12, 8, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[5, 14, 6, 15], X[13, 6, 14, 7], X[15, 18, 16, 1], X[9, 17, 10, 16], X[17, 9, 18, 8]]",
"PD[X[1, 6, 2, 7], X[5, 14, 6, 15], X[7, 18, 8, 1], X[15, 8, 16, 9], X[3, 10, 4, 11], X[9, 4, 10, 5], X[17, 12, 18, 13], X[11, 16, 12, 17], X[13, 2, 14, 3]]",
"PD[X[1, 6, 2, 7], X[3, 11, 4, 10], X[7, 18, 8, 1], X[17, 13, 18, 12], X[9, 17, 10, 16], X[5, 15, 6, 14], X[15, 5, 16, 4], X[11, 3, 12, 2], X[13, 9, 14, 8]]",
"PD[X[1, 6, 2, 7], X[7, 12, 8, 13], X[5, 15, 6, 14], X[11, 3, 12, 2], X[15, 10, 16, 11], X[3, 16, 4, 17], X[9, 4, 10, 5], X[17, 9, 18, 8], X[13, 18, 14, 1]]",
"PD[X[6, 2, 7, 1], X[12, 8, 13, 7], X[14, 5, 15, 6], X[10, 3, 11, 4], X[2, 11, 3, 12], X[4, 15, 5, 16], X[8, 17, 9, 18], X[16, 9, 17, 10], X[18, 14, 1, 13]]",
"PD[X[1, 4, 2, 5], X[5, 10, 6, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[16, 12, 17, 11], X[14, 7, 15, 8], X[6, 15, 7, 16], X[18, 14, 1, 13], X[12, 18, 13, 17]]",
"PD[X[4, 2, 5, 1], X[10, 6, 11, 5], X[8, 3, 9, 4], X[2, 9, 3, 10], X[14, 8, 15, 7], X[15, 1, 16, 18], X[11, 17, 12, 16], X[17, 13, 18, 12], X[6, 14, 7, 13]]",
"PD[X[1, 4, 2, 5], X[5, 10, 6, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[14, 8, 15, 7], X[18, 15, 1, 16], X[16, 11, 17, 12], X[12, 17, 13, 18], X[6, 14, 7, 13]]",
"PD[X[4, 2, 5, 1], X[10, 6, 11, 5], X[8, 3, 9, 4], X[2, 9, 3, 10], X[7, 14, 8, 15], X[18, 15, 1, 16], X[16, 11, 17, 12], X[12, 17, 13, 18], X[13, 6, 14, 7]]",
"PD[X[4, 2, 5, 1], X[7, 12, 8, 13], X[10, 3, 11, 4], X[2, 11, 3, 12], X[5, 14, 6, 15], X[13, 6, 14, 7], X[15, 18, 16, 1], X[9, 17, 10, 16], X[17, 9, 18, 8]]",
"PD[X[6, 2, 7, 1], X[16, 8, 17, 7], X[8, 3, 9, 4], X[2, 15, 3, 16], X[14, 9, 15, 10], X[10, 6, 11, 5], X[4, 14, 5, 13], X[11, 1, 12, 18], X[17, 13, 18, 12]]",
"PD[X[1, 4, 2, 5], X[12, 8, 13, 7], X[3, 11, 4, 10], X[11, 3, 12, 2], X[14, 6, 15, 5], X[6, 14, 7, 13], X[15, 18, 16, 1], X[9, 17, 10, 16], X[17, 9, 18, 8]]",
"PD[X[6, 2, 7, 1], X[12, 8, 13, 7], X[5, 15, 6, 14], X[3, 11, 4, 10], X[11, 3, 12, 2], X[15, 5, 16, 4], X[17, 9, 18, 8], X[9, 17, 10, 16], X[18, 14, 1, 13]]",
"PD[X[1, 4, 2, 5], X[11, 14, 12, 15], X[3, 13, 4, 12], X[13, 3, 14, 2], X[5, 20, 6, 1], X[7, 18, 8, 19], X[9, 16, 10, 17], X[15, 10, 16, 11], X[17, 8, 18, 9], X[19, 6, 20, 7]]",
"PD[X[1, 4, 2, 5], X[5, 14, 6, 15], X[3, 13, 4, 12], X[13, 3, 14, 2], X[7, 16, 8, 17], X[9, 18, 10, 19], X[11, 20, 12, 1], X[15, 6, 16, 7], X[17, 8, 18, 9], X[19, 10, 20, 11]]",
"PD[X[1, 6, 2, 7], X[11, 16, 12, 17], X[5, 13, 6, 12], X[3, 15, 4, 14], X[13, 5, 14, 4], X[15, 3, 16, 2], X[7, 20, 8, 1], X[9, 18, 10, 19], X[17, 10, 18, 11], X[19, 8, 20, 9]]",
"PD[X[6, 2, 7, 1], X[16, 12, 17, 11], X[12, 3, 13, 4], X[2, 15, 3, 16], X[14, 5, 15, 6], X[20, 8, 1, 7], X[18, 10, 19, 9], X[4, 13, 5, 14], X[10, 18, 11, 17], X[8, 20, 9, 19]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[13, 1, 14, 20], X[5, 15, 6, 14], X[7, 17, 8, 16], X[9, 19, 10, 18], X[15, 7, 16, 6], X[17, 9, 18, 8], X[19, 11, 20, 10], X[11, 2, 12, 3]]",
"PD[X[1, 4, 2, 5], X[11, 14, 12, 15], X[3, 13, 4, 12], X[13, 3, 14, 2], X[5, 16, 6, 17], X[7, 18, 8, 19], X[9, 20, 10, 1], X[17, 6, 18, 7], X[19, 8, 20, 9], X[15, 10, 16, 11]]",
"PD[X[1, 4, 2, 5], X[5, 14, 6, 15], X[3, 13, 4, 12], X[13, 3, 14, 2], X[11, 20, 12, 1], X[19, 6, 20, 7], X[7, 18, 8, 19], X[9, 16, 10, 17], X[15, 10, 16, 11], X[17, 8, 18, 9]]",
"PD[X[1, 6, 2, 7], X[7, 16, 8, 17], X[5, 13, 6, 12], X[3, 15, 4, 14], X[13, 5, 14, 4], X[15, 3, 16, 2], X[9, 18, 10, 19], X[11, 20, 12, 1], X[17, 8, 18, 9], X[19, 10, 20, 11]]",
"PD[X[6, 2, 7, 1], X[16, 8, 17, 7], X[12, 3, 13, 4], X[2, 15, 3, 16], X[14, 5, 15, 6], X[4, 13, 5, 14], X[18, 10, 19, 9], X[20, 12, 1, 11], X[8, 18, 9, 17], X[10, 20, 11, 19]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[13, 1, 14, 20], X[5, 15, 6, 14], X[19, 7, 20, 6], X[7, 19, 8, 18], X[9, 17, 10, 16], X[15, 11, 16, 10], X[17, 9, 18, 8], X[11, 2, 12, 3]]",
"PD[X[1, 6, 2, 7], X[11, 16, 12, 17], X[5, 13, 6, 12], X[3, 15, 4, 14], X[13, 5, 14, 4], X[15, 3, 16, 2], X[7, 18, 8, 19], X[9, 20, 10, 1], X[19, 8, 20, 9], X[17, 10, 18, 11]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[13, 19, 14, 18], X[5, 15, 6, 14], X[7, 17, 8, 16], X[15, 7, 16, 6], X[17, 9, 18, 8], X[11, 1, 12, 20], X[19, 13, 20, 12], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[9, 12, 10, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[5, 18, 6, 19], X[13, 1, 14, 20], X[19, 15, 20, 14], X[7, 16, 8, 17], X[15, 8, 16, 9], X[17, 6, 18, 7]]",
"PD[X[1, 4, 2, 5], X[5, 12, 6, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[7, 16, 8, 17], X[13, 20, 14, 1], X[19, 14, 20, 15], X[9, 18, 10, 19], X[15, 6, 16, 7], X[17, 8, 18, 9]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[9, 14, 10, 15], X[13, 10, 14, 11], X[15, 1, 16, 20], X[5, 17, 6, 16], X[7, 19, 8, 18], X[17, 7, 18, 6], X[19, 9, 20, 8], X[11, 2, 12, 3]]",
"PD[X[6, 2, 7, 1], X[16, 8, 17, 7], X[12, 5, 13, 6], X[14, 3, 15, 4], X[4, 13, 5, 14], X[2, 15, 3, 16], X[20, 12, 1, 11], X[8, 20, 9, 19], X[18, 10, 19, 9], X[10, 18, 11, 17]]",
"PD[X[6, 2, 7, 1], X[12, 4, 13, 3], X[20, 15, 1, 16], X[16, 7, 17, 8], X[18, 9, 19, 10], X[8, 17, 9, 18], X[10, 19, 11, 20], X[14, 6, 15, 5], X[2, 12, 3, 11], X[4, 14, 5, 13]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[5, 14, 6, 15], X[15, 20, 16, 1], X[9, 17, 10, 16], X[7, 19, 8, 18], X[17, 9, 18, 8], X[19, 7, 20, 6], X[13, 10, 14, 11], X[11, 2, 12, 3]]",
"PD[X[1, 6, 2, 7], X[3, 12, 4, 13], X[15, 1, 16, 20], X[7, 17, 8, 16], X[19, 9, 20, 8], X[9, 19, 10, 18], X[17, 11, 18, 10], X[5, 14, 6, 15], X[11, 2, 12, 3], X[13, 4, 14, 5]]",
"PD[X[1, 4, 2, 5], X[11, 14, 12, 15], X[3, 13, 4, 12], X[13, 3, 14, 2], X[5, 18, 6, 19], X[7, 20, 8, 1], X[19, 6, 20, 7], X[9, 16, 10, 17], X[15, 10, 16, 11], X[17, 8, 18, 9]]",
"PD[X[1, 4, 2, 5], X[5, 14, 6, 15], X[3, 13, 4, 12], X[13, 3, 14, 2], X[7, 16, 8, 17], X[11, 20, 12, 1], X[15, 6, 16, 7], X[19, 8, 20, 9], X[9, 18, 10, 19], X[17, 10, 18, 11]]",
"PD[X[6, 2, 7, 1], X[16, 12, 17, 11], X[12, 3, 13, 4], X[2, 15, 3, 16], X[14, 5, 15, 6], X[18, 8, 19, 7], X[20, 10, 1, 9], X[8, 20, 9, 19], X[4, 13, 5, 14], X[10, 18, 11, 17]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[13, 1, 14, 20], X[5, 15, 6, 14], X[7, 17, 8, 16], X[15, 7, 16, 6], X[19, 9, 20, 8], X[9, 19, 10, 18], X[17, 11, 18, 10], X[11, 2, 12, 3]]",
"PD[X[1, 4, 2, 5], X[11, 14, 12, 15], X[3, 13, 4, 12], X[13, 3, 14, 2], X[5, 16, 6, 17], X[9, 20, 10, 1], X[19, 6, 20, 7], X[7, 18, 8, 19], X[17, 8, 18, 9], X[15, 10, 16, 11]]",
"PD[X[1, 4, 2, 5], X[5, 14, 6, 15], X[3, 13, 4, 12], X[13, 3, 14, 2], X[11, 20, 12, 1], X[19, 6, 20, 7], X[9, 18, 10, 19], X[7, 16, 8, 17], X[17, 8, 18, 9], X[15, 10, 16, 11]]",
"PD[X[6, 2, 7, 1], X[16, 8, 17, 7], X[12, 3, 13, 4], X[2, 15, 3, 16], X[14, 5, 15, 6], X[4, 13, 5, 14], X[20, 12, 1, 11], X[8, 20, 9, 19], X[18, 10, 19, 9], X[10, 18, 11, 17]]",
"PD[X[4, 2, 5, 1], X[12, 4, 13, 3], X[20, 13, 1, 14], X[14, 5, 15, 6], X[6, 19, 7, 20], X[18, 9, 19, 10], X[16, 7, 17, 8], X[8, 17, 9, 18], X[10, 15, 11, 16], X[2, 12, 3, 11]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[13, 19, 14, 18], X[5, 15, 6, 14], X[17, 7, 18, 6], X[7, 17, 8, 16], X[15, 9, 16, 8], X[11, 1, 12, 20], X[19, 13, 20, 12], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[9, 12, 10, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[5, 16, 6, 17], X[7, 18, 8, 19], X[13, 1, 14, 20], X[17, 6, 18, 7], X[19, 15, 20, 14], X[15, 8, 16, 9]]",
"PD[X[1, 4, 2, 5], X[5, 12, 6, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[9, 18, 10, 19], X[13, 20, 14, 1], X[19, 14, 20, 15], X[17, 6, 18, 7], X[7, 16, 8, 17], X[15, 8, 16, 9]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[9, 14, 10, 15], X[13, 10, 14, 11], X[15, 1, 16, 20], X[5, 17, 6, 16], X[19, 7, 20, 6], X[7, 19, 8, 18], X[17, 9, 18, 8], X[11, 2, 12, 3]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[5, 14, 6, 15], X[15, 20, 16, 1], X[7, 17, 8, 16], X[19, 7, 20, 6], X[9, 19, 10, 18], X[17, 9, 18, 8], X[13, 10, 14, 11], X[11, 2, 12, 3]]",
"PD[X[6, 2, 7, 1], X[14, 6, 15, 5], X[20, 15, 1, 16], X[16, 7, 17, 8], X[8, 19, 9, 20], X[18, 9, 19, 10], X[10, 17, 11, 18], X[2, 14, 3, 13], X[12, 4, 13, 3], X[4, 12, 5, 11]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[13, 17, 14, 16], X[5, 15, 6, 14], X[15, 7, 16, 6], X[9, 1, 10, 20], X[11, 19, 12, 18], X[17, 13, 18, 12], X[19, 11, 20, 10], X[7, 2, 8, 3]]",
"PD[X[1, 4, 2, 5], X[7, 10, 8, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[5, 16, 6, 17], X[11, 1, 12, 20], X[13, 19, 14, 18], X[17, 15, 18, 14], X[19, 13, 20, 12], X[15, 6, 16, 7]]",
"PD[X[1, 4, 2, 5], X[5, 10, 6, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[7, 16, 8, 17], X[11, 20, 12, 1], X[13, 18, 14, 19], X[17, 14, 18, 15], X[19, 12, 20, 13], X[15, 6, 16, 7]]",
"PD[X[4, 2, 5, 1], X[10, 4, 11, 3], X[12, 8, 13, 7], X[8, 12, 9, 11], X[18, 15, 19, 16], X[16, 5, 17, 6], X[6, 17, 7, 18], X[20, 13, 1, 14], X[14, 19, 15, 20], X[2, 10, 3, 9]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[5, 12, 6, 13], X[15, 18, 16, 19], X[7, 17, 8, 16], X[17, 7, 18, 6], X[13, 20, 14, 1], X[19, 14, 20, 15], X[11, 8, 12, 9], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[5, 12, 6, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[7, 14, 8, 15], X[9, 18, 10, 19], X[15, 20, 16, 1], X[19, 16, 20, 17], X[13, 6, 14, 7], X[17, 8, 18, 9]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[11, 1, 12, 20], X[5, 13, 6, 12], X[7, 17, 8, 16], X[15, 19, 16, 18], X[19, 15, 20, 14], X[13, 7, 14, 6], X[17, 9, 18, 8], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[5, 12, 6, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[9, 20, 10, 1], X[15, 19, 16, 18], X[13, 8, 14, 9], X[17, 6, 18, 7], X[7, 16, 8, 17], X[19, 15, 20, 14]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[11, 1, 12, 20], X[5, 13, 6, 12], X[15, 18, 16, 19], X[13, 9, 14, 8], X[17, 7, 18, 6], X[7, 17, 8, 16], X[19, 14, 20, 15], X[9, 2, 10, 3]]",
"PD[X[4, 2, 5, 1], X[10, 4, 11, 3], X[14, 8, 15, 7], X[20, 11, 1, 12], X[12, 19, 13, 20], X[8, 14, 9, 13], X[18, 15, 19, 16], X[16, 5, 17, 6], X[6, 17, 7, 18], X[2, 10, 3, 9]]",
"PD[X[1, 4, 2, 5], X[5, 12, 6, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[13, 20, 14, 1], X[9, 15, 10, 14], X[15, 18, 16, 19], X[7, 16, 8, 17], X[17, 8, 18, 9], X[19, 7, 20, 6]]",
"PD[X[4, 2, 5, 1], X[12, 6, 13, 5], X[10, 3, 11, 4], X[2, 11, 3, 12], X[20, 14, 1, 13], X[14, 7, 15, 8], X[6, 19, 7, 20], X[18, 15, 19, 16], X[16, 10, 17, 9], X[8, 18, 9, 17]]",
"PD[X[6, 2, 7, 1], X[8, 4, 9, 3], X[2, 8, 3, 7], X[16, 10, 17, 9], X[14, 5, 15, 6], X[4, 15, 5, 16], X[18, 12, 19, 11], X[20, 14, 1, 13], X[10, 18, 11, 17], X[12, 20, 13, 19]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[9, 17, 10, 16], X[5, 15, 6, 14], X[15, 7, 16, 6], X[11, 19, 12, 18], X[13, 1, 14, 20], X[17, 11, 18, 10], X[19, 13, 20, 12], X[7, 2, 8, 3]]",
"PD[X[6, 2, 7, 1], X[8, 4, 9, 3], X[14, 6, 15, 5], X[20, 15, 1, 16], X[16, 9, 17, 10], X[18, 11, 19, 12], X[10, 17, 11, 18], X[12, 19, 13, 20], X[2, 8, 3, 7], X[4, 14, 5, 13]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 14, 6, 15], X[15, 20, 16, 1], X[9, 16, 10, 17], X[11, 18, 12, 19], X[17, 10, 18, 11], X[19, 12, 20, 13], X[13, 6, 14, 7], X[7, 2, 8, 3]]",
"PD[X[6, 2, 7, 1], X[8, 4, 9, 3], X[2, 8, 3, 7], X[16, 10, 17, 9], X[14, 5, 15, 6], X[4, 15, 5, 16], X[20, 14, 1, 13], X[10, 20, 11, 19], X[18, 12, 19, 11], X[12, 18, 13, 17]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[9, 17, 10, 16], X[5, 15, 6, 14], X[15, 7, 16, 6], X[13, 1, 14, 20], X[19, 11, 20, 10], X[11, 19, 12, 18], X[17, 13, 18, 12], X[7, 2, 8, 3]]",
"PD[X[6, 2, 7, 1], X[8, 4, 9, 3], X[14, 6, 15, 5], X[20, 15, 1, 16], X[16, 9, 17, 10], X[10, 19, 11, 20], X[18, 11, 19, 12], X[12, 17, 13, 18], X[2, 8, 3, 7], X[4, 14, 5, 13]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 14, 6, 15], X[15, 20, 16, 1], X[9, 16, 10, 17], X[19, 10, 20, 11], X[11, 18, 12, 19], X[17, 12, 18, 13], X[13, 6, 14, 7], X[7, 2, 8, 3]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[7, 12, 8, 13], X[11, 8, 12, 9], X[13, 19, 14, 18], X[5, 17, 6, 16], X[17, 7, 18, 6], X[15, 1, 16, 20], X[19, 15, 20, 14], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 12, 6, 13], X[15, 18, 16, 19], X[9, 16, 10, 17], X[17, 10, 18, 11], X[13, 20, 14, 1], X[19, 14, 20, 15], X[11, 6, 12, 7], X[7, 2, 8, 3]]",
"PD[X[4, 2, 5, 1], X[10, 4, 11, 3], X[12, 6, 13, 5], X[18, 14, 19, 13], X[16, 7, 17, 8], X[6, 17, 7, 18], X[20, 16, 1, 15], X[14, 20, 15, 19], X[8, 12, 9, 11], X[2, 10, 3, 9]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[9, 15, 10, 14], X[5, 13, 6, 12], X[13, 7, 14, 6], X[11, 19, 12, 18], X[15, 1, 16, 20], X[19, 17, 20, 16], X[17, 11, 18, 10], X[7, 2, 8, 3]]",
"PD[X[1, 4, 2, 5], X[7, 10, 8, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[5, 14, 6, 15], X[11, 19, 12, 18], X[15, 20, 16, 1], X[19, 16, 20, 17], X[17, 13, 18, 12], X[13, 6, 14, 7]]",
"PD[X[4, 2, 5, 1], X[10, 6, 11, 5], X[8, 3, 9, 4], X[2, 9, 3, 10], X[14, 8, 15, 7], X[18, 12, 19, 11], X[20, 15, 1, 16], X[16, 19, 17, 20], X[12, 18, 13, 17], X[6, 14, 7, 13]]",
"PD[X[4, 2, 5, 1], X[10, 6, 11, 5], X[8, 3, 9, 4], X[2, 9, 3, 10], X[16, 12, 17, 11], X[14, 7, 15, 8], X[6, 15, 7, 16], X[20, 18, 1, 17], X[18, 13, 19, 14], X[12, 19, 13, 20]]",
"PD[X[8, 2, 9, 1], X[10, 4, 11, 3], X[2, 10, 3, 9], X[18, 12, 19, 11], X[14, 7, 15, 8], X[16, 5, 17, 6], X[6, 15, 7, 16], X[4, 17, 5, 18], X[20, 14, 1, 13], X[12, 20, 13, 19]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[11, 19, 12, 18], X[5, 15, 6, 14], X[7, 17, 8, 16], X[15, 7, 16, 6], X[17, 9, 18, 8], X[13, 1, 14, 20], X[19, 13, 20, 12], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[5, 16, 6, 17], X[17, 20, 18, 1], X[11, 18, 12, 19], X[19, 12, 20, 13], X[7, 14, 8, 15], X[13, 8, 14, 9], X[15, 6, 16, 7], X[9, 2, 10, 3]]",
"PD[X[8, 2, 9, 1], X[10, 4, 11, 3], X[2, 10, 3, 9], X[18, 12, 19, 11], X[14, 5, 15, 6], X[4, 17, 5, 18], X[16, 7, 17, 8], X[6, 15, 7, 16], X[20, 14, 1, 13], X[12, 20, 13, 19]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[11, 19, 12, 18], X[5, 15, 6, 14], X[17, 7, 18, 6], X[7, 17, 8, 16], X[15, 9, 16, 8], X[13, 1, 14, 20], X[19, 13, 20, 12], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[5, 14, 6, 15], X[7, 16, 8, 17], X[15, 6, 16, 7], X[17, 20, 18, 1], X[11, 18, 12, 19], X[19, 12, 20, 13], X[13, 8, 14, 9], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[7, 12, 8, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[5, 14, 6, 15], X[13, 6, 14, 7], X[9, 18, 10, 19], X[15, 20, 16, 1], X[19, 16, 20, 17], X[17, 8, 18, 9]]",
"PD[X[4, 2, 5, 1], X[12, 4, 13, 3], X[20, 13, 1, 14], X[16, 5, 17, 6], X[8, 19, 9, 20], X[18, 9, 19, 10], X[10, 17, 11, 18], X[14, 7, 15, 8], X[6, 15, 7, 16], X[2, 12, 3, 11]]",
"PD[X[1, 4, 2, 5], X[7, 12, 8, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[13, 17, 14, 16], X[5, 15, 6, 14], X[15, 7, 16, 6], X[17, 20, 18, 1], X[9, 19, 10, 18], X[19, 9, 20, 8]]",
"PD[X[1, 4, 2, 5], X[7, 10, 8, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[5, 16, 6, 17], X[11, 19, 12, 18], X[13, 1, 14, 20], X[19, 13, 20, 12], X[17, 15, 18, 14], X[15, 6, 16, 7]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[11, 15, 12, 14], X[5, 13, 6, 12], X[13, 7, 14, 6], X[9, 19, 10, 18], X[15, 20, 16, 1], X[19, 16, 20, 17], X[17, 11, 18, 10], X[7, 2, 8, 3]]",
"PD[X[4, 2, 5, 1], X[10, 6, 11, 5], X[8, 3, 9, 4], X[2, 9, 3, 10], X[16, 8, 17, 7], X[18, 12, 19, 11], X[20, 14, 1, 13], X[12, 20, 13, 19], X[14, 18, 15, 17], X[6, 16, 7, 15]]",
"PD[X[4, 2, 5, 1], X[10, 6, 11, 5], X[8, 3, 9, 4], X[2, 9, 3, 10], X[16, 14, 17, 13], X[14, 7, 15, 8], X[6, 15, 7, 16], X[20, 17, 1, 18], X[18, 11, 19, 12], X[12, 19, 13, 20]]",
"PD[X[1, 4, 2, 5], X[5, 14, 6, 15], X[3, 13, 4, 12], X[13, 3, 14, 2], X[11, 18, 12, 19], X[9, 20, 10, 1], X[19, 10, 20, 11], X[17, 6, 18, 7], X[7, 16, 8, 17], X[15, 8, 16, 9]]",
"PD[X[1, 4, 2, 5], X[5, 12, 6, 13], X[3, 11, 4, 10], X[11, 3, 12, 2], X[13, 16, 14, 17], X[7, 15, 8, 14], X[15, 7, 16, 6], X[17, 20, 18, 1], X[9, 19, 10, 18], X[19, 9, 20, 8]]",
"PD[X[4, 2, 5, 1], X[14, 10, 15, 9], X[12, 3, 13, 4], X[2, 13, 3, 14], X[18, 6, 19, 5], X[20, 8, 1, 7], X[6, 20, 7, 19], X[8, 18, 9, 17], X[16, 12, 17, 11], X[10, 16, 11, 15]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[13, 17, 14, 16], X[5, 15, 6, 14], X[15, 7, 16, 6], X[9, 19, 10, 18], X[11, 1, 12, 20], X[19, 11, 20, 10], X[17, 13, 18, 12], X[7, 2, 8, 3]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 14, 6, 15], X[11, 17, 12, 16], X[15, 13, 16, 12], X[17, 20, 18, 1], X[9, 18, 10, 19], X[19, 10, 20, 11], X[13, 6, 14, 7], X[7, 2, 8, 3]]",
"PD[X[6, 2, 7, 1], X[8, 4, 9, 3], X[12, 6, 13, 5], X[18, 13, 19, 14], X[16, 9, 17, 10], X[10, 17, 11, 18], X[20, 15, 1, 16], X[14, 19, 15, 20], X[2, 8, 3, 7], X[4, 12, 5, 11]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 12, 6, 13], X[13, 18, 14, 19], X[9, 16, 10, 17], X[17, 10, 18, 11], X[15, 20, 16, 1], X[19, 14, 20, 15], X[11, 6, 12, 7], X[7, 2, 8, 3]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[12, 6, 13, 5], X[16, 9, 17, 10], X[20, 17, 1, 18], X[18, 13, 19, 14], X[14, 19, 15, 20], X[10, 15, 11, 16], X[6, 12, 7, 11], X[2, 8, 3, 7]]",
"PD[X[1, 6, 2, 7], X[7, 16, 8, 17], X[3, 9, 4, 8], X[15, 3, 16, 2], X[5, 15, 6, 14], X[9, 5, 10, 4], X[11, 18, 12, 19], X[13, 20, 14, 1], X[17, 10, 18, 11], X[19, 12, 20, 13]]",
"PD[X[1, 6, 2, 7], X[5, 16, 6, 17], X[13, 1, 14, 20], X[7, 15, 8, 14], X[3, 9, 4, 8], X[9, 5, 10, 4], X[19, 11, 20, 10], X[11, 19, 12, 18], X[17, 13, 18, 12], X[15, 2, 16, 3]]",
"PD[X[4, 2, 5, 1], X[10, 4, 11, 3], X[8, 12, 9, 11], X[20, 15, 1, 16], X[16, 5, 17, 6], X[12, 18, 13, 17], X[14, 8, 15, 7], X[18, 14, 19, 13], X[6, 19, 7, 20], X[2, 10, 3, 9]]",
"PD[X[6, 2, 7, 1], X[16, 6, 17, 5], X[18, 11, 19, 12], X[14, 7, 15, 8], X[8, 3, 9, 4], X[4, 9, 5, 10], X[20, 13, 1, 14], X[10, 17, 11, 18], X[12, 19, 13, 20], X[2, 16, 3, 15]]",
"PD[X[6, 2, 7, 1], X[16, 8, 17, 7], X[8, 3, 9, 4], X[2, 15, 3, 16], X[14, 5, 15, 6], X[4, 9, 5, 10], X[20, 14, 1, 13], X[10, 20, 11, 19], X[18, 12, 19, 11], X[12, 18, 13, 17]]",
"PD[X[4, 2, 5, 1], X[10, 4, 11, 3], X[14, 6, 15, 5], X[20, 16, 1, 15], X[16, 7, 17, 8], X[6, 19, 7, 20], X[8, 12, 9, 11], X[18, 13, 19, 14], X[12, 17, 13, 18], X[2, 10, 3, 9]]",
"PD[X[4, 2, 5, 1], X[20, 14, 1, 13], X[8, 3, 9, 4], X[2, 9, 3, 10], X[14, 7, 15, 8], X[18, 15, 19, 16], X[12, 6, 13, 5], X[10, 18, 11, 17], X[16, 12, 17, 11], X[6, 19, 7, 20]]",
"PD[X[4, 2, 5, 1], X[12, 8, 13, 7], X[8, 3, 9, 4], X[2, 9, 3, 10], X[20, 13, 1, 14], X[14, 5, 15, 6], X[6, 19, 7, 20], X[18, 16, 19, 15], X[16, 11, 17, 12], X[10, 17, 11, 18]]",
"PD[X[6, 2, 7, 1], X[2, 8, 3, 7], X[18, 14, 19, 13], X[14, 5, 15, 6], X[20, 12, 1, 11], X[12, 20, 13, 19], X[8, 15, 9, 16], X[10, 4, 11, 3], X[16, 9, 17, 10], X[4, 17, 5, 18]]",
"PD[X[6, 2, 7, 1], X[20, 6, 1, 5], X[16, 9, 17, 10], X[10, 3, 11, 4], X[2, 18, 3, 17], X[14, 7, 15, 8], X[8, 15, 9, 16], X[12, 20, 13, 19], X[18, 12, 19, 11], X[4, 13, 5, 14]]",
"PD[X[4, 2, 5, 1], X[10, 4, 11, 3], X[14, 6, 15, 5], X[20, 16, 1, 15], X[16, 12, 17, 11], X[18, 7, 19, 8], X[12, 18, 13, 17], X[6, 19, 7, 20], X[8, 14, 9, 13], X[2, 10, 3, 9]]",
"PD[X[6, 2, 7, 1], X[16, 6, 17, 5], X[20, 8, 1, 7], X[18, 13, 19, 14], X[14, 9, 15, 10], X[10, 3, 11, 4], X[4, 11, 5, 12], X[12, 17, 13, 18], X[8, 20, 9, 19], X[2, 16, 3, 15]]",
"PD[X[6, 2, 7, 1], X[2, 8, 3, 7], X[18, 12, 19, 11], X[14, 5, 15, 6], X[20, 14, 1, 13], X[8, 15, 9, 16], X[10, 4, 11, 3], X[16, 9, 17, 10], X[4, 17, 5, 18], X[12, 20, 13, 19]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[11, 17, 12, 16], X[15, 9, 16, 8], X[19, 7, 20, 6], X[5, 15, 6, 14], X[7, 19, 8, 18], X[13, 1, 14, 20], X[17, 13, 18, 12], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[5, 18, 6, 19], X[3, 9, 4, 8], X[9, 3, 10, 2], X[11, 17, 12, 16], X[7, 12, 8, 13], X[15, 6, 16, 7], X[17, 11, 18, 10], X[13, 1, 14, 20], X[19, 15, 20, 14]]",
"PD[X[4, 2, 5, 1], X[12, 6, 13, 5], X[8, 3, 9, 4], X[2, 9, 3, 10], X[16, 12, 17, 11], X[10, 18, 11, 17], X[18, 8, 19, 7], X[20, 14, 1, 13], X[14, 20, 15, 19], X[6, 16, 7, 15]]",
"PD[X[1, 6, 2, 7], X[3, 10, 4, 11], X[7, 18, 8, 19], X[17, 8, 18, 9], X[9, 2, 10, 3], X[11, 16, 12, 17], X[5, 15, 6, 14], X[15, 5, 16, 4], X[13, 20, 14, 1], X[19, 12, 20, 13]]",
"PD[X[6, 2, 7, 1], X[10, 4, 11, 3], X[16, 11, 17, 12], X[14, 7, 15, 8], X[8, 15, 9, 16], X[20, 13, 1, 14], X[12, 19, 13, 20], X[18, 6, 19, 5], X[2, 10, 3, 9], X[4, 18, 5, 17]]",
"PD[X[6, 2, 7, 1], X[18, 6, 19, 5], X[20, 13, 1, 14], X[14, 7, 15, 8], X[10, 3, 11, 4], X[16, 9, 17, 10], X[4, 11, 5, 12], X[8, 15, 9, 16], X[12, 19, 13, 20], X[2, 18, 3, 17]]",
"PD[X[4, 2, 5, 1], X[10, 4, 11, 3], X[14, 6, 15, 5], X[20, 16, 1, 15], X[16, 12, 17, 11], X[12, 20, 13, 19], X[18, 8, 19, 7], X[6, 14, 7, 13], X[8, 18, 9, 17], X[2, 10, 3, 9]]",
"PD[X[6, 2, 7, 1], X[16, 10, 17, 9], X[10, 3, 11, 4], X[2, 15, 3, 16], X[14, 5, 15, 6], X[18, 8, 19, 7], X[4, 11, 5, 12], X[8, 18, 9, 17], X[20, 14, 1, 13], X[12, 20, 13, 19]]",
"PD[X[6, 2, 7, 1], X[18, 6, 19, 5], X[20, 13, 1, 14], X[16, 7, 17, 8], X[10, 3, 11, 4], X[4, 11, 5, 12], X[14, 9, 15, 10], X[8, 15, 9, 16], X[12, 19, 13, 20], X[2, 18, 3, 17]]",
"PD[X[6, 2, 7, 1], X[16, 4, 17, 3], X[18, 9, 19, 10], X[14, 7, 15, 8], X[20, 13, 1, 14], X[8, 17, 9, 18], X[10, 19, 11, 20], X[12, 6, 13, 5], X[4, 12, 5, 11], X[2, 16, 3, 15]]",
"PD[X[4, 2, 5, 1], X[12, 4, 13, 3], X[20, 8, 1, 7], X[16, 5, 17, 6], X[6, 15, 7, 16], X[10, 17, 11, 18], X[18, 9, 19, 10], X[8, 14, 9, 13], X[14, 20, 15, 19], X[2, 12, 3, 11]]",
"PD[X[6, 2, 7, 1], X[16, 8, 17, 7], X[10, 3, 11, 4], X[2, 15, 3, 16], X[14, 5, 15, 6], X[4, 11, 5, 12], X[18, 10, 19, 9], X[20, 14, 1, 13], X[8, 18, 9, 17], X[12, 20, 13, 19]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[7, 14, 8, 15], X[9, 19, 10, 18], X[19, 7, 20, 6], X[5, 17, 6, 16], X[17, 11, 18, 10], X[13, 8, 14, 9], X[15, 1, 16, 20], X[11, 2, 12, 3]]",
"PD[X[6, 2, 7, 1], X[16, 4, 17, 3], X[20, 13, 1, 14], X[14, 7, 15, 8], X[8, 19, 9, 20], X[18, 9, 19, 10], X[10, 17, 11, 18], X[12, 6, 13, 5], X[4, 12, 5, 11], X[2, 16, 3, 15]]",
"PD[X[6, 2, 7, 1], X[10, 4, 11, 3], X[18, 11, 19, 12], X[16, 7, 17, 8], X[8, 17, 9, 18], X[20, 15, 1, 16], X[12, 19, 13, 20], X[14, 6, 15, 5], X[2, 10, 3, 9], X[4, 14, 5, 13]]",
"PD[X[1, 6, 2, 7], X[7, 20, 8, 1], X[3, 11, 4, 10], X[5, 16, 6, 17], X[17, 8, 18, 9], X[9, 14, 10, 15], X[11, 3, 12, 2], X[15, 4, 16, 5], X[13, 19, 14, 18], X[19, 13, 20, 12]]",
"PD[X[6, 2, 7, 1], X[10, 4, 11, 3], X[14, 8, 15, 7], X[8, 14, 9, 13], X[2, 10, 3, 9], X[18, 12, 19, 11], X[16, 5, 17, 6], X[4, 17, 5, 18], X[20, 16, 1, 15], X[12, 20, 13, 19]]",
"PD[X[6, 2, 7, 1], X[8, 3, 9, 4], X[18, 11, 19, 12], X[20, 13, 1, 14], X[2, 16, 3, 15], X[4, 17, 5, 18], X[12, 19, 13, 20], X[10, 6, 11, 5], X[14, 7, 15, 8], X[16, 10, 17, 9]]",
"PD[X[4, 2, 5, 1], X[10, 4, 11, 3], X[14, 6, 15, 5], X[20, 16, 1, 15], X[12, 7, 13, 8], X[8, 18, 9, 17], X[6, 19, 7, 20], X[16, 12, 17, 11], X[18, 13, 19, 14], X[2, 10, 3, 9]]",
"PD[X[6, 2, 7, 1], X[8, 3, 9, 4], X[18, 13, 19, 14], X[20, 11, 1, 12], X[12, 19, 13, 20], X[2, 16, 3, 15], X[4, 17, 5, 18], X[10, 6, 11, 5], X[14, 7, 15, 8], X[16, 10, 17, 9]]",
"PD[X[6, 2, 7, 1], X[14, 6, 15, 5], X[20, 15, 1, 16], X[16, 7, 17, 8], X[8, 19, 9, 20], X[18, 11, 19, 12], X[10, 4, 11, 3], X[4, 10, 5, 9], X[12, 17, 13, 18], X[2, 14, 3, 13]]",
"PD[X[6, 2, 7, 1], X[16, 3, 17, 4], X[14, 7, 15, 8], X[8, 15, 9, 16], X[10, 18, 11, 17], X[18, 6, 19, 5], X[20, 13, 1, 14], X[12, 19, 13, 20], X[2, 10, 3, 9], X[4, 11, 5, 12]]",
"PD[X[1, 6, 2, 7], X[5, 16, 6, 17], X[13, 1, 14, 20], X[7, 15, 8, 14], X[19, 9, 20, 8], X[3, 11, 4, 10], X[11, 5, 12, 4], X[9, 19, 10, 18], X[17, 13, 18, 12], X[15, 2, 16, 3]]",
"PD[X[6, 2, 7, 1], X[18, 6, 19, 5], X[20, 13, 1, 14], X[12, 19, 13, 20], X[14, 7, 15, 8], X[8, 3, 9, 4], X[2, 16, 3, 15], X[10, 18, 11, 17], X[16, 10, 17, 9], X[4, 11, 5, 12]]",
"PD[X[1, 6, 2, 7], X[7, 18, 8, 19], X[3, 9, 4, 8], X[17, 3, 18, 2], X[5, 15, 6, 14], X[9, 17, 10, 16], X[15, 11, 16, 10], X[11, 5, 12, 4], X[13, 20, 14, 1], X[19, 12, 20, 13]]",
"PD[X[1, 6, 2, 7], X[5, 18, 6, 19], X[13, 20, 14, 1], X[11, 16, 12, 17], X[3, 10, 4, 11], X[7, 12, 8, 13], X[9, 4, 10, 5], X[15, 8, 16, 9], X[19, 14, 20, 15], X[17, 2, 18, 3]]",
"PD[X[1, 6, 2, 7], X[7, 20, 8, 1], X[9, 19, 10, 18], X[3, 11, 4, 10], X[17, 5, 18, 4], X[5, 12, 6, 13], X[11, 16, 12, 17], X[19, 14, 20, 15], X[13, 8, 14, 9], X[15, 2, 16, 3]]",
"PD[X[1, 6, 2, 7], X[7, 15, 8, 14], X[15, 2, 16, 3], X[5, 12, 6, 13], X[9, 19, 10, 18], X[3, 11, 4, 10], X[17, 5, 18, 4], X[19, 9, 20, 8], X[11, 16, 12, 17], X[13, 1, 14, 20]]",
"PD[X[8, 2, 9, 1], X[10, 3, 11, 4], X[12, 6, 13, 5], X[4, 18, 5, 17], X[18, 11, 19, 12], X[2, 15, 3, 16], X[16, 10, 17, 9], X[20, 14, 1, 13], X[14, 7, 15, 8], X[6, 19, 7, 20]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[9, 17, 10, 16], X[5, 15, 6, 14], X[15, 7, 16, 6], X[11, 19, 12, 18], X[13, 1, 14, 20], X[17, 11, 18, 10], X[19, 13, 20, 12], X[2, 8, 3, 7]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 14, 6, 15], X[20, 16, 1, 15], X[16, 10, 17, 9], X[18, 12, 19, 11], X[10, 18, 11, 17], X[12, 20, 13, 19], X[13, 6, 14, 7], X[7, 2, 8, 3]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[5, 14, 6, 15], X[15, 20, 16, 1], X[9, 16, 10, 17], X[11, 18, 12, 19], X[17, 10, 18, 11], X[19, 12, 20, 13], X[13, 6, 14, 7], X[2, 8, 3, 7]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[14, 6, 15, 5], X[15, 20, 16, 1], X[9, 16, 10, 17], X[11, 18, 12, 19], X[17, 10, 18, 11], X[19, 12, 20, 13], X[6, 14, 7, 13], X[7, 2, 8, 3]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[9, 17, 10, 16], X[5, 15, 6, 14], X[15, 7, 16, 6], X[13, 1, 14, 20], X[19, 11, 20, 10], X[11, 19, 12, 18], X[17, 13, 18, 12], X[2, 8, 3, 7]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[5, 14, 6, 15], X[20, 16, 1, 15], X[16, 10, 17, 9], X[10, 20, 11, 19], X[18, 12, 19, 11], X[12, 18, 13, 17], X[13, 6, 14, 7], X[7, 2, 8, 3]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[5, 14, 6, 15], X[15, 20, 16, 1], X[9, 16, 10, 17], X[19, 10, 20, 11], X[11, 18, 12, 19], X[17, 12, 18, 13], X[13, 6, 14, 7], X[2, 8, 3, 7]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[14, 6, 15, 5], X[15, 20, 16, 1], X[9, 16, 10, 17], X[19, 10, 20, 11], X[11, 18, 12, 19], X[17, 12, 18, 13], X[6, 14, 7, 13], X[7, 2, 8, 3]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[5, 12, 6, 13], X[15, 18, 16, 19], X[9, 16, 10, 17], X[17, 10, 18, 11], X[13, 20, 14, 1], X[19, 14, 20, 15], X[11, 6, 12, 7], X[2, 8, 3, 7]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[14, 9, 15, 10], X[5, 13, 6, 12], X[13, 7, 14, 6], X[18, 11, 19, 12], X[20, 15, 1, 16], X[16, 19, 17, 20], X[10, 17, 11, 18], X[7, 2, 8, 3]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[9, 15, 10, 14], X[5, 13, 6, 12], X[13, 7, 14, 6], X[11, 19, 12, 18], X[15, 1, 16, 20], X[19, 17, 20, 16], X[17, 11, 18, 10], X[2, 8, 3, 7]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[9, 15, 10, 14], X[12, 5, 13, 6], X[6, 13, 7, 14], X[11, 19, 12, 18], X[15, 1, 16, 20], X[19, 17, 20, 16], X[17, 11, 18, 10], X[7, 2, 8, 3]]",
"PD[X[1, 4, 2, 5], X[5, 10, 6, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[14, 8, 15, 7], X[18, 12, 19, 11], X[20, 15, 1, 16], X[16, 19, 17, 20], X[12, 18, 13, 17], X[6, 14, 7, 13]]",
"PD[X[1, 4, 2, 5], X[5, 10, 6, 11], X[3, 9, 4, 8], X[9, 3, 10, 2], X[16, 12, 17, 11], X[14, 7, 15, 8], X[6, 15, 7, 16], X[20, 18, 1, 17], X[18, 13, 19, 14], X[12, 19, 13, 20]]",
"PD[X[4, 2, 5, 1], X[10, 6, 11, 5], X[8, 3, 9, 4], X[2, 9, 3, 10], X[16, 12, 17, 11], X[7, 15, 8, 14], X[15, 7, 16, 6], X[20, 18, 1, 17], X[18, 13, 19, 14], X[12, 19, 13, 20]]",
"PD[X[4, 2, 5, 1], X[10, 4, 11, 3], X[11, 19, 12, 18], X[5, 15, 6, 14], X[7, 17, 8, 16], X[15, 7, 16, 6], X[17, 9, 18, 8], X[13, 1, 14, 20], X[19, 13, 20, 12], X[2, 10, 3, 9]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[11, 19, 12, 18], X[14, 5, 15, 6], X[6, 17, 7, 18], X[16, 7, 17, 8], X[8, 15, 9, 16], X[13, 1, 14, 20], X[19, 13, 20, 12], X[9, 2, 10, 3]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[14, 6, 15, 5], X[16, 8, 17, 7], X[6, 16, 7, 15], X[17, 20, 18, 1], X[11, 18, 12, 19], X[19, 12, 20, 13], X[8, 14, 9, 13], X[9, 2, 10, 3]]",
"PD[X[4, 2, 5, 1], X[10, 4, 11, 3], X[11, 19, 12, 18], X[5, 15, 6, 14], X[17, 7, 18, 6], X[7, 17, 8, 16], X[15, 9, 16, 8], X[13, 1, 14, 20], X[19, 13, 20, 12], X[2, 10, 3, 9]]",
"PD[X[4, 2, 5, 1], X[10, 4, 11, 3], X[5, 14, 6, 15], X[7, 16, 8, 17], X[15, 6, 16, 7], X[17, 20, 18, 1], X[11, 18, 12, 19], X[19, 12, 20, 13], X[13, 8, 14, 9], X[2, 10, 3, 9]]",
"PD[X[1, 4, 2, 5], X[3, 10, 4, 11], X[18, 11, 19, 12], X[5, 15, 6, 14], X[17, 7, 18, 6], X[7, 17, 8, 16], X[15, 9, 16, 8], X[20, 13, 1, 14], X[12, 19, 13, 20], X[9, 2, 10, 3]]",
"PD[X[4, 2, 5, 1], X[5, 12, 6, 13], X[8, 3, 9, 4], X[2, 9, 3, 10], X[11, 16, 12, 17], X[17, 10, 18, 11], X[7, 18, 8, 19], X[13, 20, 14, 1], X[19, 14, 20, 15], X[15, 6, 16, 7]]",
"PD[X[4, 2, 5, 1], X[5, 18, 6, 19], X[8, 3, 9, 4], X[2, 9, 3, 10], X[11, 17, 12, 16], X[7, 12, 8, 13], X[15, 6, 16, 7], X[17, 11, 18, 10], X[13, 1, 14, 20], X[19, 15, 20, 14]]",
"PD[X[4, 2, 5, 1], X[10, 4, 11, 3], X[5, 14, 6, 15], X[15, 20, 16, 1], X[12, 7, 13, 8], X[8, 18, 9, 17], X[19, 7, 20, 6], X[16, 12, 17, 11], X[18, 13, 19, 14], X[2, 10, 3, 9]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[5, 12, 6, 13], X[13, 18, 14, 19], X[9, 16, 10, 17], X[17, 10, 18, 11], X[15, 20, 16, 1], X[19, 14, 20, 15], X[11, 6, 12, 7], X[2, 8, 3, 7]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[12, 6, 13, 5], X[13, 18, 14, 19], X[9, 16, 10, 17], X[17, 10, 18, 11], X[15, 20, 16, 1], X[19, 14, 20, 15], X[6, 12, 7, 11], X[7, 2, 8, 3]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[5, 12, 6, 13], X[9, 17, 10, 16], X[17, 1, 18, 20], X[13, 19, 14, 18], X[19, 15, 20, 14], X[15, 11, 16, 10], X[11, 6, 12, 7], X[2, 8, 3, 7]]",
"PD[X[1, 4, 2, 5], X[3, 8, 4, 9], X[12, 6, 13, 5], X[9, 17, 10, 16], X[17, 1, 18, 20], X[13, 19, 14, 18], X[19, 15, 20, 14], X[15, 11, 16, 10], X[6, 12, 7, 11], X[7, 2, 8, 3]]",
"PD[X[1, 6, 2, 7], X[3, 8, 4, 9], X[5, 12, 6, 13], X[18, 13, 19, 14], X[16, 9, 17, 10], X[10, 17, 11, 18], X[20, 15, 1, 16], X[14, 19, 15, 20], X[7, 2, 8, 3], X[11, 4, 12, 5]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[12, 6, 13, 5], X[13, 18, 14, 19], X[9, 16, 10, 17], X[17, 10, 18, 11], X[15, 20, 16, 1], X[19, 14, 20, 15], X[6, 12, 7, 11], X[2, 8, 3, 7]]",
"PD[X[4, 2, 5, 1], X[8, 4, 9, 3], X[12, 6, 13, 5], X[9, 17, 10, 16], X[17, 1, 18, 20], X[13, 19, 14, 18], X[19, 15, 20, 14], X[15, 11, 16, 10], X[6, 12, 7, 11], X[2, 8, 3, 7]]",
"PD[X[1, 6, 2, 7], X[7, 16, 8, 17], X[3, 11, 4, 10], X[15, 3, 16, 2], X[5, 15, 6, 14], X[11, 5, 12, 4], X[9, 18, 10, 19], X[20, 14, 1, 13], X[17, 8, 18, 9], X[12, 20, 13, 19]]",
"PD[X[4, 2, 5, 1], X[12, 4, 13, 3], X[7, 14, 8, 15], X[18, 9, 19, 10], X[6, 19, 7, 20], X[16, 5, 17, 6], X[10, 17, 11, 18], X[13, 8, 14, 9], X[20, 15, 1, 16], X[2, 12, 3, 11]]",
"PD[X[1, 6, 2, 7], X[10, 4, 11, 3], X[16, 11, 17, 12], X[7, 15, 8, 14], X[15, 9, 16, 8], X[13, 1, 14, 20], X[19, 13, 20, 12], X[18, 6, 19, 5], X[2, 10, 3, 9], X[4, 18, 5, 17]]",
"PD[X[6, 2, 7, 1], X[3, 10, 4, 11], X[14, 8, 15, 7], X[8, 14, 9, 13], X[9, 2, 10, 3], X[11, 18, 12, 19], X[5, 17, 6, 16], X[17, 5, 18, 4], X[20, 16, 1, 15], X[19, 12, 20, 13]]",
"PD[X[1, 6, 2, 7], X[3, 9, 4, 8], X[18, 11, 19, 12], X[20, 13, 1, 14], X[15, 2, 16, 3], X[17, 5, 18, 4], X[12, 19, 13, 20], X[5, 10, 6, 11], X[7, 15, 8, 14], X[9, 16, 10, 17]]",
"PD[X[4, 2, 5, 1], X[12, 4, 13, 3], X[7, 14, 8, 15], X[9, 19, 10, 18], X[19, 7, 20, 6], X[5, 17, 6, 16], X[17, 11, 18, 10], X[13, 8, 14, 9], X[15, 1, 16, 20], X[2, 12, 3, 11]]",
"PD[X[1, 4, 2, 5], X[3, 12, 4, 13], X[7, 14, 8, 15], X[18, 9, 19, 10], X[6, 19, 7, 20], X[16, 5, 17, 6], X[10, 17, 11, 18], X[13, 8, 14, 9], X[20, 15, 1, 16], X[11, 2, 12, 3]]",
"PD[X[6, 2, 7, 1], X[16, 10, 17, 9], X[10, 3, 11, 4], X[2, 15, 3, 16], X[14, 5, 15, 6], X[18, 8, 19, 7], X[4, 11, 5, 12], X[8, 18, 9, 17], X[13, 20, 14, 1], X[19, 12, 20, 13]]",
"PD[X[6, 2, 7, 1], X[8, 3, 9, 4], X[13, 19, 14, 18], X[11, 1, 12, 20], X[19, 13, 20, 12], X[2, 16, 3, 15], X[4, 17, 5, 18], X[10, 6, 11, 5], X[14, 7, 15, 8], X[16, 10, 17, 9]]",
"PD[X[6, 2, 7, 1], X[14, 7, 15, 8], X[15, 2, 16, 3], X[5, 12, 6, 13], X[9, 19, 10, 18], X[3, 11, 4, 10], X[17, 5, 18, 4], X[19, 9, 20, 8], X[11, 16, 12, 17], X[20, 13, 1, 14]]",
"PD[X[1, 6, 2, 7], X[7, 18, 8, 19], X[3, 9, 4, 8], X[17, 3, 18, 2], X[5, 15, 6, 14], X[9, 17, 10, 16], X[15, 11, 16, 10], X[11, 5, 12, 4], X[20, 14, 1, 13], X[12, 20, 13, 19]]"};
