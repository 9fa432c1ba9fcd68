package videoh

// Code words of ISO/IEC 13818-2 annex B: "code value" with run*64+level for
// coefficients, -1 for the end of block and -2 for the escape.

var vlcCoefNext = []vlc{
	{"10", -1}, {"11", 1}, {"011", 65}, {"0100", 2}, {"0101", 129}, {"00101", 3},
	{"00110", 257}, {"00111", 193}, {"000001", -2}, {"000100", 449}, {"000101", 385}, {"000110", 66},
	{"000111", 321}, {"0000100", 130}, {"0000101", 577}, {"0000110", 4}, {"0000111", 513}, {"00100000", 833},
	{"00100001", 6}, {"00100010", 769}, {"00100011", 705}, {"00100100", 194}, {"00100101", 67}, {"00100110", 5},
	{"00100111", 641}, {"0000001000", 1025}, {"0000001001", 322}, {"0000001010", 7}, {"0000001011", 131}, {"0000001100", 68},
	{"0000001101", 961}, {"0000001110", 897}, {"0000001111", 258}, {"000000010000", 11}, {"000000010001", 514}, {"000000010010", 259},
	{"000000010011", 10}, {"000000010100", 132}, {"000000010101", 450}, {"000000010110", 1345}, {"000000010111", 1281}, {"000000011000", 9},
	{"000000011001", 1217}, {"000000011010", 1153}, {"000000011011", 69}, {"000000011100", 195}, {"000000011101", 8}, {"000000011110", 386},
	{"000000011111", 1089}, {"0000000010000", 642}, {"0000000010001", 578}, {"0000000010010", 323}, {"0000000010011", 196}, {"0000000010100", 133},
	{"0000000010101", 71}, {"0000000010110", 70}, {"0000000010111", 15}, {"0000000011000", 14}, {"0000000011001", 13}, {"0000000011010", 12},
	{"0000000011011", 1665}, {"0000000011100", 1601}, {"0000000011101", 1537}, {"0000000011110", 1473}, {"0000000011111", 1409}, {"00000000010000", 31},
	{"00000000010001", 30}, {"00000000010010", 29}, {"00000000010011", 28}, {"00000000010100", 27}, {"00000000010101", 26}, {"00000000010110", 25},
	{"00000000010111", 24}, {"00000000011000", 23}, {"00000000011001", 22}, {"00000000011010", 21}, {"00000000011011", 20}, {"00000000011100", 19},
	{"00000000011101", 18}, {"00000000011110", 17}, {"00000000011111", 16}, {"000000000010000", 40}, {"000000000010001", 39}, {"000000000010010", 38},
	{"000000000010011", 37}, {"000000000010100", 36}, {"000000000010101", 35}, {"000000000010110", 34}, {"000000000010111", 33}, {"000000000011000", 32},
	{"000000000011001", 78}, {"000000000011010", 77}, {"000000000011011", 76}, {"000000000011100", 75}, {"000000000011101", 74}, {"000000000011110", 73},
	{"000000000011111", 72}, {"0000000000010000", 82}, {"0000000000010001", 81}, {"0000000000010010", 80}, {"0000000000010011", 79}, {"0000000000010100", 387},
	{"0000000000010101", 1026}, {"0000000000010110", 962}, {"0000000000010111", 898}, {"0000000000011000", 834}, {"0000000000011001", 770}, {"0000000000011010", 706},
	{"0000000000011011", 1985}, {"0000000000011100", 1921}, {"0000000000011101", 1857}, {"0000000000011110", 1793}, {"0000000000011111", 1729},
}

var vlcCoefOne = []vlc{
	{"10", 1}, {"010", 65}, {"110", 2}, {"0110", -1}, {"0111", 3}, {"00101", 129},
	{"00110", 66}, {"00111", 193}, {"11100", 4}, {"11101", 5}, {"000001", -2}, {"000100", 7},
	{"000101", 6}, {"000110", 257}, {"000111", 321}, {"0000100", 449}, {"0000101", 513}, {"0000110", 385},
	{"0000111", 130}, {"1111000", 577}, {"1111001", 67}, {"1111010", 641}, {"1111011", 8}, {"1111100", 9},
	{"00100000", 69}, {"00100001", 705}, {"00100010", 11}, {"00100011", 10}, {"00100100", 833}, {"00100101", 769},
	{"00100110", 194}, {"00100111", 68}, {"11111010", 12}, {"11111011", 13}, {"11111100", 131}, {"11111101", 258},
	{"11111110", 14}, {"11111111", 15}, {"000000100", 322}, {"000000101", 897}, {"000000111", 961}, {"0000001100", 132},
	{"0000001101", 1025}, {"000000010001", 514}, {"000000010010", 259}, {"000000010101", 450}, {"000000010110", 1345}, {"000000010111", 1281},
	{"000000011001", 1217}, {"000000011010", 1153}, {"000000011100", 195}, {"000000011110", 386}, {"000000011111", 1089}, {"0000000010000", 642},
	{"0000000010001", 578}, {"0000000010010", 323}, {"0000000010011", 196}, {"0000000010100", 133}, {"0000000010101", 71}, {"0000000010110", 70},
	{"0000000011011", 1665}, {"0000000011100", 1601}, {"0000000011101", 1537}, {"0000000011110", 1473}, {"0000000011111", 1409}, {"00000000010000", 31},
	{"00000000010001", 30}, {"00000000010010", 29}, {"00000000010011", 28}, {"00000000010100", 27}, {"00000000010101", 26}, {"00000000010110", 25},
	{"00000000010111", 24}, {"00000000011000", 23}, {"00000000011001", 22}, {"00000000011010", 21}, {"00000000011011", 20}, {"00000000011100", 19},
	{"00000000011101", 18}, {"00000000011110", 17}, {"00000000011111", 16}, {"000000000010000", 40}, {"000000000010001", 39}, {"000000000010010", 38},
	{"000000000010011", 37}, {"000000000010100", 36}, {"000000000010101", 35}, {"000000000010110", 34}, {"000000000010111", 33}, {"000000000011000", 32},
	{"000000000011001", 78}, {"000000000011010", 77}, {"000000000011011", 76}, {"000000000011100", 75}, {"000000000011101", 74}, {"000000000011110", 73},
	{"000000000011111", 72}, {"0000000000010000", 82}, {"0000000000010001", 81}, {"0000000000010010", 80}, {"0000000000010011", 79}, {"0000000000010100", 387},
	{"0000000000010101", 1026}, {"0000000000010110", 962}, {"0000000000010111", 898}, {"0000000000011000", 834}, {"0000000000011001", 770}, {"0000000000011010", 706},
	{"0000000000011011", 1985}, {"0000000000011100", 1921}, {"0000000000011101", 1857}, {"0000000000011110", 1793}, {"0000000000011111", 1729},
}

var vlcCBP = []vlc{
	{"111", 60}, {"1010", 32}, {"1011", 16}, {"1100", 8}, {"1101", 4}, {"01000", 62},
	{"01001", 2}, {"01010", 61}, {"01011", 1}, {"01100", 56}, {"01101", 52}, {"01110", 44},
	{"01111", 28}, {"10000", 40}, {"10001", 20}, {"10010", 48}, {"10011", 12}, {"001100", 63},
	{"001101", 3}, {"001110", 36}, {"001111", 24}, {"0010000", 34}, {"0010001", 18}, {"0010010", 10},
	{"0010011", 6}, {"0010100", 33}, {"0010101", 17}, {"0010110", 9}, {"0010111", 5}, {"00000100", 58},
	{"00000101", 54}, {"00000110", 46}, {"00000111", 30}, {"00001000", 57}, {"00001001", 53}, {"00001010", 45},
	{"00001011", 29}, {"00001100", 38}, {"00001101", 26}, {"00001110", 37}, {"00001111", 25}, {"00010000", 43},
	{"00010001", 23}, {"00010010", 51}, {"00010011", 15}, {"00010100", 42}, {"00010101", 22}, {"00010110", 50},
	{"00010111", 14}, {"00011000", 41}, {"00011001", 21}, {"00011010", 49}, {"00011011", 13}, {"00011100", 35},
	{"00011101", 19}, {"00011110", 11}, {"00011111", 7}, {"000000001", 0}, {"000000010", 39}, {"000000011", 27},
	{"000000100", 59}, {"000000101", 55}, {"000000110", 47}, {"000000111", 31},
}

var vlcIncr = []vlc{
	{"1", 1}, {"010", 3}, {"011", 2}, {"0010", 5}, {"0011", 4}, {"00010", 7},
	{"00011", 6}, {"0000110", 9}, {"0000111", 8}, {"00000110", 15}, {"00000111", 14}, {"00001000", 13},
	{"00001001", 12}, {"00001010", 11}, {"00001011", 10}, {"0000010010", 21}, {"0000010011", 20}, {"0000010100", 19},
	{"0000010101", 18}, {"0000010110", 17}, {"0000010111", 16}, {"00000001000", -1}, {"00000011000", 33}, {"00000011001", 32},
	{"00000011010", 31}, {"00000011011", 30}, {"00000011100", 29}, {"00000011101", 28}, {"00000011110", 27}, {"00000011111", 26},
	{"00000100000", 25}, {"00000100001", 24}, {"00000100010", 23}, {"00000100011", 22},
}

// motion codes: a negative code -m is written -100-m.
var vlcMotion = []vlc{
	{"1", 0}, {"010", 1}, {"011", -101}, {"0010", 2}, {"0011", -102}, {"00010", 3},
	{"00011", -103}, {"0000110", 4}, {"0000111", -104}, {"00000110", 7}, {"00000111", -107}, {"00001000", 6},
	{"00001001", -106}, {"00001010", 5}, {"00001011", -105}, {"0000010010", 10}, {"0000010011", -110}, {"0000010100", 9},
	{"0000010101", -109}, {"0000010110", 8}, {"0000010111", -108}, {"00000011000", 16}, {"00000011001", -116}, {"00000011010", 15},
	{"00000011011", -115}, {"00000011100", 14}, {"00000011101", -114}, {"00000011110", 13}, {"00000011111", -113}, {"00000100000", 12},
	{"00000100001", -112}, {"00000100010", 11}, {"00000100011", -111},
}

var vlcDCLuma = []vlc{
	{"00", 1}, {"01", 2}, {"100", 0}, {"101", 3}, {"110", 4}, {"1110", 5},
	{"11110", 6}, {"111110", 7}, {"1111110", 8}, {"11111110", 9}, {"111111110", 10}, {"111111111", 11},
}

var vlcDCChroma = []vlc{
	{"00", 0}, {"01", 1}, {"10", 2}, {"110", 3}, {"1110", 4}, {"11110", 5},
	{"111110", 6}, {"1111110", 7}, {"11111110", 8}, {"111111110", 9}, {"1111111110", 10}, {"1111111111", 11},
}

// macroblock types: quant 1, forward 2, backward 4, pattern 8, intra 16.
var vlcTypeI = []vlc{
	{"1", 16}, {"01", 17},
}

var vlcTypeP = []vlc{
	{"1", 10}, {"01", 8}, {"001", 2}, {"00001", 9}, {"00010", 11}, {"00011", 16},
	{"000001", 17},
}

var vlcTypeB = []vlc{
	{"10", 6}, {"11", 14}, {"010", 4}, {"011", 12}, {"0010", 2}, {"0011", 10},
	{"00010", 15}, {"00011", 16}, {"000001", 17}, {"000010", 13}, {"000011", 11},
}
