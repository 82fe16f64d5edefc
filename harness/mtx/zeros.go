// Code generated by tools/pool2; DO NOT EDIT.

package mtx

// Zeros lists seeds and values of entries with zero bytes at an end of a hash.
var Zeros = [][2]uint32{
	// low bytes of the leaf key
	{11077, 0},
	{22, 83472},
	{112853, 0},
	{162205, 0},
	{0, 162650},
	{198739, 0},
	// high bytes of the leaf key
	{3705, 0},
	{10, 3760},
	{7199, 0},
	{16, 8916},
	{34373, 0},
	{42419, 0},
	// low bytes of the hash of the value
	{1, 480076},
	{8, 549858},
	// high bytes of the hash of the value
	{2, 9452},
	{0, 10150},
	{11, 33586},
	{12, 55512},
	{15, 58490},
	{13, 169688},
	// low bytes of the hash of the index
	{54787, 0},
	{121349, 0},
	{197829, 0},
	{343589, 0},
	{511093, 0},
	{588409, 0},
	// high bytes of the hash of the index
	{14935, 0},
	{46903, 0},
	{63165, 0},
	{93023, 0},
	{101487, 0},
	{111199, 0},
}
