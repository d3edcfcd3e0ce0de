package main

// Code generated by tab/main.go. DO NOT EDIT.

var smallCoordTable = []SmallPoint{
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900159", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900172", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900176", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899001dd", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900257", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899002d2", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788990037b", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899003b9", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788990048b", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899004ed", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900696", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899006d1", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900763", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788990079c", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899007be", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900810", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899008e8", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900ae2", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900b42", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900c74", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900cd8", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900cdc", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900d0f", 0, 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900e0b", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900f4d", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788990109b", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788990112b", 1, 0},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899012c9", 1, 0},
	{"00000000000000000000000000000000000000000000000000000000000045db", 2, 0},
	{"000000000000000000000000000000000000000000000000000000000000eb1e", 2, 0},
	{"0000000000000000000000000000000000000000000000000000000000014947", 2, 0},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889905cc0", 2, 0},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899091b4", 1, 1},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788990ad35", 1, 1},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788990b8a1", 0, 2},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788990c1b6", 0, 2},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788991209d", 2, 0},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889916b57", 0, 2},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788992033e", 1, 1},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889923527", 2, 0},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899276b9", 0, 2},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889928f8e", 1, 1},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889932f6b", 0, 2},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889934455", 0, 2},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788a12518d", 3, 0},
}

var zeroMaskTable = []ZeroMask{
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788990020b", 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788990033b", 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788990049a", 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899005e5", 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900633", 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899009d3", 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900aca", 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900af2", 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900b36", 1},
	{"7c0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889900d6c", 1},
	{"0000000000000000000000000000000000000000000000000000000000002672", 2},
	{"0000000000000000000000000000000000000000000000000000000000008a46", 2},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788990c4a5", 2},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788991b1a0", 2},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f900112233445566778899469bc", 2},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889947a1d", 2},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f90011223344556677889954b27", 2},
	{"5a0ffee5a1b2c3d4e5f60718293a4b5c6d7e8f9001122334455667788996a21c", 2},
}
