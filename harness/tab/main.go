// Command tab regenerates ../table.go: scalars whose points have leading zero
// bytes in a coordinate, or give a key stream that starts with zero bytes.
package main

import (
	"fmt"
	"math/big"
	"os"

	"gmverif/ref"
)

func lz(n *big.Int) int { return 32 - (n.BitLen()+7)/8 }

func main() {
	f, _ := os.Create("table.go")
	fmt.Fprintln(f, "package main\n\n// Code generated by tab/main.go. DO NOT EDIT.\n\nvar smallCoordTable = []SmallPoint{")
	type mask struct {
		k *big.Int
		n int
	}
	var masks []mask
	mcnt, mlim := map[int]int{}, map[int]int{1: 10, 2: 8, 3: 2, 4: 1}
	cnt := map[[2]int]int{}
	lim := map[[2]int]int{{1, 0}: 14, {0, 1}: 14, {1, 1}: 4, {2, 0}: 6, {0, 2}: 6, {2, 1}: 1, {1, 2}: 1}
	k, _ := new(big.Int).SetString("7C0FFEE5A1B2C3D4E5F60718293A4B5C6D7E8F9001122334455667788990011A", 16)
	p := ref.MulG(k)
	for i := 0; i < 9000000; i++ {
		c := [2]int{lz(p.X), lz(p.Y)}
		if c != [2]int{} {
			if c[0]+c[1] >= 3 || cnt[c] < lim[c] {
				cnt[c]++
				fmt.Fprintf(f, "\t{\"%064x\", %d, %d},\n", k, c[0], c[1])
			}
		}
		m, z := ref.KDF(ref.Cat(p.X.FillBytes(make([]byte, 32)), p.Y.FillBytes(make([]byte, 32))), 32), 0
		for m[z] == 0 {
			z++
		}
		if z > 0 && mcnt[z] < mlim[z] {
			mcnt[z]++
			masks = append(masks, mask{k, z})
		}
		// small scalars too
		if i == 5000 {
			k = big.NewInt(1)
			p = ref.MulG(k)
		}
		if i == 100000 {
			k, _ = new(big.Int).SetString("5A0FFEE5A1B2C3D4E5F60718293A4B5C6D7E8F9001122334455667788990011A", 16)
			p = ref.MulG(k)
		}
		k = new(big.Int).Add(k, big.NewInt(1))
		p = ref.AddPt(p, ref.G)
	}
	fmt.Fprintln(f, "}\n\nvar zeroMaskTable = []ZeroMask{")
	for _, m := range masks {
		fmt.Fprintf(f, "\t{\"%064x\", %d},\n", m.k, m.n)
	}
	fmt.Fprintln(f, "}")
	f.Close()
	fmt.Println(cnt, mcnt)
}
