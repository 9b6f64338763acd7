package main

// Reference arithmetic of GF(2^8) with the polynomial 0x11D and generator 2,
// computed from the definition (shift and reduce).

func gfMulDef(a, b byte) byte {
	var r byte
	x, y := int(a), int(b)
	for y > 0 {
		if y&1 == 1 {
			r ^= byte(x)
		}
		x <<= 1
		if x&0x100 != 0 {
			x ^= 0x11D
		}
		y >>= 1
	}
	return r
}

var (
	gfTab [256][256]byte
	gfExp [255]byte
	gfLog [256]int
	gfI   [256]byte
)

func init() {
	for a := 0; a < 256; a++ {
		for b := 0; b < 256; b++ {
			gfTab[a][b] = gfMulDef(byte(a), byte(b))
			if gfTab[a][b] == 1 {
				gfI[a] = byte(b)
			}
		}
	}
	x := byte(1)
	for i := 0; i < 255; i++ {
		gfExp[i] = x
		gfLog[x] = i
		x = gfMulDef(x, 2)
	}
}
func gfMul(a, b byte) byte { return gfTab[a][b] }
func gfPow(a byte, e int64) byte {
	if e == 0 {
		return 1
	}
	if a == 0 {
		return 0
	}
	k := (int64(gfLog[a]) * (((e % 255) + 255) % 255)) % 255
	return gfExp[k]
}
