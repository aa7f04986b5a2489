package num

import "math"

func vspecDivRound[T Integer](x, y T) T { return T(math.Round(float64(x) / float64(y))) }

func vspecDivRoundBits[T Integer](x T, bits int) T {
	r := x >> bits
	return r + (x<<1>>bits)&1
}

func vspecMin[T Real](x, y T) T {
	if y > x {
		return x
	}
	return y
}
