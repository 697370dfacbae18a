// Package lib exercises the library functions that the verifier replaces
// by contracts, and the language constructs it executes.  Every T function is
// run twice by vc/conformance.py on the same arguments: compiled, and by the
// verifier (with constant and with symbolic arguments).
package lib

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"
)

// Res is what a test function observes.
type Res [6]uint64

// num makes a big number: mantissa a, the rest from b: exponent, sign,
// precision, mode.
func num(a, b uint64) *big.Float {
	prec := uint(b % 71)
	b /= 71
	mode := big.RoundingMode(b % 6)
	b /= 6
	neg := b%2 == 1
	b /= 2
	x := new(big.Float).SetUint64(a)
	x.SetMode(mode)
	if prec != 0 {
		x.SetPrec(prec)
	}
	switch b % 16 {
	case 0:
		x.SetInf(neg)
	case 1:
		x.SetUint64(0)
	}
	b /= 16
	e := int(b%260) - 130
	x.SetMantExp(x, e)
	if neg {
		x.Neg(x)
	}
	return x
}

// obs makes a number observable.
func obs(x *big.Float) Res {
	var r Res
	if x.Signbit() {
		r[0] = 1
	}
	r[1] = uint64(x.Prec())
	r[2] = uint64(x.Mode())*8 + uint64(x.Acc()+1)
	if x.IsInf() {
		r[3] = 1
		return r
	}
	if x.Sign() == 0 {
		r[3] = 2
		return r
	}
	m := new(big.Float)
	e := x.MantExp(m)
	m.SetMode(big.ToZero)
	m.SetMantExp(m, 64)
	m.Abs(m)
	u, _ := m.Uint64()
	r[4] = u
	r[5] = uint64(e + 4096)
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func TNum(a, b, c uint64) Res { return obs(num(a, b)) }

func TSetPrec(a, b, c uint64) Res { return obs(num(a, b).SetPrec(uint(c % 67))) }

func TSetMode(a, b, c uint64) Res {
	x := num(a, b).SetPrec(uint(c%20) + 3)
	return obs(x.SetMode(big.RoundingMode(c % 6)))
}

func TSet(a, b, c uint64) Res {
	z := new(big.Float).SetPrec(uint(c % 60)).SetMode(big.RoundingMode(c % 6))
	return obs(z.Set(num(a, b)))
}

func TCopy(a, b, c uint64) Res {
	z := new(big.Float).SetPrec(uint(c % 60))
	return obs(z.Copy(num(a, b)))
}

func TNeg(a, b, c uint64) Res {
	z := new(big.Float).SetPrec(uint(c % 60)).SetMode(big.RoundingMode(c % 6))
	return obs(z.Neg(num(a, b)))
}

func TAbs(a, b, c uint64) Res {
	z := new(big.Float).SetPrec(uint(c % 60)).SetMode(big.RoundingMode(c % 6))
	return obs(z.Abs(num(a, b)))
}

func TSetMantExp(a, b, c uint64) Res {
	z := new(big.Float).SetPrec(uint(c % 60)).SetMode(big.RoundingMode(c % 6))
	return obs(z.SetMantExp(num(a, b), int(c%5000)-2500))
}

func TMantExp(a, b, c uint64) Res {
	m := new(big.Float).SetPrec(uint(c % 60))
	e := num(a, b).MantExp(m)
	r := obs(m)
	r[1] += uint64(e+10000) * 100
	return r
}

func TAdd(a, b, c uint64) Res {
	z := new(big.Float).SetPrec(uint(c % 60)).SetMode(big.RoundingMode(c % 6))
	x, y := num(a, b), num(c, b*2654435761+c)
	if x.IsInf() && y.IsInf() {
		return Res{}
	}
	return obs(z.Add(x, y))
}

func TSub(a, b, c uint64) Res {
	z := new(big.Float).SetPrec(uint(c % 60)).SetMode(big.RoundingMode(c % 6))
	x, y := num(a, b), num(c, b*2654435761+c)
	if x.IsInf() && y.IsInf() {
		return Res{}
	}
	return obs(z.Sub(x, y))
}

func TMul(a, b, c uint64) Res {
	z := new(big.Float).SetPrec(uint(c % 60)).SetMode(big.RoundingMode(c % 6))
	x, y := num(a, b), num(c%1000, b*2654435761+c)
	if x.IsInf() || y.IsInf() {
		return Res{}
	}
	return obs(z.Mul(x, y))
}

func TCmp(a, b, c uint64) Res {
	x, y := num(a, b), num(a+c%3, b)
	return Res{uint64(x.Cmp(y) + 1), uint64(y.Cmp(x) + 1), uint64(x.Sign() + 1)}
}

func TInts(a, b, c uint64) Res {
	x := num(a, b)
	u, ua := x.Uint64()
	i, ia := x.Int64()
	return Res{u, uint64(ua + 1), uint64(i), uint64(ia + 1), b2u(x.IsInt())}
}

func TInt(a, b, c uint64) Res {
	x := num(a, b)
	if x.IsInf() {
		return Res{}
	}
	if !x.IsInf() && x.MantExp(nil) > 62 {
		return Res{1}
	}
	z, acc := x.Int(nil)
	return Res{uint64(z.Int64()), uint64(acc + 1), uint64(z.Sign() + 1)}
}

func TFloat64(a, b, c uint64) Res {
	x := num(a, b)
	x.SetMantExp(x, int(c%2300)-1150)
	f, acc := x.Float64()
	return Res{math.Float64bits(f), uint64(acc + 1)}
}

func TFloat32(a, b, c uint64) Res {
	x := num(a, b)
	x.SetMantExp(x, int(c%340)-170)
	f, acc := x.Float32()
	return Res{uint64(math.Float32bits(f)), uint64(acc + 1)}
}

func TSetFloat64(a, b, c uint64) Res {
	f := math.Float64frombits(a)
	if f != f {
		return Res{9}
	}
	z := new(big.Float).SetPrec(uint(c % 60)).SetMode(big.RoundingMode(c % 6))
	return obs(z.SetFloat64(f))
}

func TNewFloat(a, b, c uint64) Res {
	f := math.Float64frombits(a)
	if math.IsNaN(f) {
		return Res{9}
	}
	return obs(big.NewFloat(f))
}

func TSetInt64(a, b, c uint64) Res {
	z := new(big.Float).SetPrec(uint(c % 70)).SetMode(big.RoundingMode(c % 6))
	return obs(z.SetInt64(int64(a)))
}

func TSetInt(a, b, c uint64) Res {
	i := new(big.Int).SetUint64(a)
	z := new(big.Float).SetPrec(uint(c%70) + 1).SetMode(big.RoundingMode(c % 6))
	return obs(z.SetInt(i))
}

func TParse(a, b, c uint64) Res {
	z := new(big.Float).SetPrec(uint(c % 70)).SetMode(big.RoundingMode(c % 6))
	s := fmt.Sprintf("0b1.%010bp%d", a%1024, int(b%200))
	if c%2 == 1 {
		s = "-" + s
	}
	y, base, err := z.Parse(s, 0)
	if err != nil {
		return Res{7}
	}
	r := obs(y)
	r[3] += uint64(base) * 10
	return r
}

func TParseHex(a, b, c uint64) Res {
	s := fmt.Sprintf("0x%016xp%d", a, int(b%200))
	z, ok := new(big.Float).SetPrec(uint(c%70) + 1).SetString(s)
	if !ok {
		return Res{7}
	}
	return obs(z)
}

func TIsInfs(a, b, c uint64) Res {
	f := math.Float64frombits(a)
	return Res{b2u(math.IsInf(f, 1)), b2u(math.IsInf(f, -1)), b2u(math.IsInf(f, 0)), b2u(math.IsNaN(f)), b2u(math.Signbit(f))}
}

func TCopysign(a, b, c uint64) Res {
	f := math.Float64frombits(a)
	if f != f {
		return Res{9}
	}
	return Res{math.Float64bits(math.Copysign(f, math.Float64frombits(b))), math.Float64bits(math.Abs(f)),
		math.Float64bits(math.Inf(int(c%3) - 1))}
}

func TConv(a, b, c uint64) Res {
	f := math.Float64frombits(a)
	if f != f {
		return Res{9}
	}
	g := float32(f)
	return Res{uint64(math.Float32bits(g)), math.Float64bits(float64(g)), b2u(f == 0), b2u(f < 1)}
}

func TFloat32bits(a, b, c uint64) Res {
	g := math.Float32frombits(uint32(a))
	if g != g {
		return Res{9}
	}
	return Res{math.Float64bits(float64(g)), uint64(math.Float32bits(-g))}
}

func TLdexp(a, b, c uint64) Res {
	f := math.Float64frombits(a)
	if f != f {
		return Res{9}
	}
	return Res{math.Float64bits(math.Ldexp(f, int(c%2400)-1200))}
}

func TFloatOps(a, b, c uint64) Res {
	f, g := math.Float64frombits(a), math.Float64frombits(b)
	if f != f || g != g {
		return Res{9}
	}
	return Res{b2u(f == g), b2u(f < g), b2u(f <= g), b2u(f > g)}
}

func TBits(a, b, c uint64) Res {
	h, l := bits.Mul64(a, b)
	s, cy := bits.Add64(a, b, c%2)
	return Res{uint64(bits.Len64(a)), uint64(bits.LeadingZeros64(b)), h, l, s, cy}
}

func TBits2(a, b, c uint64) Res {
	return Res{uint64(bits.TrailingZeros64(a)), uint64(bits.TrailingZeros32(uint32(b))), uint64(bits.Len32(uint32(a))),
		uint64(bits.LeadingZeros16(uint16(a))), uint64(bits.Len8(uint8(c)))}
}

func TBigInt(a, b, c uint64) Res {
	x, y := new(big.Int).SetUint64(a), new(big.Int).SetUint64(b)
	z := new(big.Int)
	var r Res
	r[0] = z.And(x, y).Uint64()
	r[1] = z.Or(x, y).Uint64()
	r[2] = z.Xor(x, y).Uint64()
	r[3] = z.AndNot(x, y).Uint64()
	z.Lsh(x, uint(c%40))
	r[4] = z.Rsh(z, uint(c/64%30)).Uint64()
	r[5] = uint64(z.BitLen())
	return r
}

func TBigInt2(a, b, c uint64) Res {
	x, y := new(big.Int).SetUint64(a), new(big.Int).SetInt64(int64(b))
	z := new(big.Int)
	var r Res
	r[0] = uint64(z.Add(x, y).Sign() + 1)
	r[1] = uint64(z.Sub(x, y).Cmp(x) + 1)
	z.Neg(y)
	r[2] = uint64(z.Int64())
	z.Abs(y)
	r[3] = uint64(z.Bit(int(c % 64)))
	z.SetBit(x, int(c%64), uint(c/64%2))
	r[4] = z.Uint64()
	r[5] = b2u(z.IsUint64())
	return r
}

func text(a uint64) string {
	s := fmt.Sprintf("%016b", a%65536)
	if a%3 == 0 {
		return s[:7] + "." + s[7:]
	}
	return s
}

func hash(s string) uint64 {
	h := uint64(len(s))
	for i := 0; i < len(s); i++ {
		h = (h*31 + uint64(s[i])) % (1 << 40)
	}
	return h
}

func TStrings(a, b, c uint64) Res {
	s := text(a)
	x, y, ok := strings.Cut(s, ".")
	_ = ok
	return Res{hash(strings.TrimRight(s, "0")), hash(strings.TrimLeft(s, "0")), hash(strings.Trim(s, "0.")),
		hash(strings.TrimSuffix(s, "00")), hash(strings.TrimPrefix(s, "10")), hash(x)*1000 + hash(y)%1000}
}

func TStrings2(a, b, c uint64) Res {
	s := text(a)
	return Res{uint64(strings.Index(s, ".") + 1), uint64(strings.IndexByte(s, '.') + 1), b2u(strings.HasPrefix(s, "01")),
		b2u(strings.HasSuffix(s, "10")), uint64(strings.LastIndex(s, "1") + 1), hash(strings.Repeat(s[:3], int(c%4)))}
}

func TSprintf(a, b, c uint64) Res {
	s := fmt.Sprintf("%d|%b|%02x|%s", a%100, b%64, c%4096, "x")
	t := fmt.Sprintf("%05d:%x:%o", 42, 255, 64)
	return Res{uint64(len(s)), hash(t)}
}

// ----- the language

func TUint(a, b, c uint64) Res {
	x := uint32(a)
	y := uint16(b)
	return Res{uint64(x * uint32(y)), uint64(x - uint32(b)), uint64(y << (c % 20)), a >> (c % 70), a << (c % 70), uint64(uint8(a + b))}
}

func TInt64(a, b, c uint64) Res {
	x, y := int64(a), int64(b)
	if y == 0 {
		y = 3
	}
	if y == -1 {
		y = 7
	}
	return Res{uint64(x / y), uint64(x % y), uint64(x >> (c % 70)), uint64(x - y), uint64(int32(x)), uint64(-x)}
}

func TLogic(a, b, c uint64) Res {
	return Res{a & 0xff00ff, a &^ (1 << 63), a | 1<<40, a ^ (1 << 13), ^a, a & (1<<(c%60) - 1)}
}

func TBounds(a, b, c uint64) (r Res) {
	buf := [8]byte{1, 2, 3, 4, 5, 6, 7, 8}
	s := buf[c%8:]
	s = append(s[:len(s):len(s)], byte(a))
	s[0] = 99
	copy(buf[2:], s)
	for i, v := range s {
		r[0] += uint64(v) * uint64(i+1)
	}
	r[1], r[2], r[3] = uint64(buf[0]), uint64(buf[2]), uint64(buf[7])
	r[4] = uint64(len(s))
	return r
}

func TLoop(a, b, c uint64) (r Res) {
	n := a % 100000
	for n > 0 {
		r[0]++
		r[1] = r[1]*10 + n%10
		n /= 10
	}
	switch {
	case a < b:
		r[2] = 1
		fallthrough
	case a == b:
		r[3] = 2
	default:
		r[4] = 3
	}
	return r
}

type pair struct {
	x uint64
	y [2]uint16
}

func (p *pair) bump(k uint16) { p.y[k%2] += k; p.x++ }

func TStruct(a, b, c uint64) Res {
	p := pair{x: a}
	q := p
	p.bump(uint16(b))
	(&q).bump(uint16(c))
	f := func(u uint64) uint64 { return u + p.x }
	return Res{p.x, uint64(p.y[0]), uint64(p.y[1]), q.x, uint64(q.y[1]), f(c)}
}
