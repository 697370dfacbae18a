// Command conform runs the functions of package lib on the requests of
// standard input.
package main

import (
	"bufio"
	"fmt"
	"os"

	"github.com/mewmew/float/conform/lib"
)

var funcs = map[string]func(a, b, c uint64) lib.Res{
	"TNum": lib.TNum, "TSetPrec": lib.TSetPrec, "TSetMode": lib.TSetMode, "TSet": lib.TSet, "TCopy": lib.TCopy, "TNeg": lib.TNeg, "TAbs": lib.TAbs,
	"TSetMantExp": lib.TSetMantExp, "TMantExp": lib.TMantExp, "TAdd": lib.TAdd, "TSub": lib.TSub, "TMul": lib.TMul, "TCmp": lib.TCmp, "TInts": lib.TInts, "TInt": lib.TInt,
	"TFloat64": lib.TFloat64, "TFloat32": lib.TFloat32, "TSetFloat64": lib.TSetFloat64, "TNewFloat": lib.TNewFloat, "TSetInt64": lib.TSetInt64,
	"TSetInt": lib.TSetInt, "TParse": lib.TParse, "TParseHex": lib.TParseHex, "TIsInfs": lib.TIsInfs, "TCopysign": lib.TCopysign, "TConv": lib.TConv,
	"TFloat32bits": lib.TFloat32bits, "TLdexp": lib.TLdexp, "TFloatOps": lib.TFloatOps, "TBits": lib.TBits, "TBits2": lib.TBits2, "TBigInt": lib.TBigInt,
	"TBigInt2": lib.TBigInt2, "TStrings": lib.TStrings, "TStrings2": lib.TStrings2, "TSprintf": lib.TSprintf, "TUint": lib.TUint, "TInt64": lib.TInt64,
	"TLogic": lib.TLogic, "TBounds": lib.TBounds, "TLoop": lib.TLoop, "TStruct": lib.TStruct,
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		var n string
		var a, b, c uint64
		if _, err := fmt.Sscan(in.Text(), &n, &a, &b, &c); err != nil {
			fmt.Println("bad request")
			continue
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Println("panic")
				}
			}()
			r := funcs[n](a, b, c)
			fmt.Println(r[0], r[1], r[2], r[3], r[4], r[5])
		}()
	}
}
