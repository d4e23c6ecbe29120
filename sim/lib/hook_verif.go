//go:build verif

package lib

import (
	"github.com/opencoff/sigtool/sign"
	"verifsim/ref"
)

const haveHook = true

func setFirst(n uint32) { sign.VerifFirstBlock, ref.Base = n, n }
