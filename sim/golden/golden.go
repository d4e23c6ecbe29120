// Package golden holds files written by the released version of sigtool and by ssh-keygen.
package golden

import "embed"

//go:embed *.json *.key *.pub *.enc *.sig data* s0 s1 s2 authorized_keys
var FS embed.FS
