#!/bin/bash
# usage: overlay.sh BUILDDIR: makes the overlay of the standard library under
# which the command's system calls go to the simulated machine.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
B=$1
G=$(go env GOROOT)/src
O=$B/std
stamp=$(go version; cat "$V"/sim/overlay/zsim.go.txt "$V"/sim/overlay/timenow.go.txt "$0" | sha256sum)
[ "$(cat "$O/.stamp" 2>/dev/null)" = "$stamp" ] && exit 0
rm -rf "$B/std"
mkdir -p "$O"
cp "$V/sim/overlay/zsim.go.txt" "$O/zsim.go"
cp "$V/sim/overlay/timenow.go.txt" "$O/timenow.go"
python3 - "$G" "$O" "$B/overlay.json" <<'P'
import sys,re,json
G,O,out=sys.argv[1:]
rep={}
def put(rel,name,txt):
    open(O+"/"+name,"w").write(txt)
    rep[G+"/"+rel]=O+"/"+name
s=open(G+"/syscall/syscall_linux.go").read()
def sub(s,old,new):
    assert s.count(old)==1,(s.count(old),old)
    return s.replace(old,new)
s=sub(s,"\treturn RawSyscall6(trap, a1, a2, a3, 0, 0, 0)\n","\treturn simCall(trap, a1, a2, a3, 0, 0, 0)\n")
s=sub(s,"\tvar errno uintptr\n\tr1, r2, errno = linux.Syscall6(trap, a1, a2, a3, a4, a5, a6)\n\terr = Errno(errno)\n\treturn\n","\treturn simCall(trap, a1, a2, a3, a4, a5, a6)\n")
i=s.index("func Syscall(trap"); j=s.index("\n}\n",i)
s=s[:i]+"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\treturn simCall(trap, a1, a2, a3, 0, 0, 0)"+s[j:]
i=s.index("func Syscall6(trap"); j=s.index("\n}\n",i)
s=s[:i]+"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\treturn simCall(trap, a1, a2, a3, a4, a5, a6)"+s[j:]
s=sub(s,"func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)\n","//go:nosplit\n//go:norace\nfunc rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr) {\n\tr1, r2, _ = simCall(trap, a1, a2, a3, 0, 0, 0)\n\treturn\n}\n")
s=re.sub(r'\n//go:linkname runtime_(enter|exit)syscall[^\n]*\nfunc runtime_(enter|exit)syscall\(\)\n',"\n",s)
s=sub(s,'\t"internal/runtime/syscall/linux"\n','') if "linux." not in re.sub(r'(?m)^\s*//.*$','',s.replace('"internal/runtime/syscall/linux"','')) else s
put("syscall/syscall_linux.go","syscall_linux.go",s)
a=open(G+"/syscall/asm_linux_amd64.s").read()
i=a.index("// func rawSyscallNoError"); j=a.index("// func gettimeofday")
put("syscall/asm_linux_amd64.s","asm_linux_amd64.s",a[:i]+a[j:])
rep[G+"/syscall/zsim_linux.go"]=O+"/zsim.go"
g=open(G+"/internal/syscall/unix/getrandom.go").read()
g=sub(g,"\tret, supported := vgetrandom(p, uint32(flags))\n","\tret, supported := 0, false\n")
put("internal/syscall/unix/getrandom.go","getrandom.go",g)
r=open(G+"/runtime/rand.go").read()
r=sub(r,"\tseed := &globalRand.seed\n","\tseed := &globalRand.seed\n\tstartupRand = nil\n\tsimSeed := simEnv(\"SIMRAND=\") + 1\n\tif t := simEnv(\"SIMTIME=\"); t != 0 {\n\t\tsimSec = int64(t)\n\t}\n\tfor i := range seed {\n\t\tseed[i] = byte(simSeed>>(8*(i%8))) ^ byte(i*37)\n\t}\n\tif false {\n\t\treadTimeRandom(seed[:])\n\t}\n")
i=r.index("\tif len(startupRand) >= 16 &&"); j=r.index("\tglobalRand.state.Init(*seed)")
r=r[:i]+r[j:]
put("runtime/rand.go","rand.go",r)
open(O+"/empty.s","w").write("// nothing\n")
rep[G+"/runtime/time_linux_amd64.s"]=O+"/empty.s"
rep[G+"/runtime/timeasm.go"]=O+"/timenow.go"
json.dump({"Replace":rep},open(out,"w"),indent=1)
P
echo "$stamp" > "$O/.stamp"
