package crypto

import (
	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
)

// VH_C04_comment: a message of another implementation opens whatever the
// content and length of its comment.
func VH_C04_comment() {
	vhMake(nil)
	m := vrt.Bytes("msg", 0, 4)
	n := (len(m) + vhChunk - 1) / vhChunk
	p := vhForge(m, uint64(n))
	var c []byte
	if vrt.Choose("how", 2) == 0 {
		c = vrt.Bytes("comment", 0, 5)
		for _, x := range c {
			vrt.Assume(x != '\n')
		}
	} else {
		l := []int{72, 80, 127, 128, 255, 256, 512, 1000, 1024, 4095, 4096, 5000, 9000}
		if vrt.Thorough() {
			l = append(l, 65535, 65536, 70000)
		}
		c = make([]byte, l[vrt.Choose("length", len(l))])
		x := vrt.Byte("fill")
		vrt.Assume(x != '\n')
		for i := range c {
			c[i] = x
		}
	}
	f := append([]byte("untrusted comment: "), c...)
	f = append(append(f, '\n'), vhStd(p)...)
	vos.Put(vhEnc, f, 0644)
	vrt.Assert(Open(vhSec, vhEnc, vhOut) == nil, "opening works")
	vrt.Assert(vrt.EqBytes(vhFile(vhOut), m), "the message comes back")
	vrt.Reach("done")
}
