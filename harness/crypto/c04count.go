package crypto

import (
	"bytes"
	"encoding/binary"

	"github.com/kisom/psignify/internal/vrt"
	"golang.org/x/crypto/nacl/auth"
)

// VH_C04_count: the header of a message of any size holds the number of its
// chunks.  The message ends early, so that sealing fails, but the header is
// there.
func VH_C04_count() {
	priv, pub := vhMake(nil)
	size := vrt.Int("size", 1, 1<<46)
	var enc bytes.Buffer
	vrt.Assert(seal(pub, bytes.NewReader(nil), size, &enc) != nil, "a message that is not there is not sealed")
	p := enc.Bytes()
	if len(p) < vhHdr {
		vrt.Reach("nothing")
		return
	}
	c := binary.BigEndian.Uint64(p[:8])
	want := size / vhChunk
	if size%vhChunk != 0 {
		want++
	}
	vrt.Assert(c == uint64(want), "chunk count, big endian")
	tag := auth.Sum(p[:40], vhShared(priv, p[8:40]))
	vrt.Assert(vrt.EqBytes(tag[:], p[40:72]), "header tag")
	vrt.Reach("header")
}
