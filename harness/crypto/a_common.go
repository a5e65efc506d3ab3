package crypto

import (
	"errors"
	"io"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrand"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/signify"
	"golang.org/x/crypto/nacl/box"
)

const (
	vhKey   = "/w/u"
	vhSec   = "/w/u.sec"
	vhPub   = "/w/u.pub"
	vhMsg   = "/w/msg"
	vhEnc   = "/w/msg.enc"
	vhOut   = "/w/out"
	vhChunk = 16385 // plain bytes per chunk
	vhHdr   = 72
	vhOver  = 16
	vhHead  = "untrusted comment: psignify encrypted file\n"
)

var (
	vhErr     = errors.New("injected failure")
	vhPrompts int
)

func vhRange(q, t [][2]int) (int, int) {
	x := q
	if vrt.Thorough() {
		x = t
	}
	r := x[vrt.Case(len(x))]
	return r[0], r[1]
}

func vhSetPrompt(p []byte) {
	vhPrompts = 0
	signify.PassphrasePrompt = func(confirm bool) ([]byte, error) {
		vhPrompts++
		if p == nil {
			return nil, vhErr
		}
		return append([]byte(nil), p...), nil
	}
}

func vhPass(c int) []byte {
	if c == 0 {
		return nil
	}
	return []byte("correct horse")
}

// vhMake generates a key pair and loads it.
func vhMake(pass []byte) (*signify.Private, *signify.Public) {
	vhSetPrompt(pass)
	err := signify.GenerateKey(vhKey, pass, &signify.GenerateOptions{Rounds: 1})
	vrt.Assert(err == nil, "key generation works")
	return vhLoad()
}

func vhLoad() (*signify.Private, *signify.Public) {
	priv, err1 := signify.LoadPrivateKey(vhSec)
	pub, err2 := signify.LoadPublicKey(vhPub)
	vrt.Assert(err1 == nil && err2 == nil, "keys load")
	if err1 != nil || err2 != nil {
		vrt.Stop()
	}
	return priv, pub
}

func vhClone(b []byte) []byte { return append([]byte(nil), b...) }

func vhFile(path string) []byte {
	d, _ := vos.Get(path)
	return d
}

func vhXor(b, d []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[i] = b[i] ^ d[i]
	}
	return r
}

func vhZero(d []byte) bool {
	var x byte
	for _, c := range d {
		x |= c
	}
	return x == 0
}

// vhText is a fixed, non-repeating text of n bytes.
func vhText(n int) []byte {
	m := make([]byte, n)
	for i := range m {
		m[i] = byte(i*7 + i>>8*3 + i>>14*5)
	}
	return m
}

// vhReader delivers b; it may split its reads and fail.
type vhReader struct {
	b      []byte
	off    int
	calls  int
	splits int // number of reads of symbolic length
	picks  int // number of reads of a length picked from a list
	max    int // bound on every read (0: none)
	fail   int // call index that fails (-1: never)
	eof    bool
	idle   int // every so many calls one delivers nothing (0: none)
}

func (r *vhReader) Read(p []byte) (int, error) {
	i := r.calls
	r.calls++
	if r.fail >= 0 && (i == r.fail || i > r.fail && vhFail != vhErr) {
		return 0, vhFail
	}
	if r.idle > 0 && i%r.idle == 0 {
		return 0, nil
	}
	rest := r.b[r.off:]
	if len(rest) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if n > len(rest) {
		n = len(rest)
	}
	if r.max > 0 && n > r.max {
		n = r.max
	}
	if r.splits > 0 && n > 1 {
		r.splits--
		k := vrt.Int("readlen", 1, 1<<20)
		vrt.Assume(k <= n)
		n = k
	}
	if r.picks > 0 && n > 1 {
		r.picks--
		n = []int{1, n / 2, n - 1, n}[vrt.Choose("readpick", 4)]
	}
	copy(p, rest[:n])
	r.off += n
	if r.eof && r.off == len(r.b) {
		return n, io.EOF
	}
	return n, nil
}

// split makes the first k reads short: of any length for small messages, of
// selected lengths for big ones.
func (r *vhReader) split(n, k int) {
	if n < 100 {
		r.splits = k
	} else {
		r.picks = k + 1
	}
}

// vhFail is the error of failing readers and writers.
var vhFail = vhErr

// vhAnyErr makes it any of several errors that have a meaning elsewhere.
func vhAnyErr() {
	if k := vrt.Choose("error", 4); k > 0 {
		vhFail = []error{io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe}[k-1]
	}
}

// vhSink collects; it may fail.
type vhSink struct {
	b     []byte
	calls int
	fail  int
}

func (s *vhSink) Write(p []byte) (int, error) {
	i := s.calls
	s.calls++
	if s.fail >= 0 && i == s.fail {
		return 0, vhFail
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

// vhStd is the reference base64 text: lines of 72 characters.
func vhStd(d []byte) []byte {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	var out []byte
	n := 0
	for i := 0; i < len(d); i += 3 {
		var b [3]byte
		k := copy(b[:], d[i:])
		v := uint(b[0])<<16 | uint(b[1])<<8 | uint(b[2])
		for j := 0; j < 4; j++ {
			if j > k {
				out = append(out, '=')
			} else {
				out = append(out, al[v>>(18-6*uint(j))&63])
			}
		}
		n += 4
		if n == 72 && k == 3 {
			out = append(out, '\n')
			n = 0
		}
	}
	return append(out, '\n')
}

// vhUnstd undoes vhStd on concrete or symbolic text.
func vhUnstd(t []byte) []byte {
	var out []byte
	var v uint
	n := 0
	for _, c := range t {
		if c == '\n' {
			continue
		}
		if c == '=' {
			break
		}
		var x byte
		switch {
		case c >= 'A' && c <= 'Z':
			x = c - 'A'
		case c >= 'a' && c <= 'z':
			x = c - 'a' + 26
		case c >= '0' && c <= '9':
			x = c - '0' + 52
		case c == '+':
			x = 62
		case c == '/':
			x = 63
		default:
			return nil
		}
		v = v<<6 | uint(x)
		n += 6
		if n >= 8 {
			n -= 8
			out = append(out, byte(v>>uint(n)))
		}
	}
	return out
}

func vhNonce(i int) *[24]byte {
	var n [24]byte
	for k := 23; k >= 0 && i > 0; k-- {
		n[k] = byte(i)
		i >>= 8
	}
	return &n
}

// vhShared is the shared key of an encrypted file, from the recipient's side.
func vhShared(priv *signify.Private, epub []byte) *[32]byte {
	var e, s [32]byte
	copy(e[:], epub)
	k, err := priv.ToBox()
	vrt.Assert(err == nil, "decryption key available")
	if err != nil {
		vrt.Stop()
	}
	box.Precompute(&s, &e, k)
	return &s
}

var _ = vrand.Calls
