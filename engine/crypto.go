package main

import (
	"crypto/ed25519"
	"crypto/sha512"
	"fmt"
	"go/token"
	"go/types"
	"sync"

	"github.com/dchest/bcrypt_pbkdf"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/nacl/auth"
	"golang.org/x/crypto/nacl/secretbox"
	"golang.org/x/crypto/salsa20/salsa"
)

const tokLSS = token.LSS

// redirectTable sends calls of real primitives to their idealised models.
var redirectTable = map[string]string{
	"crypto/sha512.Sum512":                          "Sum512",
	"crypto/sha512.New":                             "NewSHA512",
	"crypto/ed25519.GenerateKey":                    "EdGenerateKey",
	"crypto/ed25519.NewKeyFromSeed":                 "EdNewKeyFromSeed",
	"crypto/ed25519.Sign":                           "EdSign",
	"(crypto/ed25519.PrivateKey).Sign":              "EdPrivSign",
	"crypto/ed25519.Verify":                         "EdVerify",
	"golang.org/x/crypto/ed25519.GenerateKey":       "EdGenerateKey",
	"golang.org/x/crypto/ed25519.NewKeyFromSeed":    "EdNewKeyFromSeed",
	"golang.org/x/crypto/ed25519.Sign":              "EdSign",
	"golang.org/x/crypto/ed25519.Verify":            "EdVerify",
	"(golang.org/x/crypto/ed25519.PrivateKey).Sign": "EdPrivSign",
	"github.com/dchest/bcrypt_pbkdf.Key":            "BcryptKey",
	"golang.org/x/crypto/curve25519.ScalarBaseMult": "ScalarBaseMult",
	"golang.org/x/crypto/curve25519.ScalarMult":     "ScalarMult",
	"golang.org/x/crypto/salsa20/salsa.HSalsa20":    "HSalsa20",
	"golang.org/x/crypto/nacl/secretbox.Seal":       "SecretSeal",
	"golang.org/x/crypto/nacl/secretbox.Open":       "SecretOpen",
	"golang.org/x/crypto/nacl/auth.Sum":             "AuthSum",
	"golang.org/x/crypto/nacl/auth.Verify":          "AuthVerify",
	"encoding/binary.Write":                         "BinWrite",
	"encoding/binary.Read":                          "BinRead",
	"encoding/binary.Size":                          "BinSize",
}

var bcryptMu sync.Mutex
var bcryptCache = map[string][]byte{}

func realBcrypt(pw, salt []byte, rounds, n int) []byte {
	k := fmt.Sprintf("%x|%x|%d|%d", pw, salt, rounds, n)
	bcryptMu.Lock()
	defer bcryptMu.Unlock()
	if r, ok := bcryptCache[k]; ok {
		return r
	}
	r, err := bcrypt_pbkdf.Key(pw, salt, rounds, n)
	if err != nil {
		panic(unsupported("bcrypt: " + err.Error()))
	}
	bcryptCache[k] = r
	return r
}

func a32(b []byte) *[32]byte { var r [32]byte; copy(r[:], b); return &r }
func a24(b []byte) *[24]byte { var r [24]byte; copy(r[:], b); return &r }

// leaves lists pointers to the fixed-size parts of a value, as encoding/binary
// sees them; ok is false for a type it rejects.
func (st *State) leaves(t types.Type, p Ptr, out *[]Value) bool {
	if len(*out) > 4096 {
		panic(unsupported("encoding/binary on a large value"))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w, _, ok := intWidth(t)
		if isBool(t) {
			ok, w = true, 8
		} else if u.Kind() == types.Int || u.Kind() == types.Uint || u.Kind() == types.Uintptr {
			ok = false
		} else if ok {
			// signed values are handled through unsigned pointers
			u = types.Typ[map[uint8]types.BasicKind{8: types.Uint8, 16: types.Uint16, 32: types.Uint32, 64: types.Uint64}[w]]
		}
		if !ok {
			return false
		}
		*out = append(*out, IfaceV{types.NewPointer(u), p})
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			q := p.field(i)
			if u.Field(i).Name() == "_" {
				q = st.alloc(st.c.zero(u.Field(i).Type()))
			}
			if !st.leaves(u.Field(i).Type(), q, out) {
				return false
			}
		}
		return true
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			if !st.leaves(u.Elem(), p.elem(st.c.I64(i)), out) {
				return false
			}
		}
		return true
	}
	return false
}

func addCryptoIntrinsics(m map[string]intrinsic) {
	m[vmodelPath+".leaves"] = func(st *State, a []Value, reg int) {
		iv := a[0].(IfaceV)
		var out []Value
		ok := false
		if iv.t != nil {
			switch u := iv.t.Underlying().(type) {
			case *types.Pointer:
				if p := iv.v.(Ptr); p.obj != 0 {
					ok = st.leaves(u.Elem(), p, &out)
				}
			case *types.Slice:
				s := iv.v.(*SliceV)
				n := st.concretize(s.len, 4096)
				ok = true
				for i := uint64(0); i < n && ok; i++ {
					ok = st.leaves(u.Elem(), s.base.elem(st.c.Add(s.off, st.c.Const(64, i))), &out)
				}
			default:
				ok = st.leaves(iv.t, st.alloc(iv.v), &out)
			}
		}
		n := st.c.I64(int64(len(out)))
		z := st.c.I64(0)
		st.setRet(reg, TupleV{&SliceV{base: st.alloc(&ArrV{out}), off: z, len: n, cap: n}, st.c.Bool(ok)})
	}
	R := func(name string, nb int, f func(b [][]byte, ints []int) any) {
		m[vmodelPath+"."+name] = func(st *State, a []Value, reg int) {
			var bs [][]byte
			var is []int
			for i, v := range a {
				if i < nb {
					b, ok := st.concreteBytes(v)
					if !ok {
						panic(unsupported(name + " on symbolic bytes"))
					}
					bs = append(bs, b)
				} else {
					is = append(is, int(st.concretize(v.(*Term), 1<<31)))
				}
			}
			switch r := f(bs, is).(type) {
			case []byte:
				st.setRet(reg, st.bytesValue(r))
			case bool:
				st.setRet(reg, st.c.Bool(r))
			}
		}
	}
	R("RealSum512", 1, func(b [][]byte, _ []int) any { s := sha512.Sum512(b[0]); return s[:] })
	R("RealEdPub", 1, func(b [][]byte, _ []int) any { return []byte(ed25519.NewKeyFromSeed(b[0])[32:]) })
	R("RealEdSign", 2, func(b [][]byte, _ []int) any { return ed25519.Sign(ed25519.PrivateKey(b[0]), b[1]) })
	R("RealEdVerify", 3, func(b [][]byte, _ []int) any { return ed25519.Verify(ed25519.PublicKey(b[0]), b[1], b[2]) })
	R("RealBcrypt", 2, func(b [][]byte, i []int) any { return realBcrypt(b[0], b[1], i[0], i[1]) })
	R("RealX25519", 2, func(b [][]byte, _ []int) any {
		var o [32]byte
		curve25519.ScalarMult(&o, a32(b[0]), a32(b[1]))
		return o[:]
	})
	R("RealX25519Base", 1, func(b [][]byte, _ []int) any {
		var o [32]byte
		curve25519.ScalarBaseMult(&o, a32(b[0]))
		return o[:]
	})
	R("RealHSalsa20", 2, func(b [][]byte, _ []int) any {
		var o [32]byte
		var in [16]byte
		copy(in[:], b[0])
		salsa.HSalsa20(&o, &in, a32(b[1]), &salsa.Sigma)
		return o[:]
	})
	R("RealSecretSeal", 3, func(b [][]byte, _ []int) any { return secretbox.Seal(nil, b[0], a24(b[1]), a32(b[2])) })
	R("RealSecretOpen", 3, func(b [][]byte, _ []int) any {
		r, _ := secretbox.Open(nil, b[0], a24(b[1]), a32(b[2]))
		return r
	})
	R("RealSecretOpenOK", 3, func(b [][]byte, _ []int) any {
		_, ok := secretbox.Open(nil, b[0], a24(b[1]), a32(b[2]))
		return ok
	})
	R("RealAuthSum", 2, func(b [][]byte, _ []int) any { return auth.Sum(b[0], a32(b[1]))[:] })
}
