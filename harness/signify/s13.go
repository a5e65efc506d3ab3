package signify

import (
	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/internal/vterm"
)

// VH_S13_sign: the passphrase given for signing is wiped, however signing ends.
func VH_S13_sign() {
	p := vrt.Bytes("pass", 1, 6)
	vhMake(p)
	if vrt.Choose("message", 2) == 1 {
		vos.Put(vhMsg, vrt.Bytes("msg", 0, 20), 0644)
	}
	vos.Ops = 0
	vos.FailErrs = true
	vos.FailOp = vrt.Int("fail", -1, 12)
	var given []byte
	q := vrt.Bytes("tried", 0, 6)
	prompts := 0
	PassphrasePrompt = func(bool) ([]byte, error) {
		prompts++
		given = vhClone(q)
		return given, nil
	}
	err := Sign(vhSec, vhMsg, "")
	vrt.Assert(vhZero(given), "the passphrase is wiped after signing")
	if err == nil {
		vrt.Reach("signed")
	} else if prompts > 0 {
		vrt.Reach("refused")
	}
}

// VH_S13_box: the same for the conversion to a decryption key.
func VH_S13_box() {
	p := vrt.Bytes("pass", 1, 6)
	vhMake(p)
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	if err != nil {
		return
	}
	if vrt.Choose("kdf", 2) == 1 {
		priv.kdfAlgo[vrt.Choose("which", 2)] ^= vrt.Byte("diff")
	}
	var given [][]byte
	q := vrt.Bytes("tried", 0, 6)
	PassphrasePrompt = func(bool) ([]byte, error) {
		b := vhClone(q)
		given = append(given, b)
		return b, nil
	}
	for i := 0; i < 2; i++ {
		_, err = priv.ToBox()
		for _, b := range given {
			vrt.Assert(vhZero(b), "the passphrase is wiped after conversion")
		}
		if err == nil {
			vrt.Reach("converted")
		} else {
			vrt.Reach("refused")
		}
	}
}

// VH_S13_prompt: what the built-in prompt read for confirmation is wiped, and
// so is the passphrase unless it is returned.
func VH_S13_prompt() {
	a := vrt.Bytes("first", 0, 5)
	b := vrt.Bytes("second", 0, 5)
	confirm := vrt.Choose("confirm", 2) == 1
	vterm.Answers = [][]byte{a, b}
	vterm.FailPrompt = vrt.Int("fail", -1, 2)
	got, err := PassphrasePrompt(confirm)
	for i, g := range vterm.Given {
		if err == nil && i == 0 {
			continue // returned, or the caller's copy of it
		}
		vrt.Assert(vhZero(g), "answers not returned are wiped")
	}
	if err == nil {
		vrt.Assert(vrt.EqBytes(got, a), "the answer is returned")
		vrt.Reach("returned")
	} else {
		vrt.Reach("failed")
	}
}

// VH_S13_use: the same with the built-in prompt.
func VH_S13_use() {
	p := vrt.Bytes("pass", 1, 5)
	err := GenerateKey(vhKey, p, &GenerateOptions{Rounds: 1})
	vrt.Assert(err == nil, "key generation works")
	vos.Put(vhMsg, []byte("m"), 0644)
	vterm.Answers = [][]byte{vrt.Bytes("tried", 0, 5), vrt.Bytes("again", 0, 5)}
	err = Sign(vhSec, vhMsg, "")
	if err == nil {
		vrt.Reach("signed")
	}
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	_, err = priv.ToBox()
	for _, g := range vterm.Given {
		vrt.Assert(vhZero(g), "the passphrase is wiped after use")
	}
	vrt.Reach("done")
}

// VH_S13_long: long passphrases are wiped as well.
func VH_S13_long() {
	n := []int{17, 33, 64, 65, 73, 129, 300, 1025, 4097, 1<<16 + 1}[vrt.Choose("len", 10)]
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(1 + i%255)
	}
	q := vhClone(p)
	wrong := vrt.Choose("wrong", 2) == 1
	if wrong {
		q[n-1] = 0x55 // never the original
		if p[n-1] == 0x55 {
			q[n-1] = 0x54
		}
	}
	vhMake(p)
	vos.Put(vhMsg, []byte("m"), 0644)
	var given []byte
	PassphrasePrompt = func(bool) ([]byte, error) {
		given = vhClone(q)
		return given, nil
	}
	err := Sign(vhSec, vhMsg, "")
	vrt.Assert((err != nil) == wrong, "signs with the right passphrase")
	vrt.Assert(vhZero(given), "the passphrase is wiped after signing")
	priv, err := LoadPrivateKey(vhSec)
	vrt.Assert(err == nil, "key loads")
	if err != nil {
		return
	}
	given = nil
	_, err = priv.ToBox()
	vrt.Assert((err != nil) == wrong, "converts with the right passphrase")
	vrt.Assert(vhZero(given), "the passphrase is wiped after conversion")
	vrt.Reach("done")
}

// VH_S13_longprompt: the same for long answers at the built-in prompt.
func VH_S13_longprompt() {
	n := []int{17, 33, 64, 65, 73, 129, 300, 1025, 4095}[vrt.Choose("len", 9)]
	p := make([]byte, n)
	for i := range p {
		p[i] = byte(1 + i%255)
	}
	k := []int{n, n - 1, n / 2, 1}[vrt.Choose("again", 4)]
	vterm.Answers = [][]byte{p, p[:k]}
	got, err := PassphrasePrompt(true)
	for i, g := range vterm.Given {
		if err != nil || i > 0 {
			vrt.Assert(vhZero(g), "answers not returned are wiped")
		}
	}
	vrt.Assert((err == nil) == (k == n), "accepted exactly when both answers agree")
	if err == nil {
		vrt.Assert(vrt.EqBytes(got, p), "the answer is returned")
		vrt.Reach("agree")
	} else {
		vrt.Reach("differ")
	}
}
