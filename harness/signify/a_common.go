package signify

import (
	stdb64 "encoding/base64"
	"errors"

	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
)

const (
	vhKey  = "/w/u"
	vhSec  = "/w/u.sec"
	vhPub  = "/w/u.pub"
	vhMsg  = "/w/msg"
	vhSig  = "/w/msg.sig"
	vhOut  = "/w/out.sig"
	vhHead = "untrusted comment: "
)

var (
	vhErr     = errors.New("injected prompt failure")
	vhPrompts int
)

// vhSetPrompt answers the successive passphrase prompts; nil: the prompt fails.
func vhSetPrompt(answers ...[]byte) {
	vhPrompts = 0
	PassphrasePrompt = func(confirm bool) ([]byte, error) {
		i := vhPrompts
		vhPrompts++
		if i >= len(answers) {
			i = len(answers) - 1
		}
		if answers[i] == nil {
			return nil, vhErr
		}
		return append([]byte(nil), answers[i]...), nil
	}
}

func vhClone(b []byte) []byte { return append([]byte(nil), b...) }

// vhPass picks a passphrase: none or a fixed one.
func vhPass(c int) []byte {
	if c == 0 {
		return nil
	}
	return []byte("correct horse")
}

// vhMake generates a key pair at vhKey and answers prompts with its passphrase.
func vhMake(pass []byte) {
	if len(pass) == 0 {
		vhSetPrompt(nil)
	} else {
		vhSetPrompt(pass)
	}
	err := GenerateKey(vhKey, pass, &GenerateOptions{Rounds: 2})
	vrt.Assert(err == nil, "key generation works")
	if err != nil {
		vrt.Stop()
	}
}

func vhFile(path string) []byte {
	d, ok := vos.Get(path)
	if !ok {
		return nil
	}
	return d
}

// vhSplit cuts a data file into its comment and payload lines.
func vhSplit(d []byte) (comment, payload []byte) {
	i := 0
	for i < len(d) && d[i] != '\n' {
		i++
	}
	if i >= len(d) {
		return d, nil
	}
	rest := d[i+1:]
	j := 0
	for j < len(rest) && rest[j] != '\n' {
		j++
	}
	return d[:i], rest[:j]
}

// vhPayload decodes the payload of a data file.
func vhPayload(path string) []byte {
	_, p := vhSplit(vhFile(path))
	b, err := stdb64.StdEncoding.DecodeString(string(p))
	if err != nil {
		return nil
	}
	return b
}

// vhPut writes a data file with the given payload.
func vhPut(path string, payload []byte) {
	vos.Put(path, append([]byte(vhHead+"x\n"), append([]byte(stdb64.StdEncoding.EncodeToString(payload)), '\n')...), 0644)
}

func vhXor(b, d []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[i] = b[i] ^ d[i]
	}
	return r
}

func vhZero(d []byte) bool {
	var x byte
	for _, c := range d {
		x |= c
	}
	return x == 0
}
