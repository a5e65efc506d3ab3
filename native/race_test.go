package crypto_test

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync"
	"testing"

	"github.com/kisom/psignify/crypto"
	"github.com/kisom/psignify/signify"
)

// TestVerifRace runs independent operations at the same time, under the race
// detector.  It confirms (or not) what the symbolic check of R01 reports.
func TestVerifRace(t *testing.T) {
	signify.PassphrasePrompt = func(bool) ([]byte, error) { return []byte("correct horse"), nil }
	root, err := ioutil.TempDir("", "verifrace")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(root)

	shared := filepath.Join(root, "shared")
	if err := signify.GenerateKey(shared, nil, nil); err != nil {
		t.Fatal(err)
	}
	pub, err := signify.LoadPublicKey(shared + ".pub")
	if err != nil {
		t.Fatal(err)
	}
	priv, err := signify.LoadPrivateKey(shared + ".sec")
	if err != nil {
		t.Fatal(err)
	}

	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			dir := filepath.Join(root, fmt.Sprint(g))
			if err := os.Mkdir(dir, 0700); err != nil {
				t.Error(err)
				return
			}
			var pass []byte
			if g%2 == 1 {
				pass = []byte("correct horse")
			}
			for i := 0; i < 8; i++ {
				one(t, filepath.Join(dir, fmt.Sprint(i)), pass, byte(16*g+i), (g+i)%4*9000)
				if _, err := pub.ToBox(); err != nil {
					t.Error(err)
				}
				if err := priv.Check(); err != nil {
					t.Error(err)
				}
				priv.IsEncrypted()
				if _, err := priv.ToBox(); err != nil {
					t.Error(err)
				}
			}
		}(g)
	}
	wg.Wait()
}

func one(t *testing.T, base string, pass []byte, fill byte, size int) {
	msg := bytes.Repeat([]byte{fill, fill ^ 0x55}, size/2+3)
	if err := ioutil.WriteFile(base, msg, 0600); err != nil {
		t.Error(err)
		return
	}
	do := func(err error) {
		if err != nil {
			t.Error(base, err)
		}
	}
	do(signify.GenerateKey(base, append([]byte(nil), pass...), &signify.GenerateOptions{Rounds: 1}))
	do(signify.Sign(base+".sec", base, ""))
	do(signify.Verify(base+".pub", base, ""))
	do(crypto.Seal(base+".pub", base, ""))
	do(crypto.Open(base+".sec", base+".enc", base+".out"))
	out, err := ioutil.ReadFile(base + ".out")
	if err != nil || !bytes.Equal(out, msg) {
		t.Error(base, "the message does not come back", err)
	}
	if err := ioutil.WriteFile(base, append(msg, 'x'), 0600); err != nil {
		t.Error(err)
	}
	if signify.Verify(base+".pub", base, "") == nil {
		t.Error(base, "a changed message verifies")
	}
}
