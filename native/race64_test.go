package base64_test

import (
	"bytes"
	"io/ioutil"
	"sync"
	"testing"

	"github.com/kisom/psignify/base64"
)

// TestVerifRace uses independent encoders and decoders at the same time, on
// the same data, under the race detector.
func TestVerifRace(t *testing.T) {
	var data []byte
	for i := 0; i < 500; i++ {
		data = append(data, byte(i*7+i>>3))
	}
	var want bytes.Buffer
	e := base64.NewEncoder(&want)
	e.Write(data)
	e.Close()

	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				var b bytes.Buffer
				e := base64.NewEncoder(&b)
				if _, err := e.Write(data); err != nil {
					t.Error(err)
				}
				if err := e.Close(); err != nil {
					t.Error(err)
				}
				if b.String() != want.String() {
					t.Error("the text differs")
				}
				d := base64.NewDecoder(bytes.NewReader(want.Bytes()))
				out, err := ioutil.ReadAll(d)
				if err != nil || !bytes.Equal(out, data) {
					t.Error("the data do not come back", err)
				}
				d.Close()
			}
		}()
	}
	wg.Wait()
}
