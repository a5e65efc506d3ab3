// Package vioutil stands in for io/ioutil on top of vos.
package vioutil

import (
	"io"

	os "github.com/kisom/psignify/internal/vos"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm os.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func NopCloser(r io.Reader) io.ReadCloser            { return io.NopCloser(r) }
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }
