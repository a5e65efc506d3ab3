package vcmd

import (
	"errors"
	"strings"

	"github.com/kisom/psignify/internal/vflag"
	"github.com/kisom/psignify/internal/vos"
	"github.com/kisom/psignify/internal/vrt"
	"github.com/kisom/psignify/internal/vterm"
	"github.com/kisom/psignify/internal/vuser"
	"github.com/kisom/psignify/signify"
)

var errPrompt = errors.New("no prompt expected")

// run executes the program with the given arguments.
func run(args ...string) int {
	vos.Args = append([]string{"psignify"}, args...)
	vflag.CommandLine = vflag.NewFlagSet("psignify", vflag.ExitOnError)
	vflag.CommandLine.Usage = func() { vflag.Usage() }
	vos.OutText, vos.ErrText = nil, nil
	code, crashed := vos.Process(main)
	vrt.Assert(!crashed, "M01: the program does not crash")
	vrt.Assert(code >= 0 && code <= 2, "M01: exit status is 0, 1 or 2")
	return code
}

// answers scripts the passphrases typed at the terminal.
func answers(a ...[]byte) {
	vterm.Answers, vterm.Prompts, vterm.FailPrompt = a, 0, -1
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

func file(p string) []byte { d, _ := vos.Get(p); return d }

func exists(p string) bool { return vos.Lookup(p) != nil }

func keypair(base string, pass []byte) {
	vrt.Assert(signify.GenerateKey(base, pass, &signify.GenerateOptions{Rounds: 1}) == nil, "key generation works")
}

// snap and same: everything but the listed files is untouched.
func snap() (names []string, data [][]byte) {
	for _, f := range vos.Files() {
		names = append(names, f)
		data = append(data, clone(file(f)))
	}
	return
}

func same(names []string, data [][]byte, label string, except ...string) {
	skip := func(f string) bool {
		for _, e := range except {
			if e == f {
				return true
			}
		}
		return false
	}
	for i, f := range names {
		if !skip(f) {
			vrt.Assert(exists(f) && vrt.EqBytes(file(f), data[i]), label)
		}
	}
	for _, f := range vos.Files() {
		known := skip(f)
		for _, n := range names {
			known = known || n == f
		}
		vrt.Assert(known, label)
	}
}

func saysOK() bool { return strings.Contains(string(vos.OutText), ": OK") }

const home = "/home/u/.signify/u"

var _ = vuser.Me
