// Package vterm stands in for x/crypto/ssh/terminal: scripted passphrases.
package vterm

import "errors"

var (
	// Answers are returned by successive prompts.
	Answers [][]byte
	// Prompts counts prompts.
	Prompts int
	// FailPrompt is the index of the prompt that fails (-1: none).
	FailPrompt = -1

	// Given are the buffers handed out.
	Given [][]byte

	ErrTerm = errors.New("injected terminal failure")
)

func ReadPassword(fd int) ([]byte, error) {
	i := Prompts
	Prompts++
	if i == FailPrompt || i >= len(Answers) {
		return nil, ErrTerm
	}
	b := append([]byte(nil), Answers[i]...)
	Given = append(Given, b)
	return b, nil
}

func IsTerminal(fd int) bool { return true }

type State struct{}

func GetState(fd int) (*State, error)      { return &State{}, nil }
func MakeRaw(fd int) (*State, error)       { return &State{}, nil }
func Restore(fd int, s *State) error       { return nil }
func GetSize(fd int) (w, h int, err error) { return 80, 24, nil }
