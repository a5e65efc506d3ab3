// Package vuser stands in for os/user.
package vuser

import "errors"

type User struct {
	Uid, Gid, Username, Name, HomeDir string
}

var (
	Me  = User{Uid: "1000", Gid: "1000", Username: "u", Name: "u", HomeDir: "/home/u"}
	Err error

	ErrUser = errors.New("injected user lookup failure")
)

func Current() (*User, error) {
	if Err != nil {
		return nil, Err
	}
	u := Me
	return &u, nil
}

func Lookup(name string) (*User, error) { return Current() }
