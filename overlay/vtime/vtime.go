// Package vtime stands in for time: the clock moves on with every look at it,
// and nothing waits.
package vtime

import "time"

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	Sunday    = time.Sunday
	Monday    = time.Monday
	Tuesday   = time.Tuesday
	Wednesday = time.Wednesday
	Thursday  = time.Thursday
	Friday    = time.Friday
	Saturday  = time.Saturday
)

var (
	UTC   = time.UTC
	Local = time.UTC

	// Clock is the time that the next look at it shows, in seconds; Nano goes
	// with it.
	Clock int64 = 1700000000
	Nano  int64 = 123456789
)

func Now() Time {
	t := time.Unix(Clock, Nano).UTC()
	Clock += 90061 // a day, an hour, a minute and a second
	Nano = (Nano + 987654321) % 1000000000
	return t
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration) {
	if d > 0 {
		Clock += int64(d / time.Second)
	}
}

func Unix(s, n int64) Time                                   { return time.Unix(s, n).UTC() }
func Parse(l, v string) (Time, error)                        { return time.Parse(l, v) }
func ParseInLocation(l, v string, o *Location) (Time, error) { return time.ParseInLocation(l, v, o) }
func ParseDuration(s string) (Duration, error)               { return time.ParseDuration(s) }
func Date(y int, m Month, d, h, min, s, n int, l *Location) Time {
	return time.Date(y, m, d, h, min, s, n, l)
}
func FixedZone(n string, o int) *Location      { return time.FixedZone(n, o) }
func LoadLocation(n string) (*Location, error) { return time.UTC, nil }
