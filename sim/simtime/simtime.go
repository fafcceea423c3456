// Package time stands in for the standard package of the same name inside the
// instrumented code: the clock is the simulated one. Everything else is the real thing.
package time

import (
	std "time"
	"unsafe"

	"verifsim/simrt"
)

type (
	Duration   = std.Duration
	Month      = std.Month
	Weekday    = std.Weekday
	Time       = std.Time
	Location   = std.Location
	ParseError = std.ParseError
)

const (
	Layout      = std.Layout
	ANSIC       = std.ANSIC
	UnixDate    = std.UnixDate
	RubyDate    = std.RubyDate
	RFC822      = std.RFC822
	RFC822Z     = std.RFC822Z
	RFC850      = std.RFC850
	RFC1123     = std.RFC1123
	RFC1123Z    = std.RFC1123Z
	RFC3339     = std.RFC3339
	RFC3339Nano = std.RFC3339Nano
	Kitchen     = std.Kitchen
	Stamp       = std.Stamp
	StampMilli  = std.StampMilli
	StampMicro  = std.StampMicro
	StampNano   = std.StampNano
	DateTime    = std.DateTime
	DateOnly    = std.DateOnly
	TimeOnly    = std.TimeOnly
	Nanosecond  = std.Nanosecond
	Microsecond = std.Microsecond
	Millisecond = std.Millisecond
	Second      = std.Second
	Minute      = std.Minute
	Hour        = std.Hour
	January     = std.January
	February    = std.February
	March       = std.March
	April       = std.April
	May         = std.May
	June        = std.June
	July        = std.July
	August      = std.August
	September   = std.September
	October     = std.October
	November    = std.November
	December    = std.December
	Sunday      = std.Sunday
	Monday      = std.Monday
	Tuesday     = std.Tuesday
	Wednesday   = std.Wednesday
	Thursday    = std.Thursday
	Friday      = std.Friday
	Saturday    = std.Saturday
)

var (
	UTC   = std.UTC
	Local = std.Local
)

func ParseDuration(s string) (Duration, error)    { return std.ParseDuration(s) }
func FixedZone(name string, offset int) *Location { return std.FixedZone(name, offset) }
func LoadLocation(name string) (*Location, error) { return std.LoadLocation(name) }
func Parse(layout, value string) (Time, error)    { return std.Parse(layout, value) }
func Unix(sec int64, nsec int64) Time             { return std.Unix(sec, nsec) }
func UnixMicro(usec int64) Time                   { return std.UnixMicro(usec) }
func UnixMilli(msec int64) Time                   { return std.UnixMilli(msec) }
func Since(t Time) Duration                       { return Now().Sub(t) }
func Until(t Time) Duration                       { return t.Sub(Now()) }
func LoadLocationFromTZData(name string, data []byte) (*Location, error) {
	return std.LoadLocationFromTZData(name, data)
}
func ParseInLocation(layout, value string, loc *Location) (Time, error) {
	return std.ParseInLocation(layout, value, loc)
}
func Date(year int, month Month, day, hour, min, sec, nsec int, loc *Location) Time {
	return std.Date(year, month, day, hour, min, sec, nsec, loc)
}

// layout of std.Time, checked below
type layout struct {
	wall uint64
	ext  int64
	loc  *Location
}

const (
	hasMonotonic = 1 << 63
	since1885    = 2682288000 // seconds from 1885 to 1970
)

func reading(wall, mono int64) Time {
	var t Time
	if wall/1e9+since1885 >= 1<<33 { // 2157: no room for both
		return std.Unix(0, wall)
	}
	l := (*layout)(unsafe.Pointer(&t))
	l.wall = hasMonotonic | uint64(wall/1e9+since1885)<<30 | uint64(wall%1e9)
	l.ext = mono
	l.loc = std.Local
	return t
}

func init() {
	a, b := reading(1790000000123456789, 5000), reading(1780000000000000000, 7000)
	if unsafe.Sizeof(Time{}) != unsafe.Sizeof(layout{}) || a.UnixNano() != 1790000000123456789 || b.Sub(a) != 2000 || !b.After(a) || a.Round(0).Sub(b.Round(0)) != 10000000123456789 {
		panic("harness: the layout of time.Time is not what simtime expects")
	}
}

// Now reads the simulated clock.
func Now() Time { return reading(simrt.Now()) }

// Sleep lets simulated time pass.
func Sleep(d Duration) {
	if d > 0 {
		simrt.Advance(int64(d))
	}
	simrt.Y(simrt.SiteBlock)
}
