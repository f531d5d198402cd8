// Code generated by tools/shimgen. DO NOT EDIT.

package vtime

import x "time"

const ANSIC = x.ANSIC
const April = x.April
const August = x.August

var Date = x.Date

const DateOnly = x.DateOnly
const DateTime = x.DateTime
const December = x.December

type Duration = x.Duration

const February = x.February

var FixedZone = x.FixedZone

const Friday = x.Friday
const Hour = x.Hour
const January = x.January
const July = x.July
const June = x.June
const Kitchen = x.Kitchen
const Layout = x.Layout

var LoadLocation = x.LoadLocation
var LoadLocationFromTZData = x.LoadLocationFromTZData
var Local = x.Local

type Location = x.Location

const March = x.March
const May = x.May
const Microsecond = x.Microsecond
const Millisecond = x.Millisecond
const Minute = x.Minute
const Monday = x.Monday

type Month = x.Month

const Nanosecond = x.Nanosecond
const November = x.November
const October = x.October

var Parse = x.Parse
var ParseDuration = x.ParseDuration

type ParseError = x.ParseError

var ParseInLocation = x.ParseInLocation

const RFC1123 = x.RFC1123
const RFC1123Z = x.RFC1123Z
const RFC3339 = x.RFC3339
const RFC3339Nano = x.RFC3339Nano
const RFC822 = x.RFC822
const RFC822Z = x.RFC822Z
const RFC850 = x.RFC850
const RubyDate = x.RubyDate
const Saturday = x.Saturday
const Second = x.Second
const September = x.September
const Stamp = x.Stamp
const StampMicro = x.StampMicro
const StampMilli = x.StampMilli
const StampNano = x.StampNano
const Sunday = x.Sunday
const Thursday = x.Thursday

type Time = x.Time

const TimeOnly = x.TimeOnly
const Tuesday = x.Tuesday

var UTC = x.UTC
var Unix = x.Unix

const UnixDate = x.UnixDate

var UnixMicro = x.UnixMicro
var UnixMilli = x.UnixMilli

const Wednesday = x.Wednesday

type Weekday = x.Weekday
