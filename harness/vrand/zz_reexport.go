// Code generated by tools/shimgen. DO NOT EDIT.

package vrand

import x "math/rand"

var NewZipf = x.NewZipf

type Rand = x.Rand
type Source = x.Source
type Source64 = x.Source64
type Zipf = x.Zipf
