// Package converters stands in for github.com/hyp3rd/sectools v1.2.6, which is
// not available offline. It offers the checked integer conversions hypercache
// uses, with the documented behaviour: the value when it fits, an error when
// it does not.
package converters

import (
	"errors"
	"math"
)

// ErrOverflow reports a value outside the target type.
var ErrOverflow = errors.New("integer conversion out of range")

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

func u64[T integer](v T) (uint64, error) {
	if v < 0 {
		return 0, ErrOverflow
	}
	return uint64(v), nil
}

func i64[T integer](v T) (int64, error) {
	if v > 0 && uint64(v) > math.MaxInt64 {
		return 0, ErrOverflow
	}
	return int64(v), nil
}

// ToUint32 converts v.
func ToUint32[T integer](v T) (uint32, error) {
	u, err := u64(v)
	if err != nil || u > math.MaxUint32 {
		return 0, ErrOverflow
	}
	return uint32(u), nil
}

// ToUint converts v.
func ToUint[T integer](v T) (uint, error) {
	u, err := u64(v)
	return uint(u), err
}

// ToUint64 converts v.
func ToUint64[T integer](v T) (uint64, error) { return u64(v) }

// ToInt converts v.
func ToInt[T integer](v T) (int, error) {
	i, err := i64(v)
	return int(i), err
}

// ToInt64 converts v.
func ToInt64[T integer](v T) (int64, error) { return i64(v) }

// ToInt32 converts v.
func ToInt32[T integer](v T) (int32, error) {
	i, err := i64(v)
	if err != nil || i > math.MaxInt32 || i < math.MinInt32 {
		return 0, ErrOverflow
	}
	return int32(i), nil
}
