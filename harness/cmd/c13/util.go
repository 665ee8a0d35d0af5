package main

import (
	"encoding/base64"
	"sort"
	"time"
)

const hour = time.Hour

func utc(sec int64) time.Time { return time.Unix(sec, 0).UTC() }

func unb64(s string) []byte {
	b, _ := base64.RawURLEncoding.DecodeString(s)
	return b
}

func sorted(l []string) []string {
	out := append([]string{}, l...)
	sort.Strings(out)

	return out
}

// spare gives a slice with room behind it, as a caller that reuses an option slice has.
func spare[T any](xs ...T) []T {
	out := make([]T, 0, len(xs)+4)
	return append(out, xs...)
}
