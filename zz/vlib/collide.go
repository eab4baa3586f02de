package vlib

import (
	"hash/adler32"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
	"strconv"
)

// Pair are two different texts with the same hash.
type Pair struct{ Hash, A, B string }

// Colliding returns pairs of the texts gen(0), gen(1), ... that common hashes
// of 32 bits, and halves of common hashes of 64 bits, cannot tell apart; up to
// max for each of the hashes. Where one is kept for the other both are wrong.
func Colliding(max int, gen func(i int) string) (out []Pair) {
	fnv1 := func(s string) uint64 { h := fnv.New64(); h.Write([]byte(s)); return h.Sum64() }
	fnv1a := func(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }
	mul := func(m, x uint32) func(string) uint32 {
		return func(s string) uint32 {
			h := x
			for i := 0; i < len(s); i++ {
				h = h*m + uint32(s[i])
			}
			return h
		}
	}
	koopman, castagnoli, ecma := crc32.MakeTable(crc32.Koopman), crc32.MakeTable(crc32.Castagnoli), crc64.MakeTable(crc64.ECMA)
	hashes := []struct {
		name string
		f    func(s string) uint32
	}{
		{"crc32", func(s string) uint32 { return crc32.ChecksumIEEE([]byte(s)) }},
		{"crc32c", func(s string) uint32 { return crc32.Checksum([]byte(s), castagnoli) }},
		{"crc32k", func(s string) uint32 { return crc32.Checksum([]byte(s), koopman) }},
		{"crc64 low", func(s string) uint32 { return uint32(crc64.Checksum([]byte(s), ecma)) }},
		{"adler32", func(s string) uint32 { return adler32.Checksum([]byte(s)) }},
		{"fnv32", func(s string) uint32 { h := fnv.New32(); h.Write([]byte(s)); return h.Sum32() }},
		{"fnv32a", func(s string) uint32 { h := fnv.New32a(); h.Write([]byte(s)); return h.Sum32() }},
		{"fnv64 low", func(s string) uint32 { return uint32(fnv1(s)) }},
		{"fnv64 high", func(s string) uint32 { return uint32(fnv1(s) >> 32) }},
		{"fnv64 folded", func(s string) uint32 { h := fnv1(s); return uint32(h ^ h>>32) }},
		{"fnv64a low", func(s string) uint32 { return uint32(fnv1a(s)) }},
		{"fnv64a high", func(s string) uint32 { return uint32(fnv1a(s) >> 32) }},
		{"fnv64a folded", func(s string) uint32 { h := fnv1a(s); return uint32(h ^ h>>32) }},
		{"31", mul(31, 0)},
		{"33", mul(33, 5381)},
		{"131", mul(131, 0)},
		{"length and sum", func(s string) uint32 { return mul(1, 0)(s) + uint32(len(s))<<16 }},
	}
	const n = 300000
	all := make([]string, n)
	for i := range all {
		all[i] = gen(i)
	}
	for _, h := range hashes {
		seen := make(map[uint32]int32, n)
		found := 0
		for i, s := range all {
			x := h.f(s)
			if j, ok := seen[x]; ok && all[j] != s {
				out = append(out, Pair{h.name, all[j], s})
				if found++; found == max {
					break
				}
				continue
			}
			seen[x] = int32(i)
		}
		if found == 0 && h.name != "31" && h.name != "131" {
			panic("no two texts with the same " + h.name)
		}
	}
	return
}

// NameLen is the length of the names of Name36.
const NameLen = 8

func mix40(i int) uint64 {
	const mask = 1<<40 - 1
	x := uint64(i+1) * 0x9e3779b97f4a7c15 & mask
	x ^= x >> 21
	x = x * 0xd6e8feb86659fd93 & mask
	return x ^ x>>19
}

// Name36 is the i-th of a series of different names of letters and digits.
func Name36(i int) string {
	x := mix40(i)
	b := make([]byte, NameLen)
	for j := range b {
		b[j] = "abcdefghijklmnopqrstuvwxyz012345"[x>>uint(5*j)&31]
	}
	return string(b)
}

// NumLen is the length of the numbers of Num36.
const NumLen = 12

// Num36 is the i-th of a series of different numbers.
func Num36(i int) string { return strconv.FormatUint(100000000000+mix40(i)%800000000000, 10) }
