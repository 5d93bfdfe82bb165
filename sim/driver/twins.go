package main

import (
	"hash/crc32"
	"hash/fnv"
	"strconv"
	"sync"
)

var (
	twinsOnce sync.Once
	twinPairs [][2]string
)

// twins are pairs of identifiers that common hash functions cannot tell apart.
func twins() [][2]string {
	twinsOnce.Do(func() {
		twinPairs = [][2]string{
			{"#Aa", "#BB"}, {"#AaAa", "#BBBB"}, // sum of 31^i
			{"#Ab", "#BA"}, {"#2B", "#1c"}, // sum of 33^i
			{"#121", "#202"}, {"#1012", "#0120"}, // Adler-32, or the sum
			{"#12", "#21"}, {"#123", "#312"}, {"#1234", "#4321"}, // sum, exclusive or
			{"#1", "#257"}, {"#7", "#65543"}, {"#5", "#4294967301"}, {"#9", "#18446744073709551625"}, // low bits
			{"#9007199254740992", "#9007199254740993"}, {"#16777216", "#16777217"}, // as a float
			{"#100000000000000001", "#100000000000000002"},
		}
		for _, h := range []func(b []byte) uint32{
			func(b []byte) uint32 { f := fnv.New32(); f.Write(b); return f.Sum32() },
			func(b []byte) uint32 { f := fnv.New32a(); f.Write(b); return f.Sum32() },
			crc32.ChecksumIEEE,
			func(b []byte) uint32 { return crc32.Checksum(b, crc32.MakeTable(crc32.Castagnoli)) },
		} {
			for _, prefix := range []string{"#", ""} { // with and without the sign
				seen := map[uint32]string{}
				found := 0
				for i := 0; i < 400000 && found < 3; i++ {
					id := strconv.FormatUint(uint64(i+1)*0x9E3779B97F4A7C15>>28, 10)
					x := h([]byte(prefix + id))
					if o, ok := seen[x]; ok {
						twinPairs = append(twinPairs, [2]string{"#" + o, "#" + id})
						found++
					}
					seen[x] = id
				}
			}
		}
	})
	return twinPairs
}

func (r *rng) twin() [2]string {
	t := twins()
	return t[r.n(len(t))]
}
