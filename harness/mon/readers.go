package mon

import (
	"fmt"
	"io"
	"math/rand/v2"
)

// Feeder is an instrumented reader: it delivers a text in a chosen chunking, optionally
// ends with an error instead of EOF, and records every read.
type Feeder struct {
	Data     string
	Chunks   []int // sizes of successive reads, cycled; 0 means an empty read
	Final    error // error after the data (io.EOF if nil)
	WithData bool  // deliver the final error together with the last bytes

	pos   int
	i     int
	Reads int
	Empty int
	Ended int // number of times the final error was delivered
}

func (f *Feeder) final() error {
	f.Ended++
	if f.Final == nil {
		return io.EOF
	}
	return f.Final
}

// Read implements io.Reader.
func (f *Feeder) Read(p []byte) (int, error) {
	f.Reads++
	if f.pos >= len(f.Data) {
		return 0, f.final()
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(f.Chunks) > 0 {
		c := f.Chunks[f.i%len(f.Chunks)]
		f.i++
		if c == 0 {
			f.Empty++
			return 0, nil
		}
		n = min(n, c)
	}
	n = copy(p[:n], f.Data[f.pos:])
	f.pos += n
	if f.pos >= len(f.Data) && f.WithData {
		return n, f.final()
	}
	return n, nil
}

// Delivered is the number of bytes read so far.
func (f *Feeder) Delivered() int { return f.pos }

// Chunking describes the feeder.
func (f *Feeder) Chunking() string {
	return fmt.Sprintf("chunks=%v withData=%v final=%v", f.Chunks, f.WithData, f.Final)
}

// RandomFeeder picks a chunking.
func RandomFeeder(r *rand.Rand, g *Gen, data string) *Feeder {
	f := &Feeder{Data: data, WithData: r.IntN(3) == 0}
	switch r.IntN(8) {
	case 0:
		// as asked
	case 1:
		f.Chunks = []int{1}
	case 2:
		f.Chunks = []int{1 + r.IntN(7)}
	case 3:
		f.Chunks = []int{1 + r.IntN(len(data)+1), 1, 1 << 20}
	case 4:
		for k := 1 + r.IntN(12); k > 0; k-- {
			f.Chunks = append(f.Chunks, 1+r.IntN(40))
		}
	case 5:
		for k := 1 + r.IntN(12); k > 0; k-- {
			f.Chunks = append(f.Chunks, r.IntN(9))
		}
		f.Chunks = append(f.Chunks, 3) // never only empty reads
	case 6:
		f.Chunks = []int{1 + g.Len(r, 70000)}
	case 7:
		f.Chunks = []int{1 + g.Len(r, 5000), 1 + r.IntN(3)}
	}
	return f
}
