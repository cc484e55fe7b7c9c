package osmref

import (
	"encoding/binary"
	"os"
)

// Sparse writes a file of many gigabytes with holes in it: the blocks that mk
// makes, each followed, in its blob, by a primitive group with one (empty) change
// set of up to step bytes. A blob ends at each of the stops; the last is the size of the file.
func Sparse(path string, mk func(k int) Block, step int64, stops ...int64) (File, error) {
	w, err := os.Create(path)
	if err != nil {
		return nil, err
	}
	defer w.Close()
	var f File
	at := int64(0)
	for at < stops[len(stops)-1] {
		for at >= stops[0] {
			stops = stops[1:]
		}
		size := stops[0] - at
		if size > step && size < step+4096 {
			size -= 4096
		} else if size > step {
			size = step
		}
		b := mk(len(f))
		f = append(f, b)
		var head []byte
		if b.BlobType() == "OSMData" {
			head = sparseBlob(b.Content(), size)
		} else {
			head = EncodeBlob(b.BlobType(), b.Content(), false)
			size = int64(len(head))
		}
		if _, err := w.WriteAt(head, at); err != nil {
			return nil, err
		}
		at += size
	}
	return f, w.Truncate(at)
}

// sparseBlob is the start of a blob of size bytes, the rest of which is zero.
func sparseBlob(payload []byte, size int64) []byte {
	long := func(b []byte, id int, n int64) []byte { // a length that always takes five bytes
		b = append(b, byte(id<<3|2))
		for i := 0; i < 4; i++ {
			b = append(b, byte(n)&0x7f|0x80)
			n >>= 7
		}
		return append(b, byte(n))
	}
	h := Field(nil, 1, []byte("OSMData"))
	h = append(h, 3<<3)
	hl := len(h) + 5
	blob := size - 4 - int64(hl)
	n := blob
	for i := 0; i < 4; i++ {
		h = append(h, byte(n)&0x7f|0x80)
		n >>= 7
	}
	h = append(h, byte(n))
	out := make([]byte, 4)
	binary.BigEndian.PutUint32(out, uint32(len(h)))
	out = append(out, h...)
	out = long(out, 1, blob-6) // raw
	out = append(out, payload...)
	rest := blob - 6 - int64(len(payload))
	out = long(out, 2, rest-6)   // a primitive group
	return long(out, 5, rest-12) // with a change set
}
