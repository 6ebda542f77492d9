import sys; sys.path.insert(0,'/verif/tools')
from mkseed import mkseed
IMP='package encoding\n\nimport (\n%s\n)\n'
def imp(*a): return 'package encoding\n\nimport (\n' + ''.join('\t"%s"\n'%x for x in a) + ')\n'
mkseed('c01-map16-limit','C01','encoding',[('encoding/encoder.go','''		if err := binary.Write(e, binary.BigEndian, int8(length)); err != nil {
			return err
		}
	case length > math.MaxUint8 && length <= math.MaxUint16:
		if _, err := e.Write([]byte{Map16Marker}); err != nil {''','''		if err := binary.Write(e, binary.BigEndian, int8(length)); err != nil {
			return err
		}
	case length > math.MaxUint8 && length <= math.MaxInt16:
		if _, err := e.Write([]byte{Map16Marker}); err != nil {'''),
 ('encoding/encoder.go','''	case length >= math.MaxUint16 && int64(length) <= math.MaxUint32:
		if _, err := e.Write([]byte{Map32Marker}); err != nil {''','''	case length > math.MaxInt16 && int64(length) <= math.MaxUint32:
		if _, err := e.Write([]byte{Map32Marker}); err != nil {''')],
imp('strconv','testing')+'''
func TestDemo(t *testing.T) {
	m := map[string]interface{}{}
	for i := 0; i < 40000; i++ {
		m[strconv.Itoa(i)] = nil
	}
	b, err := Marshal(m)
	if err != nil {
		t.Fatal(err)
	}
	if b[2] != Map16Marker || b[3] != 40000>>8 || b[4] != 40000&0xFF {
		t.Fatalf("a map of 40000 entries starts with % x", b[2:8])
	}
}
''','a map with 32768 to 65535 entries','such maps get the 32 bit header instead of the smallest size class that fits')
mkseed('c02-int-slice','C02','encoding',[('encoding/encoder.go','''				newSlice[i] = s.Index(i).Interface()
''','''				if item := s.Index(i); item.Kind() == reflect.Int {
					newSlice[i] = int32(item.Int())
				} else {
					newSlice[i] = item.Interface()
				}
''')],
imp('testing','reflect')+'''
func TestDemo(t *testing.T) {
	b, err := Marshal([]int{1, 3000000000, -7})
	if err != nil {
		t.Fatal(err)
	}
	got, err := Unmarshal(b)
	if err != nil || !reflect.DeepEqual(got, []interface{}{int64(1), int64(3000000000), int64(-7)}) {
		t.Fatalf("%+v %v", got, err)
	}
}
''','an []int with an element outside the int32 range','elements of an []int are narrowed to 32 bits, so the decoded value differs')
mkseed('c03-exact-multiple','C03','encoding',[('encoding/encoder.go','''	for e.buf.Len() > 0 {
''','''	pending := e.buf.Len() > 0
	for e.buf.Len() > 0 {
'''),('encoding/encoder.go','''	_, err := e.w.Write(EndMessage)
	if err != nil {
		return errors.Wrap(err, "An error occurred ending encoding message")
	}
''','''	if !pending {
		// everything has been written already
		return nil
	}

	if _, err := e.w.Write(EndMessage); err != nil {
		return errors.Wrap(err, "An error occurred ending encoding message")
	}
''')],
imp('bytes','testing','strings')+'''
func TestDemo(t *testing.T) {
	for _, size := range []uint16{1, 2, 3, 7, 64, 4096, 65535} {
		for _, n := range []int{1, 2, 3, 10, 62, 63, 4093, 4094} {
			w := &bytes.Buffer{}
			s := strings.Repeat("x", n)
			if err := NewEncoder(w, size).Encode(s); err != nil {
				t.Fatal(err)
			}
			b, got := w.Bytes(), 0
			for {
				if len(b) < 2 {
					t.Fatalf("size %d length %d: no end of message", size, n)
				}
				k := int(b[0])<<8 | int(b[1])
				b = b[2:]
				if k == 0 {
					break
				}
				if k > len(b) {
					t.Fatalf("size %d length %d: chunk of %d bytes, %d left", size, n, k, len(b))
				}
				b = b[k:]
				got += k
			}
			if len(b) != 0 || got < n {
				t.Fatalf("size %d length %d: %d bytes in chunks, %d after the end of the message", size, n, got, len(b))
			}
		}
	}
}
''','a message whose last write leaves exactly nothing in the buffer (its length fits the chunk size exactly)','the terminating empty chunk of such a message is missing')
mkseed('c04-half-header','C04','encoding',[('encoding/decoder.go','numRead != 2 {','numRead == 0 {')],
imp('bytes','testing')+'''
func TestDemo(t *testing.T) {
	b, err := Marshal("hello")
	if err != nil {
		t.Fatal(err)
	}
	for cut := 0; cut < len(b); cut++ {
		if v, err := NewDecoder(bytes.NewReader(b[:cut])).Decode(); err == nil {
			t.Fatalf("%d of %d bytes: got %v and no error", cut, len(b), v)
		}
	}
}
''','a stream that ends between the two bytes of a chunk header','an incomplete message is taken for a complete one')
mkseed('c05-map-key','C05','encoding',[('encoding/decoder.go','''		if !ok {
			return nil, errors.New("Unexpected key type: %T with value %+v", keyInt, keyInt)
		}
		mapp[key] = val
''','''		if !ok && keyInt != nil {
			return nil, errors.New("Unexpected key type: %T with value %+v", keyInt, keyInt)
		}
		mapp[key] = val
''')],
imp('testing')+'''
func TestDemo(t *testing.T) {
	if v, err := Unmarshal([]byte{0, 3, 0xA1, 0xC0, 0x01, 0, 0}); err == nil {
		t.Fatalf("map with a null key decoded to %v", v)
	}
}
''','a map whose key is null','a map with a null key is decoded to a map with an empty string key instead of an error')
mkseed('c06-struct-field-error','C06','encoding',[('encoding/encoder.go','''		if err := e.encode(field); err != nil {
			return errors.Wrap(err, "An error occurred encoding a struct field")
		}
	}

	return nil
}''','''		if err = e.encode(field); err != nil {
			err = errors.Wrap(err, "An error occurred encoding a struct field")
		}
	}

	return err
}''')],
imp('testing','github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph')+'''
type odd struct{}

func TestDemo(t *testing.T) {
	for i, v := range []interface{}{
		graph.Path{Nodes: []graph.Node{{Properties: map[string]interface{}{"p": odd{}}}}},
		graph.Node{Properties: map[string]interface{}{"p": odd{}}},
	} {
		if b, err := Marshal(v); err == nil {
			t.Fatalf("value %d is accepted: % x", i, b)
		}
	}
}
''','an unencodable value in a structure field that is not the last one','encoding reports success although a part could not be encoded')
